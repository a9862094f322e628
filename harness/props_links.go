package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"strings"

	blocks "github.com/ipfs/go-block-format"
	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"pgregory.net/rapid"
)

// C08: links. C20: the CID gate of DecodeBlock.

// CidSpec describes a CID by its parts, so that it can be written down.
type CidSpec struct {
	Kind   string // "cid", "undef", "nil", "foreign", "garbage"
	V0     bool   `json:",omitempty"`
	Codec  uint64 `json:",omitempty"`
	Mh     uint64 `json:",omitempty"`
	Digest S      `json:",omitempty"`
}

type foreignLink struct{ s string }

func (f foreignLink) Prototype() datamodel.LinkPrototype { return nil }
func (f foreignLink) String() string                     { return f.s }
func (f foreignLink) Binary() string                     { return f.s }

func (c CidSpec) cid() cid.Cid {
	var b []byte
	if !c.V0 {
		b = append(b, 1)
		b = binary.AppendUvarint(b, c.Codec)
	}
	b = binary.AppendUvarint(b, c.Mh)
	b = binary.AppendUvarint(b, uint64(len(c.Digest)))
	b = append(b, c.Digest...)
	x, err := cid.Cast(b)
	if err != nil {
		panic(fmt.Sprintf("bad CID spec %+v: %v", c, err))
	}
	return x
}

func (c CidSpec) link() datamodel.Link {
	switch c.Kind {
	case "undef":
		return cidlink.Link{}
	case "nil":
		return nil
	case "garbage": // a CID of something that is no multihash
		return cidlink.Link{Cid: cid.NewCidV1(c.Codec, []byte(c.Digest))}
	case "foreign":
		return foreignLink{string(c.Digest)}
	}
	return cidlink.Link{Cid: c.cid()}
}

var codecs = []uint64{0x78, 0x55, 0x70, 0x71, 0x0129, 0x72, 0x90, 0x7c}

// nearby draws a number that is easily taken for v.
func nearby(t *rapid.T, v uint64) uint64 {
	switch u(t, 8) {
	case 0:
		return v + 1
	case 1:
		return v - 1
	case 2:
		return v | 0x80
	case 3:
		return v + uint64(1+u(t, 255))<<8
	case 4:
		return v << 8
	case 5:
		return v + 1<<16
	case 6:
		return v + 1<<32
	default:
		return v ^ 1<<u(t, 24)
	}
}

func genDigest(t *rapid.T, n int) S {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], u64.Draw(t, "digest"))
	s := sha256.Sum256(b[:])
	return S(strings.Repeat(string(s[:]), n/len(s)+1)[:n])
}

// genBadLink draws a link that cannot name a git object, because it does not
// hold a SHA-1.
func genBadLink(t *rapid.T) CidSpec {
	c := CidSpec{Kind: "cid", Codec: pick(t, codecs)}
	switch u(t, 12) {
	case 10:
		c.Mh, c.Digest = nearby(t, 0x11), genDigest(t, 20)
	case 9:
		d := string(genDigest(t, 22))
		return CidSpec{Kind: "garbage", Codec: 0x78, Digest: S(pick(t, []string{"", "\x11", "\x11\x14", "\x11\x14" + d[:19], "\x11\x14" + d[:21], "\x11\x13" + d[:20], "\x11\x15" + d[:20], d[:20], "\x91\x14" + d[:20], "\x11\x94" + d[:20], strings.Repeat("\xff", 22)}))}
	case 0:
		c.Mh, c.Digest = 0x12, genDigest(t, 32)
	case 1:
		c.Mh, c.Digest = 0x12, genDigest(t, 20) // truncated
	case 2:
		c.Mh, c.Digest = 0x11, genDigest(t, pick(t, []int{0, 1, 8, 16, 19})) // cut short
	case 3:
		c.Mh, c.Digest = 0x11, genDigest(t, pick(t, []int{21, 24, 32, 40, 64, 148, 276}))
	case 4:
		c.Mh, c.Digest = 0x00, genDigest(t, 20) // identity
	case 5:
		c.V0, c.Codec, c.Mh, c.Digest = true, 0, 0x12, genDigest(t, 32)
	case 6:
		c.Mh, c.Digest = pick(t, []uint64{0x13, 0x16, 0xb220, 0x1e, 0x22, 0xd5, 0x1b}), genDigest(t, pick(t, []int{16, 20, 28, 32, 64}))
	case 7:
		return CidSpec{Kind: "undef"}
	case 8:
		return CidSpec{Kind: "nil"}
	default:
		return CidSpec{Kind: "foreign", Digest: genDigest(t, pick(t, []int{0, 20, 24}))}
	}
	return c
}

// genAnyCid draws CIDs around the one DecodeBlock accepts.
func genAnyCid(t *rapid.T) CidSpec {
	if chance(t, 1, 3) {
		return CidSpec{Kind: "cid", Codec: 0x78, Mh: 0x11, Digest: genDigest(t, 20)}
	}
	if chance(t, 1, 3) {
		// one part is off
		c := CidSpec{Kind: "cid", Codec: 0x78, Mh: 0x11}
		n := 20
		switch u(t, 3) {
		case 0:
			c.Codec = nearby(t, c.Codec)
		case 1:
			c.Mh = nearby(t, c.Mh)
		default:
			n = pick(t, []int{0, 1, 4, 10, 16, 19, 21, 22, 28, 32, 40, 64, 128, 148, 276, 532})
		}
		c.Digest = genDigest(t, n)
		return c
	}
	if chance(t, 1, 2) {
		return CidSpec{Kind: "cid", Codec: pick(t, codecs), Mh: pick(t, []uint64{0x11, 0x12, 0x00, 0x13, 0x16, 0xb220, 0x1011}), Digest: genDigest(t, pick(t, []int{0, 16, 19, 20, 21, 32}))}
	}
	for {
		c := genBadLink(t)
		if c.Kind == "cid" {
			return c
		}
	}
}

type BadLinkCase struct {
	Where string
	Obj   Obj
	Index int
	Form  int // 0 typed builder, 1 representation builder, 2 untyped
	Link  CidSpec
}

func genBadLinkCase(t *rapid.T) BadLinkCase {
	v := BadLinkCase{Link: genBadLink(t), Form: u(t, 3)}
	v.Where = pick(t, []string{"tree", "parent", "mergetag", "object", "entry"})
	switch v.Where {
	case "object":
		g := genTag(t)
		v.Obj.Tag = &g
	case "entry":
		g := genTree(t)
		if len(g.Entries) == 0 {
			g.Entries = []Entry{{Mode: "100644", Name: "a"}}
		}
		if len(g.Entries) > 8 {
			g.Entries = g.Entries[:8]
		}
		v.Index = u(t, len(g.Entries))
		v.Obj.Tree = &g
		if v.Form == 2 {
			v.Form = 1 // there is no untyped form of a tree
		}
	default:
		c := genCommit(t)
		c.Parents = c.Parents[:min(len(c.Parents), 4)]
		if v.Where == "parent" {
			if len(c.Parents) == 0 {
				c.Parents = []Hash{sharedHashes[0]}
			}
			v.Index = u(t, len(c.Parents))
		}
		if v.Where == "mergetag" {
			if len(c.Merge) == 0 {
				c.Merge = []MergeTag{genMergeTag(t)}
			}
			v.Index = u(t, len(c.Merge))
		}
		v.Obj.Commit = &c
	}
	return v
}

// linkMark stands for the link that is replaced in a value.
const linkMark = "\x00mark"

func checkBadLink(x *Ctx, v BadLinkCase) error {
	x.class("%s, %s link, form %d", v.Where, v.Link.Kind, v.Form)
	val := v.Obj.val()
	mark := Val{Kind: "link", Str: linkMark}
	set := func(m *Val, k string) {
		for i := range m.Keys {
			if m.Keys[i] == k {
				m.Vals[i] = mark
			}
		}
	}
	switch v.Where {
	case "tree":
		set(&val, "tree")
	case "parent":
		ps, _ := val.get("parents")
		ps.Vals[v.Index] = mark
	case "mergetag":
		ms, _ := val.get("mergetag")
		set(&ms.Vals[v.Index], "object")
	case "object":
		set(&val, "object")
	case "entry":
		set(&val.Vals[v.Index], "hash")
	}
	typed, repr := protos(v.Obj.kind())
	proto := []datamodel.NodePrototype{typed, repr, basicnode.Prototype.Any}[v.Form]
	if v.Link.Kind == "nil" && v.Form == 2 {
		return nil // an untyped link node always has a link
	}
	nb := proto.NewBuilder()
	err := assemble(nb, val, func(s string) datamodel.Link {
		if s == linkMark {
			return v.Link.link()
		}
		return linkOf(s)
	})
	if err != nil {
		return nil // rejected even earlier
	}
	out, err := encode(nb.Build())
	if err == nil {
		return fmt.Errorf("a %s whose %s link is %+v is encoded: %s", v.Obj.kind(), v.Where, v.Link, short(string(out)))
	}
	return nil
}

func linkOf(s string) datamodel.Link {
	c, err := cid.Cast([]byte(s))
	if err != nil {
		panic(err)
	}
	return cidlink.Link{Cid: c}
}

// assemble builds a value with an assembler.
func assemble(na datamodel.NodeAssembler, v Val, link func(string) datamodel.Link) error {
	switch v.Kind {
	case "map":
		ma, err := na.BeginMap(int64(len(v.Keys)))
		if err != nil {
			return err
		}
		for i, k := range v.Keys {
			va, err := ma.AssembleEntry(k)
			if err != nil {
				return fmt.Errorf("%s: %w", k, err)
			}
			if err := assemble(va, v.Vals[i], link); err != nil {
				return fmt.Errorf("%s: %w", k, err)
			}
		}
		return ma.Finish()
	case "list":
		la, err := na.BeginList(int64(len(v.Vals)))
		if err != nil {
			return err
		}
		for _, x := range v.Vals {
			if err := assemble(la.AssembleValue(), x, link); err != nil {
				return err
			}
		}
		return la.Finish()
	case "string":
		return na.AssignString(v.Str)
	case "bytes":
		return na.AssignBytes([]byte(v.Str))
	case "link":
		if link == nil {
			link = linkOf
		}
		return na.AssignLink(link(v.Str))
	case "null":
		return na.AssignNull()
	case "int":
		return na.AssignInt(int64(len(v.Str)))
	case "bool":
		return na.AssignBool(v.Str == "true")
	case "float":
		return na.AssignFloat(1.5)
	}
	panic("kind " + v.Kind)
}

type GateCase struct {
	Cid  CidSpec
	Data S
}

func init() {
	rules["C08"] = "part hashes: an object holding 1 to 30 generated hashes (random, shared, special byte patterns) in every position that names an object; each link's CID must consist of exactly the bytes 01 78 11 14 and the 20 of the hash, and must be written back as them; part badlink: a generated commit, tag or tree with one link replaced by one that holds no SHA-1 must not be encodable; non-trivial: every badlink case, and hash cases with at least 3 links"
	register("C08", "hashes", 3000, 100000, func(t *rapid.T) HashCase {
		v := HashCase{Kind: pick(t, []string{"commit", "tree", "tag", "merge"})}
		for n := 1 + u(t, 30); n > 0; n-- {
			v.Hashes = append(v.Hashes, genHash(t))
		}
		return v
	}, checkHashes, func(v HashCase) bool { return len(v.Hashes) >= 3 })
	register("C08", "badlink", 3000, 100000, genBadLinkCase, checkBadLink, always[BadLinkCase])

	rules["C20"] = "a block with generated bytes (valid objects, mutants, objects compressed or otherwise wrapped) under a generated CID (codec, hash function and digest length varied independently, version 0 too); accepted exactly when the CID is git-raw with a 20 byte SHA-1 and the bytes parse, with the same result as parsing the bytes; non-trivial: the bytes are a valid object"
	register("C20", "gate", 8000, 250000, func(t *rapid.T) GateCase {
		v := GateCase{Cid: genAnyCid(t)}
		v.Data = genMostlyValid(t).Raw
		if chance(t, 1, 12) {
			v.Data = S(wrapped(t, []byte(v.Data)))
		}
		if v.Cid.Codec == 0x78 && v.Cid.Mh == 0x11 && chance(t, 1, 2) {
			h := objectHash([]byte(v.Data))
			v.Cid.Digest = S(h[:])
		}
		return v
	}, func(x *Ctx, v GateCase) error {
		ok := !v.Cid.V0 && v.Cid.Codec == 0x78 && v.Cid.Mh == 0x11 && len(v.Cid.Digest) == 20
		blk, err := blocks.NewBlockWithCid([]byte(v.Data), v.Cid.cid())
		if err != nil {
			return nil
		}
		got, gerr := ipldgit.DecodeBlock(blk)
		want, werr := parse([]byte(v.Data))
		x.class("cid fits %v, object valid %v", ok, werr == nil)
		if !ok {
			if gerr == nil {
				return fmt.Errorf("a block under CID %s (%+v) is accepted", v.Cid.cid(), v.Cid)
			}
			if got != nil {
				return fmt.Errorf("both a node and an error")
			}
			return nil
		}
		return sameResult("DecodeBlock", want, werr, got, gerr)
	}, func(v GateCase) bool {
		_, err := parse([]byte(v.Data))
		return err == nil
	})
}

type HashCase struct {
	Kind   string
	Hashes []Hash
}

func checkHashes(x *Ctx, v HashCase) error {
	x.class("%s", v.Kind)
	o := Obj{}
	p := &Person{Name: "Q", Email: "q", Date: "2", TZ: "+0000"}
	switch v.Kind {
	case "commit":
		o.Commit = &Commit{Tree: v.Hashes[0], Parents: v.Hashes[1:], Author: p, Committer: p, Msg: "m"}
	case "merge":
		o.Commit = &Commit{Tree: v.Hashes[0], Author: p, Committer: p, Msg: "m"}
		for _, h := range v.Hashes[1:] {
			o.Commit.Merge = append(o.Commit.Merge, MergeTag{Object: h, Type: "commit", Tag: "t", Tagger: p, Msg: []S{"m"}})
		}
	case "tree":
		o.Tree = &Tree{}
		for i, h := range v.Hashes {
			o.Tree.Entries = append(o.Tree.Entries, Entry{Mode: modes[(i+int(v.Hashes[0][0]))%len(modes)], Name: S("n" + hexN(i)), Hash: h})
		}
	default:
		o.Tag = &Tag{Object: v.Hashes[0], Type: "tree", Tag: "t", Tagger: p, Msg: "m"}
	}
	raw := o.bytes()
	n, err := parse(raw)
	if err != nil {
		return fmt.Errorf("a well-formed object is rejected: %w", err)
	}
	got, err := nodeVal(n)
	if err != nil {
		return err
	}
	if d := diff("", o.val(), got); d != "" {
		return fmt.Errorf("%s", d)
	}
	out, err := encode(n)
	if err != nil {
		return err
	}
	if d := diffBytes(raw, out); d != "" {
		return fmt.Errorf("hashes are not written back as they were: %s", d)
	}
	return nil
}

// sameResult compares the outcome of two ways to decode the same bytes.
func sameResult(how string, want datamodel.Node, werr error, got datamodel.Node, gerr error) error {
	if (werr == nil) != (gerr == nil) {
		return fmt.Errorf("%s: error is %v, elsewhere %v", how, gerr, werr)
	}
	if (got == nil) != (gerr != nil) {
		return fmt.Errorf("%s: node %v with error %v", how, got, gerr)
	}
	if werr != nil {
		return nil
	}
	wv, err := nodeVal(want)
	if err != nil {
		return err
	}
	gv, err := nodeVal(got)
	if err != nil {
		return fmt.Errorf("%s: %w", how, err)
	}
	if d := diff("", wv, gv); d != "" {
		return fmt.Errorf("%s differs: %s", how, d)
	}
	wb, werr := encode(want)
	gb, gerr := encode(got)
	if (werr == nil) != (gerr == nil) || !bytes.Equal(wb, gb) {
		return fmt.Errorf("%s: encodes differently: %v, %v: %s", how, werr, gerr, diffBytes(wb, gb))
	}
	return nil
}
