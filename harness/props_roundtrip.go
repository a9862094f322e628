package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	mh "github.com/multiformats/go-multihash"
	"pgregory.net/rapid"
)

// C01-C04: byte identity, and with it the hash. C05, C06: the fields.

var gitLinkProto = cidlink.LinkPrototype{Prefix: cid.Prefix{Version: 1, Codec: cid.GitRaw, MhType: mh.SHA1, MhLength: 20}}

var defaultLS = cidlink.DefaultLinkSystem()

func computeLink(ls *linking.LinkSystem, n datamodel.Node) (cid.Cid, error) {
	l, err := ls.ComputeLink(gitLinkProto, n)
	if err != nil {
		return cid.Undef, err
	}
	cl, ok := l.(cidlink.Link)
	if !ok {
		return cid.Undef, fmt.Errorf("link of type %T", l)
	}
	return cl.Cid, nil
}

// checkIdentity is the round trip, plus what it is for: the CID computed from
// the decoded node is git's own hash of the object.
func checkIdentity(raw []byte) error {
	if err := roundTrip(raw); err != nil {
		return err
	}
	n, err := parse(raw)
	if err != nil {
		return err
	}
	c, err := computeLink(&defaultLS, n)
	if err != nil {
		return fmt.Errorf("no CID for a decoded object: %w", err)
	}
	if want := gitCid(objectHash(raw)); !c.Equals(want) {
		return fmt.Errorf("the object's CID is %s, git's hash gives %s", c, want)
	}
	return nil
}

func checkBlob(raw []byte) error {
	n, err := parse(raw)
	if err != nil {
		return fmt.Errorf("a well-formed blob is rejected: %w", err)
	}
	got, err := n.AsBytes()
	if err != nil {
		return err
	}
	if d := diffBytes(raw, got); d != "" {
		return fmt.Errorf("the blob's bytes are not the object: %s", d)
	}
	return checkIdentity(raw)
}

func unusual(s S) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' && s[i] != '\n' || s[i] >= 0x7f || s[i] == '%' {
			return true
		}
	}
	return len(s) > 200 || strings.Contains(string(s), "  ")
}

func (c Commit) nontrivial() bool {
	n := 0
	for _, b := range []bool{len(c.Parents) != 1, c.Encoding != nil, len(c.Merge) > 0, c.Sig != nil, len(c.Other) > 0,
		c.Author == nil || unusual(c.Author.Name+c.Author.Email+c.Author.Date+c.Author.TZ) || c.Author.TZ == "",
		c.Committer == nil || unusual(c.Committer.Name+c.Committer.Email) || c.Committer.TZ == "",
		unusual(c.Msg)} {
		if b {
			n++
		}
	}
	return n >= 2
}

func (c Commit) key() []byte { return []byte(c.body()) }
func (g Tag) key() []byte    { return []byte(g.body()) }
func (g Tree) key() []byte   { return []byte(g.body()) }
func (b Blob) key() []byte   { return []byte(b.Data) }

func (g Tag) nontrivial() bool {
	return g.Tagger == nil || g.Msg == "" || unusual(g.Tagger.Name+g.Tagger.Email+g.Tagger.Date+g.Tagger.TZ+g.Tag+g.Type) || unusual(g.Msg) || g.Tagger.TZ == ""
}

func (g Tree) nontrivial() bool {
	if len(g.Entries) < 2 {
		return false
	}
	for _, e := range g.Entries {
		if unusual(e.Name) || !strings.Contains("100644 40000 100755 120000 160000", string(e.Mode)) {
			return true
		}
	}
	return len(g.Entries) > 30
}

func (b Blob) nontrivial() bool { return len(b.Data) > 4096 || unusual(b.Data) }

func classSize(c *Ctx, n int) {
	for _, l := range []int{0, 100, 4096, 65536, 1 << 20} {
		if n <= l {
			c.class("size <= %d", l)
			return
		}
	}
	c.class("size > 1 MiB")
}

func classCommit(x *Ctx, c Commit) {
	if x == nil {
		return
	}
	classSize(x, len(c.body()))
	x.class("parents %s", bucket(len(c.Parents)))
	x.class("mergetags %s", bucket(len(c.Merge)))
	x.class("other %s", bucket(len(c.Other)))
	if c.Sig != nil {
		x.class("signed")
	}
	if c.Encoding != nil {
		x.class("encoding")
	}
	if c.Author == nil {
		x.class("no author")
	}
	if c.Committer == nil {
		x.class("no committer")
	}
	for _, l := range strings.SplitN(c.body(), "\n\n", 2)[:1] {
		for _, l := range strings.Split(l, "\n") {
			if len(l) >= 4096 {
				x.class("header line over 4096 bytes")
				break
			}
		}
	}
}

func bucket(n int) string {
	switch {
	case n == 0:
		return "0"
	case n == 1:
		return "1"
	case n < 10:
		return "2-9"
	case n < 100:
		return "10-99"
	}
	return "100+"
}

// Raw is a case given as bytes, for findings and regressions.
type Raw struct{ Raw S }

func (r Raw) key() []byte { return []byte(r.Raw) }

// RawFields is a case given as bytes together with the fields expected.
type RawFields struct {
	Raw  S
	Want JVal
}

func genRawNone(t *rapid.T) Raw { return Raw{} }
func always[T any](T) bool      { return true }

func init() {
	rules["C01"] = "a commit is generated from the model (headers in git's order, any bytes where git allows them, header counts and line lengths heavy tailed with buffer-boundary sizes), serialised by the model and decoded, encoded and hashed by the code; non-trivial: at least two of: not one parent, encoding, merge tags, signature, other headers, absent or unusual author/committer, unusual message (control or non-ASCII bytes, '%', double spaces, over 200 bytes); besides, objects with 4095 to 150000 parents, merge tags, lines or other headers or one part of 64 KiB to 5 MB, all non-trivial"
	register("C01", "commit", 2600, 120000, genCommit, func(x *Ctx, c Commit) error {
		classCommit(x, c)
		return checkIdentity(frame("commit", c.body()))
	}, Commit.nontrivial)
	register("C01", "raw", 0, 0, genRawNone, func(x *Ctx, r Raw) error { return checkIdentity([]byte(r.Raw)) }, always[Raw])

	rules["C02"] = "a tree is generated from the model (0 to over 1000 entries in arbitrary order, distinct names of arbitrary bytes but NUL, arbitrary modes), serialised by the model and decoded, encoded and hashed by the code; non-trivial: two or more entries, and a name of unusual bytes, an unusual mode, or over 30 entries; besides, objects with 4095 to 150000 entries or one part of 64 KiB to 5 MB, all non-trivial"
	register("C02", "tree", 5000, 200000, genTree, func(x *Ctx, g Tree) error {
		if x != nil {
			x.class("entries %s", bucket(len(g.Entries)))
		}
		return checkIdentity(frame("tree", g.body()))
	}, Tree.nontrivial)
	register("C02", "raw", 0, 0, genRawNone, func(x *Ctx, r Raw) error { return checkIdentity([]byte(r.Raw)) }, always[Raw])

	rules["C03"] = "a tag is generated from the model (any target type and name, tagger optional, message of any bytes or no message section), serialised by the model and decoded, encoded and hashed by the code; non-trivial: no tagger, no message, a tagger without date or timezone, or unusual bytes or over 200 bytes in a field; besides, objects with 4095 to 150000 lines or one part of 64 KiB to 5 MB, all non-trivial"
	register("C03", "tag", 5000, 200000, genTag, func(x *Ctx, g Tag) error {
		if x != nil {
			classSize(x, len(g.body()))
			if g.Tagger == nil {
				x.class("no tagger")
			}
			if g.Msg == "" {
				x.class("no message")
			}
		}
		return checkIdentity(frame("tag", g.body()))
	}, Tag.nontrivial)
	register("C03", "raw", 0, 0, genRawNone, func(x *Ctx, r Raw) error { return checkIdentity([]byte(r.Raw)) }, always[Raw])

	rules["C04"] = "blob content of any bytes and of sizes around buffer boundaries up to 2 MiB; the node's bytes must be the whole object, its encoding the object, its CID git's hash; non-trivial: over 4096 bytes or unusual bytes; besides, blobs of 2 to 32 MiB"
	register("C04", "blob", 6000, 200000, genBlob, func(x *Ctx, b Blob) error {
		classSize(x, len(b.Data))
		return checkBlob(frame("blob", string(b.Data)))
	}, Blob.nontrivial)

	rules["C05"] = "a generated commit (as for C01) is decoded by each entry point and every field of the node is compared with the model; part order: the same with the headers in any order (those of one sort in theirs), and for commits that end with their headers, every case non-trivial; non-trivial as for C01; besides, objects with 4095 to 150000 parents, merge tags, lines or other headers or one part of 64 KiB to 5 MB, all non-trivial"
	register("C05", "commit", 2600, 100000, genCommit, func(x *Ctx, c Commit) error {
		classCommit(x, c)
		return checkFields("commit", frame("commit", c.body()), c.val())
	}, Commit.nontrivial)

	register("C05", "raw", 0, 0, func(t *rapid.T) RawFields { return RawFields{} }, func(x *Ctx, r RawFields) error {
		return checkFields("commit", []byte(r.Raw), r.Want.val())
	}, always[RawFields])

	rules["C06"] = "a generated tag, tree or blob (as for C02-C04) is decoded by each entry point and every field of the node is compared with the model; part order: the same for tags with their headers in any order, with headers among them that a tag has no field for, and for tags that end with their headers, every case non-trivial; non-trivial as for C02-C04; besides, objects with 4095 to 150000 lines or entries or one part of 64 KiB to 5 MB, all non-trivial"
	register("C06", "tag", 2500, 100000, genTag, func(x *Ctx, g Tag) error {
		return checkFields("tag", frame("tag", g.body()), g.val())
	}, Tag.nontrivial)
	register("C06", "tree", 2500, 100000, genTree, func(x *Ctx, g Tree) error {
		return checkFields("tree", frame("tree", g.body()), g.val())
	}, Tree.nontrivial)
	register("C06", "blob", 1500, 60000, genBlob, func(x *Ctx, b Blob) error {
		raw := frame("blob", string(b.Data))
		return checkFields("blob", raw, vBytes(string(raw)))
	}, Blob.nontrivial)

	rules["C07"] = "an author, committer, tagger or merge tag tagger line with generated name, email, date and timezone (any bytes but angle brackets, newline and NUL; all three forms) inside an object; the parts of the decoded node and the re-encoded object must be the model's; non-trivial: an empty or unusual part, or an incomplete form"
	register("C07", "person", 7000, 250000, func(t *rapid.T) PersonCase {
		p := genPerson(t)
		return PersonCase{P: *p, Where: u(t, 4)}
	}, checkPerson, func(v PersonCase) bool {
		p := v.P
		return p.Name == "" || p.Email == "" || p.TZ == "" || unusual(p.Name+p.Email+p.Date+p.TZ)
	})
	register("C07", "raw", 0, 0, genRawNone, func(x *Ctx, r Raw) error { return checkIdentity([]byte(r.Raw)) }, always[Raw])
}

// checkFields decodes raw in the ways there are to get a node and compares it,
// and its representation, with what the model says.
func checkFields(kind string, raw []byte, want Val) error {
	typed, repr := protos(kind)
	for _, how := range []string{"parse", "typed", "repr"} {
		var n datamodel.Node
		var err error
		switch how {
		case "parse":
			n, err = ipldgit.ParseObject(bytes.NewReader(raw))
		case "typed":
			n, err = decodeInto(typed, raw)
		case "repr":
			n, err = decodeInto(repr, raw)
		}
		if err != nil {
			return fmt.Errorf("%s: a well-formed object is rejected: %w", how, err)
		}
		got, err := nodeVal(n)
		if err != nil {
			return fmt.Errorf("%s: %w", how, err)
		}
		if d := diff("", want, got); d != "" {
			return fmt.Errorf("%s: %s", how, d)
		}
	}
	return nil
}

func decodeInto(p datamodel.NodePrototype, raw []byte) (datamodel.Node, error) {
	nb := p.NewBuilder()
	if err := ipldgit.Decode(nb, bytes.NewReader(raw)); err != nil {
		return nil, err
	}
	return nb.Build(), nil
}

type PersonCase struct {
	P     Person
	Where int
}

func checkPerson(x *Ctx, v PersonCase) error {
	p := v.P
	x.class("where %d", v.Where)
	x.class("name empty %v, email empty %v, date %v, timezone %v", p.Name == "", p.Email == "", p.Date != "", p.TZ != "")
	o := Obj{}
	path := ""
	h := sharedHashes[0]
	q := &Person{Name: "Q", Email: "q", Date: "2", TZ: "+0000"}
	if v.Where >= 2 && p == (Person{}) {
		return nil // stands for no tagger
	}
	switch v.Where {
	case 0:
		o.Commit, path = &Commit{Tree: h, Author: &p, Committer: q}, "author"
	case 1:
		o.Commit, path = &Commit{Tree: h, Author: q, Committer: &p}, "committer"
	case 2:
		o.Tag, path = &Tag{Object: h, Type: "commit", Tag: "v1", Tagger: &p, Msg: "m"}, "tagger"
	default:
		o.Commit, path = &Commit{Tree: h, Author: q, Committer: q, Merge: []MergeTag{{Object: h, Type: "commit", Tag: "v1", Tagger: &p, Msg: []S{"m"}}}}, "mergetag"
	}
	raw := o.bytes()
	n, err := parse(raw)
	if err != nil {
		return fmt.Errorf("a well-formed person line is rejected: %w", err)
	}
	pn, err := n.LookupByString(path)
	if err == nil && path == "mergetag" {
		if pn, err = pn.LookupByIndex(0); err == nil {
			pn, err = pn.LookupByString("tagger")
		}
	}
	if err != nil {
		return err
	}
	for _, f := range []struct {
		k string
		v S
	}{{"name", p.Name}, {"email", p.Email}, {"date", p.Date}, {"timezone", p.TZ}} {
		fn, err := pn.LookupByString(f.k)
		if err != nil {
			return err
		}
		s, err := fn.AsString()
		if err != nil {
			return err
		}
		if s != string(f.v) {
			return fmt.Errorf("%s of %q is %q, want %q", f.k, p.text(), s, f.v)
		}
	}
	if g, ok := pn.(interface{ GitString() string }); ok {
		if s := g.GitString(); s != p.text() {
			return fmt.Errorf("the person is written as %q, want %q", s, p.text())
		}
	}
	return checkIdentity(raw)
}
