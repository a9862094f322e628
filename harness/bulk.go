package main

import (
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Objects that are large in one respect: very many of one thing, or one very
// long part. They are described, not spelled out, so a case stays small.

type Bulk struct {
	Kind string
	N    int
	Seed uint64
}

var bulkCommit = []string{"parents", "mergetags", "mergetag lines", "other", "signature lines", "message lines",
	"long name", "long email", "long date", "long encoding", "long mergetag name", "long mergetag line", "long signature line", "long other", "long message", "long tagger"}
var bulkTag = []string{"message lines", "long name", "long email", "long tag", "long type", "long message"}
var bulkTree = []string{"entries", "entries", "long name", "long mode"}

var bulkCounts = []int{4095, 4096, 4097, 8191, 8192, 10000, 16384, 20000, 32767, 32768, 32769, 40000, 50000, 65535, 65536, 65537, 70000, 100000, 131072, 131073, 150000}
var bulkLengths = []int{65535, 65536, 65537, 99999, 131072, 200000, 262144, 300001, 524288, 999999, 1 << 20, 1<<20 + 1, 1500000, 1 << 21, 1<<21 + 1, 3000000, 1<<22 + 3, 5000000}

// bigLength is a length that a new number in the sources suggests, or n. The
// larger it is, the less often, so that a run does not take much longer.
func bigLength(t *rapid.T, n int) int {
	if len(hotBig) > 0 {
		if b := pick(t, hotBig); chance(t, 1<<19, b/4) {
			return b - 40*u(t, 2) + u(t, 42)
		}
	}
	return n
}

func genBulk(t *rapid.T, kinds []string) Bulk {
	b := Bulk{Kind: pick(t, kinds), Seed: u64.Draw(t, "seed")}
	if strings.HasPrefix(b.Kind, "long") {
		b.N = pick(t, bulkLengths) - u(t, 40) + u(t, 3)
		if chance(t, 1, 40) {
			b.N = 1<<(23+u(t, 2)) + u(t, 40)
		}
		b.N = bigLength(t, b.N)
	} else {
		b.N = pick(t, bulkCounts) + u(t, 3) - 1
		if b.Kind == "mergetags" {
			b.N = min(b.N, 70000)
		}
	}
	return b
}

func (b Bulk) hash(i int) Hash {
	var x [16]byte
	binary.BigEndian.PutUint64(x[:], b.Seed)
	binary.BigEndian.PutUint64(x[8:], uint64(i))
	return sha1.Sum(x[:])
}

// long is a text without a period, so that a part that is lost, doubled or moved
// makes a difference.
func (b Bulk) long() S {
	var s strings.Builder
	for i := 0; s.Len() < b.N; i++ {
		h := b.hash(i)
		s.WriteString(h.hex())
		if b.Seed%3 == 0 && i%5 == 0 {
			s.WriteString(" ")
		}
	}
	return S(s.String()[:max(0, b.N)])
}

func (b Bulk) lines() []S {
	out := make([]S, b.N)
	for i := range out {
		h := b.hash(i)
		out[i] = S(h.hex()[:(i*7+int(b.Seed%11))%12])
		if out[i] == "" && b.Kind == "other" {
			out[i] = "z"
		}
	}
	return out
}

func (b Bulk) commit() Commit {
	c := Commit{Tree: b.hash(-1), Author: &Person{Name: "A", Email: "a", Date: "1", TZ: "+0000"}, Committer: &Person{Name: "C", Email: "c", Date: "2", TZ: "+0000"}, Msg: "m\n"}
	mt := MergeTag{Object: b.hash(-2), Type: "commit", Tag: "v1", Tagger: &Person{Name: "T", Email: "t", Date: "3", TZ: "+0000"}, Msg: []S{"m"}}
	switch b.Kind {
	case "parents":
		for i := 0; i < b.N; i++ {
			c.Parents = append(c.Parents, b.hash(i))
		}
	case "mergetags":
		for i := 0; i < b.N; i++ {
			c.Merge = append(c.Merge, MergeTag{Object: b.hash(i), Type: "commit", Tag: S("v" + hexN(i)), Msg: []S{S(hexN(i))}})
		}
	case "mergetag lines":
		mt.Msg = b.lines()
		c.Merge = []MergeTag{mt}
	case "other":
		c.Other = b.lines()
	case "signature lines":
		c.Sig = append([]S{""}, b.lines()...)
	case "message lines":
		var s strings.Builder
		for _, l := range b.lines() {
			s.WriteString(string(l) + "\n")
		}
		c.Msg = S(s.String())
	case "long name":
		c.Author.Name = b.long()
	case "long email":
		c.Committer.Email = b.long()
	case "long date":
		c.Author.Date = S(strings.ReplaceAll(string(b.long()), " ", "0"))
	case "long encoding":
		e := b.long()
		c.Encoding = &e
	case "long mergetag name":
		mt.Tag = b.long()
		c.Merge = []MergeTag{mt, mt}
	case "long mergetag line":
		mt.Msg = []S{"x", b.long(), "y"}
		c.Merge = []MergeTag{mt}
	case "long signature line":
		c.Sig = []S{"", b.long(), "=abc"}
	case "long other":
		c.Other = []S{"x 1", "y " + b.long(), "z 2"}
	case "long message":
		c.Msg = b.long()
	case "long tagger":
		mt.Tagger.Name = b.long()
		c.Merge = []MergeTag{mt}
	}
	return c
}

func (b Bulk) tag() Tag {
	g := Tag{Object: b.hash(-1), Type: "commit", Tag: "v1", Tagger: &Person{Name: "T", Email: "t", Date: "3", TZ: "+0000"}, Msg: "m\n"}
	switch b.Kind {
	case "message lines":
		g.Msg = S("x\n\n" + strings.Join(strs(b.lines()), "\n"))
	case "long name":
		g.Tagger.Name = b.long()
	case "long email":
		g.Tagger.Email = b.long()
	case "long tag":
		g.Tag = b.long()
	case "long type":
		g.Type = b.long()
	case "long message":
		g.Msg = b.long()
	}
	return g
}

func strs(l []S) []string {
	out := make([]string, len(l))
	for i, s := range l {
		out[i] = string(s)
	}
	return out
}

func (b Bulk) tree() Tree {
	switch b.Kind {
	case "long name":
		return Tree{Entries: []Entry{{Mode: "100644", Name: "a", Hash: b.hash(0)}, {Mode: "40000", Name: b.long(), Hash: b.hash(1)}, {Mode: "100644", Name: "b", Hash: b.hash(2)}}}
	case "long mode":
		return Tree{Entries: []Entry{{Mode: S(strings.ReplaceAll(string(b.long()), " ", "0")), Name: "a", Hash: b.hash(0)}, {Mode: "40000", Name: "b", Hash: b.hash(1)}}}
	}
	t := Tree{}
	for i := 0; i < b.N; i++ {
		// the order is that of no sorting
		k := i
		if b.Seed%2 == 1 {
			k = b.N - i
		}
		t.Entries = append(t.Entries, Entry{Mode: modes[(i*3+i/7)%5], Name: S(hexN(k)), Hash: b.hash(i)})
	}
	return t
}

func (b Bulk) obj(kind string) Obj {
	switch kind {
	case "commit":
		c := b.commit()
		return Obj{Commit: &c}
	case "tag":
		g := b.tag()
		return Obj{Tag: &g}
	}
	g := b.tree()
	return Obj{Tree: &g}
}

// Large is a Bulk of any type, of some 5 to 300 kB.
type Large struct {
	Type string
	Bulk Bulk
}

func genLarge(t *rapid.T) Large {
	l := Large{Type: pick(t, []string{"commit", "tag", "tree", "blob"})}
	kinds := map[string][]string{"commit": bulkCommit, "tag": bulkTag, "tree": bulkTree, "blob": {"long"}}[l.Type]
	l.Bulk = Bulk{Kind: pick(t, kinds), Seed: u64.Draw(t, "seed")}
	if strings.HasPrefix(l.Bulk.Kind, "long") {
		l.Bulk.N = pick(t, []int{5000, 8192, 16384, 32768, 40000, 65536, 100000, 131072, 200000, 300000}) - u(t, 200)
		if chance(t, 1, 120) {
			l.Bulk.N = pick(t, []int{1 << 20, 3 << 20, 5 << 20, 1<<23 + 200, 1<<24 + 200}) - u(t, 200)
		}
		l.Bulk.N = bigLength(t, l.Bulk.N)
	} else {
		l.Bulk.N = pick(t, []int{130, 200, 500, 1000, 2000, 4000}) + u(t, 50)
	}
	return l
}

func (l Large) obj() Obj {
	if l.Type == "blob" {
		return Obj{Blob: &Blob{Data: l.Bulk.long()}}
	}
	return l.Bulk.obj(l.Type)
}

func registerBulk(prop, name, kind string, kinds []string, quick, thorough int, check func(kind string, o Obj) error) {
	register(prop, name, quick, thorough, func(t *rapid.T) Bulk { return genBulk(t, kinds) }, func(x *Ctx, b Bulk) error {
		x.class("bulk %s", b.Kind)
		return check(kind, b.obj(kind))
	}, func(b Bulk) bool { return b.N >= 4000 })
}

func init() {
	identity := func(kind string, o Obj) error { return checkIdentity(o.bytes()) }
	fields := func(kind string, o Obj) error {
		if err := checkFields(kind, o.bytes(), o.val()); err != nil {
			return fmt.Errorf("%.2000s", err.Error())
		}
		return nil
	}
	registerBulk("C01", "bulk", "commit", bulkCommit, 20, 200, identity)
	registerBulk("C02", "bulk", "tree", bulkTree, 8, 100, identity)
	registerBulk("C03", "bulk", "tag", bulkTag, 10, 100, identity)
	registerBulk("C05", "bulk", "commit", bulkCommit, 15, 200, fields)
	registerBulk("C06", "bulk tag", "tag", bulkTag, 4, 60, fields)
	registerBulk("C06", "bulk tree", "tree", bulkTree, 3, 60, fields)

	register("C04", "bulk", 1, 20, func(t *rapid.T) Bulk {
		n := pick(t, []int{1 << 21, 3 << 20, 1 << 22, 1 << 23, 9999999, 10000000, 1 << 24, 20 << 20, 1 << 25}) + u(t, 3) - 1
		n = bigLength(t, n)
		return Bulk{Kind: "blob", N: n, Seed: u64.Draw(t, "seed")}
	}, func(x *Ctx, b Bulk) error {
		x.class("blob of %d MiB or more", b.N>>20)
		data := make([]byte, b.N+8)
		for i, r := 0, b.Seed; i < b.N; i, r = i+8, mix64(r) {
			binary.LittleEndian.PutUint64(data[i:], r)
		}
		return checkBlob(frame("blob", string(data[:b.N])))
	}, func(b Bulk) bool { return true })
}
