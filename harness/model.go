package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/ipfs/go-cid"
	mh "github.com/multiformats/go-multihash"
)

// The reference model: git objects as plain values, with a serialiser written
// from git's object format and independent of the code under test.

type Hash [20]byte

func (h Hash) hex() string                  { return hex.EncodeToString(h[:]) }
func (h Hash) MarshalJSON() ([]byte, error) { return json.Marshal(h.hex()) }
func (h *Hash) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	d, err := hex.DecodeString(s)
	if err != nil || len(d) != 20 {
		return fmt.Errorf("bad hash %q", s)
	}
	copy(h[:], d)
	return nil
}

// gitCid is the CID that must stand for a git hash: version 1, git-raw, SHA-1.
// Built from bytes, not with the library the code under test uses.
func gitCid(h Hash) cid.Cid {
	b := append([]byte{0x01, 0x78, 0x11, 0x14}, h[:]...)
	c, err := cid.Cast(b)
	if err != nil {
		panic(err)
	}
	return c
}

func objectHash(raw []byte) Hash { return sha1.Sum(raw) }

var _ = mh.SHA1

type Person struct {
	Name, Email S
	Date, TZ    S `json:",omitempty"`
}

func (p Person) text() string {
	s := string(p.Name) + " <" + string(p.Email) + ">"
	if p.Date != "" {
		s += " " + string(p.Date)
		if p.TZ != "" {
			s += " " + string(p.TZ)
		}
	}
	return s
}

type MergeTag struct {
	Object    Hash
	Type, Tag S
	Tagger    *Person `json:",omitempty"`
	Msg       []S     // lines, without the indenting space
}

// msgText is how the commit header holds the message.
func (m MergeTag) msgText() string {
	var b strings.Builder
	for _, l := range m.Msg {
		b.WriteString(" " + string(l) + "\n")
	}
	return b.String()
}

type Commit struct {
	Tree              Hash
	Parents           []Hash
	Author, Committer *Person    `json:",omitempty"`
	Encoding          *S         `json:",omitempty"`
	Merge             []MergeTag `json:",omitempty"`
	Sig               []S        `json:",omitempty"` // the armor lines, without the indenting space and without BEGIN and END
	Other             []S        `json:",omitempty"`
	Msg               S
}

const (
	sigBegin = "gpgsig -----BEGIN PGP SIGNATURE-----"
	sigEnd   = " -----END PGP SIGNATURE-----"
)

func (c Commit) sigText() string {
	var b strings.Builder
	for _, l := range c.Sig {
		b.WriteString(" " + string(l) + "\n")
	}
	return b.String()
}

func (c Commit) body() string {
	var b strings.Builder
	b.WriteString("tree " + c.Tree.hex() + "\n")
	for _, p := range c.Parents {
		b.WriteString("parent " + p.hex() + "\n")
	}
	if c.Author != nil {
		b.WriteString("author " + c.Author.text() + "\n")
	}
	if c.Committer != nil {
		b.WriteString("committer " + c.Committer.text() + "\n")
	}
	if c.Encoding != nil {
		b.WriteString("encoding " + string(*c.Encoding) + "\n")
	}
	for _, m := range c.Merge {
		b.WriteString("mergetag object " + m.Object.hex() + "\n")
		b.WriteString(" type " + string(m.Type) + "\n")
		b.WriteString(" tag " + string(m.Tag) + "\n")
		if m.Tagger != nil {
			b.WriteString(" tagger " + m.Tagger.text() + "\n")
		}
		b.WriteString(" \n" + m.msgText())
	}
	if c.Sig != nil {
		b.WriteString(sigBegin + "\n" + c.sigText() + sigEnd + "\n")
	}
	for _, o := range c.Other {
		b.WriteString(string(o) + "\n")
	}
	b.WriteString("\n" + string(c.Msg))
	return b.String()
}

type Tag struct {
	Object    Hash
	Type, Tag S
	Tagger    *Person `json:",omitempty"`
	Msg       S       // when empty, there is no blank line either
}

func (t Tag) body() string {
	s := "object " + t.Object.hex() + "\ntype " + string(t.Type) + "\ntag " + string(t.Tag) + "\n"
	if t.Tagger != nil {
		s += "tagger " + t.Tagger.text() + "\n"
	}
	if t.Msg != "" {
		s += "\n" + string(t.Msg)
	}
	return s
}

type Entry struct {
	Mode, Name S
	Hash       Hash
}

type Tree struct{ Entries []Entry }

func (t Tree) body() string {
	var b strings.Builder
	for _, e := range t.Entries {
		b.WriteString(string(e.Mode) + " " + string(e.Name) + "\x00")
		b.Write(e.Hash[:])
	}
	return b.String()
}

type Blob struct{ Data S }

// Obj is one of the four.
type Obj struct {
	Commit *Commit `json:",omitempty"`
	Tag    *Tag    `json:",omitempty"`
	Tree   *Tree   `json:",omitempty"`
	Blob   *Blob   `json:",omitempty"`
}

func (o Obj) kind() string {
	switch {
	case o.Commit != nil:
		return "commit"
	case o.Tag != nil:
		return "tag"
	case o.Tree != nil:
		return "tree"
	default:
		return "blob"
	}
}

func (o Obj) body() string {
	switch {
	case o.Commit != nil:
		return o.Commit.body()
	case o.Tag != nil:
		return o.Tag.body()
	case o.Tree != nil:
		return o.Tree.body()
	default:
		return string(o.Blob.Data)
	}
}

func frame(kind, body string) []byte {
	var b bytes.Buffer
	b.Grow(len(body) + 32)
	fmt.Fprintf(&b, "%s %d", kind, len(body))
	b.WriteByte(0)
	b.WriteString(body)
	return b.Bytes()
}

func (o Obj) bytes() []byte { return frame(o.kind(), o.body()) }
func (o Obj) key() []byte   { return o.bytes() }

// Val is a data model value, to compare nodes with what the model expects and
// with each other.
type Val struct {
	Kind string
	Str  string // string, bytes, link (as the CID's bytes)
	Keys []string
	Vals []Val
}

func vStr(s S) Val        { return Val{Kind: "string", Str: string(s)} }
func vLink(h Hash) Val    { return Val{Kind: "link", Str: string(gitCid(h).Bytes())} }
func vBytes(s string) Val { return Val{Kind: "bytes", Str: s} }
func vList(vs ...Val) Val { return Val{Kind: "list", Vals: vs} }
func (v *Val) add(k string, x Val) {
	v.Keys = append(v.Keys, k)
	v.Vals = append(v.Vals, x)
}

func (p Person) val() Val {
	m := Val{Kind: "map"}
	m.add("date", vStr(p.Date))
	m.add("timezone", vStr(p.TZ))
	m.add("email", vStr(p.Email))
	m.add("name", vStr(p.Name))
	return m
}

func personOrEmpty(p *Person) Person {
	if p == nil {
		return Person{}
	}
	return *p
}

func (m MergeTag) val() Val {
	v := Val{Kind: "map"}
	v.add("object", vLink(m.Object))
	v.add("type", vStr(m.Type))
	v.add("tag", vStr(m.Tag))
	v.add("tagger", personOrEmpty(m.Tagger).val())
	v.add("message", vStr(S(m.msgText())))
	return v
}

func (t Tag) val() Val {
	v := Val{Kind: "map"}
	v.add("object", vLink(t.Object))
	v.add("type", vStr(t.Type))
	v.add("tag", vStr(t.Tag))
	v.add("tagger", personOrEmpty(t.Tagger).val())
	v.add("message", vStr(t.Msg))
	return v
}

func (c Commit) val() Val {
	v := Val{Kind: "map"}
	v.add("tree", vLink(c.Tree))
	ps := vList()
	for _, p := range c.Parents {
		ps.Vals = append(ps.Vals, vLink(p))
	}
	v.add("parents", ps)
	v.add("message", vStr(c.Msg))
	if c.Author != nil {
		v.add("author", c.Author.val())
	}
	if c.Committer != nil {
		v.add("committer", c.Committer.val())
	}
	if c.Encoding != nil {
		v.add("encoding", vStr(*c.Encoding))
	}
	if c.Sig != nil {
		v.add("signature", vStr(S(c.sigText())))
	}
	ms := vList()
	for _, m := range c.Merge {
		ms.Vals = append(ms.Vals, m.val())
	}
	v.add("mergetag", ms)
	os := vList()
	for _, o := range c.Other {
		os.Vals = append(os.Vals, vStr(o))
	}
	v.add("other", os)
	return v
}

func (e Entry) val() Val {
	v := Val{Kind: "map"}
	v.add("mode", vStr(e.Mode))
	v.add("hash", vLink(e.Hash))
	return v
}

func (t Tree) val() Val {
	v := Val{Kind: "map"}
	for _, e := range t.Entries {
		v.add(string(e.Name), e.val())
	}
	return v
}

func (o Obj) val() Val {
	switch {
	case o.Commit != nil:
		return o.Commit.val()
	case o.Tag != nil:
		return o.Tag.val()
	case o.Tree != nil:
		return o.Tree.val()
	default:
		return vBytes(string(o.bytes()))
	}
}

func (v Val) get(k string) (Val, bool) {
	for i, x := range v.Keys {
		if x == k {
			return v.Vals[i], true
		}
	}
	return Val{}, false
}

func short(s string) string {
	if len(s) > 160 {
		return fmt.Sprintf("%q... (%d bytes)", s[:160], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// diff tells where two values differ; empty when they are the same.
func diff(path string, want, got Val) string {
	if want.Kind != got.Kind {
		return fmt.Sprintf("at %s: want a %s, got a %s", path, want.Kind, got.Kind)
	}
	if want.Str != got.Str {
		return fmt.Sprintf("at %s: want %s, got %s", path, short(want.Str), short(got.Str))
	}
	if len(want.Vals) != len(got.Vals) {
		return fmt.Sprintf("at %s: want %d elements %s, got %d %s", path, len(want.Vals), short(fmt.Sprint(want.Keys)), len(got.Vals), short(fmt.Sprint(got.Keys)))
	}
	for i := range want.Vals {
		p := path + "/" + fmt.Sprint(i)
		if want.Kind == "map" {
			if want.Keys[i] != got.Keys[i] {
				return fmt.Sprintf("at %s: want key %q as element %d, got %q", path, want.Keys[i], i, got.Keys[i])
			}
			p = path + "/" + want.Keys[i]
		}
		if d := diff(p, want.Vals[i], got.Vals[i]); d != "" {
			return d
		}
	}
	return ""
}

// diffBytes tells where two byte strings differ.
func diffBytes(want, got []byte) string {
	if bytes.Equal(want, got) {
		return ""
	}
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	lo := max(0, i-40)
	return fmt.Sprintf("lengths %d and %d, first difference at offset %d: want ...%s, got ...%s",
		len(want), len(got), i, short(string(want[lo:])), short(string(got[lo:])))
}
