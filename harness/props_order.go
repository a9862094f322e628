package main

import (
	"strings"

	"pgregory.net/rapid"
)

// C05 and C06 beyond git's own order: headers in any order, and objects that end
// with their headers. Encoding brings such objects into another form (findings K3
// and K7), but what is read from them is what they say.

type OrderCase struct {
	Obj  Obj
	Seed uint64
	// Early: the object ends after its headers. Bare: without the newline of the
	// last one, too.
	Early, Bare bool
	// Extra headers of a tag that it has no field for.
	Extra []S `json:",omitempty"`
}

// interleave merges sequences in a random way, each keeping its own order.
func interleave(d *dice, seqs [][]string) []string {
	var out []string
	for {
		total := 0
		for _, s := range seqs {
			total += len(s)
		}
		if total == 0 {
			return out
		}
		k := d.roll(total)
		for i, s := range seqs {
			if k < len(s) {
				out = append(out, s[0])
				seqs[i] = s[1:]
				break
			}
			k -= len(s)
		}
	}
}

func (v OrderCase) raw() []byte {
	d := &dice{s: v.Seed}
	var seqs [][]string
	one := func(s string) { seqs = append(seqs, []string{s}) }
	msg := ""
	switch {
	case v.Obj.Commit != nil:
		c := v.Obj.Commit
		msg = string(c.Msg)
		one("tree " + c.Tree.hex() + "\n")
		var ps, ms, os []string
		for _, p := range c.Parents {
			ps = append(ps, "parent "+p.hex()+"\n")
		}
		for _, m := range c.Merge {
			in := [][]string{{" type " + string(m.Type) + "\n"}, {" tag " + string(m.Tag) + "\n"}}
			if m.Tagger != nil {
				in = append(in, []string{" tagger " + m.Tagger.text() + "\n"})
			}
			ms = append(ms, "mergetag object "+m.Object.hex()+"\n"+strings.Join(interleave(d, in), "")+" \n"+m.msgText())
		}
		for _, o := range c.Other {
			if o[0] == ' ' { // belongs to the one before
				os[len(os)-1] += string(o) + "\n"
			} else {
				os = append(os, string(o)+"\n")
			}
		}
		if c.Author != nil {
			one("author " + c.Author.text() + "\n")
		}
		if c.Committer != nil {
			one("committer " + c.Committer.text() + "\n")
		}
		if c.Encoding != nil {
			one("encoding " + string(*c.Encoding) + "\n")
		}
		if c.Sig != nil {
			one(sigBegin + "\n" + c.sigText() + sigEnd + "\n")
		}
		seqs = append(seqs, ps, ms, os)
	case v.Obj.Tag != nil:
		g := v.Obj.Tag
		msg = string(g.Msg)
		one("object " + g.Object.hex() + "\n")
		one("type " + string(g.Type) + "\n")
		one("tag " + string(g.Tag) + "\n")
		if g.Tagger != nil {
			one("tagger " + g.Tagger.text() + "\n")
		}
		for _, e := range v.Extra {
			one(string(e) + "\n")
		}
	}
	lines := interleave(d, seqs)
	if v.Early {
		// A merge tag ends with the line after it.
		if last := len(lines) - 1; strings.HasPrefix(lines[last], "mergetag") {
			for i, l := range lines {
				if strings.HasPrefix(l, "tree ") {
					// moves to the end
					lines = append(append(lines[:i:i], lines[i+1:]...), l)
					break
				}
			}
		}
		body := strings.Join(lines, "")
		if v.Bare {
			body = body[:len(body)-1]
		}
		return frame(v.Obj.kind(), body)
	}
	return frame(v.Obj.kind(), strings.Join(lines, "")+"\n"+msg)
}

func (v OrderCase) key() []byte { return v.raw() }

func genOrder(t *rapid.T, tag bool) OrderCase {
	v := OrderCase{Seed: u64.Draw(t, "order")}
	if chance(t, 1, 3) {
		v.Early, v.Bare = true, chance(t, 1, 2)
	}
	if tag {
		g := genTag(t)
		if v.Early {
			g.Msg = ""
		}
		for n := u(t, 3); n > 0; n-- {
			l := S(textNE(t, headerForbid))
			if chance(t, 1, 2) {
				l = pick(t, []S{"foo bar", "Tag x", "tags x", "TAG v2", "tagged", "tag", "type", "object", "Object 00", " tag x", "\ttag x", "tagger", "taggers A <a> 1 +0000", "encoding x", "parent 00", "gpgsig x", " y"})
			}
			for _, k := range []string{"object ", "type ", "tag ", "tagger "} {
				if strings.HasPrefix(string(l), k) {
					l = "x" + l
				}
			}
			v.Extra = append(v.Extra, l)
		}
		v.Obj.Tag = &g
		return v
	}
	c := genCommit(t)
	if v.Early {
		c.Msg = ""
	}
	c.Parents = c.Parents[:min(len(c.Parents), 40)]
	c.Merge = c.Merge[:min(len(c.Merge), 10)]
	if len(c.Other) > 0 && c.Other[0][0] == ' ' {
		c.Other[0] = "y" + c.Other[0]
	}
	v.Obj.Commit = &c
	return v
}

func checkOrder(x *Ctx, v OrderCase) error {
	x.class("order: ends early %v, without newline %v", v.Early, v.Bare)
	return checkFields(v.Obj.kind(), v.raw(), v.Obj.val())
}

func init() {
	register("C05", "order", 1200, 50000, func(t *rapid.T) OrderCase { return genOrder(t, false) }, checkOrder, always[OrderCase])
	register("C06", "order", 1200, 50000, func(t *rapid.T) OrderCase { return genOrder(t, true) }, checkOrder, always[OrderCase])
}
