package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/schema"
	"github.com/ipld/go-ipld-prime/traversal"
	"pgregory.net/rapid"
)

// C15, editing: parts of a decoded object are replaced with traversal's
// transforms, which copy the rest with the builders of the nodes' prototypes.

// EditCase: one object is turned into another, part by part.
type EditCase struct {
	From, To Obj
	Seed     uint64
	Repr     bool
}

func (e EditCase) key() []byte {
	return append(e.From.key(), append(e.To.key(), byte(e.Seed), byte(e.Seed>>8))...)
}

// genEdit draws objects with all the optional parts: traversal hands an absent
// field of a typed node to the builder, which does not take it.
func genEdit(t *rapid.T) EditCase {
	full := func(c *Commit) {
		if c.Author == nil {
			c.Author = &Person{Name: "A", Email: "a"}
		}
		if c.Committer == nil {
			c.Committer = &Person{Name: "C", Email: "c", Date: "1", TZ: "+0000"}
		}
		if c.Encoding == nil {
			s := S("UTF-8")
			c.Encoding = &s
		}
		if c.Sig == nil {
			c.Sig = []S{"", "abc", "=def"}
		}
		c.Parents = c.Parents[:min(len(c.Parents), 30)]
		c.Other = c.Other[:min(len(c.Other), 30)]
		c.Merge = c.Merge[:min(len(c.Merge), 5)]
	}
	v := EditCase{Seed: u64.Draw(t, "seed")}
	switch u(t, 5) {
	case 0, 1:
		a, b := genCommit(t), genCommit(t)
		full(&a)
		full(&b)
		v.From, v.To = Obj{Commit: &a}, Obj{Commit: &b}
	case 2:
		a, b := genTag(t), genTag(t)
		v.From, v.To = Obj{Tag: &a}, Obj{Tag: &b}
		v.Repr = chance(t, 1, 2)
	default:
		a, b := genTree(t), genTree(t)
		a.Entries = a.Entries[:min(len(a.Entries), 40)]
		b.Entries = b.Entries[:min(len(b.Entries), 12)]
		// some names are in both
		for i := range b.Entries {
			if len(a.Entries) > 0 && chance(t, 1, 2) {
				name := pick(t, a.Entries).Name
				used := false
				for _, e := range b.Entries {
					used = used || e.Name == name
				}
				if !used {
					b.Entries[i].Name = name
				}
			}
		}
		v.From, v.To = Obj{Tree: &a}, Obj{Tree: &b}
		v.Repr = chance(t, 1, 2)
	}
	return v
}

func checkEdit(x *Ctx, v EditCase) error {
	d := &dice{s: v.Seed}
	before := v.From.bytes()
	n, err := parse(before)
	if err != nil {
		return err
	}
	start := n
	if v.Repr {
		n = n.(schema.TypedNode).Representation()
	}
	cur := v.From.val()
	kind := v.From.kind()
	typed, _ := protos(kind)
	want := v.To.val()
	steps := 1 + d.roll(6)
	for i := 0; i < steps; i++ {
		path, val, what := v.edit(d, cur, want)
		if path == nil {
			break
		}
		x.class("%s: %s", kind, what)
		n2, err := traversal.FocusedTransform(n, datamodel.NewPath(path), func(p traversal.Progress, old datamodel.Node) (datamodel.Node, error) {
			if val == nil {
				return nil, nil
			}
			return replacement(*val, kind, path, d)
		}, false)
		if err != nil {
			return fmt.Errorf("%s, %s at %s: %w", kind, what, datamodel.NewPath(path), err)
		}
		cur, _ = replaceAt(cur, path, val)
		got, err := nodeVal(n2)
		if err != nil {
			return err
		}
		if df := diff("", cur, got); df != "" {
			return fmt.Errorf("%s after %s at %s: %s", kind, what, datamodel.NewPath(path), df)
		}
		n = n2
	}
	if df := diff("", v.From.val(), must(nodeVal(start))); df != "" {
		return fmt.Errorf("editing has changed the node it started from: %s", df)
	}
	// What the edits have led to is encoded like an object of those fields.
	out, err := encode(n)
	if err != nil {
		return fmt.Errorf("an edited %s: %w", kind, err)
	}
	again, err := parse(out)
	if err != nil {
		return fmt.Errorf("an edited %s is not accepted: %w", kind, err)
	}
	if err := sameVal("edited "+kind, again, cur); err != nil {
		return err
	}
	nb := typed.NewBuilder()
	if err := build(nb, cur, d, kind == "tree"); err != nil {
		return err
	}
	fresh, err := encode(nb.Build())
	if err != nil {
		return err
	}
	if df := diffBytes(fresh, out); df != "" {
		return fmt.Errorf("an edited %s is encoded differently than one built of the same fields: %s", kind, df)
	}
	if b, err := encode(start); err != nil || !bytes.Equal(b, before) {
		return errors.New("editing has changed what the node it started from is encoded to")
	}
	return nil
}

func must(v Val, err error) Val {
	if err != nil {
		return Val{Kind: "error", Str: err.Error()}
	}
	return v
}

// replacement makes the node that is put in: a basic node for a scalar, and one
// of the prototype that belongs there otherwise.
func replacement(v Val, kind string, path []datamodel.PathSegment, d *dice) (datamodel.Node, error) {
	switch v.Kind {
	case "string":
		return basicnode.NewString(v.Str), nil
	case "link":
		return basicnode.NewLink(linkOf(v.Str)), nil
	}
	nb := partProto(kind, path).NewBuilder()
	if err := build(nb, v, d, false); err != nil {
		return nil, err
	}
	return nb.Build(), nil
}

func partProto(kind string, path []datamodel.PathSegment) datamodel.NodePrototype {
	name := map[string]string{"author": "PersonInfo", "committer": "PersonInfo", "tagger": "PersonInfo", "parents": "Commit_Link_List", "mergetag": "Tag_List", "other": "String_List"}[path[len(path)-1].String()]
	if len(path) == 2 && path[0].String() == "mergetag" {
		name = "Tag"
	}
	if kind == "tree" {
		name = "TreeEntry"
	}
	// Representations are assembled of typed nodes as well.
	return schemaProto(name, false)
}

// edit draws a path of the present value and what the other one has there.
func (v EditCase) edit(d *dice, cur, want Val) ([]datamodel.PathSegment, *Val, string) {
	seg := datamodel.PathSegmentOfString
	if v.From.Tree != nil {
		if len(want.Keys) > 0 && d.roll(2) == 0 { // an entry of the other one, whether there is one of that name or not
			i := d.roll(len(want.Keys))
			if has(cur, want.Keys[i]) {
				return []datamodel.PathSegment{seg(want.Keys[i])}, &want.Vals[i], "entry replaced"
			}
			return []datamodel.PathSegment{seg(want.Keys[i])}, &want.Vals[i], "entry added"
		}
		if len(cur.Keys) == 0 {
			return nil, nil, ""
		}
		k := cur.Keys[d.roll(len(cur.Keys))]
		if d.roll(3) == 0 || len(want.Keys) == 0 {
			return []datamodel.PathSegment{seg(k)}, nil, "entry removed"
		}
		f := []string{"mode", "hash"}[d.roll(2)]
		x, _ := want.Vals[d.roll(len(want.Vals))].get(f)
		return []datamodel.PathSegment{seg(k), seg(f)}, &x, "part of an entry"
	}
	i := d.roll(len(want.Keys))
	k, x := want.Keys[i], want.Vals[i]
	path := []datamodel.PathSegment{seg(k)}
	if x.Kind == "list" && d.roll(3) > 0 {
		here, _ := cur.get(k)
		if len(x.Vals) == 0 {
			return path, &x, "whole list"
		}
		y := x.Vals[d.roll(len(x.Vals))]
		if len(here.Vals) == 0 || d.roll(3) == 0 {
			return append(path, seg("-")), &y, "added to a list"
		}
		path = append(path, datamodel.PathSegmentOfInt(int64(d.roll(len(here.Vals)))))
		if y.Kind == "map" && d.roll(2) == 0 {
			j := d.roll(len(y.Keys))
			return append(path, seg(y.Keys[j])), &y.Vals[j], "within a list"
		}
		return path, &y, "in a list"
	}
	if x.Kind == "map" && d.roll(2) == 0 {
		j := d.roll(len(x.Keys))
		// The parts of a person hang together: a line cannot have a timezone and no date.
		if x.Keys[j] == "name" || x.Keys[j] == "email" {
			return append(path, seg(x.Keys[j])), &x.Vals[j], "within a field"
		}
	}
	return path, &x, "whole field"
}

// replaceAt is the same on the model's side.
func replaceAt(v Val, path []datamodel.PathSegment, x *Val) (Val, bool) {
	if len(path) == 0 {
		return *x, true
	}
	out := Val{Kind: v.Kind, Str: v.Str}
	if v.Kind == "list" {
		out.Vals = append(out.Vals, v.Vals...)
		if path[0].String() == "-" {
			out.Vals = append(out.Vals, *x)
			return out, true
		}
		i, _ := path[0].Index()
		out.Vals[i], _ = replaceAt(v.Vals[i], path[1:], x)
		return out, true
	}
	found := false
	for i, k := range v.Keys {
		if k != path[0].String() {
			out.add(k, v.Vals[i])
			continue
		}
		found = true
		if len(path) == 1 && x == nil {
			continue
		}
		y, _ := replaceAt(v.Vals[i], path[1:], x)
		out.add(k, y)
	}
	if !found && x != nil {
		out.add(path[0].String(), *x)
	}
	return out, found
}

func init() {
	register("C15", "edit", 1200, 40000, genEdit, checkEdit, always[EditCase])
}
