package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"unicode/utf8"

	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
	ipld "github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/codec/dagcbor"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/multicodec"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/node/bindnode"
	"github.com/ipld/go-ipld-prime/schema"
	"pgregory.net/rapid"
)

// C15: encoding of built nodes. C16: the forms of a node. C18: builders.

// dice is a stream of choices that is a function of a case's seed.
type dice struct {
	s uint64
	// hook is called once, at a choice
	hook func()
	at   int
	// made is told of the parts that are built as nodes of their own
	made func(datamodel.Node, Val)
}

func (d *dice) roll(n int) int {
	if d.hook != nil {
		if d.at--; d.at < 0 {
			h := d.hook
			d.hook = nil
			h()
		}
	}
	d.s = mix64(d.s + 1)
	return int(d.s % uint64(n))
}

func (d *dice) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := d.roll(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// build assembles a value in one of the many ways the builder interface
// allows. Fields of a struct come in any order; a tree's entries keep theirs.
func build(na datamodel.NodeAssembler, v Val, d *dice, keepOrder bool) error {
	if d.roll(8) == 0 {
		// By a finished node of the very type the assembler wants.
		return buildByNode(na, na.Prototype(), v, d, keepOrder)
	}
	switch v.Kind {
	case "map":
		hint := []int64{int64(len(v.Keys)), -1, 0, int64(len(v.Keys)) + 3}[d.roll(4)]
		ma, err := na.BeginMap(hint)
		if err != nil {
			return err
		}
		order := d.perm(len(v.Keys))
		for i := range v.Keys {
			if !keepOrder {
				i = order[i]
			}
			var va datamodel.NodeAssembler
			switch d.roll(4) {
			case 0:
				if va, err = ma.AssembleEntry(v.Keys[i]); err != nil {
					return fmt.Errorf("%s: %w", v.Keys[i], err)
				}
			case 3:
				kb := ma.KeyPrototype().NewBuilder()
				if err := kb.AssignString(v.Keys[i]); err != nil {
					return fmt.Errorf("key %s: %w", v.Keys[i], err)
				}
				if err := ma.AssembleKey().AssignNode(kb.Build()); err != nil {
					return fmt.Errorf("key %s: %w", v.Keys[i], err)
				}
				va = ma.AssembleValue()
			case 1:
				if err := ma.AssembleKey().AssignString(v.Keys[i]); err != nil {
					return fmt.Errorf("%s: %w", v.Keys[i], err)
				}
				va = ma.AssembleValue()
			default:
				if err := ma.AssembleKey().AssignNode(basicnode.NewString(v.Keys[i])); err != nil {
					return fmt.Errorf("%s: %w", v.Keys[i], err)
				}
				va = ma.AssembleValue()
			}
			if keepOrder && d.roll(8) == 0 { // a tree: only there do maps tell their value's prototype
				err = buildByNode(va, ma.ValuePrototype(v.Keys[i]), v.Vals[i], d, false)
			} else {
				err = build(va, v.Vals[i], d, false)
			}
			if err != nil {
				return fmt.Errorf("%s: %w", v.Keys[i], err)
			}
		}
		return ma.Finish()
	case "list":
		if d.roll(4) == 0 && len(v.Vals) < 20 {
			n, err := untyped(v, d)
			if err != nil {
				return err
			}
			return na.AssignNode(n)
		}
		hint := []int64{int64(len(v.Vals)), -1, 0, int64(len(v.Vals)) + 3}[d.roll(4)]
		la, err := na.BeginList(hint)
		if err != nil {
			return err
		}
		for i, x := range v.Vals {
			if d.roll(8) == 0 {
				err = buildByNode(la.AssembleValue(), la.ValuePrototype(int64(i)), x, d, false)
			} else {
				err = build(la.AssembleValue(), x, d, false)
			}
			if err != nil {
				return err
			}
		}
		return la.Finish()
	}
	if d.roll(3) == 0 {
		n, err := untyped(v, d)
		if err != nil {
			return err
		}
		return na.AssignNode(n)
	}
	return assemble(na, v, nil)
}

func buildByNode(na datamodel.NodeAssembler, p datamodel.NodePrototype, v Val, d *dice, keepOrder bool) error {
	nb := p.NewBuilder()
	if err := build(nb, v, d, keepOrder); err != nil {
		return err
	}
	n := nb.Build()
	if d.made != nil {
		d.made(n, v)
	}
	if err := na.AssignNode(n); err != nil {
		return fmt.Errorf("a %T is not taken: %w", n, err)
	}
	return nil
}

// Together are objects that are built one within the other, or one after the
// other when At is behind what is assembled.
type Together struct {
	Objs []struct {
		Obj  Obj
		Seed uint64
		At   int
		Repr bool
		// Reuse the builder of the one before, reset
		Reuse bool
	}
}

func (v Together) key() []byte {
	var b []byte
	for _, o := range v.Objs {
		b = append(b, o.Obj.bytes()...)
		b = fmt.Append(b, o.Seed, o.At)
	}
	return b
}

func genTogether(t *rapid.T) Together {
	var v Together
	v.Objs = make([]struct {
		Obj   Obj
		Seed  uint64
		At    int
		Repr  bool
		Reuse bool
	}, 2+u(t, 3))
	for i := range v.Objs {
		o := &v.Objs[i]
		o.Obj = genBuild(t).Obj
		if i > 0 && chance(t, 1, 2) && v.Objs[i-1].Obj.kind() != o.Obj.kind() {
			o.Obj = v.Objs[i-1].Obj
		}
		o.Seed, o.At, o.Repr, o.Reuse = u64.Draw(t, "seed"), u(t, 60), chance(t, 1, 2), chance(t, 1, 2)
		if chance(t, 1, 4) {
			o.At = 1 << 30
		}
	}
	return v
}

func checkTogether(x *Ctx, v Together) error {
	type made struct {
		n   datamodel.Node
		v   Val
		raw []byte // of an object
	}
	var all []made
	var failed error
	var last datamodel.NodeBuilder
	var next func(i int)
	next = func(i int) {
		if i == len(v.Objs) || failed != nil {
			return
		}
		o := v.Objs[i]
		typed, repr := protos(o.Obj.kind())
		if o.Repr {
			typed = repr
		}
		nb := typed.NewBuilder()
		if o.Reuse && i > 0 && v.Objs[i-1].At >= 1<<30 && last != nil && last.Prototype() == typed {
			x.class("builder used again")
			nb = last
			nb.Reset()
		}
		within := true
		d := &dice{s: o.Seed, at: o.At, made: func(n datamodel.Node, v Val) { all = append(all, made{n: n, v: v}) }}
		d.hook = func() {
			if within {
				x.class("%s within %s", v.Objs[min(i+1, len(v.Objs)-1)].Obj.kind(), o.Obj.kind())
			}
			next(i + 1)
		}
		val := o.Obj.val()
		if err := build(nb, val, d, o.Obj.Tree != nil); err != nil {
			failed = fmt.Errorf("object %d, a %s, cannot be built: %w", i, o.Obj.kind(), err)
			return
		}
		all = append(all, made{nb.Build(), val, o.Obj.bytes()})
		last = nb
		within = false
		if d.hook != nil {
			next(i + 1)
		}
	}
	next(0)
	if failed != nil {
		return failed
	}
	for i, m := range all {
		got, err := nodeVal(m.n)
		if err != nil {
			return err
		}
		if df := diff("", m.v, got); df != "" {
			return fmt.Errorf("node %d of %d, a %s, is not what it was built as once others were built: %s", i, len(all), m.v.Kind, df)
		}
		if m.raw == nil {
			continue
		}
		out, err := encode(m.n)
		if err != nil {
			return fmt.Errorf("node %d of %d cannot be encoded: %w", i, len(all), err)
		}
		if df := diffBytes(m.raw, out); df != "" {
			return fmt.Errorf("the encoding of node %d of %d: %s", i, len(all), df)
		}
	}
	return nil
}

// untyped makes a node that knows nothing of git, with map keys in any order.
func untyped(v Val, d *dice) (datamodel.Node, error) {
	nb := basicnode.Prototype.Any.NewBuilder()
	if err := assemble(nb, shuffled(v, d), nil); err != nil {
		return nil, err
	}
	return nb.Build(), nil
}

func shuffled(v Val, d *dice) Val {
	out := Val{Kind: v.Kind, Str: v.Str}
	switch v.Kind {
	case "map":
		for _, i := range d.perm(len(v.Keys)) {
			out.add(v.Keys[i], shuffled(v.Vals[i], d))
		}
	case "list":
		for _, x := range v.Vals {
			out.Vals = append(out.Vals, shuffled(x, d))
		}
	}
	return out
}

type BuildCase struct {
	Obj  Obj
	Seed uint64
}

func (b BuildCase) key() []byte { return append(b.Obj.bytes(), fmt.Sprint(b.Seed)...) }

func genBuild(t *rapid.T) BuildCase {
	o := genObj(t)
	if o.Blob != nil && chance(t, 2, 3) {
		g := genTag(t)
		o = Obj{Tag: &g}
	}
	return BuildCase{Obj: o, Seed: u64.Draw(t, "seed")}
}

func (o Obj) nontrivial() bool {
	switch {
	case o.Commit != nil:
		return o.Commit.nontrivial()
	case o.Tag != nil:
		return o.Tag.nontrivial()
	case o.Tree != nil:
		return o.Tree.nontrivial()
	}
	return o.Blob.nontrivial()
}

func checkBuild(x *Ctx, v BuildCase) error {
	x.class("%s", v.Obj.kind())
	want := v.Obj.bytes()
	val := v.Obj.val()
	typed, repr := protos(v.Obj.kind())
	d := &dice{s: v.Seed}
	var shared datamodel.NodeBuilder
	for round := 0; round < 2; round++ {
		for i, p := range []datamodel.NodePrototype{typed, repr} {
			nb := p.NewBuilder()
			if i == 0 {
				if round == 1 {
					// a builder that was used before
					nb = shared
					nb.Reset()
				}
				shared = nb
			}
			if err := build(nb, val, d, v.Obj.Tree != nil); err != nil {
				return fmt.Errorf("a %s cannot be built: %w", v.Obj.kind(), err)
			}
			n := nb.Build()
			out, err := encode(n)
			if err != nil {
				return fmt.Errorf("a %s that was built cannot be encoded: %w", v.Obj.kind(), err)
			}
			if df := diffBytes(want, out); df != "" {
				return fmt.Errorf("the encoding of a %s that was built: %s", v.Obj.kind(), df)
			}
			got, err := nodeVal(n)
			if err != nil {
				return err
			}
			if df := diff("", val, got); df != "" {
				return fmt.Errorf("a %s that was built reads differently: %s", v.Obj.kind(), df)
			}
			back, err := parse(out)
			if err != nil {
				return fmt.Errorf("what was encoded is rejected: %w", err)
			}
			bv, err := nodeVal(back)
			if err != nil {
				return err
			}
			if df := diff("", val, bv); df != "" {
				return fmt.Errorf("what was encoded decodes differently: %s", df)
			}
		}
	}
	return nil
}

func validText(v Val) bool {
	if v.Kind == "string" && !utf8.ValidString(v.Str) {
		return false
	}
	for _, k := range v.Keys {
		if !utf8.ValidString(k) {
			return false
		}
	}
	for _, x := range v.Vals {
		if !validText(x) {
			return false
		}
	}
	return true
}

func checkForms(x *Ctx, v BuildCase) error {
	kind := v.Obj.kind()
	want := v.Obj.bytes()
	val := v.Obj.val()
	d := &dice{s: v.Seed}
	n, err := parse(want)
	if err != nil {
		return err
	}
	same := func(form string, n datamodel.Node) error {
		x.class("%s %s", kind, form)
		out, err := encode(n)
		if err != nil {
			return fmt.Errorf("%s: cannot be encoded: %w", form, err)
		}
		if df := diffBytes(want, out); df != "" {
			return fmt.Errorf("%s: %s", form, df)
		}
		return nil
	}
	if err := same("decoded", n); err != nil {
		return err
	}
	tn, ok := n.(schema.TypedNode)
	if !ok {
		return fmt.Errorf("parsing gives a %T, which is no typed node", n)
	}
	if err := same("representation", tn.Representation()); err != nil {
		return err
	}
	// go-ipld-prime's own entry points hand over representations.
	out, err := ipld.Encode(n, ipldgit.Encode)
	if err != nil {
		return fmt.Errorf("ipld.Encode: %w", err)
	}
	if df := diffBytes(want, out); df != "" {
		return fmt.Errorf("ipld.Encode: %s", df)
	}
	enc, err := multicodec.LookupEncoder(cid.GitRaw)
	if err != nil {
		return err
	}
	var buf bytes.Buffer
	if err := enc(n, &buf); err != nil {
		return fmt.Errorf("the registered encoder: %w", err)
	}
	if df := diffBytes(want, buf.Bytes()); df != "" {
		return fmt.Errorf("the registered encoder: %s", df)
	}
	for i := 0; i < 2 && kind != "tree"; i++ {
		un, err := untyped(val, d)
		if err != nil {
			return err
		}
		if err := same("untyped", un); err != nil {
			return err
		}
	}
	if kind == "tag" && v.Obj.Tag.Tagger == nil {
		// no entry for the tagger, or null
		for _, null := range []bool{false, true} {
			w := Val{Kind: "map"}
			for i, k := range val.Keys {
				switch {
				case k != "tagger":
					w.add(k, val.Vals[i])
				case null:
					w.add(k, Val{Kind: "null"})
				}
			}
			un, err := untyped(w, d)
			if err != nil {
				return err
			}
			if err := same(fmt.Sprintf("untyped, tagger null %v", null), un); err != nil {
				return err
			}
		}
	}
	if kind != "tree" {
		// a copy made by the data model's own means, in the node's order
		nb := basicnode.Prototype.Any.NewBuilder()
		if err := datamodel.Copy(tn.Representation(), nb); err != nil {
			return fmt.Errorf("copy: %w", err)
		}
		if err := same("copied", nb.Build()); err != nil {
			return err
		}
	}
	if kind == "commit" || kind == "tag" {
		// by go-ipld-prime's own implementation of typed nodes
		nb := bound[kind].Representation().NewBuilder()
		if err := assemble(nb, shuffled(val, d), nil); err != nil {
			return fmt.Errorf("bound to Go values: %w", err)
		}
		if err := same("bound", nb.Build().(schema.TypedNode).Representation()); err != nil {
			return err
		}
	}
	// Through another codec and back.
	for _, c := range []struct {
		name string
		enc  ipld.Encoder
		dec  ipld.Decoder
		ok   bool
	}{{"dag-cbor", dagcbor.Encode, dagcbor.Decode, true}, {"dag-json", dagjson.Encode, dagjson.Decode, validText(val)}} {
		if !c.ok {
			continue
		}
		var b bytes.Buffer
		if err := c.enc(tn.Representation(), &b); err != nil {
			return fmt.Errorf("%s: %w", c.name, err)
		}
		typed, repr := protos(kind)
		for _, p := range []datamodel.NodePrototype{typed, repr, basicnode.Prototype.Any} {
			if p == datamodel.NodePrototype(basicnode.Prototype.Any) && kind == "tree" {
				continue
			}
			nb := p.NewBuilder()
			err := c.dec(nb, bytes.NewReader(b.Bytes()))
			if errors.Is(err, dagcbor.ErrAllocationBudgetExceeded) && len(want) > 20000 {
				break // that codec's own limit
			}
			if err != nil {
				return fmt.Errorf("%s: a %s does not come back: %w", c.name, kind, err)
			}
			m := nb.Build()
			if kind == "tree" {
				// These codecs sort maps, so only the set of entries is kept.
				if err := sameEntries(m, v.Obj.Tree); err != nil {
					return fmt.Errorf("%s: %w", c.name, err)
				}
				continue
			}
			if err := same("through "+c.name, m); err != nil {
				return err
			}
		}
	}
	return nil
}

// bound are the types of commits and tags in another implementation.
var bound = func() map[string]schema.TypedPrototype {
	ts := schema.MustTypeSystem(
		schema.SpawnString("String"), schema.SpawnLink("Link"),
		schema.SpawnList("Strings", "String", false), schema.SpawnList("Links", "Link", false), schema.SpawnList("Tags", "Tag", false),
		schema.SpawnStruct("Person", []schema.StructField{
			schema.SpawnStructField("name", "String", false, false), schema.SpawnStructField("email", "String", false, false),
			schema.SpawnStructField("date", "String", false, false), schema.SpawnStructField("timezone", "String", false, false),
		}, schema.SpawnStructRepresentationMap(nil)),
		schema.SpawnStruct("Tag", []schema.StructField{
			schema.SpawnStructField("tagger", "Person", false, false), schema.SpawnStructField("message", "String", false, false),
			schema.SpawnStructField("object", "Link", false, false), schema.SpawnStructField("type", "String", false, false), schema.SpawnStructField("tag", "String", false, false),
		}, schema.SpawnStructRepresentationMap(nil)),
		schema.SpawnStruct("Commit", []schema.StructField{
			schema.SpawnStructField("author", "Person", true, false), schema.SpawnStructField("committer", "Person", true, false),
			schema.SpawnStructField("encoding", "String", true, false), schema.SpawnStructField("signature", "String", true, false),
			schema.SpawnStructField("other", "Strings", false, false), schema.SpawnStructField("mergetag", "Tags", false, false),
			schema.SpawnStructField("parents", "Links", false, false), schema.SpawnStructField("message", "String", false, false), schema.SpawnStructField("tree", "Link", false, false),
		}, schema.SpawnStructRepresentationMap(nil)),
	)
	return map[string]schema.TypedPrototype{
		"commit": bindnode.Prototype(nil, ts.TypeByName("Commit")),
		"tag":    bindnode.Prototype(nil, ts.TypeByName("Tag")),
	}
}()

func sameEntries(m datamodel.Node, t *Tree) error {
	if m.Length() != int64(len(t.Entries)) {
		return fmt.Errorf("%d entries, want %d", m.Length(), len(t.Entries))
	}
	for _, e := range t.Entries {
		en, err := m.LookupByString(string(e.Name))
		if err != nil {
			return err
		}
		ev, err := nodeVal(en)
		if err != nil {
			return err
		}
		if d := diff(string(e.Name), e.val(), ev); d != "" {
			return fmt.Errorf("%s", d)
		}
	}
	return nil
}

// ---- nodes that are not git objects ----

type NotGit struct {
	How string
	V   JVal
}

// JVal is a value that can be written down.
type JVal struct {
	Kind string
	Str  S      `json:",omitempty"`
	Keys []S    `json:",omitempty"`
	Vals []JVal `json:",omitempty"`
}

func jval(v Val) JVal {
	out := JVal{Kind: v.Kind, Str: S(v.Str)}
	for _, k := range v.Keys {
		out.Keys = append(out.Keys, S(k))
	}
	for _, x := range v.Vals {
		out.Vals = append(out.Vals, jval(x))
	}
	return out
}

func (j JVal) val() Val {
	out := Val{Kind: j.Kind, Str: string(j.Str)}
	for _, k := range j.Keys {
		out.Keys = append(out.Keys, string(k))
	}
	for _, x := range j.Vals {
		out.Vals = append(out.Vals, x.val())
	}
	return out
}

// scalarOther draws a value of another kind than k.
func scalarOther(t *rapid.T, k string) Val {
	for {
		if k != "string" && chance(t, 1, 6) {
			// what it is in the object
			return Val{Kind: "string", Str: pick(t, []string{"A <a> 1 +0000", "", "true", "12", string(sharedHashes[0][:]), hex.EncodeToString(sharedHashes[0][:]), "100644", "[]", "{}", "null"})}
		}
		v := pick(t, []Val{{Kind: "int", Str: "12"}, {Kind: "bool", Str: "true"}, {Kind: "float"}, {Kind: "null"}, {Kind: "string", Str: "s"}, {Kind: "bytes", Str: "b"},
			vLink(sharedHashes[0]), cidText(sharedHashes[0]), {Kind: "bytes", Str: vLink(sharedHashes[0]).Str}, {Kind: "list"}, {Kind: "map"}, {Kind: "list", Vals: []Val{{Kind: "null"}}}})
		if v.Kind != k {
			return v
		}
	}
}

// cidText is a link's CID, written out.
func cidText(h Hash) Val { return Val{Kind: "string", Str: gitCid(h).String()} }

// damage makes one thing about a value wrong: the kind of some part, a missing
// required entry or an unknown one. It reports what it did.
func damage(t *rapid.T, v *Val, path string, optional map[string]bool) string {
	switch v.Kind {
	case "map":
		switch x := u(t, 10); {
		case x < 6 && len(v.Keys) > 0: // within
			i := u(t, len(v.Keys))
			return damage(t, &v.Vals[i], path+"/"+v.Keys[i], nil)
		case x < 7:
			k := pick(t, []string{"x", "", "Tree", "trees", "typ", "unknown", "tree ", "date", "tag2", "messag"})
			if len(v.Keys) > 0 && chance(t, 1, 3) {
				k = recase(t, pick(t, v.Keys))
			}
			for has(*v, k) {
				k += "_"
			}
			if len(v.Keys) == 4 && k == "date" {
				k = "dates"
			}
			i := u(t, len(v.Keys)+1)
			v.Keys = append(v.Keys[:i:i], append([]string{k}, v.Keys[i:]...)...)
			v.Vals = append(v.Vals[:i:i], append([]Val{pick(t, []Val{{Kind: "string"}, {Kind: "list"}, {Kind: "map"}, {Kind: "null"}})}, v.Vals[i:]...)...)
			return path + ": unknown entry " + k
		case x < 9:
			var req []int
			for i, k := range v.Keys {
				if !optional[k] {
					req = append(req, i)
				}
			}
			if len(req) > 0 {
				i := pick(t, req)
				k := v.Keys[i]
				if c := recase(t, k); chance(t, 1, 4) && !has(*v, c) {
					v.Keys = append([]string{}, v.Keys...)
					v.Keys[i] = c
					return path + ": " + c + " instead of " + k
				}
				v.Keys = append(v.Keys[:i:i], v.Keys[i+1:]...)
				v.Vals = append(v.Vals[:i:i], v.Vals[i+1:]...)
				return path + ": missing " + k
			}
		}
	case "list":
		if len(v.Vals) > 0 && chance(t, 2, 3) {
			i := u(t, len(v.Vals))
			return damage(t, &v.Vals[i], fmt.Sprintf("%s/%d", path, i), nil)
		}
	}
	k := v.Kind
	*v = scalarOther(t, k)
	return fmt.Sprintf("%s: %s instead of %s", path, v.Kind, k)
}

// repeat gives a map, or one within it, an entry two to four times; there may be
// others missing for that, as many fields as there should be or not.
func repeat(t *rapid.T, v *Val, path string) string {
	if chance(t, 1, 4) {
		var in []int
		for i, x := range v.Vals {
			if x.Kind == "map" {
				in = append(in, i)
			}
		}
		if len(in) > 0 {
			i := pick(t, in)
			return repeat(t, &v.Vals[i], path+"/"+v.Keys[i])
		}
	}
	i := u(t, len(v.Keys))
	k, x := v.Keys[i], v.Vals[i]
	n := 1
	if chance(t, 1, 2) {
		n += u(t, 3)
	}
	keys, vals := append([]string{}, v.Keys...), append([]Val{}, v.Vals...)
	if j := i + 1; j < len(keys) && chance(t, 1, 4) {
		// three of one make up for its neighbour when they are only summed up
		n = 2
		keys = append(keys[:j:j], keys[j+1:]...)
		vals = append(vals[:j:j], vals[j+1:]...)
	} else if chance(t, 1, 2) {
		for m := u(t, 3); m > 0 && len(keys) > 1; m-- {
			if j := u(t, len(keys)); keys[j] != k {
				keys = append(keys[:j:j], keys[j+1:]...)
				vals = append(vals[:j:j], vals[j+1:]...)
			}
		}
	}
	for ; n > 0; n-- {
		j := u(t, len(keys)+1)
		keys = append(keys[:j:j], append([]string{k}, keys[j:]...)...)
		vals = append(vals[:j:j], append([]Val{x}, vals[j:]...)...)
	}
	v.Keys, v.Vals = keys, vals
	return path + ": repeated " + k
}

func has(v Val, k string) bool {
	_, ok := v.get(k)
	return ok
}

var commitOptional = map[string]bool{"author": true, "committer": true, "encoding": true, "signature": true}

func genNotGit(t *rapid.T) NotGit {
	switch x := u(t, 10); {
	case x < 2:
		// nothing like a git object
		v := scalarOther(t, "bytes")
		if v.Kind == "string" {
			v.Str = string(genMostlyValid(t).Raw)
		}
		if v.Kind == "list" && chance(t, 1, 2) {
			v.Vals = []Val{vBytes(string(genMostlyValid(t).Raw))}
		}
		if v.Kind == "map" && chance(t, 1, 2) {
			v.add(string(pick(t, []S{"a", "tree", "message", "parents"})), scalarOther(t, "bytes"))
		}
		return NotGit{"no object", jval(v)}
	case x < 7:
		c := genCommit(t)
		c.Merge = c.Merge[:min(len(c.Merge), 3)]
		v := c.val()
		how := damage(t, &v, "commit", commitOptional)
		if v.Kind == "bytes" { // those are a blob
			v, how = Val{Kind: "int", Str: "12"}, "commit: int instead of map"
		}
		return NotGit{how, jval(shuffledBy(t, v))}
	default:
		// A tag is recognised by its object, and read leniently otherwise: an
		// unknown entry is passed over, and the tagger may be missing.
		g := genTag(t)
		v := g.val()
		if i := 3; v.Keys[i] == "tagger" && chance(t, 1, 4) {
			// a tagger of the wrong kind, or with something wrong in it
			how := damage(t, &v.Vals[i], "tag/tagger", nil)
			if v.Vals[i].Kind == "null" { // reads as none
				v.Vals[i] = Val{Kind: "string", Str: "A <a> 1 +0000"}
			}
			return NotGit{how, jval(shuffledBy(t, v))}
		}
		i := pick(t, []int{0, 1, 2, 4})
		if i > 0 && chance(t, 1, 3) {
			k := v.Keys[i]
			v.Keys = append(v.Keys[:i:i], v.Keys[i+1:]...)
			v.Vals = append(v.Vals[:i:i], v.Vals[i+1:]...)
			return NotGit{"tag: missing " + k, jval(shuffledBy(t, v))}
		}
		how := damageScalar(t, &v.Vals[i], "tag/"+v.Keys[i])
		return NotGit{how, jval(shuffledBy(t, v))}
	}
}

func damageScalar(t *rapid.T, v *Val, path string) string {
	k := v.Kind
	*v = scalarOther(t, k)
	return fmt.Sprintf("%s: %s instead of %s", path, v.Kind, k)
}

func shuffledBy(t *rapid.T, v Val) Val { return shuffled(v, &dice{s: u64.Draw(t, "order")}) }

func checkNotGit(x *Ctx, v NotGit) error {
	x.class("%s", firstWord(v.How))
	nb := basicnode.Prototype.Any.NewBuilder()
	if err := assemble(nb, v.V.val(), nil); err != nil {
		return nil
	}
	out, err := encode(nb.Build())
	if err == nil {
		return fmt.Errorf("a node that is no git object (%s) is encoded as %s", v.How, short(string(out)))
	}
	return nil
}

// checkInner: of the parts of an object only tags are objects themselves; all others
// are refused, as they are, as representation and as plain nodes.
func checkInner(x *Ctx, v BuildCase) error {
	n, err := parse(v.Obj.bytes())
	if err != nil {
		return err
	}
	refuse := func(path string, n datamodel.Node) error {
		if out, err := encode(n); err == nil {
			return fmt.Errorf("%s, which is no object (%T), is encoded as %s", path, n, short(string(out)))
		}
		return nil
	}
	budget := 60
	var walk func(path string, n datamodel.Node, val Val, isTag bool) error
	walk = func(path string, n datamodel.Node, val Val, isTag bool) error {
		if budget--; budget < 0 {
			return nil
		}
		un, err := untypedSame(val)
		if err != nil {
			return err
		}
		nodes := []datamodel.Node{n, n.(schema.TypedNode).Representation(), un}
		for i, n := range nodes {
			how := path + []string{"", " (representation)", " (plain)"}[i]
			if !isTag {
				x.class("part %s", val.Kind)
				if err := refuse(how, n); err != nil {
					return err
				}
				continue
			}
			x.class("part tag")
			out, err := encode(n)
			if err != nil {
				return fmt.Errorf("%s, which is a tag, is refused: %w", how, err)
			}
			if !bytes.HasPrefix(out, []byte("tag ")) {
				return fmt.Errorf("%s, which is a tag, is encoded as %s", how, short(string(out)))
			}
		}
		for i := range val.Vals {
			var c datamodel.Node
			var err error
			name := fmt.Sprint(i)
			if val.Kind == "map" {
				name = val.Keys[i]
				c, err = n.LookupByString(name)
			} else {
				c, err = n.LookupByIndex(int64(i))
			}
			if err != nil {
				return err
			}
			if err := walk(path+"/"+name, c, val.Vals[i], v.Obj.Commit != nil && path == "/mergetag"); err != nil {
				return err
			}
		}
		return nil
	}
	val := v.Obj.val()
	for i, k := range val.Keys {
		c, err := n.LookupByString(k)
		if err != nil {
			return err
		}
		if err := walk("/"+k, c, val.Vals[i], false); err != nil {
			return err
		}
	}
	for _, n := range []datamodel.Node{datamodel.Absent, datamodel.Null} {
		if err := refuse(n.Kind().String(), n); err != nil {
			return err
		}
	}
	return nil
}

func firstWord(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == ':' || s[i] == '/' {
			return s[:i]
		}
	}
	return s
}

// ---- builders ----

type SchemaCase struct {
	Type string
	How  string
	V    JVal
	Seed uint64
	Repr bool
	// Entry: the top map is assembled with AssembleEntry only
	Entry bool `json:",omitempty"`
	// Whole: the value is handed over as one node of another implementation
	Whole bool `json:",omitempty"`
	// BadKey: after some entries of the value, which has no defect, comes a key
	// of this kind
	BadKey string `json:",omitempty"`
}

func schemaProto(name string, repr bool) datamodel.NodePrototype {
	pick := func(a, b datamodel.NodePrototype) datamodel.NodePrototype {
		if repr {
			return b
		}
		return a
	}
	t := ipldgit.Type
	switch name {
	case "Commit":
		return pick(t.Commit, t.Commit__Repr)
	case "Tag":
		return pick(t.Tag, t.Tag__Repr)
	case "Tree":
		return pick(t.Tree, t.Tree__Repr)
	case "TreeEntry":
		return pick(t.TreeEntry, t.TreeEntry__Repr)
	case "PersonInfo":
		return pick(t.PersonInfo, t.PersonInfo__Repr)
	case "Blob":
		return pick(t.Blob, t.Blob__Repr)
	case "String":
		return pick(t.String, t.String__Repr)
	case "GpgSig":
		return pick(t.GpgSig, t.GpgSig__Repr)
	case "Link":
		return pick(t.Link, t.Link__Repr)
	case "Tree_Link":
		return pick(t.Tree_Link, t.Tree_Link__Repr)
	case "Commit_Link":
		return pick(t.Commit_Link, t.Commit_Link__Repr)
	case "Commit_Link_List":
		return pick(t.Commit_Link_List, t.Commit_Link_List__Repr)
	case "String_List":
		return pick(t.String_List, t.String_List__Repr)
	case "Tag_List":
		return pick(t.Tag_List, t.Tag_List__Repr)
	}
	panic(name)
}

var schemaTypes = []string{"Commit", "Commit", "Commit", "Tag", "Tag", "Tree", "TreeEntry", "PersonInfo", "Blob", "String", "GpgSig", "Link", "Tree_Link", "Commit_Link", "Commit_Link_List", "String_List", "Tag_List"}

// genSchemaVal draws a value of a type.
func genSchemaVal(t *rapid.T, name string) Val {
	switch name {
	case "Commit":
		c := genCommit(t)
		c.Merge = c.Merge[:min(len(c.Merge), 3)]
		return c.val()
	case "Tag":
		return genTag(t).val()
	case "Tree":
		g := genTree(t)
		g.Entries = g.Entries[:min(len(g.Entries), 6)]
		return g.val()
	case "TreeEntry":
		return Entry{Mode: genMode(t), Hash: genHash(t)}.val()
	case "PersonInfo":
		return genPerson(t).val()
	case "Blob":
		return vBytes(text(t, ""))
	case "String", "GpgSig":
		return vStr(S(text(t, "")))
	case "Link", "Tree_Link", "Commit_Link":
		return vLink(genHash(t))
	case "Commit_Link_List":
		v := vList()
		for n := u(t, 5); n > 0; n-- {
			v.Vals = append(v.Vals, vLink(genHash(t)))
		}
		return v
	case "String_List":
		v := vList()
		for _, l := range genLines(t, "", u(t, 5)) {
			v.Vals = append(v.Vals, vStr(l))
		}
		return v
	case "Tag_List":
		v := vList()
		for n := u(t, 4); n > 0; n-- {
			v.Vals = append(v.Vals, genMergeTag(t).val())
		}
		return v
	}
	panic(name)
}

func genSchema(t *rapid.T) SchemaCase {
	v := SchemaCase{Type: pick(t, schemaTypes), Seed: u64.Draw(t, "seed"), Repr: chance(t, 1, 2)}
	val := genSchemaVal(t, v.Type)
	if val.Kind == "map" && chance(t, 1, 12) {
		v.BadKey = pick(t, badKeys)
		v.How, v.V = "a key is a "+v.BadKey, jval(val)
		return v
	}
	opt := map[string]bool(nil)
	switch v.Type {
	case "Commit":
		opt = commitOptional
	case "Tree":
		// any entry may be missing or added; damage one of them, if there is one
		if len(val.Keys) > 0 && chance(t, 1, 4) {
			// AssembleKey does not notice a repeated name: a known finding.
			i, j := u(t, len(val.Keys)), u(t, len(val.Keys)+1)
			k, x := val.Keys[i], val.Vals[i]
			val.Keys = append(val.Keys[:j:j], append([]string{k}, val.Keys[j:]...)...)
			val.Vals = append(val.Vals[:j:j], append([]Val{x}, val.Vals[j:]...)...)
			v.How, v.Entry, v.V = "repeated "+k, true, jval(val)
			return v
		}
		if len(val.Keys) > 0 && chance(t, 3, 4) {
			i := u(t, len(val.Keys))
			v.How = damage(t, &val.Vals[i], "entry", nil)
		} else {
			k := val.Kind
			val = scalarOther(t, k)
			v.How = fmt.Sprintf("%s instead of %s", val.Kind, k)
		}
		v.V = jval(val)
		return v
	}
	if val.Kind == "map" && chance(t, 1, 4) {
		v.How = repeat(t, &val, "")
	} else {
		v.How = damage(t, &val, "", opt)
		// Commits and trees do not take whole nodes: a known finding.
		v.Whole = v.Type != "Commit" && chance(t, 1, 3)
	}
	v.V = jval(val)
	return v
}

// buildPlain is build without handing over whole untyped maps and lists.
func buildPlain(na datamodel.NodeAssembler, v Val, d *dice, entry bool) error {
	switch v.Kind {
	case "map":
		ma, err := na.BeginMap(int64(len(v.Keys)))
		if err != nil {
			return err
		}
		for i, k := range v.Keys {
			var va datamodel.NodeAssembler
			if d.roll(2) == 0 || entry {
				if va, err = ma.AssembleEntry(k); err != nil {
					return err
				}
			} else {
				if err := ma.AssembleKey().AssignString(k); err != nil {
					return err
				}
				va = ma.AssembleValue()
			}
			if err := buildPlain(va, v.Vals[i], d, false); err != nil {
				return err
			}
		}
		return ma.Finish()
	case "list":
		la, err := na.BeginList(int64(len(v.Vals)))
		if err != nil {
			return err
		}
		for _, x := range v.Vals {
			if err := buildPlain(la.AssembleValue(), x, d, false); err != nil {
				return err
			}
		}
		return la.Finish()
	}
	return assemble(na, v, nil)
}

func checkSchema(x *Ctx, v SchemaCase) error {
	x.class("%s repr %v", v.Type, v.Repr)
	nb := schemaProto(v.Type, v.Repr).NewBuilder()
	val := v.V.val()
	var err error
	switch {
	case v.BadKey != "":
		x.class("key of another kind")
		err = badKey(nb, val, v.BadKey, &dice{s: v.Seed})
	case v.Whole:
		x.class("whole node")
		from := basicnode.Prototype.Any.NewBuilder()
		if err := assemble(from, val, nil); err != nil {
			return err
		}
		err = nb.AssignNode(from.Build())
	default:
		err = buildPlain(nb, val, &dice{s: v.Seed}, v.Entry)
	}
	if err == nil {
		return fmt.Errorf("a %s is built although %s", v.Type, v.How)
	}
	// Nor does what is there so far pass for a node: a builder that has not
	// finished panics.
	var n datamodel.Node
	func() {
		defer func() { recover() }()
		n = nb.Build()
	}()
	if n != nil {
		return fmt.Errorf("a %s (%s) is refused (%v), and yet the builder gives a node", v.Type, v.How, err)
	}
	return nil
}

// badKey assembles the first entries of a map and then a key that is no string.
func badKey(nb datamodel.NodeBuilder, v Val, kind string, d *dice) error {
	ma, err := nb.BeginMap(int64(len(v.Keys)))
	if err != nil {
		return nil
	}
	for i := d.roll(len(v.Keys) + 1); i > 0; i-- {
		va, err := ma.AssembleEntry(v.Keys[i-1])
		if err != nil {
			return nil
		}
		if err := buildPlain(va, v.Vals[i-1], d, false); err != nil {
			return nil
		}
	}
	ka := ma.AssembleKey()
	switch kind {
	case "null":
		return ka.AssignNull()
	case "bool":
		return ka.AssignBool(true)
	case "int":
		return ka.AssignInt(int64(d.roll(3)))
	case "float":
		return ka.AssignFloat(1)
	case "bytes":
		return ka.AssignBytes([]byte("tree"))
	case "link":
		return ka.AssignLink(cidlink.Link{Cid: gitCid(sharedHashes[0])})
	case "map":
		_, err := ka.BeginMap(0)
		return err
	case "list":
		_, err := ka.BeginList(0)
		return err
	case "int node":
		return ka.AssignNode(basicnode.NewInt(1))
	case "bytes node":
		return ka.AssignNode(basicnode.NewBytes([]byte("tree")))
	}
	panic(kind)
}

var badKeys = []string{"null", "bool", "int", "float", "bytes", "link", "map", "list", "int node", "bytes node"}

type GoodCase struct {
	Type string
	V    JVal
	Seed uint64
	Repr bool
}

func checkGood(x *Ctx, v GoodCase) error {
	x.class("%s repr %v", v.Type, v.Repr)
	nb := schemaProto(v.Type, v.Repr).NewBuilder()
	want := v.V.val()
	for round := 0; round < 2; round++ {
		if err := build(nb, want, &dice{s: v.Seed + uint64(round)}, v.Type == "Tree"); err != nil {
			return fmt.Errorf("a %s that fits is rejected: %w", v.Type, err)
		}
		n := nb.Build()
		nb.Reset()
		got, err := nodeVal(n)
		if err != nil {
			return err
		}
		if d := diff("", want, got); d != "" {
			return fmt.Errorf("%s: %s", v.Type, d)
		}
	}
	if v.Type != "Commit" && v.Type != "Tree" { // see K4
		// Handed over whole, by a plain node and by one of the other level.
		plain, err := untyped(want, &dice{s: v.Seed})
		if err != nil {
			return err
		}
		ob := schemaProto(v.Type, !v.Repr).NewBuilder()
		if err := build(ob, want, &dice{s: v.Seed}, false); err != nil {
			return fmt.Errorf("a %s that fits is rejected: %w", v.Type, err)
		}
		other := ob.Build()
		for _, from := range []datamodel.Node{plain, other} {
			if err := nb.AssignNode(from); err != nil {
				return fmt.Errorf("a %s that fits is rejected as a whole: %w", v.Type, err)
			}
			n := nb.Build()
			nb.Reset()
			if err := sameVal(v.Type+" handed over whole", n, want); err != nil {
				return err
			}
		}
		if err := sameVal(v.Type+" after a copy", other, want); err != nil {
			return err
		}
	}
	n, err := fromValue(v.Type, want)
	if err != nil || n == nil {
		return err
	}
	if err := sameVal(v.Type+" made from a Go value", n, want); err != nil {
		return err
	}
	if p := n.Prototype(); p != schemaProto(v.Type, false) {
		return fmt.Errorf("%s made from a Go value: its prototype is a %T", v.Type, p)
	}
	return nil
}

// fromValue makes a node from a plain value where the type has a function for it.
func fromValue(name string, v Val) (datamodel.Node, error) {
	switch name {
	case "Blob":
		return ipldgit.Type.Blob.FromBytes([]byte(v.Str))
	case "String":
		return ipldgit.Type.String.FromString(v.Str)
	case "GpgSig":
		return ipldgit.Type.GpgSig.FromString(v.Str)
	case "Link", "Tree_Link", "Commit_Link":
		_, c, err := cid.CidFromBytes([]byte(v.Str))
		if err != nil {
			return nil, err
		}
		l := cidlink.Link{Cid: c}
		switch name {
		case "Link":
			return ipldgit.Type.Link.FromLink(l)
		case "Tree_Link":
			return ipldgit.Type.Tree_Link.FromLink(l)
		}
		return ipldgit.Type.Commit_Link.FromLink(l)
	}
	return nil, nil
}

// AssignCase hands a whole node of another implementation to a builder. Only
// for findings: the other parts avoid what fails here.
type AssignCase struct {
	Type string
	V    JVal
	Repr bool
}

func checkAssign(x *Ctx, v AssignCase) error {
	from := basicnode.Prototype.Any.NewBuilder()
	if err := assemble(from, v.V.val(), nil); err != nil {
		return err
	}
	nb := schemaProto(v.Type, v.Repr).NewBuilder()
	if err := nb.AssignNode(from.Build()); err != nil {
		return fmt.Errorf("a %s that fits is rejected: %w", v.Type, err)
	}
	got, err := nodeVal(nb.Build())
	if err != nil {
		return err
	}
	if d := diff("", v.V.val(), got); d != "" {
		return fmt.Errorf("%s: %s", v.Type, d)
	}
	return nil
}

func init() {
	rules["C15"] = "a generated commit, tag, tree or blob is built with the typed and the representation builders (fresh and reset ones, fields in random order, every way to assemble keys and values, right and wrong size hints), encoded, and compared with the model's serialisation, then decoded and compared with the model's fields; part together: two to four objects built one within the assembly of another or one after the other, also with the same builder, reset: every object, and every part that was built as a node of its own, is what it was built as when all are finished; part edit: parts of a decoded object (fields, list elements, entries of trees, persons) are replaced, added and removed with traversal's transforms: the model's value after each step, encoded like an object built of those fields, and the node it started from unchanged; non-trivial as for C01-C04, and every case of the other two"
	register("C15", "build", 2200, 70000, genBuild, checkBuild, func(v BuildCase) bool { return v.Obj.nontrivial() })
	register("C15", "together", 1200, 40000, genTogether, checkTogether, always[Together])

	rules["C16"] = "part forms: a generated object in each of its forms (decoded, representation, untyped copies with keys in random orders, through dag-cbor and dag-json into typed, representation and untyped nodes, as nodes of bindnode, a tag without tagger also without that entry and with null, by ipld.Encode and the registered encoder) must encode to the same bytes, and trees transcoded keep their set of entries; part notgit: untyped nodes of any other shape (wrong kinds at any depth, missing and unknown entries, scalars, lists) must be refused; part inner: the parts of a decoded object, typed, as representation and as plain nodes, of which only merge tags are objects, and null and absent; non-trivial: every notgit case, and form cases as for C01-C04"
	register("C16", "forms", 1500, 50000, genBuild, checkForms, func(v BuildCase) bool { return v.Obj.nontrivial() })
	register("C16", "notgit", 4000, 120000, genNotGit, checkNotGit, always[NotGit])
	register("C16", "inner", 400, 12000, genBuild, checkInner, func(v BuildCase) bool { return v.Obj.Blob == nil && v.Obj.nontrivial() })
	register("C16", "build", 0, 0, genBuild, checkForms, always[BuildCase])

	rules["C18"] = "part misfit: a generated value of one of 14 schema types with one defect (an entry missing, unknown or repeated, a part of the wrong kind, at any depth, a key of another kind; assembled part by part or handed over whole) must be refused by the type's builder and its representation's, which must not give a node after that; part fit: the value without a defect must be accepted, in any order and way of assembly, by a fresh and by a reset builder, and read back unchanged; every case is non-trivial"
	register("C18", "misfit", 20000, 600000, genSchema, checkSchema, always[SchemaCase])
	register("C18", "fit", 8000, 250000, func(t *rapid.T) GoodCase {
		v := GoodCase{Type: pick(t, schemaTypes), Seed: u64.Draw(t, "seed"), Repr: chance(t, 1, 2)}
		v.V = jval(genSchemaVal(t, v.Type))
		return v
	}, checkGood, always[GoodCase])
	register("C18", "assign", 0, 0, func(t *rapid.T) AssignCase { return AssignCase{} }, checkAssign, always[AssignCase])
}
