package main

import (
	"errors"
	"fmt"

	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/schema"
	"pgregory.net/rapid"
)

// C17: reading nodes.

// commitFields are the fields of a commit at the type level, where the ones
// that are not there read as absent.
var commitFields = []string{"tree", "parents", "message", "author", "committer", "encoding", "signature", "mergetag", "other"}

type reader struct {
	d       *dice
	foreign bool // look up tree entries with key nodes of another implementation
	budget  int  // nodes that are looked at in depth
}

// sameVal compares a node with a value through its iterators only.
func sameVal(path string, n datamodel.Node, want Val) error {
	got, err := nodeVal(n)
	if err != nil {
		return fmt.Errorf("%s: %w", path, err)
	}
	if d := diff(path, want, got); d != "" {
		return errors.New(d)
	}
	return nil
}

func kindName(k datamodel.Kind) string { return k.String() }

// scalars asks a node for a value of every kind but its own.
func (r *reader) scalars(path string, n datamodel.Node, want Val) error {
	if kindName(n.Kind()) != want.Kind {
		return fmt.Errorf("%s: kind %v, want %s", path, n.Kind(), want.Kind)
	}
	if n.IsNull() {
		return fmt.Errorf("%s: a %s says that it is null", path, want.Kind)
	}
	if n.IsAbsent() {
		return fmt.Errorf("%s: a %s says that it is absent", path, want.Kind)
	}
	_, eBool := n.AsBool()
	_, eInt := n.AsInt()
	_, eFloat := n.AsFloat()
	str, eStr := n.AsString()
	byt, eByt := n.AsBytes()
	lnk, eLnk := n.AsLink()
	for _, x := range []struct {
		kind string
		err  error
	}{{"bool", eBool}, {"int", eInt}, {"float", eFloat}, {"string", eStr}, {"bytes", eByt}, {"link", eLnk}} {
		if x.kind == want.Kind && x.err != nil {
			return fmt.Errorf("%s: a %s cannot be read as one: %w", path, want.Kind, x.err)
		}
		if x.kind != want.Kind && x.err == nil {
			return fmt.Errorf("%s: a %s can be read as a %s", path, want.Kind, x.kind)
		}
	}
	switch want.Kind {
	case "string":
		if str != want.Str {
			return fmt.Errorf("%s: reads %s, want %s", path, short(str), short(want.Str))
		}
		if s, ok := n.(interface{ String() string }); ok && s.String() != want.Str {
			return fmt.Errorf("%s: String gives %s, want %s", path, short(s.String()), short(want.Str))
		}
	case "bytes":
		if string(byt) != want.Str {
			return fmt.Errorf("%s: reads %s, want %s", path, short(string(byt)), short(want.Str))
		}
		if s, ok := n.(interface{ Bytes() []byte }); ok && string(s.Bytes()) != want.Str {
			return fmt.Errorf("%s: Bytes gives %s, want %s", path, short(string(s.Bytes())), short(want.Str))
		}
	case "link":
		if lnk.Binary() != want.Str {
			return fmt.Errorf("%s: reads %x, want %x", path, lnk.Binary(), want.Str)
		}
		if s, ok := n.(interface{ Link() datamodel.Link }); ok && (s.Link() == nil || s.Link().Binary() != want.Str) {
			return fmt.Errorf("%s: Link gives %v, want %x", path, s.Link(), want.Str)
		}
	}
	return nil
}

// coherent checks every way there is to read a node against the value that it
// must hold. repr tells whether it is at the representation level, shape whether it
// is a commit or a tree.
func (r *reader) coherent(path string, n datamodel.Node, want Val, repr bool, shape string) error {
	if n == nil {
		return fmt.Errorf("%s: no node, want a %s", path, want.Kind)
	}
	r.budget--
	if r.budget < 0 {
		return sameVal(path, n, want)
	}
	if err := r.scalars(path, n, want); err != nil {
		return err
	}
	var err error
	switch want.Kind {
	case "map":
		err = r.mapNode(path, n, want, repr, shape)
	case "list":
		err = r.listNode(path, n, want, repr)
	default:
		if l := n.Length(); l != -1 {
			return fmt.Errorf("%s: a %s of length %d, want -1", path, want.Kind, l)
		}
		if n.MapIterator() != nil || n.ListIterator() != nil {
			return fmt.Errorf("%s: a %s has an iterator", path, want.Kind)
		}
		if _, err := n.LookupByString("tree"); err == nil {
			return fmt.Errorf("%s: LookupByString finds something in a %s", path, want.Kind)
		}
		if _, err := n.LookupByIndex(0); err == nil {
			return fmt.Errorf("%s: LookupByIndex finds something in a %s", path, want.Kind)
		}
		if _, err := n.LookupBySegment(datamodel.PathSegmentOfInt(0)); err == nil {
			return fmt.Errorf("%s: LookupBySegment finds something in a %s", path, want.Kind)
		}
		if _, err := n.LookupByNode(basicnode.NewString("tree")); err == nil {
			return fmt.Errorf("%s: LookupByNode finds something in a %s", path, want.Kind)
		}
	}
	if err != nil {
		return err
	}
	// A copy made with the node's own prototype. At the representation level
	// only for what has no optional structs and no map in it (see K4).
	if !repr || shape == "" {
		nb := n.Prototype().NewBuilder()
		if err := nb.AssignNode(n); err != nil {
			return fmt.Errorf("%s: cannot be copied: %w", path, err)
		}
		if err := sameVal(path+" (copy)", nb.Build(), want); err != nil {
			return err
		}
	}
	if !repr {
		tn, ok := n.(schema.TypedNode)
		if !ok {
			return fmt.Errorf("%s: %T is no typed node", path, n)
		}
		if want.Kind == "map" || want.Kind == "list" {
			if err := r.coherent(path+" (representation)", tn.Representation(), want, true, shape); err != nil {
				return err
			}
		} else if err := sameVal(path+" (representation)", tn.Representation(), want); err != nil {
			return err
		}
	}
	return nil
}

// missing draws keys that are not there.
func (r *reader) missing(want Val) string {
	for {
		k := ""
		switch r.d.roll(6) {
		case 5:
			if len(want.Keys) > 0 {
				k = recased(want.Keys[r.d.roll(len(want.Keys))], r.d.roll(4))
			}
		case 0:
			k = []string{"", "x", "0", "Tree", "nope", "typ", "tree ", "mode/", "a/b", "mergetags"}[r.d.roll(10)]
		case 1:
			if len(want.Keys) > 0 {
				k = want.Keys[r.d.roll(len(want.Keys))] + "x"
			}
		case 2:
			if len(want.Keys) > 0 {
				k = want.Keys[r.d.roll(len(want.Keys))]
				k = k[:len(k)/2]
			}
		case 3:
			k = words[r.d.roll(len(words))]
		default:
			k = commitFields[r.d.roll(len(commitFields))] + "_"
		}
		if !has(want, k) {
			return k
		}
	}
}

func (r *reader) mapNode(path string, n datamodel.Node, want Val, repr bool, shape string) error {
	commit := shape == "commit"
	keys := want.Keys
	if commit && !repr {
		keys = commitFields
	}
	if l := n.Length(); l != int64(len(keys)) {
		return fmt.Errorf("%s: length %d, want %d", path, l, len(keys))
	}
	if n.ListIterator() != nil {
		return fmt.Errorf("%s: a map has a list iterator", path)
	}
	if _, err := n.LookupByIndex(0); err == nil {
		return fmt.Errorf("%s: LookupByIndex finds something in a map", path)
	}
	it, other := n.MapIterator(), n.MapIterator()
	var keyNodes []datamodel.Node
	for i, k := range keys {
		if it.Done() {
			return fmt.Errorf("%s: iterator at its end after %d of %d", path, i, len(keys))
		}
		kn, x, err := it.Next()
		if err != nil {
			return fmt.Errorf("%s: iterator: %w", path, err)
		}
		if ks, err := kn.AsString(); err != nil || ks != k {
			return fmt.Errorf("%s: key %d is %q, %v, want %q", path, i, ks, err, k)
		}
		keyNodes = append(keyNodes, kn)
		v, ok := want.get(k)
		if !ok {
			if !x.IsAbsent() {
				return fmt.Errorf("%s/%s: not absent", path, k)
			}
			continue
		}
		if err := r.coherent(path+"/"+k, x, v, repr, ""); err != nil {
			return err
		}
		if r.d.roll(4) == 0 && !other.Done() { // a second iterator, at its own pace
			if _, _, err := other.Next(); err != nil {
				return fmt.Errorf("%s: second iterator: %w", path, err)
			}
		}
	}
	for i := 0; i < 2; i++ {
		if !it.Done() {
			return fmt.Errorf("%s: iterator not at its end after %d", path, len(keys))
		}
		if _, _, err := it.Next(); err == nil {
			return fmt.Errorf("%s: iterator goes on after its end", path)
		}
	}
	// Lookups, of all the entries or of some when there are many.
	for i, k := range keys {
		if len(keys) > 40 && r.d.roll(len(keys)) > 30 && i != 0 && i != len(keys)-1 {
			continue
		}
		v, ok := want.get(k)
		for j, look := range []func() (datamodel.Node, error){
			func() (datamodel.Node, error) { return n.LookupByString(k) },
			func() (datamodel.Node, error) { return n.LookupBySegment(datamodel.PathSegmentOfString(k)) },
			func() (datamodel.Node, error) { return n.LookupByNode(keyNodes[i]) },
			func() (datamodel.Node, error) {
				if shape == "tree" && !r.foreign {
					return n.LookupByNode(gitString(k)) // see K4
				}
				return n.LookupByNode(basicnode.NewString(k))
			},
		} {
			x, err := look()
			if err != nil {
				return fmt.Errorf("%s/%s: lookup %d fails: %w", path, k, j, err)
			}
			if !ok {
				if !x.IsAbsent() {
					return fmt.Errorf("%s/%s: lookup %d: not absent", path, k, j)
				}
				continue
			}
			if err := sameVal(fmt.Sprintf("%s/%s (lookup %d)", path, k, j), x, v); err != nil {
				return err
			}
		}
	}
	// A number as a segment is the name it is written as.
	for _, i := range []int64{0, 1, 2, int64(r.d.roll(12)), int64(len(keys))} {
		x, err := n.LookupBySegment(datamodel.PathSegmentOfInt(i))
		v, ok := want.get(fmt.Sprint(i))
		if (err == nil) != ok {
			return fmt.Errorf("%s: segment %d: %v, want it there: %v", path, i, err, ok)
		}
		if ok {
			if err := sameVal(fmt.Sprintf("%s/%d (number)", path, i), x, v); err != nil {
				return err
			}
		}
	}
	if commit && repr {
		for _, k := range commitFields {
			if has(want, k) {
				continue
			}
			if x, err := n.LookupByString(k); err == nil {
				return fmt.Errorf("%s/%s: found %v in the representation of a commit that does not have it", path, k, x)
			}
		}
	}
	for i := 0; i < 5; i++ {
		k := r.missing(want)
		if commit && isField(k) {
			continue
		}
		if _, err := n.LookupByString(k); err == nil {
			return fmt.Errorf("%s: finds %q, which is not there", path, k)
		}
		if _, err := n.LookupBySegment(datamodel.PathSegmentOfString(k)); err == nil {
			return fmt.Errorf("%s: finds segment %q, which is not there", path, k)
		}
		if _, err := n.LookupByNode(gitString(k)); err == nil {
			return fmt.Errorf("%s: finds %q by node, which is not there", path, k)
		}
	}
	return nil
}

func isField(k string) bool {
	for _, f := range commitFields {
		if f == k {
			return true
		}
	}
	return false
}

func gitString(s string) datamodel.Node {
	nb := ipldgit.Type.String.NewBuilder()
	if err := nb.AssignString(s); err != nil {
		panic(err)
	}
	return nb.Build()
}

func (r *reader) listNode(path string, n datamodel.Node, want Val, repr bool) error {
	ln := int64(len(want.Vals))
	if l := n.Length(); l != ln {
		return fmt.Errorf("%s: length %d, want %d", path, l, ln)
	}
	if n.MapIterator() != nil {
		return fmt.Errorf("%s: a list has a map iterator", path)
	}
	if _, err := n.LookupByString("0"); err == nil {
		return fmt.Errorf("%s: LookupByString finds something in a list", path)
	}
	if _, err := n.LookupBySegment(datamodel.PathSegmentOfString("x")); err == nil {
		return fmt.Errorf("%s: LookupBySegment finds x in a list", path)
	}
	if _, err := n.LookupByNode(basicnode.NewString("0")); err == nil {
		return fmt.Errorf("%s: LookupByNode finds something by string in a list", path)
	}
	it, other := n.ListIterator(), n.ListIterator()
	for i, v := range want.Vals {
		if it.Done() {
			return fmt.Errorf("%s: iterator at its end after %d of %d", path, i, ln)
		}
		idx, x, err := it.Next()
		if err != nil {
			return fmt.Errorf("%s: iterator: %w", path, err)
		}
		if idx != int64(i) {
			return fmt.Errorf("%s: iterator gives index %d, want %d", path, idx, i)
		}
		if ln > 60 && r.d.roll(int(ln)) > 50 && i != 0 && i != int(ln)-1 {
			continue
		}
		if err := r.coherent(fmt.Sprintf("%s/%d", path, i), x, v, repr, ""); err != nil {
			return err
		}
		if r.d.roll(4) == 0 && !other.Done() {
			if _, _, err := other.Next(); err != nil {
				return fmt.Errorf("%s: second iterator: %w", path, err)
			}
		}
		for j, look := range []func() (datamodel.Node, error){
			func() (datamodel.Node, error) { return n.LookupByIndex(int64(i)) },
			func() (datamodel.Node, error) { return n.LookupBySegment(datamodel.PathSegmentOfInt(int64(i))) },
			func() (datamodel.Node, error) {
				return n.LookupBySegment(datamodel.PathSegmentOfString(fmt.Sprint(i)))
			},
			func() (datamodel.Node, error) { return n.LookupByNode(basicnode.NewInt(int64(i))) },
		} {
			x, err := look()
			if err != nil {
				return fmt.Errorf("%s/%d: lookup %d fails: %w", path, i, j, err)
			}
			if err := sameVal(fmt.Sprintf("%s/%d (lookup %d)", path, i, j), x, v); err != nil {
				return err
			}
		}
	}
	for i := 0; i < 2; i++ {
		if !it.Done() {
			return fmt.Errorf("%s: iterator not at its end after %d", path, ln)
		}
		if _, _, err := it.Next(); err == nil {
			return fmt.Errorf("%s: iterator goes on after its end", path)
		}
	}
	for _, i := range []int64{ln, ln + 1, ln + int64(r.d.roll(1000)), 1 << 31, 1<<63 - 1} {
		if _, err := n.LookupByIndex(i); err == nil {
			return fmt.Errorf("%s: finds index %d of %d", path, i, ln)
		}
		if _, err := n.LookupBySegment(datamodel.PathSegmentOfString(fmt.Sprint(i))); err == nil {
			return fmt.Errorf("%s: finds segment %d of %d", path, i, ln)
		}
	}
	return nil
}

// ---- the typed accessors ----

type maybe interface {
	Exists() bool
	IsAbsent() bool
	IsNull() bool
	AsNode() datamodel.Node
}

func maybeThere(path string, m maybe, want Val) error {
	if !m.Exists() || m.IsAbsent() || m.IsNull() {
		return fmt.Errorf("%s (maybe): exists: %v, absent: %v, null: %v", path, m.Exists(), m.IsAbsent(), m.IsNull())
	}
	return sameVal(path+" (maybe as node)", m.AsNode(), want)
}

func strOf(v Val, k string) Val { x, _ := v.get(k); return x }

func (r *reader) accessors(path string, n datamodel.Node, want Val) error {
	field := func(k string, x datamodel.Node) error {
		return sameVal(path+"."+k, x, strOf(want, k))
	}
	first := func(es ...error) error {
		for _, e := range es {
			if e != nil {
				return e
			}
		}
		return nil
	}
	switch n := n.(type) {
	case ipldgit.Commit:
		opt := func(k string, m maybe, must func() datamodel.Node) error {
			w, ok := want.get(k)
			if m.IsNull() {
				return fmt.Errorf("%s.%s is null", path, k)
			}
			if m.Exists() != ok || m.IsAbsent() == ok {
				return fmt.Errorf("%s.%s exists: %v, absent: %v, want it there: %v", path, k, m.Exists(), m.IsAbsent(), ok)
			}
			if !ok {
				if !m.AsNode().IsAbsent() {
					return fmt.Errorf("%s.%s does not read as absent", path, k)
				}
				return nil
			}
			return first(sameVal(path+"."+k, m.AsNode(), w), sameVal(path+"."+k+" (must)", must(), w))
		}
		if err := first(field("tree", n.FieldTree()), field("parents", n.FieldParents()), field("message", n.FieldMessage()),
			field("mergetag", n.FieldMergetag()), field("other", n.FieldOther()),
			opt("author", n.FieldAuthor(), func() datamodel.Node { return n.FieldAuthor().Must() }),
			opt("committer", n.FieldCommitter(), func() datamodel.Node { return n.FieldCommitter().Must() }),
			opt("encoding", n.FieldEncoding(), func() datamodel.Node { return n.FieldEncoding().Must() }),
			opt("signature", n.FieldSignature(), func() datamodel.Node { return n.FieldSignature().Must() })); err != nil {
			return err
		}
		if a := n.FieldAuthor(); a.Exists() {
			if err := r.accessors(path+".author", a.Must(), strOf(want, "author")); err != nil {
				return err
			}
		}
		if a := n.FieldCommitter(); a.Exists() {
			if err := r.accessors(path+".committer", a.Must(), strOf(want, "committer")); err != nil {
				return err
			}
		}
		// lists
		ps := strOf(want, "parents").Vals
		pl := n.FieldParents()
		it := pl.Iterator()
		for i, w := range ps {
			if it.Done() {
				return fmt.Errorf("%s.parents: iterator at its end after %d of %d", path, i, len(ps))
			}
			idx, x := it.Next()
			m := pl.LookupMaybe(int64(i))
			if idx != int64(i) || m == nil || !m.Exists() {
				return fmt.Errorf("%s.parents: iterator at %d, want %d; looked up: %v", path, idx, i, m)
			}
			if err := first(sameVal(path+".parents", x, w), sameVal(path+".parents (lookup)", pl.Lookup(int64(i)), w), sameVal(path+".parents (maybe)", m.Must(), w), maybeThere(path+".parents", m, w)); err != nil {
				return err
			}
			if x.Link().Binary() != w.Str {
				return fmt.Errorf("%s.parents/%d: Link gives %s", path, i, x.Link())
			}
		}
		if idx, x := it.Next(); !it.Done() || idx != -1 || x != nil || pl.Lookup(int64(len(ps))) != nil || pl.Length() != int64(len(ps)) {
			return fmt.Errorf("%s.parents: goes on after its end", path)
		}
		ms := strOf(want, "mergetag").Vals
		ml := n.FieldMergetag()
		mit := ml.Iterator()
		for i, w := range ms {
			if mit.Done() {
				return fmt.Errorf("%s.mergetag: iterator at its end after %d of %d", path, i, len(ms))
			}
			idx, x := mit.Next()
			if idx != int64(i) {
				return fmt.Errorf("%s.mergetag: iterator at %d, want %d", path, idx, i)
			}
			if i > 4 {
				continue
			}
			if err := first(r.accessors(path+".mergetag", x, w), r.accessors(path+".mergetag (lookup)", ml.Lookup(int64(i)), w), sameVal(path+".mergetag (maybe)", ml.LookupMaybe(int64(i)).Must(), w), maybeThere(path+".mergetag", ml.LookupMaybe(int64(i)), w)); err != nil {
				return err
			}
		}
		if idx, x := mit.Next(); !mit.Done() || idx != -1 || x != nil || ml.Lookup(int64(len(ms))) != nil || ml.Length() != int64(len(ms)) {
			return fmt.Errorf("%s.mergetag: goes on after its end", path)
		}
		os := strOf(want, "other").Vals
		ol := n.FieldOther()
		oit := ol.Iterator()
		for i, w := range os {
			if oit.Done() {
				return fmt.Errorf("%s.other: iterator at its end after %d of %d", path, i, len(os))
			}
			idx, x := oit.Next()
			if idx != int64(i) || x.String() != w.Str || ol.Lookup(int64(i)).String() != w.Str || ol.LookupMaybe(int64(i)).Must().String() != w.Str {
				return fmt.Errorf("%s.other/%d: iterator gives %d %s, want %s", path, i, idx, short(x.String()), short(w.Str))
			}
		}
		if len(os) > 0 {
			i := r.d.roll(len(os))
			if err := maybeThere(path+".other", ol.LookupMaybe(int64(i)), os[i]); err != nil {
				return err
			}
		}
		if idx, x := oit.Next(); !oit.Done() || idx != -1 || x != nil || ol.Lookup(int64(len(os))) != nil || ol.Length() != int64(len(os)) {
			return fmt.Errorf("%s.other: goes on after its end", path)
		}
		// what the links lead to
		if p, err := linkTarget(n.FieldTree()); err != nil || (p != ipldgit.Type.Tree && p != ipldgit.Type.Tree__Repr) {
			return fmt.Errorf("%s.tree leads to %T, %v, want a tree", path, p, err)
		}
		if len(ps) > 0 {
			if p, err := linkTarget(pl.Lookup(0)); err != nil || (p != ipldgit.Type.Commit && p != ipldgit.Type.Commit__Repr) {
				return fmt.Errorf("%s.parents/0 leads to %T, %v, want a commit", path, p, err)
			}
		}
		if n.FieldMessage().String() != strOf(want, "message").Str || n.FieldTree().Link().Binary() != strOf(want, "tree").Str {
			return fmt.Errorf("%s: message %s, tree %s", path, short(n.FieldMessage().String()), n.FieldTree().Link())
		}
	case ipldgit.Tag:
		if err := first(field("object", n.FieldObject()), field("type", n.FieldType()), field("tag", n.FieldTag()), field("tagger", n.FieldTagger()), field("message", n.FieldMessage()),
			r.accessors(path+".tagger", n.FieldTagger(), strOf(want, "tagger"))); err != nil {
			return err
		}
	case ipldgit.PersonInfo:
		return first(field("date", n.FieldDate()), field("timezone", n.FieldTimezone()), field("email", n.FieldEmail()), field("name", n.FieldName()))
	case ipldgit.TreeEntry:
		return first(field("mode", n.FieldMode()), field("hash", n.FieldHash()))
	case ipldgit.Tree:
		it := n.Iterator()
		for i, k := range want.Keys {
			if it.Done() {
				return fmt.Errorf("%s: iterator at its end after %d of %d", path, i, len(want.Keys))
			}
			kn, x := it.Next()
			if kn.String() != k {
				return fmt.Errorf("%s: iterator gives %s, want %s", path, short(kn.String()), short(k))
			}
			if len(want.Keys) > 60 && r.d.roll(len(want.Keys)) > 50 {
				continue
			}
			if err := first(r.accessors(path+"/"+k, x, want.Vals[i]), r.accessors(path+"/"+k+" (lookup)", n.Lookup(kn), want.Vals[i])); err != nil {
				return err
			}
			if m := n.LookupMaybe(kn); !m.Exists() {
				return fmt.Errorf("%s: LookupMaybe does not find %s", path, short(k))
			} else if err := first(sameVal(path+"/"+k+" (maybe)", m.Must(), want.Vals[i]), maybeThere(path+"/"+k, m, want.Vals[i])); err != nil {
				return err
			}
		}
		if k, x := it.Next(); !it.Done() || k != nil || x != nil || n.Length() != int64(len(want.Keys)) {
			return fmt.Errorf("%s: goes on after its end", path)
		}
		k := gitString(r.missing(want)).(ipldgit.String)
		if x := n.Lookup(k); x != nil {
			return fmt.Errorf("%s: Lookup finds %s, which is not there", path, short(k.String()))
		}
		if x := n.LookupMaybe(k); x.Exists() {
			return fmt.Errorf("%s: LookupMaybe finds %s, which is not there", path, short(k.String()))
		}
	case ipldgit.Blob:
		if string(n.Bytes()) != want.Str {
			return fmt.Errorf("%s: Bytes gives %s", path, short(string(n.Bytes())))
		}
	default:
		return fmt.Errorf("%s: unexpected type %T", path, n)
	}
	return nil
}

func linkTarget(n datamodel.Node) (datamodel.NodePrototype, error) {
	tl, ok := n.(schema.TypedLinkNode)
	if !ok {
		return nil, fmt.Errorf("%T is no typed link", n)
	}
	return tl.LinkTargetNodePrototype(), nil
}

func checkRead(x *Ctx, v BuildCase) error { return read(x, v, false) }

func read(x *Ctx, v BuildCase, foreign bool) error {
	kind := v.Obj.kind()
	val := v.Obj.val()
	d := &dice{s: v.Seed}
	var n datamodel.Node
	var err error
	how := d.roll(3)
	switch how {
	case 0:
		if n, err = parse(v.Obj.bytes()); err != nil {
			return err
		}
	default:
		typed, repr := protos(kind)
		p := typed
		if how == 2 {
			p = repr
		}
		if v.Seed%3 == 0 {
			// what no git object can hold, a node still can
			val = val.oddStrings(d)
		}
		nb := p.NewBuilder()
		if err := build(nb, val, d, v.Obj.Tree != nil); err != nil {
			return err
		}
		n = nb.Build()
	}
	x.class("%s %s", kind, []string{"decoded", "built", "built from representation"}[how])
	r := &reader{d: d, foreign: foreign, budget: 400}
	if err := r.coherent(kind, n, val, false, map[string]string{"commit": "commit", "tree": "tree"}[kind]); err != nil {
		return err
	}
	if err := r.accessors(kind, n, val); err != nil {
		return err
	}
	// all of it through the library's comparison, both ways
	un, err := untypedSame(val)
	if err != nil {
		return err
	}
	tn := n.(schema.TypedNode).Representation()
	if !datamodel.DeepEqual(tn, un) || !datamodel.DeepEqual(un, tn) {
		return fmt.Errorf("%s: the representation is not equal to the same value as a plain node", kind)
	}
	return nil
}

// oddStrings is the value with some of its strings empty, or nothing that can be
// written as git does.
func (v Val) oddStrings(d *dice) Val {
	if v.Kind == "string" && d.roll(4) == 0 {
		v.Str = []string{"", "", "\x00", "\n", " ", "a\nb\n\nc", "\xff", v.Str + "\n", v.Str + v.Str}[d.roll(9)]
	}
	vals := v.Vals
	v.Vals = make([]Val, len(vals))
	for i, x := range vals {
		v.Vals[i] = x.oddStrings(d)
	}
	return v
}

func untypedSame(v Val) (datamodel.Node, error) {
	nb := basicnode.Prototype.Any.NewBuilder()
	if err := assemble(nb, v, nil); err != nil {
		return nil, err
	}
	return nb.Build(), nil
}

// ---- single lookups, for findings ----

type LookupCase struct {
	Obj     Obj
	Path    []S
	Index   *int64 `json:",omitempty"`
	Foreign *S     `json:",omitempty"` // a key, as a node of another implementation
}

// checkLookup: the answer to any lookup is an entry or an error.
func checkLookup(x *Ctx, v LookupCase) error {
	n, err := parse(v.Obj.bytes())
	if err != nil {
		return err
	}
	for _, p := range v.Path {
		if n, err = n.LookupByString(string(p)); err != nil {
			return err
		}
	}
	if v.Index != nil {
		if _, err := n.LookupByIndex(*v.Index); (err == nil) != (*v.Index >= 0 && *v.Index < n.Length()) {
			return fmt.Errorf("index %d of %d: %v", *v.Index, n.Length(), err)
		}
	}
	if v.Foreign != nil {
		if _, err := n.LookupByNode(basicnode.NewString(string(*v.Foreign))); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	rules["C17"] = "a generated object, decoded or built, is read in every way the node interface offers, at every depth, as typed node and as representation: kinds, all scalar accessors (the right one and the wrong ones), lengths, iterators (in order, two at a time, beyond their end), lookups by string, node, segment and index of everything that is there and of things that are not, the typed accessors, link targets, copies made with the node's own prototype, and comparison with a plain node, all against the model's value; non-trivial as for C01-C04"
	register("C17", "read", 1500, 50000, genBuild, checkRead, func(v BuildCase) bool { return v.Obj.nontrivial() })
	register("C17", "lookup", 0, 0, func(t *rapid.T) LookupCase { return LookupCase{Obj: genObj(t)} }, checkLookup, always[LookupCase])
}
