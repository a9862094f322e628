package main

import (
	"bytes"
	"fmt"

	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
)

// nodeVal reads a node through the data model interface only.
func nodeVal(n datamodel.Node) (Val, error) {
	switch n.Kind() {
	case datamodel.Kind_Map:
		v := Val{Kind: "map"}
		it := n.MapIterator()
		if it == nil {
			return v, fmt.Errorf("map node without a map iterator: %T", n)
		}
		for !it.Done() {
			k, x, err := it.Next()
			if err != nil {
				return v, err
			}
			ks, err := k.AsString()
			if err != nil {
				return v, err
			}
			if x.IsAbsent() {
				continue
			}
			xv, err := nodeVal(x)
			if err != nil {
				return v, fmt.Errorf("%q: %w", ks, err)
			}
			v.add(ks, xv)
		}
		return v, nil
	case datamodel.Kind_List:
		v := Val{Kind: "list"}
		it := n.ListIterator()
		if it == nil {
			return v, fmt.Errorf("list node without a list iterator: %T", n)
		}
		for !it.Done() {
			_, x, err := it.Next()
			if err != nil {
				return v, err
			}
			xv, err := nodeVal(x)
			if err != nil {
				return v, err
			}
			v.Vals = append(v.Vals, xv)
		}
		return v, nil
	case datamodel.Kind_String:
		s, err := n.AsString()
		return Val{Kind: "string", Str: s}, err
	case datamodel.Kind_Bytes:
		b, err := n.AsBytes()
		return Val{Kind: "bytes", Str: string(b)}, err
	case datamodel.Kind_Link:
		l, err := n.AsLink()
		if err != nil {
			return Val{}, err
		}
		cl, ok := l.(cidlink.Link)
		if !ok {
			return Val{}, fmt.Errorf("link of type %T", l)
		}
		return Val{Kind: "link", Str: string(cl.Cid.Bytes())}, nil
	case datamodel.Kind_Null:
		return Val{Kind: "null"}, nil
	case datamodel.Kind_Int:
		i, err := n.AsInt()
		return Val{Kind: "int", Str: fmt.Sprint(i)}, err
	case datamodel.Kind_Bool:
		i, err := n.AsBool()
		return Val{Kind: "bool", Str: fmt.Sprint(i)}, err
	case datamodel.Kind_Float:
		i, err := n.AsFloat()
		return Val{Kind: "float", Str: fmt.Sprint(i)}, err
	}
	return Val{}, fmt.Errorf("node of kind %v", n.Kind())
}

func parse(raw []byte) (datamodel.Node, error) { return ipldgit.ParseObjectFromBuffer(raw) }

func encode(n datamodel.Node) ([]byte, error) {
	var b bytes.Buffer
	err := ipldgit.Encode(n, &b)
	return b.Bytes(), err
}

// roundTrip decodes raw and encodes the result.
func roundTrip(raw []byte) error {
	n, err := parse(raw)
	if err != nil {
		return fmt.Errorf("a well-formed object is rejected: %w\nobject: %s", err, short(string(raw)))
	}
	out, err := encode(n)
	if err != nil {
		return fmt.Errorf("a decoded object cannot be encoded: %w\nobject: %s", err, short(string(raw)))
	}
	if d := diffBytes(raw, out); d != "" {
		return fmt.Errorf("decoding and encoding changes the object: %s", d)
	}
	return nil
}

// protos gives the type level and the representation level prototype.
func protos(kind string) (datamodel.NodePrototype, datamodel.NodePrototype) {
	switch kind {
	case "commit":
		return ipldgit.Type.Commit, ipldgit.Type.Commit__Repr
	case "tag":
		return ipldgit.Type.Tag, ipldgit.Type.Tag__Repr
	case "tree":
		return ipldgit.Type.Tree, ipldgit.Type.Tree__Repr
	}
	return ipldgit.Type.Blob, ipldgit.Type.Blob__Repr
}
