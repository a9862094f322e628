package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"

	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	"pgregory.net/rapid"
)

// C19: results depend on nothing but the arguments.

type Op struct {
	Kind string
	I    int
	Seed uint64
}

type History struct {
	Mode string // "sequence", "reentrant" or "concurrent"
	Objs []Obj
	Bad  []S
	Ops  []Op
}

var opKinds = []string{"decode", "decode", "decode", "encode", "encode", "encode", "read", "bad", "bad", "failread", "failwrite", "panicread", "panicwrite", "build", "build", "inflate", "inflate", "badzlib", "failzlib"}

func genHistory(mode string, maxOps int) func(t *rapid.T) History {
	return func(t *rapid.T) History {
		h := History{Mode: mode}
		for n := 1 + u(t, 4); n > 0; n-- {
			o := smallObj(t, 20000)
			h.Objs = append(h.Objs, o)
			if chance(t, 1, 3) { // a near twin, which a cache could take for the first
				h.Objs = append(h.Objs, twin(t, o))
			}
		}
		if chance(t, 1, 6) {
			// Beyond the usual sizes, with a twin.
			o := largeObj(t)
			h.Objs = append(h.Objs, o, twin(t, o))
		}
		for n := u(t, 3); n > 0; n-- {
			raw := h.Objs[u(t, len(h.Objs))].bytes()
			h.Bad = append(h.Bad, S(mutate(t, raw)))
		}
		for n := 2 + u(t, maxOps-2); n > 0; n-- {
			h.Ops = append(h.Ops, Op{Kind: pick(t, opKinds), I: u(t, 64), Seed: u64.Draw(t, "op")})
		}
		return h
	}
}

// largeObj is an object of up to some 300 kB.
func largeObj(t *rapid.T) Obj {
	size := pick(t, []int{33000, 40000, 66000, 100000, 135000, 270000})
	unit := text(t, "") + pick(t, []string{"a", "b\n", "\x00"})
	s := S(strings.Repeat(unit, size/len(unit)+1))[:size]
	h := genHash(t)
	p := genPerson(t)
	switch u(t, 4) {
	case 0:
		return Obj{Commit: &Commit{Tree: h, Author: p, Committer: p, Msg: s}}
	case 1:
		return Obj{Tag: &Tag{Object: h, Type: "commit", Tag: "v1", Msg: "m" + s}}
	default:
		return Obj{Blob: &Blob{s}}
	}
}

// nearHash differs in one byte.
func nearHash(t *rapid.T, h Hash) Hash {
	h[pick(t, []int{19, 0, 7, 8, 10, 12, 15, 16, 18})] ^= byte(1 + u(t, 255))
	return h
}

// nearText differs in one byte and has the same length, unless it is empty.
func nearText(t *rapid.T, s S, forbid string) S {
	if s == "" {
		return "z"
	}
	b := []byte(s)
	i := u(t, len(b))
	for _, c := range []byte("abc") {
		if b[i] != c {
			b[i] = c
			break
		}
	}
	return S(sanitize(string(b), forbid))
}

// twin is an object of the same type and nearly the same content.
func twin(t *rapid.T, o Obj) Obj {
	switch {
	case o.Commit != nil:
		c := *o.Commit
		switch u(t, 10) {
		case 6:
			c.Tree = nearHash(t, c.Tree)
		case 7:
			c.Parents = append([]Hash{}, c.Parents...)
			if len(c.Parents) > 0 {
				i := u(t, len(c.Parents))
				c.Parents[i] = nearHash(t, c.Parents[i])
			} else {
				c.Parents = append(c.Parents, nearHash(t, c.Tree))
			}
		case 8:
			c.Msg = nearText(t, c.Msg, "")
		case 9:
			q := Person{Name: "A"}
			if c.Author != nil {
				q = *c.Author
			}
			switch u(t, 3) {
			case 0:
				q.Name = nearText(t, q.Name, headerForbid+"<>")
			case 1:
				q.Email = nearText(t, q.Email, headerForbid+"<>")
			default:
				if q.Date != "" {
					q.Date = nearText(t, q.Date, headerForbid+" ")
				}
			}
			c.Author = &q
		case 0:
			c.Msg += "x"
		case 1:
			c.Sig = nil
		case 2:
			c.Merge = nil
		case 3:
			c.Encoding = nil
		case 4:
			c.Author, c.Committer = c.Committer, c.Author
		default:
			c.Parents = append(append([]Hash{}, c.Parents...), genHash(t))
		}
		// what comes first in the list of other headers is not indented
		if c.Sig == nil && len(c.Other) > 0 && c.Other[0] != "" && c.Other[0][0] == ' ' {
			c.Other = nil
		}
		return Obj{Commit: &c}
	case o.Tag != nil:
		g := *o.Tag
		switch u(t, 6) {
		case 0:
			g.Msg += "x"
		case 1:
			g.Tagger = nil
		case 2:
			g.Object = nearHash(t, g.Object)
		case 3:
			g.Tag = nearText(t, g.Tag, headerForbid)
		case 4:
			if g.Msg != "" {
				g.Msg = nearText(t, g.Msg, "")
			}
		default:
			g.Object = genHash(t)
		}
		return Obj{Tag: &g}
	case o.Tree != nil:
		g := Tree{Entries: append([]Entry{}, o.Tree.Entries...)}
		if len(g.Entries) == 0 {
			g.Entries = []Entry{{Mode: "100644", Name: "a", Hash: genHash(t)}}
		} else {
			e := &g.Entries[u(t, len(g.Entries))]
			switch u(t, 3) {
			case 0:
				e.Hash = nearHash(t, e.Hash)
			case 1:
				e.Mode = pick(t, modes)
			default:
				e.Hash = genHash(t)
			}
		}
		return Obj{Tree: &g}
	}
	d := []byte(o.Blob.Data)
	if len(d) == 0 {
		d = []byte("x")
	} else {
		d[u(t, len(d))] ^= 1
	}
	return Obj{Blob: &Blob{S(d)}}
}

func (h History) key() []byte {
	var b bytes.Buffer
	b.WriteString(h.Mode)
	for _, o := range h.Objs {
		b.Write(o.bytes())
	}
	for _, o := range h.Bad {
		b.WriteString(string(o))
	}
	fmt.Fprint(&b, h.Ops)
	return b.Bytes()
}

// held is a node that was obtained at some point, with what it must read as and
// be encoded as for all time.
type held struct {
	n       datamodel.Node
	val     Val
	raw     []byte
	untyped bool
}

type world struct {
	h       *History
	raws    [][]byte
	vals    []Val
	badVal  []*Val // what the bad inputs decode to, nil when they are rejected
	nodes   []held
	hook    func() error // runs within reads and writes
	depth   int
	builder map[string]datamodel.NodeBuilder
	frozen  bool // nodes are shared with others: do not add any
}

func newWorld(h *History) (*world, error) {
	w := &world{h: h, builder: map[string]datamodel.NodeBuilder{}}
	for _, o := range h.Objs {
		w.raws = append(w.raws, o.bytes())
		w.vals = append(w.vals, o.val())
	}
	for _, b := range h.Bad {
		n, err := parse([]byte(b))
		var vp *Val
		if err == nil {
			v, err := nodeVal(n)
			if err != nil {
				return nil, err
			}
			vp = &v
		}
		w.badVal = append(w.badVal, vp)
	}
	return w, nil
}

var errInjected = errors.New("injected")

// hookReader gives a few bytes at a time and runs the world's hook in between.
type hookReader struct {
	r     io.Reader
	w     *world
	chunk int
	err   *error
	left  int
	fail  error // at the end, instead of EOF
	panik bool
}

func (r *hookReader) Read(p []byte) (int, error) {
	if r.w.hook != nil {
		if err := r.w.hook(); err != nil && *r.err == nil {
			*r.err = err
		}
	}
	if r.left == 0 {
		if r.panik {
			panic(errInjected)
		}
		if r.fail != nil {
			return 0, r.fail
		}
	}
	n := min(len(p), r.chunk)
	if r.left > 0 {
		n = min(n, r.left)
	}
	k, err := r.r.Read(p[:n])
	if r.left > 0 {
		r.left -= k
	}
	return k, err
}

type hookWriter struct {
	b     bytes.Buffer
	w     *world
	err   *error
	left  int
	fail  bool
	panik bool
}

func (x *hookWriter) Write(p []byte) (int, error) {
	if x.w.hook != nil {
		if err := x.w.hook(); err != nil && *x.err == nil {
			*x.err = err
		}
	}
	if x.left >= 0 && len(p) > x.left {
		if x.panik {
			panic(errInjected)
		}
		if x.fail {
			n := x.left
			x.b.Write(p[:n])
			x.left = 0
			return n, errInjected
		}
	}
	if x.left >= 0 {
		x.left -= len(p)
	}
	return x.b.Write(p)
}

func scribble(b []byte) {
	for i := range b {
		b[i] = 0xa5
	}
}

func (w *world) keep(n datamodel.Node, i int, untyped bool) {
	if !w.frozen && len(w.nodes) < 60 {
		w.nodes = append(w.nodes, held{n, w.vals[i], w.raws[i], untyped})
	}
}

func (w *world) readBack(what string, h held) error {
	got, err := nodeVal(h.n)
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	if d := diff("", h.val, got); d != "" {
		return fmt.Errorf("%s: %s", what, d)
	}
	return nil
}

// take compares what was decoded from an object and holds on to it.
func (w *world) take(n datamodel.Node, i int, name string) error {
	_, typed := n.(interface{ Representation() datamodel.Node })
	h := held{n, w.vals[i], w.raws[i], !typed}
	if err := w.readBack(fmt.Sprintf("object %d decoded by %s", i, name), h); err != nil {
		return err
	}
	w.keep(n, i, !typed)
	return nil
}

func (w *world) do(op Op) (err error) {
	d := &dice{s: op.Seed}
	var nested error
	defer func() {
		if err == nil && nested != nil {
			err = fmt.Errorf("within another operation: %w", nested)
		}
	}()
	pickObj := op.I % len(w.h.Objs)
	var pickNode *held
	if len(w.nodes) > 0 {
		pickNode = &w.nodes[op.I%len(w.nodes)]
	}
	switch op.Kind {
	case "decode":
		eps := entryPoints(d.roll(1 << 20))
		buf := append([]byte{}, w.raws[pickObj]...)
		var n datamodel.Node
		var name string
		if w.hook != nil || d.roll(2) == 0 {
			name = "ParseObject"
			n, err = ipldgit.ParseObject(&hookReader{r: bytes.NewReader(buf), w: w, chunk: 1 + d.roll(200), left: -1, err: &nested})
		} else {
			e := eps[d.roll(len(eps))]
			name = e.name
			n, err = e.f(buf)
		}
		if err != nil {
			return fmt.Errorf("%s rejects object %d: %w", name, pickObj, err)
		}
		if !bytes.Equal(buf, w.raws[pickObj]) {
			return fmt.Errorf("%s changes its input", name)
		}
		scribble(buf)
		return w.take(n, pickObj, name)
	case "inflate":
		z := deflate(w.raws[pickObj], d.roll(15))
		n, err := ipldgit.ParseCompressedObject(&hookReader{r: bytes.NewReader(z), w: w, chunk: 1 + d.roll(200), left: -1, err: &nested})
		if err != nil {
			return fmt.Errorf("object %d is rejected when compressed: %w", pickObj, err)
		}
		return w.take(n, pickObj, "ParseCompressedObject")
	case "badzlib":
		// No zlib stream, or a damaged one.
		z := deflate(w.raws[pickObj], d.roll(15))
		switch d.roll(4) {
		case 0:
			z[0] ^= byte(1 + d.roll(255)) // the header has a check of its own
		case 1:
			z[len(z)-1-d.roll(4)] ^= byte(1 + d.roll(255)) // the checksum
		case 2:
			z = z[:d.roll(len(z))]
		default:
			z = w.raws[pickObj] // not compressed at all
		}
		_, err := ipldgit.ParseCompressedObject(&hookReader{r: bytes.NewReader(z), w: w, chunk: 1 + d.roll(200), left: -1, err: &nested})
		if err == nil {
			return fmt.Errorf("object %d is accepted from a damaged stream", pickObj)
		}
	case "failzlib":
		z := deflate(w.raws[pickObj], d.roll(15))
		r := &hookReader{r: bytes.NewReader(z), w: w, chunk: 1 + d.roll(200), left: d.roll(len(z)), fail: errInjected, panik: d.roll(2) == 0, err: &nested}
		if err := catch(func() error { _, err := ipldgit.ParseCompressedObject(r); return err }); err == nil {
			return fmt.Errorf("object %d is accepted although reading its compressed form failed", pickObj)
		}
	case "encode", "read":
		if pickNode == nil {
			return nil
		}
		if op.Kind == "encode" && !(pickNode.untyped && pickNode.raw[0] == 't' && pickNode.raw[1] == 'r') {
			out := &hookWriter{w: w, left: -1, err: &nested}
			if err := ipldgit.Encode(pickNode.n, out); err != nil {
				return fmt.Errorf("cannot be encoded: %w", err)
			}
			if df := diffBytes(pickNode.raw, out.b.Bytes()); df != "" {
				return fmt.Errorf("encoded differently: %s", df)
			}
		}
		if !pickNode.untyped && d.roll(3) == 0 {
			// by every means, not only by iterators
			kind := kindOf(pickNode.raw)
			r := &reader{d: d, budget: 30}
			return r.coherent("a node from before: "+kind, pickNode.n, pickNode.val, false, map[string]string{"commit": "commit", "tree": "tree"}[kind])
		}
		return w.readBack("a node from before", *pickNode)
	case "bad":
		if len(w.h.Bad) == 0 {
			return nil
		}
		i := op.I % len(w.h.Bad)
		eps := entryPoints(d.roll(1 << 20))
		e := eps[d.roll(len(eps))]
		n, err := e.f([]byte(w.h.Bad[i]))
		if (err == nil) != (w.badVal[i] != nil) {
			return fmt.Errorf("input %d is accepted or not depending on what went before: %v", i, err)
		}
		if err == nil {
			return w.readBack(e.name, held{n: n, val: *w.badVal[i]})
		}
	case "failread", "panicread":
		raw := w.raws[pickObj]
		// less than the object, and for blobs too: what follows is not read
		r := &hookReader{r: bytes.NewReader(raw), w: w, chunk: 1 + d.roll(200), left: d.roll(len(raw)), fail: errInjected, panik: op.Kind == "panicread", err: &nested}
		err := catch(func() error { _, err := ipldgit.ParseObject(r); return err })
		if err == nil {
			return fmt.Errorf("object %d is accepted although reading it failed", pickObj)
		}
	case "failwrite", "panicwrite":
		if pickNode == nil {
			return nil
		}
		out := &hookWriter{w: w, left: d.roll(len(pickNode.raw)), fail: true, panik: op.Kind == "panicwrite", err: &nested}
		if err := catch(func() error { return ipldgit.Encode(pickNode.n, out) }); err == nil {
			return fmt.Errorf("encoding succeeds although writing failed")
		}
		return w.readBack("a node after a failed write", *pickNode)
	case "build":
		kind := w.h.Objs[pickObj].kind()
		nb := w.builder[kind]
		if nb == nil {
			typed, repr := protos(kind)
			if d.roll(2) == 0 {
				typed = repr
			}
			nb = typed.NewBuilder()
			w.builder[kind] = nb
		} else {
			nb.Reset()
		}
		if err := build(nb, w.vals[pickObj], d, kind == "tree"); err != nil {
			return fmt.Errorf("a %s cannot be built: %w", kind, err)
		}
		n := nb.Build()
		if err := w.readBack("a built "+kind, held{n: n, val: w.vals[pickObj]}); err != nil {
			return err
		}
		w.keep(n, pickObj, false)
	}
	return nil
}

// catch runs f and takes the panic that a reader or writer was told to raise,
// which passes through the code under test, for an error.
func catch(f func() error) (err error) {
	defer func() {
		if x := recover(); x != nil {
			if x != any(errInjected) {
				panic(x)
			}
			err = errInjected
		}
	}()
	return f()
}

func (w *world) final() error {
	for i, h := range w.nodes {
		if err := w.readBack(fmt.Sprintf("node %d at the end", i), h); err != nil {
			return err
		}
		if h.untyped {
			continue
		}
		for k := 0; k < 2; k++ {
			out, err := encode(h.n)
			if err != nil {
				return err
			}
			if df := diffBytes(h.raw, out); df != "" {
				return fmt.Errorf("node %d at the end is encoded differently: %s", i, df)
			}
		}
	}
	return nil
}

func checkHistory(x *Ctx, h History) error {
	w, err := newWorld(&h)
	if err != nil {
		return err
	}
	for _, op := range h.Ops {
		x.class("%s: %s", h.Mode, op.Kind)
	}
	switch h.Mode {
	case "sequence":
		for i, op := range h.Ops {
			if err := w.do(op); err != nil {
				return fmt.Errorf("operation %d (%s): %w", i, op.Kind, err)
			}
		}
	case "reentrant":
		// Operations run to completion within the reads and writes of others.
		next := 0
		var step func() error
		step = func() error {
			if next >= len(h.Ops) || w.depth >= 3 {
				return nil
			}
			op := h.Ops[next]
			next++
			w.depth++
			defer func() { w.depth-- }()
			if err := w.do(op); err != nil {
				return fmt.Errorf("operation %d (%s): %w", next-1, op.Kind, err)
			}
			return nil
		}
		w.hook = func() error {
			if w.depth == 0 {
				return nil
			}
			return step()
		}
		for next < len(h.Ops) {
			if err := step(); err != nil {
				return err
			}
		}
		w.hook = nil
	case "concurrent":
		for i := range h.Objs {
			n, err := parse(w.raws[i])
			if err != nil {
				return err
			}
			w.keep(n, i, false)
			kind := h.Objs[i].kind()
			typed, _ := protos(kind)
			nb := typed.NewBuilder()
			if err := build(nb, w.vals[i], &dice{s: uint64(i)}, kind == "tree"); err != nil {
				return err
			}
			w.keep(nb.Build(), i, false)
		}
		const workers = 4
		errs := make([]error, workers)
		var wg sync.WaitGroup
		var ready sync.WaitGroup
		ready.Add(workers)
		for g := 0; g < workers; g++ {
			own := &world{h: &h, raws: w.raws, vals: w.vals, badVal: w.badVal, nodes: w.nodes, frozen: true, builder: map[string]datamodel.NodeBuilder{}}
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						errs[g] = fmt.Errorf("panic: %v", x)
					}
				}()
				ready.Done()
				ready.Wait()
				for i := range h.Ops {
					op := h.Ops[(i*(2*g+1)+g)%len(h.Ops)]
					op.Seed += uint64(g)
					if err := own.do(op); err != nil {
						errs[g] = fmt.Errorf("goroutine %d, operation %d (%s): %w", g, i, op.Kind, err)
						return
					}
				}
			}(g)
		}
		wg.Wait()
		if err := errors.Join(errs...); err != nil {
			return err
		}
	}
	return w.final()
}

func init() {
	rules["C19"] = "a generated history over 1 to 8 objects (near twins among them) and up to 2 mutants: decoding by any of 14 entry points, compressed too, from streams that are sound, damaged, failing or none at all, encoding, reading, building with builders that are reset and used again, inputs that are rejected, readers and writers that fail or panic midway; in sequence, re-entrant (operations run within the reads and writes of others, three deep) or by four goroutines at once on shared nodes under the race detector; input buffers are overwritten after decoding; every result must be the model's, and every node ever obtained must read and encode the same at the end; non-trivial: at least 3 operations"
	nt := func(h History) bool { return len(h.Ops) >= 3 }
	register("C19", "sequence", 250, 8000, genHistory("sequence", 40), checkHistory, nt)
	register("C19", "reentrant", 250, 8000, genHistory("reentrant", 24), checkHistory, nt)
	register("C19", "concurrent", 250, 8000, genHistory("concurrent", 24), checkHistory, nt)
}
