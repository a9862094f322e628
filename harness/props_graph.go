package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
	ipld "github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/schema"
	"github.com/ipld/go-ipld-prime/traversal"
	"github.com/ipld/go-ipld-prime/traversal/selector"
	selb "github.com/ipld/go-ipld-prime/traversal/selector/builder"
	"pgregory.net/rapid"
)

// C09: a repository as a graph.

// Repo is a list of objects; each link of one of them leads to an earlier one.
type Repo struct {
	Objs  []Obj
	Seed  uint64
	Walks []Walk
}

type Walk struct {
	From int
	Seed uint64
}

func (r Repo) key() []byte {
	var b bytes.Buffer
	for _, o := range r.Objs {
		b.Write(o.bytes())
	}
	fmt.Fprint(&b, r.Walks)
	return b.Bytes()
}

// genRepo draws blobs, trees of blobs and trees, commits and tags.
func genRepo(t *rapid.T) Repo {
	r := Repo{Seed: u64.Draw(t, "seed")}
	byKind := map[string][]Hash{}
	seen := map[Hash]bool{}
	add := func(o Obj) {
		h := objectHash(o.bytes())
		if seen[h] {
			return
		}
		seen[h] = true
		r.Objs = append(r.Objs, o)
		byKind[o.kind()] = append(byKind[o.kind()], h)
	}
	any := func() (Hash, S) {
		k := kinds[u(t, len(kinds))]
		for len(byKind[k]) == 0 {
			k = "tree"
		}
		return pick(t, byKind[k]), S(k)
	}
	for n := 1 + u(t, 4); n > 0; n-- {
		b := genBlob(t)
		if len(b.Data) > 5000 {
			b.Data = b.Data[:5000]
		}
		add(Obj{Blob: &b})
	}
	for n := 1 + u(t, 5); n > 0; n-- {
		tr := genTree(t)
		tr.Entries = tr.Entries[:min(len(tr.Entries), 5)]
		for i := range tr.Entries {
			e := &tr.Entries[i]
			if len(byKind["tree"]) > 0 && chance(t, 1, 2) {
				e.Mode, e.Hash = "40000", pick(t, byKind["tree"])
			} else {
				e.Mode, e.Hash = "100644", pick(t, byKind["blob"])
			}
		}
		if chance(t, 1, 4) { // names that could be taken for positions
			names := pick(t, [][]S{{"1", "0", "3", "2", "4"}, {"2", "00", "0", "+1", "1"}, {"4", "3", "2", "1", "0"}, {"1", "2", "3", "4", "5"}, {"-1", "0x1", "1e0", "01", "0"}})
			for i := range tr.Entries {
				tr.Entries[i].Name = names[i]
			}
		}
		add(Obj{Tree: &tr})
	}
	for n := 1 + u(t, 5); n > 0; n-- {
		o := smallObj(t, 1000)
		c := genCommit(t)
		if o.Commit != nil {
			c = *o.Commit
		}
		c.Tree = pick(t, byKind["tree"])
		c.Parents = nil
		for k := len(byKind["commit"]); k > 0 && len(c.Parents) < 4; k-- {
			if chance(t, 2, 3) {
				c.Parents = append(c.Parents, byKind["commit"][k-1])
			}
		}
		c.Merge = append([]MergeTag{}, c.Merge[:min(len(c.Merge), 3)]...)
		for i := range c.Merge {
			c.Merge[i].Object, c.Merge[i].Type = any()
		}
		add(Obj{Commit: &c})
	}
	for n := u(t, 4); n > 0; n-- {
		g := genTag(t)
		g.Object, g.Type = any()
		add(Obj{Tag: &g})
	}
	for n := 2 + u(t, 6); n > 0; n-- {
		r.Walks = append(r.Walks, Walk{From: len(r.Objs) - 1 - u(t, len(r.Objs))*u(t, len(r.Objs))/len(r.Objs), Seed: u64.Draw(t, "walk")})
	}
	return r
}

type memStore map[string][]byte

func (m memStore) system() ipld.LinkSystem {
	ls := cidlink.DefaultLinkSystem()
	ls.StorageWriteOpener = func(linking.LinkContext) (io.Writer, linking.BlockWriteCommitter, error) {
		var b bytes.Buffer
		return &b, func(l datamodel.Link) error { m[l.Binary()] = b.Bytes(); return nil }, nil
	}
	ls.StorageReadOpener = func(_ linking.LinkContext, l datamodel.Link) (io.Reader, error) {
		b, ok := m[l.Binary()]
		if !ok {
			return nil, fmt.Errorf("no block %s", l)
		}
		return chunked(b, len(b)), nil
	}
	return ls
}

var gitPrototype = cidlink.LinkPrototype{Prefix: cid.Prefix{Version: 1, Codec: cid.GitRaw, MhType: 0x11, MhLength: 20}}

// links lists the links within a value, depth first.
func links(v Val, out *[]string) {
	if v.Kind == "link" {
		*out = append(*out, v.Str)
	}
	for _, x := range v.Vals {
		links(x, out)
	}
}

func checkRepo(x *Ctx, r Repo) error {
	store := memStore{}
	ls := store.system()
	ctx := context.Background()
	d := &dice{s: r.Seed}
	byLink := map[string]*Obj{}
	for i := range r.Objs {
		o := &r.Objs[i]
		raw := o.bytes()
		want := gitCid(objectHash(raw))
		byLink[string(want.Bytes())] = o
		// decoded or built, as typed node, as representation or as a plain node
		var n datamodel.Node
		var err error
		form := d.roll(4)
		switch form {
		case 0, 1:
			n, err = parse(raw)
		case 2:
			typed, _ := protos(o.kind())
			nb := typed.NewBuilder()
			err = build(nb, o.val(), d, o.Tree != nil)
			if err == nil {
				n = nb.Build()
			}
		default:
			if o.Tree != nil {
				n, err = parse(raw)
			} else {
				n, err = untyped(o.val(), d)
			}
		}
		if err != nil {
			return fmt.Errorf("object %d: %w", i, err)
		}
		if tn, ok := n.(schema.TypedNode); ok && form == 1 {
			n = tn.Representation()
		}
		l, err := ls.ComputeLink(gitPrototype, n)
		if err != nil {
			return fmt.Errorf("object %d (%s): %w", i, o.kind(), err)
		}
		if l.Binary() != string(want.Bytes()) {
			return fmt.Errorf("the link of object %d (%s) is computed as %s, want %s", i, o.kind(), l, want)
		}
		l, err = ls.Store(linking.LinkContext{Ctx: ctx}, gitPrototype, n)
		if err != nil {
			return fmt.Errorf("object %d (%s) cannot be stored: %w", i, o.kind(), err)
		}
		if l.Binary() != string(want.Bytes()) {
			return fmt.Errorf("object %d (%s) is stored as %s, want %s", i, o.kind(), l, want)
		}
		if df := diffBytes(raw, store[l.Binary()]); df != "" {
			return fmt.Errorf("object %d (%s) is stored differently: %s", i, o.kind(), df)
		}
		x.class("stored %s", o.kind())
	}
	// What was stored comes back.
	for k, o := range byLink {
		c, _ := cid.Cast([]byte(k))
		typed, repr := protos(o.kind())
		for _, p := range []datamodel.NodePrototype{typed, repr, basicnode.Prototype.Any} {
			n, err := ls.Load(linking.LinkContext{Ctx: ctx}, cidlink.Link{Cid: c}, p)
			if err != nil {
				return fmt.Errorf("a %s cannot be loaded: %w", o.kind(), err)
			}
			if err := sameVal(o.kind(), n, o.val()); err != nil {
				return err
			}
		}
		// As anything else it is not to be had.
		other := kinds[d.roll(len(kinds))]
		if other == o.kind() {
			continue
		}
		typed, repr = protos(other)
		for _, p := range []datamodel.NodePrototype{typed, repr} {
			n, err := ls.Load(linking.LinkContext{Ctx: ctx}, cidlink.Link{Cid: c}, p)
			if err == nil {
				return fmt.Errorf("a %s is loaded as a %s", o.kind(), other)
			}
			if n != nil {
				return fmt.Errorf("a %s loaded as a %s gives a node and an error", o.kind(), other)
			}
		}
	}
	if err := r.misled(x, &ls, byLink, d); err != nil {
		return err
	}
	if err := local(r.Objs[int(r.Seed%uint64(len(r.Objs)))]); err != nil {
		return err
	}
	for _, w := range r.Walks {
		if err := r.walk(x, &ls, byLink, w); err != nil {
			return err
		}
	}
	return r.reach(x, ls, byLink)
}

// misled follows the links of a commit that do not lead to what they promise.
func (r Repo) misled(x *Ctx, ls *ipld.LinkSystem, byLink map[string]*Obj, d *dice) error {
	o := r.Objs[d.roll(len(r.Objs))]
	h := objectHash(o.bytes())
	c := Commit{Tree: h, Parents: []Hash{h}, Msg: "m"}
	start, err := parse(frame("commit", c.body()))
	if err != nil {
		return err
	}
	v := o.val()
	for _, at := range []struct{ path, kind string }{{"tree", "tree"}, {"parents/0", "commit"}} {
		p := datamodel.ParsePath(at.path)
		prog := traversal.Progress{Cfg: &traversal.Config{LinkSystem: *ls, LinkTargetNodePrototypeChooser: chooser}}
		got, err := prog.Get(start, p)
		x.class("%s leads to a %s", at.kind, o.kind())
		if at.kind != o.kind() {
			if err == nil {
				return fmt.Errorf("a %s is found where a commit's %s should be", o.kind(), at.path)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("%s: %w", at.path, err)
		}
		if err := sameVal(at.path, got, v); err != nil {
			return err
		}
	}
	return nil
}

var chooser = traversal.LinkTargetNodePrototypeChooser(func(l datamodel.Link, lc linking.LinkContext) (datamodel.NodePrototype, error) {
	if tl, ok := lc.LinkNode.(schema.TypedLinkNode); ok {
		return tl.LinkTargetNodePrototype(), nil
	}
	return basicnode.Prototype.Any, nil
})

// walk follows a random path through the model and asks for the same path.
func (r Repo) walk(x *Ctx, ls *ipld.LinkSystem, byLink map[string]*Obj, w Walk) error {
	d := &dice{s: w.Seed}
	from := r.Objs[w.From%len(r.Objs)]
	start, err := parse(from.bytes())
	if err != nil {
		return err
	}
	var path []datamodel.PathSegment
	var kinds []string // what each segment is looked up in
	v := from.val()
	crossed, broken := 0, false
	for steps := 1 + d.roll(24); steps > 0; steps-- {
		if v.Kind != "map" && v.Kind != "list" { // nothing lies below
			if d.roll(4) == 0 {
				path = append(path, datamodel.PathSegmentOfString([]string{"0", "", "x", "tree", "/"}[d.roll(5)]))
				kinds = append(kinds, v.Kind)
				broken = true
			}
			break
		}
		if len(v.Vals) == 0 || d.roll(40) == 0 { // leave the way
			seg := []string{"nowhere", "", "0", "1", "typ", "Tree", "GpgSig", strconv.Itoa(len(v.Vals) - 1)}[d.roll(8)]
			if v.Kind == "list" {
				seg = strconv.Itoa(len(v.Vals) + d.roll(3))
			}
			if v.Kind == "list" || !has(v, seg) {
				path = append(path, datamodel.PathSegmentOfString(seg))
				kinds = append(kinds, v.Kind)
				broken = true
				break
			}
			if len(v.Vals) == 0 {
				break
			}
		}
		i := d.roll(len(v.Vals))
		for k := 0; k < 6; k++ { // rather where links are
			var ls []string
			if links(v.Vals[i], &ls); len(ls) > 0 {
				break
			}
			i = d.roll(len(v.Vals))
		}
		kinds = append(kinds, v.Kind)
		if v.Kind == "map" {
			path = append(path, datamodel.PathSegmentOfString(v.Keys[i]))
		} else if d.roll(2) == 0 {
			path = append(path, datamodel.PathSegmentOfInt(int64(i)))
		} else {
			path = append(path, datamodel.PathSegmentOfString(strconv.Itoa(i)))
		}
		v = v.Vals[i]
		if v.Kind == "link" {
			o := byLink[v.Str]
			if o == nil {
				return fmt.Errorf("the model has no object %x", v.Str)
			}
			crossed++
			v = o.val()
		}
	}
	if len(path) == 0 {
		return nil
	}
	x.class("walk over %d links, broken %v", min(crossed, 8), broken)
	p := datamodel.NewPath(path)
	loads := 0
	counting := *ls
	open := ls.StorageReadOpener
	counting.StorageReadOpener = func(lc linking.LinkContext, l datamodel.Link) (io.Reader, error) {
		loads++
		return open(lc, l)
	}
	prog := func() *traversal.Progress {
		return &traversal.Progress{Cfg: &traversal.Config{LinkSystem: counting, LinkTargetNodePrototypeChooser: chooser}}
	}
	for _, s := range []datamodel.Node{start, start.(schema.TypedNode).Representation()} {
		loads = 0
		got, err := prog().Get(s, p)
		if broken {
			if err == nil {
				return fmt.Errorf("path %s leads nowhere, but something is found", short(p.String()))
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("path %s from a %s: %w", short(p.String()), from.kind(), err)
		}
		if loads != crossed {
			return fmt.Errorf("path %s crosses %d links, but %d blocks are loaded", short(p.String()), crossed, loads)
		}
		if err := sameVal(p.String(), got, v); err != nil {
			return err
		}
		var seen Val
		err = prog().Focus(s, p, func(_ traversal.Progress, n datamodel.Node) error {
			seen, err = nodeVal(n)
			return err
		})
		if err != nil {
			return fmt.Errorf("focus on %s: %w", short(p.String()), err)
		}
		if df := diff(p.String(), v, seen); df != "" {
			return errors.New(df)
		}
	}
	if w.Seed%3 == 0 {
		return r.selectPath(x, prog, start, path, kinds, v, broken)
	}
	return nil
}

// selectPath follows a path with a selector, which must match the one value, or
// nothing.
func (r Repo) selectPath(x *Ctx, prog func() *traversal.Progress, start datamodel.Node, path []datamodel.PathSegment, kinds []string, v Val, broken bool) error {
	sb := selb.NewSelectorSpecBuilder(basicnode.Prototype.Any)
	spec := sb.Matcher()
	for i := len(path) - 1; i >= 0; i-- {
		next := spec
		idx, err := path[i].Index()
		switch {
		case kinds[i] == "list" && err == nil && path[i].String()[0]%2 == 0:
			spec = sb.ExploreRange(idx, idx+1, next)
		case kinds[i] == "list" && err == nil:
			spec = sb.ExploreIndex(idx, next)
		default:
			spec = sb.ExploreFields(func(b selb.ExploreFieldsSpecBuilder) { b.Insert(path[i].String(), next) })
		}
	}
	sel, err := selector.CompileSelector(spec.Node())
	if err != nil {
		return fmt.Errorf("selector: %w", err)
	}
	p := datamodel.NewPath(path)
	for _, s := range []datamodel.Node{start, start.(schema.TypedNode).Representation()} {
		matches := 0
		err := prog().WalkMatching(s, sel, func(at traversal.Progress, n datamodel.Node) error {
			matches++
			if at.Path.String() != p.String() {
				return fmt.Errorf("matched at %s", at.Path)
			}
			return sameVal(p.String(), n, v)
		})
		if err != nil {
			return fmt.Errorf("selecting %s: %w", short(p.String()), err)
		}
		if want := map[bool]int{false: 1, true: 0}[broken]; matches != want {
			return fmt.Errorf("selecting %s matches %d nodes, want %d", short(p.String()), matches, want)
		}
	}
	x.class("selected, broken %v", broken)
	return nil
}

// local visits all there is in one object, and the links in it.
func local(o Obj) error {
	n, err := parse(o.bytes())
	if err != nil {
		return err
	}
	var want []string
	links(o.val(), &want)
	var all func(path string, v Val, out map[string]Val)
	all = func(path string, v Val, out map[string]Val) {
		out[path] = v
		for i, y := range v.Vals {
			seg := strconv.Itoa(i)
			if v.Kind == "map" {
				seg = v.Keys[i]
			}
			all(path+"\xff"+seg, y, out)
		}
	}
	vals := map[string]Val{}
	all("", o.val(), vals)
	for _, s := range []datamodel.Node{n, n.(schema.TypedNode).Representation()} {
		ls, err := traversal.SelectLinks(s)
		if err != nil {
			return fmt.Errorf("the links of a %s: %w", o.kind(), err)
		}
		if len(ls) != len(want) {
			return fmt.Errorf("a %s has %d links, want %d", o.kind(), len(ls), len(want))
		}
		for i := range ls {
			if ls[i].Binary() != want[i] {
				return fmt.Errorf("link %d of a %s is %s, want %x", i, o.kind(), ls[i], want[i])
			}
		}
		seen := 0
		err = traversal.WalkLocal(s, func(at traversal.Progress, n datamodel.Node) error {
			if n.IsAbsent() {
				return nil
			}
			key := ""
			for _, seg := range at.Path.Segments() {
				key += "\xff" + seg.String()
			}
			v, ok := vals[key]
			if !ok {
				return fmt.Errorf("there is nothing at %s", at.Path)
			}
			seen++
			if len(v.Vals) > 0 {
				return nil
			}
			return sameVal(at.Path.String(), n, v)
		})
		if err != nil {
			return fmt.Errorf("walking a %s: %w", o.kind(), err)
		}
		if seen != len(vals) {
			return fmt.Errorf("walking a %s visits %d values of %d", o.kind(), seen, len(vals))
		}
	}
	return nil
}

// reach walks all there is from an object, and compares the blocks that are
// loaded with the ones the model reaches.
func (r Repo) reach(x *Ctx, ls ipld.LinkSystem, byLink map[string]*Obj) error {
	from := r.Objs[len(r.Objs)-1-int(r.Seed%uint64(min(3, len(r.Objs))))]
	want := map[string]bool{}
	var visit func(v Val)
	visit = func(v Val) {
		var ks []string
		links(v, &ks)
		for _, k := range ks {
			if !want[k] {
				want[k] = true
				visit(byLink[k].val())
			}
		}
	}
	visit(from.val())
	got := map[string]bool{}
	open := ls.StorageReadOpener
	ls.StorageReadOpener = func(lc linking.LinkContext, l datamodel.Link) (io.Reader, error) {
		got[l.Binary()] = true
		return open(lc, l)
	}
	sb := selb.NewSelectorSpecBuilder(basicnode.Prototype.Any)
	sel, err := selector.CompileSelector(sb.ExploreRecursive(selector.RecursionLimitNone(), sb.ExploreAll(sb.ExploreRecursiveEdge())).Node())
	if err != nil {
		return err
	}
	start, err := parse(from.bytes())
	if err != nil {
		return err
	}
	prog := traversal.Progress{Cfg: &traversal.Config{LinkSystem: ls, LinkTargetNodePrototypeChooser: chooser, LinkVisitOnlyOnce: true}}
	err = prog.WalkAdv(start, sel, func(traversal.Progress, datamodel.Node, traversal.VisitReason) error { return nil })
	if err != nil {
		return fmt.Errorf("walking everything from a %s: %w", from.kind(), err)
	}
	for k := range want {
		if !got[k] {
			return fmt.Errorf("walking everything from a %s does not reach a %s", from.kind(), byLink[k].kind())
		}
	}
	for k := range got {
		if !want[k] {
			return fmt.Errorf("walking everything from a %s reaches %x, which nothing links to", from.kind(), k)
		}
	}
	x.class("%s reaches %d", from.kind(), min(10, len(want)))
	return nil
}

// ---- git itself ----

var gitPath = func() string { p, _ := exec.LookPath("git"); return p }()

type gitRepo struct{ dir string }

func (g gitRepo) run(stdin []byte, args ...string) ([]byte, error) {
	cmd := exec.Command(gitPath, args...)
	cmd.Dir = g.dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + g.dir, "GIT_CONFIG_NOSYSTEM=1", "GIT_CONFIG_GLOBAL=/dev/null", "LC_ALL=C", "GIT_DIR=" + filepath.Join(g.dir, ".git"),
		"GIT_AUTHOR_NAME=a", "GIT_AUTHOR_EMAIL=a", "GIT_COMMITTER_NAME=a", "GIT_COMMITTER_EMAIL=a"}
	cmd.Stdin = bytes.NewReader(stdin)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("git %s: %w: %s", strings.Join(args, " "), err, errb.String())
	}
	return out.Bytes(), nil
}

// errGit marks trouble with git or the file system, which says nothing about the code under test.
var errGit = errors.New("git")

// checkGit hands a repository to git, which must come to the same names, and
// decodes the files that git writes.
func checkGit(x *Ctx, r Repo) error {
	if gitPath == "" {
		x.class("no git")
		return nil
	}
	dir, err := os.MkdirTemp("", "verif-git-")
	if err != nil {
		x.class("no scratch directory")
		return nil
	}
	defer os.RemoveAll(dir)
	g := gitRepo{dir}
	err = g.check(x, r)
	if errors.Is(err, errGit) {
		x.class("git trouble")
		fmt.Fprintln(os.Stderr, err)
		return nil
	}
	return err
}

func (g gitRepo) check(x *Ctx, r Repo) error {
	if _, err := g.run(nil, "init", "-q"); err != nil {
		return fmt.Errorf("%w: %v", errGit, err)
	}
	d := &dice{s: r.Seed}
	if _, err := g.run(nil, "config", "core.compression", strconv.Itoa(d.roll(11)-1)); err != nil {
		return fmt.Errorf("%w: %v", errGit, err)
	}
	for i, o := range r.Objs {
		raw := o.bytes()
		h := objectHash(raw)
		out, err := g.run([]byte(o.body()), "hash-object", "-t", o.kind(), "-w", "--stdin", "--literally")
		if err != nil {
			return fmt.Errorf("%w: %v", errGit, err)
		}
		name := strings.TrimSpace(string(out))
		if name != h.hex() {
			return fmt.Errorf("git names object %d %s, the model %s", i, name, h.hex())
		}
		f, err := os.Open(filepath.Join(g.dir, ".git", "objects", name[:2], name[2:]))
		if err != nil {
			return fmt.Errorf("%w: %v", errGit, err)
		}
		n, err := ipldgit.ParseCompressedObject(f)
		f.Close()
		if err != nil {
			return fmt.Errorf("git's file of a %s is rejected: %w", o.kind(), err)
		}
		enc, err := encode(n)
		if err != nil {
			return fmt.Errorf("a %s from git's file cannot be encoded: %w", o.kind(), err)
		}
		if got := objectHash(enc).hex(); got != name {
			return fmt.Errorf("a %s that git names %s is %s after decoding and encoding", o.kind(), name, got)
		}
		if err := sameVal(o.kind(), n, o.val()); err != nil {
			return err
		}
		x.class("git %s", o.kind())
		if o.Commit != nil {
			if err := g.commit(x, name, n, *o.Commit); err != nil {
				return err
			}
		}
		if o.Tree != nil {
			if err := g.tree(x, name, n); err != nil {
				return err
			}
		}
	}
	return nil
}

// commit compares the fields with what git reads from a commit.
func (g gitRepo) commit(x *Ctx, name string, n datamodel.Node, c Commit) error {
	out, err := g.run(nil, "rev-list", "--no-walk", "--format=%T%x00%P", name)
	if err != nil {
		x.class("git cannot read the commit")
		return nil
	}
	_, line, _ := strings.Cut(string(out), "\n")
	tree, parents, ok := strings.Cut(strings.TrimSuffix(line, "\n"), "\x00")
	if !ok {
		return nil
	}
	got := n.(ipldgit.Commit)
	if t := linkHex(got.FieldTree()); t != tree {
		return fmt.Errorf("git reads tree %s of commit %s, we %s", tree, name, t)
	}
	var ps []string
	for it := got.FieldParents().Iterator(); !it.Done(); {
		_, p := it.Next()
		ps = append(ps, linkHex(p))
	}
	if strings.Join(ps, " ") != parents {
		return fmt.Errorf("git reads parents %q of commit %s, we %q", parents, name, ps)
	}
	x.class("git agrees on tree and parents")
	return nil
}

func linkHex(n datamodel.Node) string {
	l, err := n.AsLink()
	if err != nil {
		return err.Error()
	}
	b := l.Binary()
	return fmt.Sprintf("%x", b[len(b)-20:])
}

// tree compares the entries with what git lists, where git can list them.
func (g gitRepo) tree(x *Ctx, name string, n datamodel.Node) error {
	out, err := g.run(nil, "ls-tree", "-z", name)
	if err != nil {
		x.class("git cannot read the tree")
		return nil
	}
	var got strings.Builder
	for it := n.(ipldgit.Tree).Iterator(); !it.Done(); {
		k, e := it.Next()
		mode := e.FieldMode().String()
		typ := "blob"
		if mode == "40000" {
			typ = "tree"
		}
		fmt.Fprintf(&got, "%06s %s %s\t%s\x00", mode, typ, linkHex(e.FieldHash()), k.String())
	}
	if got.String() != string(out) {
		return fmt.Errorf("git lists tree %s as %s, we as %s", name, short(string(out)), short(got.String()))
	}
	x.class("git agrees on the entries")
	return nil
}

func init() {
	rules["C09"] = "a generated repository (blobs, nested trees, commits with parents and merge tags, tags of anything): every object, decoded or built, typed, representation or untyped, is stored through a link system and must get the CID and bytes of git; it must load again as every prototype; random paths through up to 24 segments across links must lead, from typed nodes and representations, to the model's value with as many block loads as links, and nowhere when they leave the way, by lookups and by selectors; the links and values within an object are the model's; walking everything must load exactly the blocks the model reaches; part git: git writes the objects, must give them the same names, its files must decode to the model's fields and back, and git must read the same trees, parents and entries from them; non-trivial: at least 6 objects"
	nt := func(r Repo) bool { return len(r.Objs) >= 6 }
	register("C09", "graph", 250, 8000, genRepo, checkRepo, nt)
	register("C09", "git", 3, 60, genRepo, checkGit, nt)
}
