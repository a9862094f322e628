package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strconv"
	"strings"
	"testing/iotest"

	blocks "github.com/ipfs/go-block-format"
	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
	ipld "github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/multicodec"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/schema"
	"pgregory.net/rapid"
)

// C10: totality. C11: resources. C12: entry points and chunking.

func checkTotal(x *Ctx, r Raw) error {
	raw := []byte(r.Raw)
	keep := append([]byte{}, raw...)
	n, err := parse(raw)
	if !bytes.Equal(keep, raw) {
		return fmt.Errorf("decoding changed its input")
	}
	if (n == nil) != (err != nil) {
		return fmt.Errorf("node %v together with error %v", n, err)
	}
	if err != nil {
		x.class("rejected")
		return nil
	}
	kind, _, _ := strings.Cut(string(raw), " ")
	x.class("accepted %s", kind)
	v, err := nodeVal(n)
	if err != nil {
		return fmt.Errorf("an accepted object cannot be read: %w", err)
	}
	out, err := encode(n)
	if err != nil {
		return fmt.Errorf("an accepted object cannot be encoded: %w", err)
	}
	if tn, ok := n.(schema.TypedNode); ok {
		rv, err := nodeVal(tn.Representation())
		if err != nil {
			return fmt.Errorf("an accepted object's representation cannot be read: %w", err)
		}
		if d := diff("", v, rv); d != "" {
			return fmt.Errorf("representation differs: %s", d)
		}
		rout, err := encode(tn.Representation())
		if err != nil {
			return fmt.Errorf("an accepted object's representation cannot be encoded: %w", err)
		}
		if !bytes.Equal(out, rout) {
			return fmt.Errorf("the representation is encoded differently: %s", diffBytes(out, rout))
		}
	}
	if !strings.HasPrefix(string(out), kind+" ") {
		return fmt.Errorf("a %s is encoded as %s", kind, short(string(out)))
	}
	// The encoding is a well-framed object of its own.
	head, body, ok := strings.Cut(string(out), "\x00")
	if !ok || head != kind+" "+strconv.Itoa(len(body)) {
		return fmt.Errorf("the encoding of an accepted object is not framed: %s", short(string(out)))
	}
	if _, err := parse(out); err != nil {
		return fmt.Errorf("the encoding of an accepted object is rejected: %w: %s", err, short(string(out)))
	}
	if string(out) != string(raw) {
		x.class("accepted, encoded differently")
	}
	return nil
}

// IntoCase is decoded into a builder that may be one of another type.
type IntoCase struct {
	Raw  S
	Type string
	Repr bool
}

var intoTypes = []string{"Commit", "Tag", "Tree", "Blob", "Commit", "Tag", "Tree", "Blob", "TreeEntry", "PersonInfo", "String", "GpgSig", "Link", "Tree_Link", "Commit_Link", "Commit_Link_List", "String_List", "Tag_List",
	"any", "any list", "any bytes", "any string", "any link"}

func checkInto(x *Ctx, v IntoCase) error {
	raw := []byte(v.Raw)
	want, werr := parse(raw)
	kind := kindOf(raw)
	var p datamodel.NodePrototype
	fits := strings.ToLower(v.Type) == kind
	switch v.Type {
	case "any":
		p, fits = basicnode.Prototype.Any, true
	case "any list":
		p = basicnode.Prototype.List
	case "any bytes":
		p, fits = basicnode.Prototype.Bytes, kind == "blob"
	case "any string":
		p = basicnode.Prototype.String
	case "any link":
		p = basicnode.Prototype.Link
	default:
		p = schemaProto(v.Type, v.Repr)
	}
	nb := p.NewBuilder()
	err := ipldgit.Decode(nb, bytes.NewReader(raw))
	x.class("valid %v, builder fits %v", werr == nil, fits)
	switch {
	case err == nil && werr != nil:
		return fmt.Errorf("what parsing rejects (%v) is decoded into %s", werr, v.Type)
	case err == nil && !fits:
		return fmt.Errorf("a %s is decoded into %s", kind, v.Type)
	case err != nil && werr == nil && fits:
		return fmt.Errorf("a %s cannot be decoded into %s: %w", kind, v.Type, err)
	case err != nil:
		return nil
	}
	w, err := nodeVal(want)
	if err != nil {
		return err
	}
	return sameVal("decoded into "+v.Type, nb.Build(), w)
}

// entryPoints decodes raw in every way there is; the first is the reference.
type entryPoint struct {
	name string
	f    func(raw []byte) (datamodel.Node, error)
}

func chunked(raw []byte, seed int) io.Reader {
	switch seed % 14 {
	case 12, 13:
		return within(raw, seed)
	case 6:
		return partly(iotest.OneByteReader(bytes.NewReader(raw)), seed)
	case 7:
		return partly(iotest.HalfReader(bytes.NewReader(raw)), seed)
	case 8:
		return partly(&oddReader{raw: raw, state: uint64(seed)}, seed)
	case 9:
		return strings.NewReader(string(raw))
	case 10:
		return bytes.NewBuffer(raw)
	case 11:
		cut := seed / 12 % (len(raw) + 1)
		return io.MultiReader(bytes.NewReader(raw[:cut]), strings.NewReader(string(raw[cut:])))
	case 0:
		return iotest.OneByteReader(bytes.NewReader(raw))
	case 1:
		return iotest.HalfReader(bytes.NewReader(raw))
	case 2:
		return iotest.DataErrReader(bytes.NewReader(raw))
	case 3:
		return iotest.DataErrReader(iotest.OneByteReader(bytes.NewReader(raw)))
	case 4:
		return bufio.NewReaderSize(bytes.NewReader(raw), 16)
	}
	return &oddReader{raw: raw, state: uint64(seed)}
}

// within is a reader over some of a longer input, the rest of which is not to be
// read, or has been.
func within(raw []byte, seed int) io.Reader {
	before := strings.Repeat("blob 3\x00abc", 1+seed/14%9)[seed/14%5:]
	after := "tree 0\x00"
	all := before + string(raw)
	switch seed / 14 % 4 {
	case 0:
		r := strings.NewReader(all)
		r.Seek(int64(len(before)), io.SeekStart)
		return r
	case 1:
		r := bytes.NewReader([]byte(all))
		io.CopyN(io.Discard, r, int64(len(before)))
		return r
	case 2:
		r := bytes.NewBufferString(all)
		r.Next(len(before))
		return r
	}
	if seed/56%2 == 0 {
		return io.LimitReader(strings.NewReader(string(raw)+after), int64(len(raw)))
	}
	return io.NewSectionReader(strings.NewReader(all+after), int64(len(before)), int64(len(raw)))
}

// fromFile gives f a file, or a pipe, to read raw from.
func fromFile(raw []byte, seed int, f func(io.Reader) (datamodel.Node, error)) (datamodel.Node, error) {
	if seed%2 == 0 {
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		done := make(chan bool)
		go func() {
			w.Write(raw)
			w.Close()
			close(done)
		}()
		n, err := f(r)
		r.Close() // ends the write, should not all have been read
		<-done
		return n, err
	}
	fl, err := os.CreateTemp("", "obj")
	if err != nil {
		panic(err)
	}
	defer fl.Close()
	os.Remove(fl.Name())
	before := strings.Repeat("x", seed/2%3*500)
	fl.WriteString(before)
	fl.Write(raw)
	if _, err := fl.Seek(int64(len(before)), io.SeekStart); err != nil {
		panic(err)
	}
	return f(fl)
}

// partly is a buffered reader that holds some of its input already.
func partly(r io.Reader, seed int) io.Reader {
	rd := bufio.NewReaderSize(r, []int{16, 64, 4096, 8192}[seed/12%4])
	rd.Peek(1 + seed/48%16) // at the end of the input there is less
	return rd
}

// oddReader gives chunks of uneven size, some of them empty, and the end of the
// input sometimes together with data.
type oddReader struct {
	raw   []byte
	state uint64
	empty int
}

func (o *oddReader) Read(p []byte) (int, error) {
	o.state = mix64(o.state)
	if len(o.raw) == 0 {
		return 0, io.EOF
	}
	n := int(o.state>>8) % 7
	switch o.state >> 32 % 8 {
	case 0:
		n *= 700
	case 1:
		n *= 16
	}
	if n == 0 {
		if o.empty++; o.empty < 3 {
			return 0, nil
		}
		n = 1
	}
	o.empty = 0
	n = min(n, len(p), len(o.raw))
	copy(p, o.raw[:n])
	o.raw = o.raw[n:]
	if len(o.raw) == 0 && o.state>>40%2 == 0 {
		return n, io.EOF
	}
	return n, nil
}

func kindOf(raw []byte) string {
	i := bytes.IndexByte(raw, ' ')
	if i < 0 {
		return ""
	}
	return string(raw[:i])
}

func isKind(k string) bool { return k == "commit" || k == "tree" || k == "tag" || k == "blob" }

func decodeWith(dec func(datamodel.NodeAssembler, io.Reader) error, p datamodel.NodePrototype, r io.Reader) (datamodel.Node, error) {
	nb := p.NewBuilder()
	if err := dec(nb, r); err != nil {
		return nil, err
	}
	return nb.Build(), nil
}

func entryPoints(seed int) []entryPoint {
	// The prototypes of an object's own type, or of any when it has none.
	typed := func(raw []byte) datamodel.NodePrototype {
		if k := kindOf(raw); isKind(k) {
			p, _ := protos(k)
			return p
		}
		return basicnode.Prototype.Any
	}
	repr := func(raw []byte) datamodel.NodePrototype {
		if k := kindOf(raw); isKind(k) {
			_, p := protos(k)
			return p
		}
		return basicnode.Prototype.Any
	}
	return []entryPoint{
		{"ParseObjectFromBuffer", func(raw []byte) (datamodel.Node, error) { return ipldgit.ParseObjectFromBuffer(raw) }},
		{"ParseObject", func(raw []byte) (datamodel.Node, error) { return ipldgit.ParseObject(bytes.NewReader(raw)) }},
		{"ParseObject, chunked", func(raw []byte) (datamodel.Node, error) { return ipldgit.ParseObject(chunked(raw, seed)) }},
		{"ParseObject, other chunks", func(raw []byte) (datamodel.Node, error) { return ipldgit.ParseObject(chunked(raw, seed/7)) }},
		{"ParseCompressedObject", func(raw []byte) (datamodel.Node, error) {
			return ipldgit.ParseCompressedObject(bytes.NewReader(deflate(raw, seed)))
		}},
		{"ParseCompressedObject, chunked", func(raw []byte) (datamodel.Node, error) {
			return ipldgit.ParseCompressedObject(chunked(deflate(raw, seed+1), seed/11))
		}},
		{"DecodeBlock", func(raw []byte) (datamodel.Node, error) {
			b, err := blocks.NewBlockWithCid(raw, gitCid(objectHash(raw)))
			if err != nil {
				panic(err)
			}
			return ipldgit.DecodeBlock(b)
		}},
		{"Decode into the type", func(raw []byte) (datamodel.Node, error) {
			return decodeWith(ipldgit.Decode, typed(raw), bytes.NewReader(raw))
		}},
		{"Decode into the representation, chunked", func(raw []byte) (datamodel.Node, error) {
			return decodeWith(ipldgit.Decode, repr(raw), chunked(raw, seed/3))
		}},
		{"Decode into any", func(raw []byte) (datamodel.Node, error) {
			return decodeWith(ipldgit.Decode, basicnode.Prototype.Any, bytes.NewReader(raw))
		}},
		{"the registered decoder", func(raw []byte) (datamodel.Node, error) {
			dec, err := multicodec.LookupDecoder(cid.GitRaw)
			if err != nil {
				return nil, err
			}
			return decodeWith(dec, basicnode.Prototype.Any, chunked(raw, seed/5))
		}},
		{"ipld.Decode", func(raw []byte) (datamodel.Node, error) { return ipld.Decode(raw, ipldgit.Decode) }},
		{"ipld.DecodeUsingPrototype", func(raw []byte) (datamodel.Node, error) {
			return ipld.DecodeUsingPrototype(raw, ipldgit.Decode, typed(raw))
		}},
		{"the type's own decoder", func(raw []byte) (datamodel.Node, error) {
			k := kindOf(raw)
			if !isKind(k) {
				return ipldgit.ParseObjectFromBuffer(raw)
			}
			rd := bufio.NewReaderSize(chunked(raw[len(k)+1:], seed/13), 16+seed%100)
			_, p := protos(k)
			if seed%2 == 0 {
				p, _ = protos(k)
			}
			nb := p.NewBuilder()
			dec := map[string]func(ipld.NodeAssembler, *bufio.Reader) error{"commit": ipldgit.DecodeCommit, "tree": ipldgit.DecodeTree, "tag": ipldgit.DecodeTag, "blob": ipldgit.DecodeBlob}[k]
			if err := dec(nb, rd); err != nil {
				return nil, err
			}
			return nb.Build(), nil
		}},
	}
}

type EntryCase struct {
	Raw  S
	Seed int
}

func (e EntryCase) key() []byte { return []byte(fmt.Sprint(e.Seed, " ", e.Raw)) }

func checkEntryPoints(x *Ctx, v EntryCase) error {
	raw := []byte(v.Raw)
	eps := entryPoints(v.Seed)
	if v.Seed%8 == 0 {
		eps = append(eps,
			entryPoint{"ParseObject from a file", func(raw []byte) (datamodel.Node, error) {
				return fromFile(raw, v.Seed/8, ipldgit.ParseObject)
			}},
			entryPoint{"ParseCompressedObject from a file", func(raw []byte) (datamodel.Node, error) {
				return fromFile(deflate(raw, v.Seed), v.Seed/16, ipldgit.ParseCompressedObject)
			}},
			entryPoint{"Decode from a file", func(raw []byte) (datamodel.Node, error) {
				return fromFile(raw, v.Seed/32, func(r io.Reader) (datamodel.Node, error) {
					return decodeWith(ipldgit.Decode, basicnode.Prototype.Any, r)
				})
			}})
	}
	want, werr := eps[0].f(raw)
	x.class("%s accepted %v", kindClass(raw), werr == nil)
	for _, e := range eps[1:] {
		got, gerr := e.f(append([]byte{}, raw...))
		if err := sameResult(e.name, want, werr, got, gerr); err != nil {
			return err
		}
	}
	return nil
}

// EntriesCase is the body of a tree, read entry by entry, perhaps cut short.
type EntriesCase struct {
	Tree Tree
	Cut  int // bytes of another entry at the end
	Seed int
}

func (e EntriesCase) key() []byte { return append(e.Tree.key(), byte(e.Cut)) }

func checkEntries(x *Ctx, v EntriesCase) error {
	last := Tree{[]Entry{{Mode: "100644", Name: "last", Hash: sharedHashes[1]}}}.body()
	cut := v.Cut % len(last)
	x.class("entries %s", bucket(len(v.Tree.Entries)))
	rd := bufio.NewReaderSize(chunked([]byte(v.Tree.body()+last[:cut]), v.Seed), []int{16, 17, 32, 4096}[v.Seed%4])
	for i, e := range v.Tree.Entries {
		name, n, err := ipldgit.DecodeTreeEntry(rd)
		if err != nil {
			return fmt.Errorf("entry %d is rejected: %w", i, err)
		}
		if name != string(e.Name) {
			return fmt.Errorf("entry %d: name %q, want %q", i, name, e.Name)
		}
		got, err := nodeVal(n)
		if err != nil {
			return err
		}
		if d := diff("", e.val(), got); d != "" {
			return fmt.Errorf("entry %d: %s", i, d)
		}
	}
	_, n, err := ipldgit.DecodeTreeEntry(rd)
	if n != nil || err == nil {
		return fmt.Errorf("after the last entry and %d more bytes: node %v, error %v", cut, n, err)
	}
	if (cut == 0) != errors.Is(err, io.EOF) {
		return fmt.Errorf("after the last entry and %d more bytes the error is %q", cut, err)
	}
	return nil
}

func kindClass(raw []byte) string {
	if k := kindOf(raw); isKind(k) {
		return k
	}
	return "no object"
}

// ---- resources ----

type ResourceCase struct {
	Shape string
	N     int
	Size  S
}

func (r ResourceCase) raw() []byte {
	n := r.N
	h := sharedHashes[0].hex()
	rep := func(s string) string { return strings.Repeat(s, max(1, n/len(s))) }
	var kind, body string
	switch r.Shape {
	case "other lines":
		kind, body = "commit", "tree "+h+"\n"+rep("a\n")+"\nm"
	case "parents":
		kind, body = "commit", "tree "+h+"\n"+rep("parent "+h+"\n")+"\nm"
	case "trees":
		kind, body = "commit", rep("tree "+h+"\n")+"\nm"
	case "authors":
		kind, body = "commit", "tree "+h+"\n"+rep("author a <b> 1 +0000\n")+"\nm"
	case "encodings":
		kind, body = "commit", "tree "+h+"\n"+rep("encoding u\n")+"\nm"
	case "signature lines":
		kind, body = "commit", "tree "+h+"\n"+sigBegin+"\n \n"+rep(" a\n")+sigEnd+"\n\nm"
	case "signatures":
		kind, body = "commit", "tree "+h+"\n"+rep(sigBegin+"\n \n"+sigEnd+"\n")+"\nm"
	case "merge tags":
		kind, body = "commit", "tree "+h+"\n"+rep("mergetag object "+h+"\n type c\n tag t\n \n m\n")+"\nm"
	case "bare merge tags":
		kind, body = "commit", "tree "+h+"\n"+rep("mergetag object "+h+"\n")+"\nm"
	case "merge tag lines":
		kind, body = "commit", "tree "+h+"\nmergetag object "+h+"\n type c\n tag t\n \n"+rep(" a\n")+"\nm"
	case "merge tag headers":
		kind, body = "commit", "tree "+h+"\nmergetag object "+h+"\n"+rep(" type c\n")+" \n m\n\nm"
	case "spaces in a name":
		kind, body = "commit", "tree "+h+"\nauthor "+rep(" ")+"<e> 1 +0000\n\nm"
	case "words in a name":
		kind, body = "commit", "tree "+h+"\nauthor "+rep("a ")+"<e> 1 +0000\n\nm"
	case "words in an email":
		kind, body = "commit", "tree "+h+"\nauthor a <"+rep("e ")+"> 1 +0000\n\nm"
	case "a long line":
		kind, body = "commit", "tree "+h+"\nencoding "+rep("x")+"\n\nm"
	case "message":
		kind, body = "commit", "tree "+h+"\n\n"+rep("line of text\n")
	case "message of newlines":
		kind, body = "commit", "tree "+h+"\n\n"+rep("\n")
	case "tag message":
		kind, body = "tag", "object "+h+"\ntype t\ntag t\n\n"+rep("ab\n")
	case "tag lines":
		kind, body = "tag", "object "+h+"\n"+rep("tag t\n")+"\nm"
	case "tag taggers":
		kind, body = "tag", "object "+h+"\n"+rep("tagger a <b> 1 +0000\n")+"\nm"
	case "tree entries":
		kind = "tree"
		var b strings.Builder
		for i := 0; b.Len() < n; i++ {
			b.WriteString("1 " + hexN(i) + "\x00" + string(sharedHashes[0][:]))
		}
		body = b.String()
	case "a long name":
		kind, body = "tree", "1 "+rep("n")+"\x00"+string(sharedHashes[0][:])
	case "a long mode":
		kind, body = "tree", rep("1")+" n\x00"+string(sharedHashes[0][:])
	case "blob":
		kind, body = "blob", rep("data\n")
	case "a long type":
		return []byte(rep("commit"))
	case "a long size":
		return []byte("blob " + rep("0") + "1\x00x")
	default:
		panic(r.Shape)
	}
	raw := frame(kind, body)
	if r.Size != "" {
		i := bytes.IndexByte(raw, 0)
		raw = []byte(kind + " " + string(r.Size) + string(raw[i:]))
	}
	return raw
}

var resourceShapes = []string{"other lines", "parents", "trees", "authors", "encodings", "signature lines", "signatures", "merge tags", "bare merge tags", "merge tag lines", "merge tag headers",
	"spaces in a name", "words in a name", "words in an email", "a long line", "message", "message of newlines", "tag message", "tag lines", "tag taggers", "tree entries", "a long name", "a long mode",
	"blob", "a long type", "a long size"}

var lyingSizes = []S{"1000000", "16777216", "67108864", "268435456", "1073741824", "4294967296", "1099511627776", "9223372036854775807", "9223372036854775800", "-1", "-9223372036854775808", "0"}

const (
	allocFactor = 400
	allocBase   = 1 << 20
	// That of a stack that grows with an input of the sizes used here.
	maxStack = 16 << 20
)

func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func checkResources(x *Ctx, v ResourceCase) error {
	raw := v.raw()
	x.class("%s", v.Shape)
	limit := uint64(allocFactor*len(raw) + allocBase)
	var n datamodel.Node
	var err error
	if got := allocated(func() { n, err = parse(raw) }); got > limit {
		return fmt.Errorf("decoding %d bytes (%s, size %q) allocates %d bytes", len(raw), v.Shape, v.Size, got)
	}
	if err != nil {
		x.class("rejected")
		return nil
	}
	if got := allocated(func() { _, err = encode(n) }); got > limit {
		return fmt.Errorf("encoding an object of %d bytes (%s) allocates %d bytes", len(raw), v.Shape, got)
	}
	if err != nil {
		return err
	}
	if got := allocated(func() {
		z := deflate(raw, 6)
		_, err = ipldgit.ParseCompressedObject(bytes.NewReader(z))
	}); got > 2*limit+4<<20 {
		return fmt.Errorf("decoding %d bytes (%s) compressed allocates %d bytes", len(raw), v.Shape, got)
	}
	return err
}

func init() {
	rules["C10"] = "part into: objects and mutants are decoded into builders of all types, fitting or not, and of other implementations: accepted exactly when they parse and fit, with the content that parsing gives, every case non-trivial; generated bytes: valid objects with 1 to 4 mutations (truncation, deletion, repetition, insertion of dictionary tokens, byte and bit changes, sizes, types, line edits, splices, hash edits), header lines in any order under any type, or unstructured; decoding must end in exactly one of a node and an error, and an accepted node must be readable, encodable, well framed, and its encoding accepted again; part large: the same mutations of objects of 5 to 300 kB; non-trivial: it starts with an object type and a size"
	register("C10", "bytes", 12000, 500000, genBytes, checkTotal, func(r Raw) bool {
		k := kindOf([]byte(r.Raw))
		if !isKind(k) {
			return false
		}
		num, _, ok := strings.Cut(string(r.Raw[len(k)+1:]), "\x00")
		_, err := strconv.Atoi(num)
		return ok && err == nil
	})
	register("C10", "large", 60, 1500, func(t *rapid.T) Raw { return Raw{S(mutate(t, genLarge(t).obj().bytes()))} }, checkTotal, always[Raw])
	register("C10", "into", 3000, 100000, func(t *rapid.T) IntoCase {
		return IntoCase{Raw: genMostlyValid(t).Raw, Type: pick(t, intoTypes), Repr: chance(t, 1, 2)}
	}, checkInto, func(v IntoCase) bool { return true })
	register("C10", "raw", 0, 0, genRawNone, checkTotal, always[Raw])

	rules["C11"] = "objects of one repeated element (26 shapes: header lines of each sort, signature and merge tag lines, name and email words, entries, long fields) of 1 byte to 2 MB, with the true size or a lying one; the bytes allocated by decoding and by encoding must stay below 400 times the input plus 1 MiB, and the stack below 16 MiB; non-trivial: over 10000 bytes, or a lying size"
	register("C11", "shapes", 260, 6000, func(t *rapid.T) ResourceCase {
		v := ResourceCase{Shape: pick(t, resourceShapes)}
		switch x := u(t, 10); {
		case x < 2:
			v.N = 1 + u(t, 300)
		case x < 6:
			v.N = 1 + u(t, 40000)
		default:
			v.N = 40000 + u(t, 260000)
		}
		if v.Shape != "a long type" && v.Shape != "a long size" && chance(t, 1, 3) {
			v.Size = pick(t, lyingSizes)
		}
		return v
	}, checkResources, func(v ResourceCase) bool { return v.N > 10000 || v.Size != "" })
	register("C11", "large", 8, 60, func(t *rapid.T) ResourceCase {
		return ResourceCase{Shape: pick(t, resourceShapes), N: 1_200_000 + u(t, 800_000)}
	}, checkResources, always[ResourceCase])
	register("C11", "random", 1200, 40000, func(t *rapid.T) Raw {
		if chance(t, 1, 2) {
			return genBytes(t)
		}
		return Raw{S(genObj(t).bytes())}
	}, func(x *Ctx, r Raw) error {
		raw := []byte(r.Raw)
		limit := uint64(allocFactor*len(raw) + allocBase)
		var n datamodel.Node
		var err error
		if got := allocated(func() { n, err = parse(raw) }); got > limit {
			return fmt.Errorf("decoding %d bytes allocates %d bytes", len(raw), got)
		}
		if err != nil {
			return nil
		}
		if got := allocated(func() { _, err = encode(n) }); got > limit {
			return fmt.Errorf("encoding an object of %d bytes allocates %d bytes", len(raw), got)
		}
		return err
	}, func(r Raw) bool { return len(r.Raw) > 10000 })

	rules["C12"] = "a generated valid object (2 of 3 cases) or mutant is decoded by 14 entry points (parsing from a reader, a buffer, a block, compressed at several levels; decoding into type, representation and untyped builders; the registered codec; each type's own decoder with small read buffers) with readers that split the input in uneven, single-byte and empty chunks and give the end with or after the data, buffers, files and pipes, from the start or in the midst of them; results must agree in acceptance, content and encoding; part tree entries: the body of a tree, perhaps with part of another entry, read entry by entry: the model's entries, then the end or an error; part large: the entry points with objects of 5 to 300 kB; non-trivial: every accepted object"
	register("C12", "large", 12, 300, func(t *rapid.T) BigFault { return BigFault{genLarge(t), u(t, 1<<20)} }, func(x *Ctx, v BigFault) error {
		raw := v.Large.obj().bytes()
		classSize(x, len(raw))
		return checkEntryPoints(x, EntryCase{Raw: S(raw), Seed: v.Seed})
	}, always[BigFault])
	register("C12", "tree entries", 1000, 30000, func(t *rapid.T) EntriesCase {
		v := EntriesCase{Tree: genTree(t), Seed: u(t, 1000)}
		if chance(t, 1, 2) {
			v.Cut = u(t, 100)
		}
		return v
	}, checkEntries, func(v EntriesCase) bool { return len(v.Tree.Entries) > 0 })
	register("C12", "entry", 2500, 80000, func(t *rapid.T) EntryCase {
		r := genMostlyValid(t)
		return EntryCase{Raw: r.Raw, Seed: u(t, 1<<20)}
	}, checkEntryPoints, func(v EntryCase) bool {
		_, err := parse([]byte(v.Raw))
		return err == nil
	})
}
