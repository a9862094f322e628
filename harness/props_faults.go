package main

import (
	"bytes"
	"compress/zlib"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"

	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	"pgregory.net/rapid"
)

// C13: faults of readers and writers. C14: malformed objects.

var errFault = errors.New("injected fault")

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "injected timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// faultErrs are the errors of faults: nobody may take some for no fault.
var faultErrs = []error{errFault, timeoutErr{}, io.ErrUnexpectedEOF, errFault, io.ErrClosedPipe, io.ErrNoProgress, errFault, io.ErrShortWrite, io.ErrShortBuffer,
	context.Canceled, errFault, context.DeadlineExceeded, os.ErrDeadlineExceeded, os.ErrClosed, net.ErrClosed, errFault, syscall.EINTR, syscall.EAGAIN, syscall.EPIPE,
	syscall.ENOSPC, &os.PathError{Op: "read", Path: "object", Err: syscall.EIO}, fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF), zlib.ErrChecksum, zlib.ErrHeader, os.ErrNotExist}

func faultErr(i int) error { return faultErrs[uint(i)%uint(len(faultErrs))] }

// faultReader gives the first k bytes, then fails: for good, or once, with the
// other bytes after that.
type faultReader struct {
	once     bool
	failed   bool
	raw      []byte
	k        int
	step     int
	together bool // the error comes with the last bytes
	err      error
}

func (f *faultReader) Read(p []byte) (int, error) {
	if f.failed && f.once {
		if len(f.raw) == 0 {
			return 0, io.EOF
		}
		n := copy(p, f.raw)
		f.raw = f.raw[n:]
		return n, nil
	}
	if f.k == 0 {
		f.failed = true
		return 0, f.err
	}
	n := min(len(p), f.k)
	if f.step > 0 {
		n = min(n, f.step)
	}
	copy(p, f.raw[:n])
	f.raw = f.raw[n:]
	f.k -= n
	if f.k == 0 && f.together {
		f.failed = true
		return n, f.err
	}
	return n, nil
}

// faultWriter takes k bytes, then fails.
type faultWriter struct {
	k   int
	buf bytes.Buffer
	// short writes take what still fits and then fail, others take nothing
	partial bool
	// fail once, and take everything after that
	once, failed bool
	err          error
}

func (f *faultWriter) Write(p []byte) (int, error) {
	if f.once && f.failed {
		return f.buf.Write(p)
	}
	if len(p) <= f.k {
		f.k -= len(p)
		return f.buf.Write(p)
	}
	n := 0
	if f.partial {
		n = f.k
	}
	f.buf.Write(p[:n])
	f.k = 0
	f.failed = true
	return n, f.err
}

type FaultCase struct {
	Obj  Obj
	Seed int
}

// BigFault is the same for an object that is described, not spelled out.
type BigFault struct {
	Large Large
	Seed  int
}

func (f FaultCase) key() []byte { return f.Obj.key() }

func offsets(n, seed, most int) []int {
	var out []int
	if n <= most {
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	for i := 0; i < 30; i++ {
		out = append(out, i)
	}
	x := uint64(seed)
	for i := 0; i < most-60; i++ {
		x = mix64(x)
		k := int(x % uint64(n))
		if i%2 == 0 && n > 5000 {
			// where buffers end
			k = int(x>>32)%(n/512+1)*512 + int(x%3) - 1
		}
		out = append(out, min(max(k, 0), n-1))
	}
	for i := n - 30; i < n; i++ {
		out = append(out, i)
	}
	return out
}

func fewer(raw []byte, n int) int {
	if len(raw) > 5000 {
		return 100
	}
	return n
}

func checkReadFaults(x *Ctx, v FaultCase) error {
	raw := v.Obj.bytes()
	kind := v.Obj.kind()
	x.class("%s", kind)
	end := len(raw)
	if kind != "blob" {
		end++ // the decoder also has to see the end of the input
	}
	typed, _ := protos(kind)
	for i, k := range offsets(end, v.Seed, fewer(raw, 200)) {
		e := faultErr(i + v.Seed/16)
		r := func() io.Reader {
			return &faultReader{raw: raw, k: k, step: []int{0, 1, 7, 100}[(i+v.Seed)%4], together: (i+v.Seed/4)%2 == 0, err: e, once: (i+v.Seed/8)%3 == 0}
		}
		n, err := ipldgit.ParseObject(r())
		if err == nil {
			return fmt.Errorf("a reader that fails after %d of %d bytes of a %s with %q goes unnoticed", k, len(raw), kind, e)
		}
		if n != nil {
			return fmt.Errorf("node together with error %v", err)
		}
		if !errors.Is(err, e) {
			return fmt.Errorf("a reader that fails after %d of %d bytes of a %s with %q ends in error %q", k, len(raw), kind, e, err)
		}
		if i%4 == 0 {
			if err := ipldgit.Decode(typed.NewBuilder(), r()); !errors.Is(err, e) {
				return fmt.Errorf("Decode: a reader that fails after %d of %d bytes of a %s ends in error %v", k, len(raw), kind, err)
			}
		}
	}
	// Compressed: all but the very last bytes are needed for sure.
	z := deflate(raw, v.Seed)
	for i, k := range offsets(len(z), v.Seed, 61) {
		e := faultErr(i + v.Seed/16)
		n, err := ipldgit.ParseCompressedObject(&faultReader{raw: z, k: k, step: []int{0, 1, 7, 100}[(i+v.Seed)%4], err: e, once: i%3 == 0})
		if err == nil {
			return fmt.Errorf("a reader that fails after %d of %d bytes of a compressed %s goes unnoticed", k, len(z), kind)
		}
		if n != nil {
			return fmt.Errorf("node together with error %v", err)
		}
		if !errors.Is(err, e) {
			return fmt.Errorf("a reader that fails after %d of %d bytes of a compressed %s with %q ends in error %q", k, len(z), kind, e, err)
		}
	}
	return nil
}

func checkWriteFaults(x *Ctx, v FaultCase) error {
	raw := v.Obj.bytes()
	kind := v.Obj.kind()
	x.class("%s", kind)
	n, err := parse(raw)
	if err != nil {
		return err
	}
	for i, k := range offsets(len(raw), v.Seed, fewer(raw, 120)) {
		e := faultErr(i + v.Seed/16)
		w := &faultWriter{k: k, partial: (i+v.Seed)%2 == 0, once: (i+v.Seed/2)%2 == 0, err: e}
		err := ipldgit.Encode(n, w)
		if err == nil {
			return fmt.Errorf("a writer that fails after %d of %d bytes of a %s with %q goes unnoticed", k, len(raw), kind, e)
		}
		if !errors.Is(err, e) {
			return fmt.Errorf("a writer that fails after %d of %d bytes of a %s with %q ends in error %q", k, len(raw), kind, e, err)
		}
		if !bytes.HasPrefix(raw, w.buf.Bytes()) {
			return fmt.Errorf("what was written before the fault is not a prefix of the object: %s", diffBytes(raw, w.buf.Bytes()))
		}
	}
	// A writer that takes everything is fine.
	w := &faultWriter{k: len(raw)}
	if err := ipldgit.Encode(n, w); err != nil {
		return fmt.Errorf("a writer with room for exactly the object fails: %w", err)
	}
	if d := diffBytes(raw, w.buf.Bytes()); d != "" {
		return errors.New(d)
	}
	return nil
}

// flaky is an untyped node of which some read fails.
type flaky struct {
	datamodel.Node
	f *flake
}

type flake struct {
	count, at int
	err       error
}

func (f *flake) fail() error {
	f.count++
	if f.count-1 == f.at {
		return f.err
	}
	return nil
}

func (n flaky) wrap(x datamodel.Node, err error) (datamodel.Node, error) {
	if e := n.f.fail(); e != nil {
		return nil, e
	}
	if err != nil {
		return nil, err
	}
	return flaky{x, n.f}, nil
}

func (n flaky) LookupByString(k string) (datamodel.Node, error) {
	return n.wrap(n.Node.LookupByString(k))
}
func (n flaky) LookupByNode(k datamodel.Node) (datamodel.Node, error) {
	return n.wrap(n.Node.LookupByNode(k))
}
func (n flaky) LookupByIndex(i int64) (datamodel.Node, error) {
	return n.wrap(n.Node.LookupByIndex(i))
}
func (n flaky) LookupBySegment(s datamodel.PathSegment) (datamodel.Node, error) {
	return n.wrap(n.Node.LookupBySegment(s))
}
func (n flaky) AsString() (string, error) {
	if e := n.f.fail(); e != nil {
		return "", e
	}
	return n.Node.AsString()
}
func (n flaky) AsBytes() ([]byte, error) {
	if e := n.f.fail(); e != nil {
		return nil, e
	}
	return n.Node.AsBytes()
}
func (n flaky) AsLink() (datamodel.Link, error) {
	if e := n.f.fail(); e != nil {
		return nil, e
	}
	return n.Node.AsLink()
}
func (n flaky) MapIterator() datamodel.MapIterator {
	if it := n.Node.MapIterator(); it != nil {
		return &flakyMap{it, n.f}
	}
	return nil
}
func (n flaky) ListIterator() datamodel.ListIterator {
	if it := n.Node.ListIterator(); it != nil {
		return &flakyList{it, n.f}
	}
	return nil
}

type flakyMap struct {
	datamodel.MapIterator
	f *flake
}

func (m *flakyMap) Next() (datamodel.Node, datamodel.Node, error) {
	if e := m.f.fail(); e != nil {
		return nil, nil, e
	}
	k, v, err := m.MapIterator.Next()
	if err != nil {
		return nil, nil, err
	}
	return flaky{k, m.f}, flaky{v, m.f}, nil
}

type flakyList struct {
	datamodel.ListIterator
	f *flake
}

func (m *flakyList) Next() (int64, datamodel.Node, error) {
	if e := m.f.fail(); e != nil {
		return -1, nil, e
	}
	i, v, err := m.ListIterator.Next()
	if err != nil {
		return -1, nil, err
	}
	return i, flaky{v, m.f}, nil
}

// checkNodeFaults: a node that cannot be read completely is not encoded as
// something else.
func checkNodeFaults(x *Ctx, v BuildCase) error {
	kind := v.Obj.kind()
	x.class("node %s", kind)
	want := v.Obj.bytes()
	n, err := untyped(v.Obj.val(), &dice{s: v.Seed})
	if err != nil {
		return err
	}
	f := &flake{at: -1}
	out, err := encode(flaky{n, f})
	if err != nil {
		return fmt.Errorf("an untyped %s of another implementation cannot be encoded: %w", kind, err)
	}
	if d := diffBytes(want, out); d != "" {
		return fmt.Errorf("an untyped %s of another implementation: %s", kind, d)
	}
	for _, k := range offsets(f.count, int(v.Seed>>40), 150) {
		var w bytes.Buffer
		if err := ipldgit.Encode(flaky{n, &flake{at: k, err: faultErr(k + int(v.Seed>>44))}}, &w); err != nil {
			if !bytes.HasPrefix(want, w.Bytes()) {
				return fmt.Errorf("a %s whose read %d of %d fails: what is written is no prefix: %s", kind, k, f.count, diffBytes(want, w.Bytes()))
			}
			continue
		}
		if d := diffBytes(want, w.Bytes()); d != "" {
			return fmt.Errorf("a %s whose read %d of %d fails is encoded as another one: %s", kind, k, f.count, d)
		}
	}
	return nil
}

// mustFail gives, for a truncation at k, whether the rest cannot be an object,
// and for trees the entries that are left otherwise.
func checkTruncation(x *Ctx, v FaultCase) error {
	raw := v.Obj.bytes()
	kind := v.Obj.kind()
	x.class("%s", kind)
	head := bytes.IndexByte(raw, 0) + 1
	// Ranges (lo, hi] of lengths at which the object ends within something that
	// has to be complete.
	var bad [][2]int
	var trees map[int]int
	switch kind {
	case "blob":
		bad = append(bad, [2]int{-1, len(raw) - 1})
	case "tree":
		trees = map[int]int{}
		at := head
		for i, e := range v.Obj.Tree.Entries {
			trees[at] = i
			end := at + len(e.Mode) + 1 + len(e.Name) + 1 + 20
			bad = append(bad, [2]int{at, end - 1})
			at = end
		}
		trees[at] = len(v.Obj.Tree.Entries)
	case "tag":
		bad = append(bad, [2]int{-1, head + len("object ") + 39})
	case "commit":
		c := v.Obj.Commit
		at := head
		bad = append(bad, [2]int{-1, at + len("tree ") + 39})
		at += len("tree ") + 41
		for range c.Parents {
			// "parent " needs to be complete to count
			bad = append(bad, [2]int{at + len("parent ") - 1, at + len("parent ") + 39})
			at += len("parent ") + 41
		}
		if c.Author != nil {
			at += len("author ") + len(c.Author.text()) + 1
		}
		if c.Committer != nil {
			at += len("committer ") + len(c.Committer.text()) + 1
		}
		if c.Encoding != nil {
			at += len("encoding ") + len(*c.Encoding) + 1
		}
		for _, m := range c.Merge {
			bad = append(bad, [2]int{at + len("mergetag object ") - 1, at + len("mergetag object ") + 39})
			at += len("mergetag object ") + 41 + len(" type \n") + len(m.Type) + len(" tag \n") + len(m.Tag)
			if m.Tagger != nil {
				at += len(" tagger \n") + len(m.Tagger.text())
			}
			// from " \n" to the end of the message: what ends it is missing
			bad = append(bad, [2]int{at + 1, at + 2 + len(m.msgText())})
			at += 2 + len(m.msgText())
		}
		if c.Sig != nil {
			end := at + len(sigBegin) + 1 + len(c.sigText()) + len(sigEnd)
			bad = append(bad, [2]int{at + len(sigBegin) - 1, end - 1})
		}
	}
	bad = append(bad, [2]int{-1, head - 1})
	for _, k := range offsets(len(raw)+1, v.Seed, fewer(raw, 400)) {
		n, err := parse(raw[:k])
		if (n == nil) != (err != nil) {
			return fmt.Errorf("node %v with error %v", n, err)
		}
		isBad := false
		for _, b := range bad {
			if k > b[0] && k <= b[1] {
				isBad = true
			}
		}
		if kind == "commit" && bytes.HasSuffix(raw[:k], []byte("\n -----END PGP SIGNATURE-----")) {
			// A line of the signature that starts like its last one: cut here, it
			// is the last one.
			isBad = false
		}
		if isBad && err == nil {
			return fmt.Errorf("a %s of %d bytes that ends after %d is accepted: ...%s", kind, len(raw), k, short(string(raw[max(0, k-60):k])))
		}
		if cnt, ok := trees[k]; ok {
			if err != nil {
				return fmt.Errorf("a tree that ends after entry %d is rejected: %w", cnt, err)
			}
			got, err := nodeVal(n)
			if err != nil {
				return err
			}
			if d := diff("", Tree{v.Obj.Tree.Entries[:cnt]}.val(), got); d != "" {
				return fmt.Errorf("a tree that ends after entry %d: %s", cnt, d)
			}
		}
		if k == len(raw) && err != nil {
			return fmt.Errorf("the whole object is rejected: %w", err)
		}
	}
	return nil
}

type ZlibCase struct {
	Raw  S
	Seed int
	Bits []int // bit positions to flip, modulo the length
	Cut  int   // bytes to keep, or -1
	Add  S     // bytes after the end
}

// checkZlib compares with inflating first, and parsing then.
func checkZlib(x *Ctx, v ZlibCase) error {
	z := deflate([]byte(v.Raw), v.Seed)
	for _, b := range v.Bits {
		b %= len(z) * 8
		z[b/8] ^= 1 << (b % 8)
	}
	if v.Cut >= 0 {
		z = z[:v.Cut%(len(z)+1)]
	}
	z = append(z, v.Add...)
	n, err := ipldgit.ParseCompressedObject(chunked(z, v.Seed/5))
	if (n == nil) != (err != nil) {
		return fmt.Errorf("node %v with error %v", n, err)
	}
	var plain []byte
	zr, zerr := zlib.NewReader(bytes.NewReader(z))
	if zerr == nil {
		plain, zerr = io.ReadAll(zr)
	}
	if zerr != nil {
		x.class("stream damaged")
		if err == nil {
			return fmt.Errorf("a damaged zlib stream (%v) is accepted", zerr)
		}
		return nil
	}
	x.class("stream intact")
	want, werr := parse(plain)
	return sameResult("compressed", want, werr, n, err)
}

// ---- malformed objects ----

type Malformed struct {
	How string
	Raw S
}

func (m Malformed) key() []byte { return []byte(m.How + string(m.Raw)) }

var nonNumbers = []string{"", " ", "x", "1x", "0x10", "1.0", "1e3", "--1", "1 ", " 1", "\n", "1\n", "one", "99999999999999999999999999", "9223372036854775808", "\xd9\xa3", "1,000", "(1)"}

// markHash occurs nowhere else.
var markHash = Hash{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 0x77}

func badHash(t *rapid.T, h string) string {
	switch u(t, 8) {
	case 0:
		return h[:u(t, 40)]
	case 1:
		return h[:2*u(t, 20)]
	case 2:
		return h + h[:1+u(t, 40)]
	case 3:
		return h + h[:24]
	case 4:
		i := u(t, 40)
		return h[:i] + pick(t, []string{"g", "G", "z", "-", "_", "\xff", " ", "\t", "/", ":", "@", "`"}) + h[i+1:]
	case 5:
		return pick(t, []string{" ", "  ", "\t"}) + h
	case 6:
		return h + pick(t, []string{" ", "\r", "\t", " x"})
	}
	return ""
}

// badPerson has no email in angle brackets.
func badPerson(t *rapid.T) string {
	if chance(t, 1, 2) {
		return text(t, headerForbid+pick(t, []string{"<", ">", "<>"}))
	}
	return pick(t, []string{"", "x", "Jane Doe", "Jane Doe <jane", "Jane Doe jane>", "Jane", " ", "  ", "Jane Doe 1503667703 +0200", "<", "Jane <", "Jane < 1 +0000", "Jane <a b c", "Jane a@b 12 +0000", "Jane <a 12 +0000"})
}

func genMalformed(t *rapid.T) Malformed {
	h := genHash(t).hex()
	how := pick(t, []string{"type", "size", "negative blob", "short blob", "tree entry", "duplicate name", "hash", "hash", "person", "person", "signature", "merge tag", "no tree", "no object", "header", "wrapped"})
	m := Malformed{How: how}
	set := func(kind, body string) { m.Raw = S(frame(kind, body)) }
	who := "author A <a@b> 1 +0000\ncommitter A <a@b> 1 +0000\n"
	extra := ""
	if chance(t, 1, 3) {
		extra = "encoding x\n"
	}
	switch how {
	case "type":
		o := genObj(t)
		k := pick(t, badKinds)
		if chance(t, 1, 2) {
			k = strings.ReplaceAll(text(t, " "), " ", "")
			if isKind(k) {
				k += "x"
			}
		}
		m.Raw = S(k + " " + fmt.Sprint(len(o.body())) + "\x00" + o.body())
	case "wrapped":
		o := smallObj(t, 4000)
		m.Raw = S(wrapped(t, o.bytes()))
		if o.Blob == nil && !isKind(kindOf([]byte(o.body()))) && chance(t, 1, 8) {
			m.Raw = S(o.body()) // without the header
		}
	case "header":
		o := genObj(t)
		// no NUL, hence no end of the size
		m.Raw = S(o.kind() + " " + strings.ReplaceAll(fmt.Sprint(len(o.body()))+o.body(), "\x00", "0"))
		if chance(t, 1, 4) {
			m.Raw = S(o.kind())
		}
	case "size":
		o := genObj(t)
		m.Raw = S(o.kind() + " " + pick(t, nonNumbers) + "\x00" + o.body())
	case "negative blob":
		b := genBlob(t)
		m.Raw = S(fmt.Sprintf("blob -%d\x00%s", 1+u(t, 1+len(b.Data)), b.Data))
	case "short blob":
		b := genBlob(t)
		m.Raw = S(fmt.Sprintf("blob %d\x00%s", len(b.Data)+1+u(t, 5000), b.Data))
		if chance(t, 1, 8) {
			m.Raw = S("blob " + string(pick(t, []S{"9223372036854775807", "4294967296", "1073741824"})) + "\x00" + string(b.Data))
		}
	case "tree entry":
		g := genTree(t)
		if len(g.Entries) == 0 {
			g.Entries = []Entry{{Mode: "100644", Name: S(textNE(t, "\x00")), Hash: genHash(t)}}
		}
		last := g.Entries[len(g.Entries)-1]
		size := len(last.Mode) + len(last.Name) + 22
		body := g.body()
		cut := 1 + u(t, size-1)
		if chance(t, 1, 2) {
			cut = 1 + u(t, min(24, size-1))
		}
		set("tree", body[:len(body)-cut])
	case "duplicate name":
		g := genTree(t)
		if len(g.Entries) == 0 {
			g.Entries = []Entry{{Mode: "100644", Name: "a", Hash: genHash(t)}}
		}
		e := g.Entries[u(t, len(g.Entries))]
		if chance(t, 1, 2) {
			e.Mode, e.Hash = genMode(t), genHash(t)
		}
		i := u(t, len(g.Entries)+1)
		es := append([]Entry{}, g.Entries[:i]...)
		es = append(es, e)
		g.Entries = append(es, g.Entries[i:]...)
		set("tree", g.body())
	case "hash":
		b := badHash(t, h)
		switch u(t, 9) {
		case 4, 5, 6:
			c := genCommit(t)
			c.Parents = c.Parents[:min(len(c.Parents), 4)]
			var old, bad string
			first := len("tree ") + 41
			body := c.body()
			switch x := u(t, 6); {
			case x == 0: // one more tree or parent, which is malformed
				i := first * u(t, 2)
				set("commit", body[:i]+pick(t, []string{"tree ", "parent "})+b+"\n"+body[i:])
				return m
			case x < 3 && len(c.Parents) > 0:
				i := first + u(t, len(c.Parents))*(len("parent ")+41)
				set("commit", body[:i]+"parent "+b+body[i+len("parent ")+40:])
				return m
			case x < 5 && len(c.Merge) > 0:
				i := u(t, len(c.Merge))
				c.Merge[i].Object = markHash
				body = c.body()
				old, bad = "mergetag object "+markHash.hex()+"\n", "mergetag object "+b+"\n"
			default:
				old, bad = body[:first], "tree "+b+"\n"
			}
			set("commit", strings.Replace(body, old, bad, 1))
			return m
		case 7, 8:
			g := genTag(t)
			body := g.body()
			first := len("object ") + 41
			if chance(t, 1, 4) {
				i := first * u(t, 2)
				set("tag", body[:i]+"object "+b+"\n"+body[i:])
				return m
			}
			set("tag", "object "+b+body[first-1:])
			return m
		case 0:
			set("commit", "tree "+b+"\n"+who+extra+"\nm")
		case 1:
			set("commit", "tree "+h+"\n"+strings.Repeat("parent "+h+"\n", u(t, 3))+"parent "+b+"\n"+who+"\nm")
		case 2:
			set("commit", "tree "+h+"\n"+who+extra+"mergetag object "+b+"\n type commit\n tag v\n tagger A <a> 1 +0000\n \n m\n\nm")
		default:
			set("tag", "object "+b+"\ntype commit\ntag v\n"+extraTagger(t)+"\nm")
		}
	case "person":
		p := badPerson(t)
		switch u(t, 8) {
		case 4, 5, 6:
			c := genCommit(t)
			c.Parents = c.Parents[:min(len(c.Parents), 4)]
			mark := &Person{Name: "\x01the one\x02", Email: "e"}
			what := "author "
			switch x := u(t, 3); {
			case x == 0 && len(c.Merge) > 0:
				c.Merge[u(t, len(c.Merge))].Tagger = mark
				what = " tagger "
			case x == 1:
				c.Committer = mark
				what = "committer "
			default:
				c.Author = mark
			}
			set("commit", strings.Replace(c.body(), "\n"+what+mark.text()+"\n", "\n"+what+p+"\n", 1))
			return m
		case 7:
			g := genTag(t)
			g.Tagger = &Person{Name: "\x01the one\x02", Email: "e"}
			set("tag", strings.Replace(g.body(), "\ntagger "+g.Tagger.text()+"\n", "\ntagger "+p+"\n", 1))
			return m
		case 0:
			set("commit", "tree "+h+"\nauthor "+p+"\ncommitter A <a> 1 +0000\n\nm")
		case 1:
			set("commit", "tree "+h+"\nauthor A <a> 1 +0000\ncommitter "+p+"\n"+extra+"\nm")
		case 2:
			set("tag", "object "+h+"\ntype commit\ntag v\ntagger "+p+"\n\nm")
		default:
			set("commit", "tree "+h+"\n"+who+"mergetag object "+h+"\n type commit\n tag v\n tagger "+p+"\n \n m\n\nm")
		}
	case "signature":
		c := genCommit(t)
		c.Other, c.Msg = nil, ""
		if c.Sig == nil {
			c.Sig = genSig(t)
		}
		body := c.body()
		i := strings.LastIndex(body, "\n"+sigEnd)
		tailText := body[i+1+len(sigEnd):]
		switch u(t, 3) {
		case 0: // no end
			body = body[:i] + strings.ReplaceAll(tailText, sigEnd, "")
		case 1: // an end that is not quite one
			body = body[:i] + "\n" + pick(t, []string{sigEnd + "x", " " + sigEnd, sigEnd[1:], sigEnd[:len(sigEnd)-1], sigEnd + " ", sigEnd + "\r"}) + tailText
		default: // nothing after the beginning
			body = body[:strings.LastIndex(body[:i+1], sigBegin+"\n")+len(sigBegin)+1]
		}
		set("commit", body)
	case "merge tag":
		c := genCommit(t)
		c.Other, c.Sig, c.Msg = nil, nil, ""
		c.Merge = append(c.Merge, genMergeTag(t))
		body := c.body()
		set("commit", body[:len(body)-1]) // without the empty line that ends it
	case "no tree":
		c := genCommit(t)
		body := c.body()
		set("commit", body[len("tree ")+41:])
		if chance(t, 1, 10) {
			set("commit", "")
		}
	case "no object":
		g := genTag(t)
		body := g.body()
		set("tag", body[len("object ")+41:])
		if chance(t, 1, 10) {
			set("tag", "")
		}
	}
	return m
}

func extraTagger(t *rapid.T) string {
	if chance(t, 1, 2) {
		return ""
	}
	return "tagger A <a> 1 +0000\n"
}

func checkMalformed(x *Ctx, m Malformed) error {
	x.class("%s", m.How)
	raw := []byte(m.Raw)
	n, err := parse(raw)
	if err == nil {
		return fmt.Errorf("malformed (%s), yet accepted: %s", m.How, short(string(m.Raw)))
	}
	if n != nil {
		return fmt.Errorf("node together with error %v", err)
	}
	// Of the other entry points some each time; the large part of the time is theirs.
	h := objectHash(raw)
	for i, e := range entryPoints(int(h[0]) | int(h[1])<<8) {
		if (i+int(h[2]))%3 != 0 {
			continue
		}
		n, err := e.f(raw)
		if err == nil {
			return fmt.Errorf("malformed (%s), yet accepted by %s: %s", m.How, e.name, short(string(m.Raw)))
		}
		if n != nil {
			return fmt.Errorf("%s: node together with error %v", e.name, err)
		}
	}
	return nil
}

func init() {
	rules["C13"] = "part read: for a generated object (up to 3000 bytes), a reader that fails after k bytes for every k (200 of them when there are more), alone or with the last data, for good or once, in several chunk sizes, plain and compressed: the fault must be the error; part write: the same for a writer, which moreover must have received a prefix of the object; part cut: the object cut short after k bytes for every k (up to 400): rejected wherever it ends within a header, a hash, a tree entry, a signature, a merge tag message or a blob; part zlib: bit flips, truncation and trailing bytes of the compressed form, against inflating and parsing separately; part node: an untyped commit, tag or blob (of an implementation of the harness) of which the k-th read fails, for every k (150 of them when there are more): an error, or the very object, and nothing but a prefix of it written; parts read large, write large and cut large: the same for objects of 5 to 300 kB with 100 places for the fault, also around multiples of 512 bytes; non-trivial: an object over 100 bytes"
	genF := func(t *rapid.T) FaultCase { return FaultCase{Obj: smallObj(t, 3000), Seed: u(t, 1<<16)} }
	big := func(v FaultCase) bool { return len(v.Obj.bytes()) > 100 }
	register("C13", "read", 350, 9000, genF, checkReadFaults, big)
	register("C13", "write", 1200, 30000, genF, checkWriteFaults, big)
	register("C13", "cut", 700, 18000, genF, checkTruncation, big)
	register("C13", "zlib", 2500, 70000, func(t *rapid.T) ZlibCase {
		v := ZlibCase{Cut: -1, Seed: u(t, 1<<16), Raw: S(smallObj(t, 3000).bytes())}
		switch u(t, 6) {
		case 0, 1, 2:
			for n := 1 + u(t, 2)*u(t, 4); n > 0; n-- {
				v.Bits = append(v.Bits, u(t, 1<<20))
			}
			if chance(t, 1, 3) {
				// near the end, where the checksum is
				v.Bits[0] = len(deflate([]byte(v.Raw), v.Seed))*8 - 1 - u(t, 40)
			}
		case 3:
			v.Cut = u(t, 1<<16)
		case 4:
			v.Cut = max(0, len(deflate([]byte(v.Raw), v.Seed))-u(t, 8))
		default:
			v.Add = S(text(t, ""))
		}
		return v
	}, checkZlib, func(v ZlibCase) bool { return len(v.Raw) > 100 })
	// The same for objects that outgrow every buffer.
	genL := func(t *rapid.T) BigFault {
		v := BigFault{genLarge(t), u(t, 1<<16)}
		if n := &v.Large.Bulk.N; *n > 1<<23+1000 { // read many times over
			*n = 1<<22 + *n%(1<<20)
		}
		return v
	}
	for _, l := range []struct {
		name  string
		check func(*Ctx, FaultCase) error
	}{{"read large", checkReadFaults}, {"write large", checkWriteFaults}, {"cut large", checkTruncation}} {
		register("C13", l.name, 30, 400, genL, func(x *Ctx, v BigFault) error {
			o := v.Large.obj()
			classSize(x, len(o.bytes()))
			return l.check(x, FaultCase{o, v.Seed})
		}, always[BigFault])
	}
	register("C13", "node", 1200, 40000, func(t *rapid.T) BuildCase {
		v := BuildCase{Seed: u64.Draw(t, "seed")}
		for v.Obj.kind() == "blob" && v.Obj.Blob == nil || v.Obj.Tree != nil {
			v.Obj = smallObj(t, 3000)
		}
		return v
	}, checkNodeFaults, always[BuildCase])
	register("C13", "raw", 0, 0, genRawNone, func(x *Ctx, r Raw) error { return checkMalformed(x, Malformed{"raw", r.Raw}) }, always[Raw])

	rules["C14"] = "an object with one defect of a generated sort: unknown type, no size, a size that is no number, a blob with a negative or too large size, a tree that ends within an entry or repeats a name, a hash with wrong digits or of the wrong length in each position, a person line without an email, a signature or merge tag without end, a commit without tree, a tag without object; every entry point must reject it; every case is non-trivial"
	register("C14", "malformed", 8000, 250000, genMalformed, checkMalformed, always[Malformed])
}
