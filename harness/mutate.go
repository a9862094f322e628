package main

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// ---- bytes that may or may not be a git object ----

var sizeTexts = []string{"0", "1", "2", "-1", "-0", "+1", "00", "01", "4095", "4096", "65536", "1048576", "16777216", "268435456", "2147483647", "2147483648", "4294967295", "4294967296",
	"1099511627776", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "99999999999999999999999999", "", " ", "x", "1x", "0x10", "1_000", "1.0", "1e3", "\xd9\xa3", "\n", "1 "}

var kinds = []string{"commit", "tree", "tag", "blob"}
var badKinds = []string{"", "Commit", "commit\x00", "commits", "comm", "trees", "tre", "blobs", "Blob", "tagg", "delta", "ofs-delta", " ", "\n", "commit\n", "tag\t", "\xff", "object", "tree\r"}

// wrapped is an object in a form that other tools keep or send objects in, which
// is not an object itself.
func wrapped(t *rapid.T, b []byte) []byte {
	var out bytes.Buffer
	switch u(t, 12) {
	case 0, 1, 2: // as git's loose objects
		return deflate(b, u(t, 15))
	case 3:
		w := gzip.NewWriter(&out)
		w.Write(b)
		w.Close()
	case 4:
		return []byte(hex.EncodeToString(b))
	case 5:
		return []byte(base64.StdEncoding.EncodeToString(b))
	case 6: // UTF-16
		for _, c := range b {
			out.Write([]byte{c, 0})
		}
	case 7: // something before it
		out.WriteString(pick(t, []string{"\n", " ", "\x00", "\xef\xbb\xbf", "\r\n", "\t", "\"", "git ", "loose ", "object ", "\x1f\x8b"}))
		out.Write(b)
	case 8: // length first, as in many binary formats
		out.Write(binary.AppendUvarint(nil, uint64(len(b))))
		out.Write(b)
	case 9: // CBOR bytes
		out.WriteByte(0x5a)
		out.Write(binary.BigEndian.AppendUint32(nil, uint32(len(b))))
		out.Write(b)
	case 10: // as in a pack: the type is a number
		out.WriteByte(byte(1+u(t, 4))<<4 | byte(len(b)&15))
		out.Write(b[bytes.IndexByte(b, 0)+1:])
	default: // twice compressed
		return deflate(deflate(b, u(t, 15)), u(t, 15))
	}
	return out.Bytes()
}

func mutate(t *rapid.T, b []byte) []byte {
	pos := func() int {
		if len(b) == 0 {
			return 0
		}
		if chance(t, 1, 4) {
			return u(t, min(len(b), 24))
		}
		return u(t, len(b)+1)
	}
	lines := func() [][]byte { return bytes.SplitAfter(b, []byte("\n")) }
	join := func(ls [][]byte) []byte { return bytes.Join(ls, nil) }
	switch u(t, 18) {
	case 16: // wrapped as a whole
		return wrapped(t, b)
	case 0: // truncate
		return b[:pos()]
	case 1: // delete a range
		i := pos()
		j := min(len(b), i+1+u(t, 30))
		return append(append([]byte{}, b[:i]...), b[j:]...)
	case 2: // repeat a range
		i := pos()
		j := min(len(b), i+1+u(t, 60))
		n := 1 + u(t, 3)
		out := append([]byte{}, b[:j]...)
		for ; n > 0; n-- {
			out = append(out, b[i:j]...)
		}
		return append(out, b[j:]...)
	case 3, 4: // insert
		i := pos()
		return append(append(append([]byte{}, b[:i]...), piece(t)...), b[i:]...)
	case 5: // change a byte
		if len(b) == 0 {
			return b
		}
		i := u(t, len(b))
		out := append([]byte{}, b...)
		switch u(t, 3) {
		case 0:
			out[i] ^= 1 << u(t, 8)
		case 1:
			out[i] = pick(t, []byte{0, ' ', '\n', '\r', '<', '>', 0xff, 'g', '0'})
		default:
			out[i] = byte(u(t, 256))
		}
		return out
	case 6: // size
		i, j := bytes.IndexByte(b, ' '), bytes.IndexByte(b, 0)
		if i < 0 || j < i {
			return b
		}
		return []byte(string(b[:i+1]) + pick(t, sizeTexts) + string(b[j:]))
	case 7: // kind
		i := bytes.IndexByte(b, ' ')
		if i < 0 {
			return b
		}
		if chance(t, 1, 2) {
			return []byte(pick(t, badKinds) + string(b[i:]))
		}
		return []byte(pick(t, kinds) + string(b[i:]))
	case 8: // drop a line
		ls := lines()
		i := u(t, len(ls))
		return join(append(append([][]byte{}, ls[:i]...), ls[i+1:]...))
	case 9: // repeat a line
		ls := lines()
		i := u(t, len(ls))
		n := 1 + u(t, 2)
		if chance(t, 1, 10) {
			n = 50
		}
		out := append([][]byte{}, ls[:i]...)
		for ; n >= 0; n-- {
			out = append(out, ls[i])
		}
		return join(append(out, ls[i+1:]...))
	case 10: // swap two lines
		ls := append([][]byte{}, lines()...)
		i, j := u(t, len(ls)), u(t, len(ls))
		ls[i], ls[j] = ls[j], ls[i]
		return join(ls)
	case 11: // indent or unindent a line
		ls := append([][]byte{}, lines()...)
		i := u(t, len(ls))
		if len(ls[i]) > 0 && ls[i][0] == ' ' {
			ls[i] = ls[i][1:]
		} else {
			ls[i] = append([]byte{' '}, ls[i]...)
		}
		return join(ls)
	case 12: // insert a line
		ls := lines()
		i := u(t, len(ls)+1)
		l := headerLine(t) + "\n"
		out := append([][]byte{}, ls[:i]...)
		out = append(out, []byte(l))
		return join(append(out, ls[i:]...))
	case 13: // splice with another object
		o := smallObj(t, 4000).bytes()
		i := pos()
		return append(append([]byte{}, b[:i]...), o[u(t, len(o)):]...)
	case 14: // line ends
		return bytes.ReplaceAll(b, []byte("\n"), []byte(pick(t, []string{"\r\n", "\r", "\n\n", "", " \n"})))
	case 15: // cut a line short
		ls := append([][]byte{}, lines()...)
		i := u(t, len(ls))
		l := bytes.TrimSuffix(ls[i], []byte("\n"))
		ls[i] = append(append([]byte{}, l[:u(t, len(l)+1)]...), '\n')
		return join(ls)
	default: // make a hash of another length or of other digits
		i := bytes.Index(b, []byte(" "+sharedHashes[u(t, 3)].hex()))
		if i < 0 {
			return b
		}
		h := string(b[i+1 : i+41])
		switch u(t, 5) {
		case 0:
			h = h[:u(t, 40)]
		case 1:
			h += h[:1+u(t, 40)]
		case 2:
			h = strings.ToUpper(h)
		case 3:
			h = h[:39] + "g"
		default:
			h = " " + h
		}
		return []byte(string(b[:i+1]) + h + string(b[i+41:]))
	}
}

// headerLine draws a line like those commits and tags are made of.
func headerLine(t *rapid.T) string {
	h := sharedHashes[u(t, 3)].hex()
	switch u(t, 22) {
	case 0:
		return "tree " + h
	case 1:
		return "parent " + h
	case 2:
		return "author " + genPerson(t).text()
	case 3:
		return "committer " + genPerson(t).text()
	case 4:
		return "encoding " + text(t, "\n")
	case 5:
		return "mergetag object " + h
	case 6:
		return " type commit"
	case 7:
		return " tag v1"
	case 8:
		return " tagger " + genPerson(t).text()
	case 9:
		return " "
	case 10:
		return sigBegin
	case 11:
		return sigEnd
	case 12:
		return " Version: x"
	case 13:
		return ""
	case 14:
		return "object " + h
	case 15:
		return "type " + text(t, "\n")
	case 16:
		return "tag " + text(t, "\n")
	case 17:
		return "tagger " + genPerson(t).text()
	case 18:
		return pick(t, []string{"author", "author ", "author  ", "author <", "author >", "author <>", "author x", "author x <", "author x <y", "author x y>", "committer < > <", "tagger <  >", " tagger", " tagger ", "tagger a>b <c"})
	case 19:
		return pick(t, []string{"tree", "tree ", "parent ", "object ", "mergetag ", "mergetag object ", "tree " + h[:39], "parent " + h + "0", "object " + h + " ", "encoding ", "gpgsig -----BEGIN SSH SIGNATURE-----"})
	case 20:
		return " " + text(t, "\n")
	}
	return text(t, "\n")
}

// genBytes draws bytes: a valid object with a few mutations, lines in any order
// under a header of any type, or nothing like an object.
func genBytes(t *rapid.T) Raw {
	var b []byte
	switch x := u(t, 10); {
	case x < 6:
		b = smallObj(t, 6000).bytes()
		for n := 1 + u(t, 4); n > 0; n-- {
			b = mutate(t, b)
		}
	case x < 9:
		kind := pick(t, []string{"commit", "commit", "tag", "tree", "blob"})
		var s strings.Builder
		for n := countUpTo(t, 60); n > 0; n-- {
			s.WriteString(headerLine(t) + "\n")
		}
		body := s.String()
		if chance(t, 4, 5) {
			body = "tree " + sharedHashes[0].hex() + "\n" + body
		}
		if kind == "tag" && chance(t, 4, 5) {
			body = "object " + sharedHashes[0].hex() + "\n" + body
		}
		b = frame(kind, body)
		if chance(t, 1, 4) {
			b = mutate(t, b)
		}
	default:
		b = []byte(text(t, ""))
		if chance(t, 1, 2) {
			b = []byte(fmt.Sprintf("%s %s\x00%s", pick(t, kinds), pick(t, sizeTexts), b))
		}
	}
	return Raw{S(b)}
}

// genMostlyValid draws a valid object in most cases and a mutant otherwise.
func genMostlyValid(t *rapid.T) Raw {
	if chance(t, 1, 3) {
		return genBytes(t)
	}
	return Raw{S(genObj(t).bytes())}
}
