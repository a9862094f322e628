package main

import (
	"crypto/sha1"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// ---- choices ----

var zeroMix = mix64(0)

var u64 = rapid.Uint64()

// u draws a number in [0, n), close to uniformly (the integers of the library
// lean towards the small ones), with 0 as the simplest.
func u(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	return int((mix64(u64.Draw(t, "u")) - zeroMix) % uint64(n))
}

// chance is true in about num of den cases; false is simplest.
func chance(t *rapid.T, num, den int) bool { return u(t, den) >= den-num }

func pick[T any](t *rapid.T, xs []T) T { return xs[u(t, len(xs))] }

// count is heavy tailed: mostly a few, sometimes many.
func count(t *rapid.T) int { return countUpTo(t, 1100) }

func countUpTo(t *rapid.T, limit int) int {
	n := 0
	switch x := u(t, 16); {
	case x < 4:
		n = 0
	case x < 8:
		n = 1
	case x < 10:
		n = 2
	case x < 12:
		n = 3
	case x < 14:
		n = 4 + u(t, 6)
	case x < 15:
		n = 10 + u(t, 40)
	default:
		if len(hotInt) > 0 && chance(t, 1, 2) {
			n = pick(t, hotInt) - 1 + u(t, 3)
		} else if chance(t, 1, 6) {
			n = pick(t, []int{63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025})
		} else {
			n = 16 + u(t, 4)
		}
	}
	if n > limit {
		n = limit - u(t, 3)
	}
	if n < 0 {
		n = 0
	}
	return n
}

// ---- text ----

var words = []string{
	"a", "b", "x", "Jane", "Doe", "merge", "fix", "branch", "master", "v1.0", "refs/heads/main", "README.md", "src",
	"tree", "commit", "tag", "blob", "parent", "author", "committer", "tagger", "object", "type", "encoding", "mergetag",
	"gpgsig", "gpgsig-sha256", "Version: ", "Comment: ", "HG:extra", "Signed-off-by: A <a@b>", "UTF-8", "ISO-8859-1",
	"1503667703", "+0200", "-0000", "+0000", "40000", "100644", "0", "00",
}

// jargon is what real repositories are full of.
var jargon = []string{
	"gpgsig-sha256 -----BEGIN PGP SIGNATURE-----", "gpgsig -----BEGIN SSH SIGNATURE-----", "gpgsig -----BEGIN SIGNED MESSAGE-----", "gpgsig -----BEGIN PGP MESSAGE-----",
	"-----BEGIN PGP MESSAGE-----", "-----END SSH SIGNATURE-----", "-----BEGIN PGP PUBLIC KEY BLOCK-----", "Hash: SHA256", "=abcd", "iQEzBAABCAAdFiEE", "Charset: utf-8", "MessageID: x",
	"HG:rename-source hg", "HG:extra rebase_source:05fe4057", "change-id xvzkqlmnop", "Change-Id: I05fe405753166f125559e7c9ac558654f107c7e9", "git-svn-id: https://x/y@1 z", "parent-extra",
	"Co-authored-by: ", "Signed-off-by: ", "Reviewed-by: ", "Fixes #1", "(cherry picked from commit ", "Merge branch 'x' of https://x/y", "Revert \"", "This reverts commit ", "[PATCH 1/2] ", "fixup! ", "squash! ", "[ci skip]",
	"# comment", "# ------------------------ >8 ------------------------", "-- ", "---", "Conflicts:", "diff --git a/x b/x", "@@ -1 +1 @@", "<<<<<<< HEAD", "=======", ">>>>>>> x", "From 05fe405753166f125559e7c9ac558654f107c7e9 Mon Sep 17 00:00:00 2001",
	"root", "(no author)", "unknown", "noreply@github.com", "dependabot[bot]", "Jr.", "O'Brien", "Doe, Jane", "J. Doe", "user@host.(none)", "a@b, c@d", "mailto:a@b", "\"Jane\"",
	".git", ".GIT", ".gitmodules", ".gitignore", "git~1", "CON", "nul", "README", "readme", "Makefile", "a.b", "a-b", "a0", "a/b", "a:b", "~", "\xe2\x80\x8c.git",
	"100755", "120000", "160000", "040000", "100664", "windows-1252", "utf-8", "utf8", "latin1", "iso8859-1", "Shift_JIS", "EUC-JP", "HEAD", "refs/tags/v1", "v1.0^{}", "v1.0-rc1", "release 1",
	"version https://git-lfs.github.com/spec/v1", "oid sha256:", "{\"/\":\"z8mWaJ\"}", "blob 0\x00", "tree 0\x00", "PK\x03\x04", "\x7fELF", "\x89PNG\r\n\x1a\n", "\x1f\x8b\x08", "x\x9c", "\xfe\xff", "\xff\xfe", "#!/bin/sh\n", "<?xml", "%PDF-",
}

var specials = []string{
	" ", "  ", "\t", "\r", "\n", "\r\n", "\n\n", "\n ", "\x00", "\x01", "\x0b", "\x0c", "\x1b", "\x7f", "\x80", "\xff", "\xc3", "\xc3\xa9",
	"\xe2\x80\xa8", "\xef\xbb\xbf", "\xef\xbf\xbd", "\xf0\x9f\x98\x80", "e\xcc\x81", "\xc2\xa0", "\xc2\x85", "%", "%s", "%d", "%!", "%%", "%v", "%n",
	"\\", "\\n", "\"", "'", "<", ">", "<>", "/", "..", ".", "-", "--", "+", "=", "#", ";", ":", ",", "@", "~", "^", "*", "?", "[", "$HOME", "`", "&amp;", "\xed\xa0\x80",
	"tree ", "parent ", "author ", "committer ", "encoding ", "mergetag object ", "object ", "type ", "tag ", "tagger ",
	"gpgsig -----BEGIN PGP SIGNATURE-----", "-----BEGIN PGP SIGNATURE-----", "-----END PGP SIGNATURE-----", "-----BEGIN SSH SIGNATURE-----",
}

var lengths = []int{20, 32, 40, 63, 64, 65, 72, 79, 80, 81, 100, 127, 128, 129, 200, 255, 256, 257, 400, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049,
	4070, 4080, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 4099, 4100, 4111, 5000, 8190, 8191, 8192, 8193, 8200, 10000, 16383, 16384, 16385}
var hugeLengths = []int{32767, 32768, 32769, 65535, 65536, 65537, 65600, 100000, 131071, 131072, 131073, 262144, 300000, 524288, 1 << 20, 1<<20 + 1, 1<<21 + 7}

func length(t *rapid.T) int { return max(0, length1(t)) }

func length1(t *rapid.T) int {
	switch {
	case len(hotInt) > 0 && chance(t, 1, 3):
		n := pick(t, hotInt)
		if n > 1<<15 && !chance(t, 1<<15, n) { // not often
			n = pick(t, lengths)
		}
		return max(0, n-1-u(t, 2)+u(t, 4)-u(t, 64)*u(t, 2))
	case chance(t, 1, 40):
		return pick(t, hugeLengths)
	case chance(t, 1, 3):
		return pick(t, lengths) - u(t, 50) + u(t, 3)
	}
	return pick(t, lengths)
}

func sanitize(s string, forbid string) string {
	if forbid == "" || !strings.ContainsAny(s, forbid) && !hasByte(s, forbid) {
		return s
	}
	b := []byte(s)
	for i, c := range b {
		if strings.IndexByte(forbid, c) >= 0 {
			b[i] = '_'
		}
	}
	return string(b)
}

func hasByte(s, set string) bool {
	for i := 0; i < len(set); i++ {
		if strings.IndexByte(s, set[i]) >= 0 {
			return true
		}
	}
	return false
}

var rawBytes = rapid.SliceOfN(rapid.Byte(), 1, 12)

// text draws a byte string free of the bytes in forbid.
func text(t *rapid.T, forbid string) string {
	n := 0
	switch x := u(t, 12); {
	case x < 2:
		n = 0
	case x < 5:
		n = 1
	case x < 7:
		n = 2
	case x < 10:
		n = 3
	case x < 11:
		n = 4
	default:
		n = 5 + u(t, 8)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(piece(t))
	}
	return sanitize(b.String(), forbid)
}

func piece(t *rapid.T) string {
	if len(hotStr) > 0 && chance(t, 1, 7) {
		return pick(t, hotStr)
	}
	k := u(t, 40)
	switch {
	case k < 12:
		return pick(t, words)
	case k < 15:
		return pick(t, jargon)
	case k < 16:
		return recase(t, pick(t, words))
	case k < 26:
		return pick(t, specials)
	case k < 29:
		return pick(t, dictStr)
	case k < 33:
		return string(rawBytes.Draw(t, "bytes"))
	case k < 35:
		// evenly distributed bytes
		x := u64.Draw(t, "bytes")
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], mix64(x))
		return string(b[:1+u(t, 8)])
	case k < 37:
		return strings.Repeat(pick(t, []string{" ", "\n", "a", "-", "\n ", "ab ", ">", "\x00"}), 2+u(t, 9))
	case k < 39:
		return " "
	}
	// long
	unit := pick(t, []string{"a", "x", " ", "ab ", "\n", "line\n", "\n ", "\xc3\xa9", "\x00", "0123456789", "-", "\r\n", "parent \n"})
	l := length(t)
	if len(unit) > 1 && chance(t, 1, 2) {
		return strings.Repeat(unit, l/len(unit)+1)[:l]
	}
	return strings.Repeat(unit, l)[:max(0, l)]
}

// recase writes a word in another case, if it has one.
func recase(t *rapid.T, s string) string { return recased(s, u(t, 4)) }

func recased(s string, how int) string {
	b := []byte(s)
	flip := func(i int) {
		if c := b[i] | 0x20; c >= 'a' && c <= 'z' {
			b[i] ^= 0x20
		}
	}
	switch {
	case len(b) == 0:
	case how == 0:
		flip(0)
	case how == 1:
		for i := range b {
			flip(i)
		}
	case how == 2:
		flip(len(b) - 1)
	default:
		return strings.ToUpper(s)
	}
	return string(b)
}

func textNE(t *rapid.T, forbid string) string {
	s := text(t, forbid)
	if s == "" {
		s = "z"
	}
	return s
}

// ---- hashes ----

// The empty tree and the empty blob, and these under SHA-256, cut.
var knownHashes = []Hash{
	hashOf("4b825dc642cb6eb9a060e54bf8d69288fbee4904"), hashOf("e69de29bb2d1d6434b8b29ae775ad8c2e48c5391"),
	hashOf("6ef19b41225c5369f1c104d45d8d85efa9b057b5"), hashOf("473a0f4c3be8a93681a267e3b1e9a7dcda118543"),
}

func hashOf(s string) (h Hash) {
	if n, err := hex.Decode(h[:], []byte(s)); n != 20 || err != nil {
		panic(s)
	}
	return h
}

var sharedHashes = []Hash{sha1.Sum([]byte("1")), sha1.Sum([]byte("2")), sha1.Sum([]byte("3"))}

func genHash(t *rapid.T) Hash {
	switch x := u(t, 12); {
	case x < 7:
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], u64.Draw(t, "hash"))
		return sha1.Sum(b[:])
	case x < 9:
		return pick(t, sharedHashes)
	case x < 10:
		// random with some bytes that mean something to a text or a tree parser
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], u64.Draw(t, "hash"))
		h := Hash(sha1.Sum(b[:]))
		for i := 1 + u(t, 3); i > 0; i-- {
			h[pick(t, []int{0, 1, 2, 10, 18, 19})] = pick(t, []byte{0, ' ', '\n', '\r', 0xff, 0x0f, 0xf0, '<', 0x14, 0x11, 0x80})
		}
		return h
	case x < 11:
		var h Hash
		v := pick(t, []byte{0, 0xff, ' ', '\n', 'a', 0x0f, 0x80})
		for i := range h {
			h[i] = v
		}
		return h
	default:
		if chance(t, 1, 3) {
			return pick(t, knownHashes)
		}
		// mostly zero
		var h Hash
		h[u(t, 20)] = byte(1 + u(t, 255))
		return h
	}
}

// ---- persons ----

const headerForbid = "\n\x00"

var dates = []string{"1503667703", "0", "1", "-1", "1234567890", "2147483647", "2147483648", "4294967296", "253402300800", "99999999999999999999", "0012", "00", "+5",
	"1503667703.5", "1e9", "Thu", "2017-08-25T15:28:23Z", "<1>", "0x10", "-", "@1503667703"}
var zones = []string{"+0200", "+0000", "-0000", "-0700", "+1130", "-1130", "+0545", "+051800", "-0", "+0", "0", "0200", "200", "UTC", "Z", "+2", "-7", "+9999", "+02:00", "+00000", "--700", "-7:-30", "(CEST)"}

// genPerson: name and email hold neither angle brackets nor newlines.
func genPerson(t *rapid.T) *Person {
	p := &Person{}
	const forbid = headerForbid + "<>"
	switch x := u(t, 6); {
	case x < 2:
		p.Name = "Jane Doe"
	case x < 3:
		p.Name = ""
	default:
		p.Name = S(text(t, forbid))
	}
	switch x := u(t, 6); {
	case x < 2:
		p.Email = "jane@example.org"
	case x < 3:
		p.Email = ""
	default:
		p.Email = S(text(t, forbid))
	}
	form := u(t, 8)
	if form == 6 {
		return p
	}
	p.Date = S(token1(t, dates))
	if form == 7 {
		return p
	}
	p.TZ = S(token1(t, zones))
	return p
}

func token1(t *rapid.T, list []string) string {
	if chance(t, 1, 6) {
		return textNE(t, headerForbid+" ")
	}
	return pick(t, list)
}

// genTagger: like genPerson, but something of it is set, because a tagger of
// which nothing is set stands for no tagger line at all.
func genTagger(t *rapid.T) *Person {
	if chance(t, 1, 6) {
		return nil
	}
	p := genPerson(t)
	if *p == (Person{}) {
		p.Name = "t"
	}
	return p
}

// ---- objects ----

var objTypes = []S{"commit", "tree", "blob", "tag"}

func genObjType(t *rapid.T) S {
	if chance(t, 1, 5) {
		return S(text(t, headerForbid))
	}
	if chance(t, 1, 12) {
		return S(recase(t, string(pick(t, objTypes))))
	}
	return pick(t, objTypes)
}

func genLines(t *rapid.T, forbid string, n int) []S {
	out := make([]S, 0, min(n, 64))
	for i := 0; i < n; i++ {
		if n > 60 {
			out = append(out, S(words[(i*7+n)%len(words)]))
			continue
		}
		out = append(out, S(text(t, forbid)))
	}
	return out
}

func genMergeTag(t *rapid.T) MergeTag {
	m := MergeTag{Object: genHash(t), Type: genObjType(t), Tag: S(text(t, headerForbid)), Tagger: genTagger(t)}
	m.Msg = genLines(t, headerForbid, count(t))
	if chance(t, 1, 8) {
		m.Msg = append(m.Msg, "-----BEGIN PGP SIGNATURE-----", "", "iQ", "-----END PGP SIGNATURE-----")
	}
	return m
}

var otherTemplates = [][]S{
	{"gpgsig -----BEGIN SSH SIGNATURE-----", " U1NIU0lHAAAA", " -----END SSH SIGNATURE-----"},
	{"gpgsig -----BEGIN SIGNED MESSAGE-----", " MIIC", " -----END SIGNED MESSAGE-----"},
	{"gpgsig-sha256 -----BEGIN PGP SIGNATURE-----", " ", " iQ", " -----END PGP SIGNATURE-----"},
	{"gpgsig -----BEGIN PGP SIGNATURE----- "},
	{"gpgsig -----BEGIN PGP SIGNATURE-----\r"},
	{"gpgsig -----BEGIN PGP MESSAGE-----", " ", " iQ", " -----END PGP MESSAGE-----"},
	{"gpgsig"}, {"gpgsig "},
	{"HG:extra rebase_source:6d3f"}, {"HG:rename a:b"}, {"tree"}, {"parent"}, {"author"}, {"committer"}, {"encoding"}, {"mergetag"}, {"mergetag object"}, {"mergetag x"},
	{"trees abc"}, {"Tree abc"}, {"TREE abc"}, {"tree\tabc"}, {"change-id klmn"}, {"x", " continued", "  more", " "}, {"\r"}, {"\t"},
	{"kind other", " tree ", " parent x", " gpgsig -----BEGIN PGP SIGNATURE-----", " author"},
	{"%s%d%n", " 100%"}, {"type commit"}, {"tag v1"}, {"tagger A <a> 1 +0000"}, {"object 0000"}, {"blob"},
}

var commitKeywords = []string{"tree ", "parent ", "author ", "committer ", "encoding ", "mergetag object "}

func isCommitKeyword(l string) bool {
	for _, k := range commitKeywords {
		if strings.HasPrefix(l, k) {
			return true
		}
	}
	return l == sigBegin
}

func genOther(t *rapid.T, afterSig bool) []S {
	var out []S
	n := count(t)
	for len(out) < n {
		if n > 60 {
			out = append(out, S(words[(len(out)*7+n)%len(words)]))
		} else if chance(t, 1, 2) {
			out = append(out, pick(t, otherTemplates)...)
		} else {
			out = append(out, S(textNE(t, headerForbid)))
		}
	}
	for i, l := range out {
		if isCommitKeyword(string(l)) {
			out[i] = "x" + l
		}
	}
	// An indented line belongs to the header before it; only after a signature
	// (which ends with its END line) can there be one that starts the list.
	if len(out) > 0 && !afterSig && out[0][0] == ' ' {
		out[0] = "y" + out[0]
	}
	return out
}

func genSig(t *rapid.T) []S {
	out := []S{""}
	switch u(t, 4) {
	case 1:
		out[0] = "Version: GnuPG v1"
	case 2:
		out[0] = S("Comment: " + text(t, headerForbid))
	case 3:
		out[0] = S("Version: " + text(t, headerForbid))
	}
	if chance(t, 1, 2) {
		out = append(out, "", "iQEzBAABCAAdFiEE", "=abcd")
	}
	out = append(out, genLines(t, headerForbid, count(t))...)
	for i, l := range out {
		if string(l) == sigEnd[1:] {
			out[i] += "-"
		}
	}
	return out
}

func genMsg(t *rapid.T) S {
	switch u(t, 8) {
	case 1:
		return ""
	case 2:
		return "msg\n"
	case 3:
		return "\n"
	case 4:
		return S("tree " + sharedHashes[0].hex() + "\nparent x\n\n" + text(t, ""))
	}
	return S(text(t, ""))
}

func genCommit(t *rapid.T) Commit {
	c := Commit{Tree: genHash(t)}
	for i := count(t); i > 0; i-- {
		c.Parents = append(c.Parents, genHash(t))
	}
	if !chance(t, 1, 12) {
		c.Author = genPerson(t)
	}
	if !chance(t, 1, 12) {
		c.Committer = genPerson(t)
	}
	if chance(t, 1, 4) {
		e := S(text(t, headerForbid))
		c.Encoding = &e
	}
	if chance(t, 1, 3) {
		for i := max(1, countUpTo(t, 300)); i > 0; i-- {
			if len(c.Merge) > 12 {
				c.Merge = append(c.Merge, c.Merge[len(c.Merge)-7])
				continue
			}
			c.Merge = append(c.Merge, genMergeTag(t))
		}
	}
	if chance(t, 1, 3) {
		c.Sig = genSig(t)
	}
	if chance(t, 1, 2) {
		c.Other = genOther(t, c.Sig != nil)
	}
	c.Msg = genMsg(t)
	return c
}

func genTag(t *rapid.T) Tag {
	g := Tag{Object: genHash(t), Type: genObjType(t), Tag: S(text(t, headerForbid)), Tagger: genTagger(t), Msg: genMsg(t)}
	if chance(t, 1, 8) {
		g.Msg += "-----BEGIN PGP SIGNATURE-----\n\niQ\n-----END PGP SIGNATURE-----\n"
	}
	return g
}

var modes = []S{"100644", "40000", "100755", "120000", "160000", "100664", "040000", "0", "00", "000000", "777", "0100644", "100600", "1", "170000", "140000", "x", "100644\t", "-1", "%o"}

func genMode(t *rapid.T) S {
	if chance(t, 1, 10) {
		m := S(textNE(t, " "))
		if chance(t, 1, 8) {
			m = pick(t, []S{"\x00" + m, m + "\x00", "\x00"})
		}
		return m
	}
	if chance(t, 1, 12) {
		// off by one character, or empty
		m := []byte(pick(t, modes[:5]))
		if chance(t, 1, 6) {
			return ""
		}
		m[u(t, len(m))] = byte('0' + u(t, 8))
		return S(m)
	}
	return pick(t, modes)
}

var fileNames = []S{"a", "b", "a.txt", "README.md", ".gitignore", ".", "..", ".git", "a b", " a", "a ", "-", "a/b", "\n", "a\nb", "\xff", "caf\xc3\xa9", "cafe\xcc\x81", "A", "a0", "a-", "a=", "aa", "0", "1", "2", "3", "00", "01", "-1", "mode", "hash", "tree", "100644 x", "con", "%s"}

func genName(t *rapid.T, i int) S {
	if i > 40 {
		return S("f" + string(rune('a'+i%26)) + strings.Repeat("x", i%5))
	}
	if chance(t, 1, 2) {
		return pick(t, fileNames)
	}
	if chance(t, 1, 20) {
		return ""
	}
	return S(textNE(t, "\x00"))
}

func genTree(t *rapid.T) Tree {
	n := count(t)
	tr := Tree{}
	seen := map[S]bool{}
	for i := 0; i < n; i++ {
		var e Entry
		if i > 60 {
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], uint64(i*n))
			e = Entry{Mode: modes[i%len(modes)], Name: S("n" + hexN(i)), Hash: sha1.Sum(b[:])}
		} else {
			e = Entry{Mode: genMode(t), Name: genName(t, i), Hash: genHash(t)}
		}
		for k := 0; seen[e.Name]; k++ {
			e.Name += S(rune('a' + k%26))
		}
		seen[e.Name] = true
		tr.Entries = append(tr.Entries, e)
	}
	return tr
}

func hexN(i int) string {
	const d = "0123456789abcdef"
	s := ""
	for {
		s = string(d[i%16]) + s
		i /= 16
		if i == 0 {
			return s
		}
	}
}

func genBlob(t *rapid.T) Blob {
	if chance(t, 1, 12) {
		return Blob{Data: S(strings.Repeat(pick(t, []string{"x", "\x00", "ab\n", "\xff"}), max(0, length(t))))}
	}
	data := text(t, "")
	if chance(t, 1, 12) {
		// The object's own header once more, at the start, end or throughout.
		n := len(data) + u(t, 40)
		for i := u(t, 4); ; i-- {
			head := fmt.Sprintf("blob %d\x00", n)
			if i > 0 {
				head = strings.Repeat(head, i)
			}
			if len(head) > n {
				n += len(head)
				i++
				continue
			}
			data = sized(data, n-len(head))
			if chance(t, 1, 3) {
				return Blob{Data: S(data + head)}
			}
			return Blob{Data: S(head + data)}
		}
	}
	return Blob{Data: S(data)}
}

// sized is s cut or filled up to a length.
func sized(s string, n int) string {
	if len(s) >= n {
		return s[:n]
	}
	return s + strings.Repeat("\n", n-len(s))
}

// genObj draws an object of any type.
func genObj(t *rapid.T) Obj {
	switch x := u(t, 20); {
	case x < 9:
		c := genCommit(t)
		return Obj{Commit: &c}
	case x < 13:
		g := genTag(t)
		return Obj{Tag: &g}
	case x < 17:
		g := genTree(t)
		return Obj{Tree: &g}
	}
	b := genBlob(t)
	return Obj{Blob: &b}
}

// smallObj redraws nothing: it cuts what would make an object big, for checks
// that do quadratic work in its size.
func smallObj(t *rapid.T, limit int) Obj {
	o := genObj(t)
	if len(o.bytes()) <= limit {
		return o
	}
	cutS := func(s *S) {
		if len(*s) > 20 {
			*s = (*s)[:20]
		}
	}
	cutP := func(p *Person) {
		if p != nil {
			cutS(&p.Name)
			cutS(&p.Email)
			cutS(&p.Date)
			cutS(&p.TZ)
		}
	}
	cutL := func(l *[]S) {
		if len(*l) > 4 {
			*l = (*l)[:4]
		}
		for i := range *l {
			cutS(&(*l)[i])
		}
	}
	switch {
	case o.Commit != nil:
		c := o.Commit
		c.Parents = c.Parents[:min(2, len(c.Parents))]
		cutP(c.Author)
		cutP(c.Committer)
		if c.Encoding != nil {
			cutS(c.Encoding)
		}
		c.Merge = c.Merge[:min(2, len(c.Merge))]
		for i := range c.Merge {
			m := &c.Merge[i]
			cutS(&m.Type)
			cutS(&m.Tag)
			cutP(m.Tagger)
			m.Msg = append([]S{}, m.Msg...)
			cutL(&m.Msg)
		}
		if c.Sig != nil {
			cutL(&c.Sig)
		}
		c.Other = append([]S{}, c.Other...)
		cutL(&c.Other)
		cutS(&c.Msg)
	case o.Tag != nil:
		g := o.Tag
		cutS(&g.Type)
		cutS(&g.Tag)
		cutP(g.Tagger)
		cutS(&g.Msg)
	case o.Tree != nil:
		o.Tree.Entries = o.Tree.Entries[:min(4, len(o.Tree.Entries))]
		for i := range o.Tree.Entries {
			e := &o.Tree.Entries[i]
			cutS(&e.Mode)
			if len(e.Name) > 20 {
				e.Name = S(hexN(i)) + "-" + e.Name[:16]
			}
		}
		seen := map[S]bool{}
		for i := range o.Tree.Entries {
			for seen[o.Tree.Entries[i].Name] {
				o.Tree.Entries[i].Name += "'"
			}
			seen[o.Tree.Entries[i].Name] = true
		}
	default:
		o.Blob.Data = o.Blob.Data[:min(len(o.Blob.Data), limit)]
	}
	return o
}
