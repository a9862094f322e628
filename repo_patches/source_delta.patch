From 2a4e8b10c541ced20a133c3d5d51541f9a3364d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:50 +0000
Subject: [PATCH 01/17] fix: keep leading spaces of a person's name

The name lost its leading spaces on decode, so the object re-encoded to
different bytes and a different hash. git fsck accepts such names.
---
 personinfo.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/personinfo.go b/personinfo.go
index be7e182..22caf40 100644
--- a/personinfo.go
+++ b/personinfo.go
@@ -17,26 +17,18 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 	at := 1
 
 	var pi _PersonInfo
-	var name string
 
 	for {
 		if at == len(parts) {
 			return nil, fmt.Errorf("invalid personInfo: %q", line)
 		}
 		part := parts[at]
-		if len(part) != 0 {
-			if part[0] == '<' {
-				break
-			}
-			name += string(part) + " "
-		} else if len(name) > 0 {
-			name += " "
+		if len(part) != 0 && part[0] == '<' {
+			break
 		}
 		at++
 	}
-	if len(name) != 0 {
-		pi.name = _String{name[:len(name)-1]}
-	}
+	pi.name = _String{string(bytes.Join(parts[1:at], []byte{' '}))}
 
 	var email strings.Builder
 	for {
-- 
2.43.0


From 4a88deba8191663c08868c368ab1d702c1ff130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:50 +0000
Subject: [PATCH 02/17] fix: read header lines whole

bufio.Reader.ReadLine splits a line longer than its buffer (4096 bytes) and
drops a carriage return before the newline, and the split flag was ignored: a
long merge tag message line, extra header or tag name came back mangled, and
so did a merge tag message with CRLF line ends.
---
 commit.go |  6 +++---
 helper.go | 15 +++++++++++++++
 tag.go    |  6 +++---
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/commit.go b/commit.go
index 44e133e..d61a643 100644
--- a/commit.go
+++ b/commit.go
@@ -25,7 +25,7 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		parents: _Commit_Link_List{[]_Commit_Link{}},
 	}
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -125,7 +125,7 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	out := _GpgSig{}
 
-	line, _, err := rd.ReadLine()
+	line, err := readLine(rd)
 	if err != nil {
 		return out, err
 	}
@@ -145,7 +145,7 @@ func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	}
 
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			out.x = sig.String()
 			return out, err
diff --git a/helper.go b/helper.go
index 602cefe..b2503c9 100644
--- a/helper.go
+++ b/helper.go
@@ -42,6 +42,21 @@ func ParseObjectFromBuffer(b []byte) (ipld.Node, error) {
 	return ParseObject(bytes.NewReader(b))
 }
 
+// readLine returns the next line without its terminating newline, or io.EOF once
+// the input is used up. Unlike bufio.Reader.ReadLine it never splits a line that
+// outgrows the reader's buffer, and it keeps a trailing carriage return: both are
+// part of the object's content, so of its hash.
+func readLine(rd *bufio.Reader) ([]byte, error) {
+	line, err := rd.ReadBytes('\n')
+	if err == io.EOF && len(line) > 0 {
+		return line, nil
+	}
+	if err != nil {
+		return nil, err
+	}
+	return line[:len(line)-1], nil
+}
+
 func readNullTerminatedNumber(rd *bufio.Reader) (int, error) {
 	lstr, err := rd.ReadString(0)
 	if err != nil {
diff --git a/tag.go b/tag.go
index ff6c544..9608438 100644
--- a/tag.go
+++ b/tag.go
@@ -26,7 +26,7 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 	out := _Tag{}
 
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -82,7 +82,7 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 	}
 	out.object = _Link{cidlink.Link{Cid: objCid}}
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -106,7 +106,7 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 			// repeated string concatenation would copy it on every line.
 			var msg strings.Builder
 			for {
-				line, _, err := rd.ReadLine()
+				line, err := readLine(rd)
 				if err != nil {
 					out.message.x = msg.String()
 					return nil, nil, err
-- 
2.43.0


From c1aa909a70c12b0fb4f09ff465e08e83c1927789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:52 +0000
Subject: [PATCH 03/17] fix: encode commits without author or committer

Both are optional in the schema, and decoding accepts a commit without them,
but encoding one dereferenced a nil person info.
---
 commit.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/commit.go b/commit.go
index d61a643..db6d074 100644
--- a/commit.go
+++ b/commit.go
@@ -175,8 +175,12 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 	for _, p := range c.parents.x {
 		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(p.sha()))
 	}
-	fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
-	fmt.Fprintf(buf, "committer %s\n", c.committer.v.GitString())
+	if c.author.m == schema.Maybe_Value {
+		fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
+	}
+	if c.committer.m == schema.Maybe_Value {
+		fmt.Fprintf(buf, "committer %s\n", c.committer.v.GitString())
+	}
 	if c.encoding.m == schema.Maybe_Value {
 		fmt.Fprintf(buf, "encoding %s\n", c.encoding.v.x)
 	}
-- 
2.43.0


From 91002269e1234db90adb897b4ed009137a7cf2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:53 +0000
Subject: [PATCH 04/17] fix: do not invent a tagger line

Tags without a tagger exist (git's v0.99, linux's v2.6.11-tree); they were
re-encoded with an empty tagger line, so to another hash.
---
 commit.go     | 6 ++++--
 personinfo.go | 6 ++++++
 tag.go        | 4 +++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/commit.go b/commit.go
index db6d074..cd79fd7 100644
--- a/commit.go
+++ b/commit.go
@@ -188,8 +188,10 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(mtag.object.sha()))
 		fmt.Fprintf(buf, " type %s\n", mtag.typ.x)
 		fmt.Fprintf(buf, " tag %s\n", mtag.tag.x)
-		fmt.Fprintf(buf, " tagger %s\n \n", mtag.tagger.GitString())
-		fmt.Fprintf(buf, "%s", mtag.message.x)
+		if !mtag.tagger.isEmpty() {
+			fmt.Fprintf(buf, " tagger %s\n", mtag.tagger.GitString())
+		}
+		fmt.Fprintf(buf, " \n%s", mtag.message.x)
 	}
 	if c.signature.m == schema.Maybe_Value {
 		fmt.Fprintln(buf, "gpgsig -----BEGIN PGP SIGNATURE-----")
diff --git a/personinfo.go b/personinfo.go
index 22caf40..1db229f 100644
--- a/personinfo.go
+++ b/personinfo.go
@@ -65,6 +65,12 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 	return &pi, nil
 }
 
+// isEmpty tells whether no part of the person info is set, which is how an
+// object without a line for that person is decoded.
+func (p *_PersonInfo) isEmpty() bool {
+	return *p == _PersonInfo{}
+}
+
 func (p _PersonInfo) GitString() string {
 	f := "%s <%s>"
 	arg := []any{p.name.x, p.email.x}
diff --git a/tag.go b/tag.go
index 9608438..9d3527e 100644
--- a/tag.go
+++ b/tag.go
@@ -177,7 +177,9 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 		if !ok {
 			return fmt.Errorf("could not parse tagger person info %v", tagger)
 		}
-		fmt.Fprintf(buf, "tagger %s\n", parsed.GitString())
+		if !parsed.isEmpty() {
+			fmt.Fprintf(buf, "tagger %s\n", parsed.GitString())
+		}
 	}
 	if messageStr != "" {
 		fmt.Fprintf(buf, "\n%s", messageStr)
-- 
2.43.0


From 3b449cd66fefa2ed07af2652c6ebe36dbd21a0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:55 +0000
Subject: [PATCH 05/17] fix: report a tree that ends within an entry

An EOF within the mode, within the name or right before the hash was taken for
the end of the tree, and the entry was silently dropped.
---
 tree.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tree.go b/tree.go
index 42959c1..c8f6757 100644
--- a/tree.go
+++ b/tree.go
@@ -47,12 +47,20 @@ func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
 func DecodeTreeEntry(rd *bufio.Reader) (string, ipld.Node, error) {
 	data, err := rd.ReadString(' ')
 	if err != nil {
+		// io.EOF means that there are no more entries, so only when there is
+		// nothing at all of the next one.
+		if err == io.EOF && len(data) > 0 {
+			err = io.ErrUnexpectedEOF
+		}
 		return "", nil, err
 	}
 	data = data[:len(data)-1]
 
 	name, err := rd.ReadString(0)
 	if err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return "", nil, err
 	}
 	name = name[:len(name)-1]
@@ -60,6 +68,9 @@ func DecodeTreeEntry(rd *bufio.Reader) (string, ipld.Node, error) {
 	sha := make([]byte, 20)
 	_, err = io.ReadFull(rd, sha)
 	if err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return "", nil, err
 	}
 
-- 
2.43.0


From 3675f44e509ed7d51f9067243dcf39d854a8f5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:56 +0000
Subject: [PATCH 06/17] fix: end a merge tag at the first line that is not
 indented

Without a message in the merge tag, the rest of the commit, its message
included, was taken for unknown lines of the tag and dropped.
---
 tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag.go b/tag.go
index 9d3527e..9d25669 100644
--- a/tag.go
+++ b/tag.go
@@ -119,6 +119,9 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 
 				msg.WriteString(string(line) + "\n")
 			}
+		case !bytes.HasPrefix(line, []byte(" ")):
+			// The tag has no message: this line belongs to the commit.
+			return &out, line, nil
 		}
 	}
 	return &out, nil, nil
-- 
2.43.0


From 9e0ab19bbcec4ab6847888eaf212788d36336435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:58 +0000
Subject: [PATCH 07/17] fix: do not recurse for each merge tag of a commit

Decoding used a stack frame per merge tag, so a commit with a few million of
them exceeded the stack limit, which ends the process.
---
 commit.go | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/commit.go b/commit.go
index cd79fd7..ca3bda8 100644
--- a/commit.go
+++ b/commit.go
@@ -33,52 +33,56 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 			return err
 		}
 
-		err = decodeCommitLine(&c, line, rd)
-		if err != nil {
-			return err
+		for line != nil {
+			line, err = decodeCommitLine(&c, line, rd)
+			if err != nil {
+				return err
+			}
 		}
 	}
 
 	return na.AssignNode(&c)
 }
 
-func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
+// decodeCommitLine decodes one line and what belongs to it. When it had to read
+// the line after that to find its end, it returns that line.
+func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) ([]byte, error) {
 	switch {
 	case bytes.HasPrefix(line, []byte("tree ")):
 		sha, err := hex.DecodeString(string(line[5:]))
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		treeCid, err := shaToCid(sha)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.tree = _Tree_Link{cidlink.Link{Cid: treeCid}}
 	case bytes.HasPrefix(line, []byte("parent ")):
 		psha, err := hex.DecodeString(string(line[7:]))
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		parentCid, err := shaToCid(psha)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.parents.x = append(c.parents.x, _Commit_Link{cidlink.Link{Cid: parentCid}})
 	case bytes.HasPrefix(line, []byte("author ")):
 		a, err := parsePersonInfo(line)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.author = _PersonInfo__Maybe{m: schema.Maybe_Value, v: a}
 	case bytes.HasPrefix(line, []byte("committer ")):
 		com, err := parsePersonInfo(line)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.committer = _PersonInfo__Maybe{m: schema.Maybe_Value, v: com}
@@ -87,39 +91,34 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 	case bytes.HasPrefix(line, []byte("mergetag object ")):
 		sha, err := hex.DecodeString(string(line)[prefixMergetag:])
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		mt, rest, err := readMergeTag(sha, rd)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.mergetag.x = append(c.mergetag.x, *mt)
 
-		if rest != nil {
-			err = decodeCommitLine(c, rest, rd)
-			if err != nil {
-				return err
-			}
-		}
+		return rest, nil
 	case bytes.HasPrefix(line, []byte("gpgsig ")):
 		sig, err := decodeGpgSig(rd)
 		if err != nil {
-			return err
+			return nil, err
 		}
 		c.signature = _GpgSig__Maybe{m: schema.Maybe_Value, v: sig}
 	case len(line) == 0:
 		rest, err := io.ReadAll(rd)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.message = _String{string(rest)}
 	default:
 		c.other.x = append(c.other.x, _String{string(line)})
 	}
-	return nil
+	return nil, nil
 }
 
 func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
-- 
2.43.0


From b89c715cdf0eabd865da986883ee5af746b22177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:41 +0000
Subject: [PATCH 08/17] fix: reject a commit without a tree and a tag without
 an object

They decoded to a node with a nil link, on which traversals and link loading
panic. git rejects them as well.
---
 commit.go | 4 ++++
 tag.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/commit.go b/commit.go
index ca3bda8..4f169b7 100644
--- a/commit.go
+++ b/commit.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io"
 	"strings"
@@ -41,6 +42,9 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		}
 	}
 
+	if c.tree.x == nil {
+		return errors.New("commit has no tree")
+	}
 	return na.AssignNode(&c)
 }
 
diff --git a/tag.go b/tag.go
index 9d25669..ef845d1 100644
--- a/tag.go
+++ b/tag.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io"
 	"strings"
@@ -69,6 +70,9 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		}
 	}
 
+	if out.object.x == nil {
+		return errors.New("tag has no object")
+	}
 	return na.AssignNode(&out)
 }
 
-- 
2.43.0


From 9bf5ccd4c772e4ccd15b2943c3579e1bfd2abde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:43 +0000
Subject: [PATCH 09/17] fix: return an error when asked to encode a list

No git object is a list; Encode took one for a tree, which is a map, and
dereferenced its nil map iterator.
---
 marshal.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index d2610e5..d5bcc4a 100644
--- a/marshal.go
+++ b/marshal.go
@@ -23,8 +23,6 @@ func Encode(n ipld.Node, w io.Writer) error {
 	switch n.Kind() {
 	case ipld.Kind_Bytes:
 		return encodeBlob(n, w)
-	case ipld.Kind_List:
-		return encodeTree(n, w)
 	case ipld.Kind_Map:
 		k, _, err := n.MapIterator().Next()
 		if err != nil {
-- 
2.43.0


From 27fe376df98c70d51e85dd5cc98104b0b947cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:45 +0000
Subject: [PATCH 10/17] fix: reject links that cannot name a git object on
 encode

Encode wrote the last 20 bytes of whatever multihash a link had, wrote nothing
for a link that is not a CID, and panicked on a shorter multihash.
---
 commit.go | 21 ++++++++++++++++-----
 tag.go    |  6 +++++-
 tree.go   |  6 +++++-
 util.go   | 43 ++++++++++++++-----------------------------
 4 files changed, 40 insertions(+), 36 deletions(-)

diff --git a/commit.go b/commit.go
index 4f169b7..9a6085c 100644
--- a/commit.go
+++ b/commit.go
@@ -174,9 +174,17 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 
 	buf := new(bytes.Buffer)
 
-	fmt.Fprintf(buf, "tree %s\n", hex.EncodeToString(c.tree.sha()))
+	treeSha, err := sha(c.tree.x)
+	if err != nil {
+		return err
+	}
+	fmt.Fprintf(buf, "tree %s\n", hex.EncodeToString(treeSha))
 	for _, p := range c.parents.x {
-		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(p.sha()))
+		parentSha, err := sha(p.x)
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(parentSha))
 	}
 	if c.author.m == schema.Maybe_Value {
 		fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
@@ -188,7 +196,11 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 		fmt.Fprintf(buf, "encoding %s\n", c.encoding.v.x)
 	}
 	for _, mtag := range c.mergetag.x {
-		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(mtag.object.sha()))
+		objSha, err := sha(mtag.object.x)
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(objSha))
 		fmt.Fprintf(buf, " type %s\n", mtag.typ.x)
 		fmt.Fprintf(buf, " tag %s\n", mtag.tag.x)
 		if !mtag.tagger.isEmpty() {
@@ -208,8 +220,7 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 
 	// fmt.Printf("encode commit len: %d \n", buf.Len())
 	//	fmt.Printf("out: %s\n", string(buf.Bytes()))
-	_, err := fmt.Fprintf(w, "commit %d\x00", buf.Len())
-	if err != nil {
+	if _, err := fmt.Fprintf(w, "commit %d\x00", buf.Len()); err != nil {
 		return err
 	}
 
diff --git a/tag.go b/tag.go
index ef845d1..9543849 100644
--- a/tag.go
+++ b/tag.go
@@ -140,6 +140,10 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 	if err != nil {
 		return err
 	}
+	objSha, err := sha(objLnk)
+	if err != nil {
+		return err
+	}
 
 	tt, err := n.LookupByString("type")
 	if err != nil {
@@ -171,7 +175,7 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 	tagger, taggerErr := n.LookupByString("tagger")
 
 	buf := new(bytes.Buffer)
-	fmt.Fprintf(buf, "object %s\n", hex.EncodeToString(sha(objLnk)))
+	fmt.Fprintf(buf, "object %s\n", hex.EncodeToString(objSha))
 	fmt.Fprintf(buf, "type %s\n", ttStr)
 	fmt.Fprintf(buf, "tag %s\n", tagStr)
 	if taggerErr == nil && !tagger.IsNull() {
diff --git a/tree.go b/tree.go
index c8f6757..23f3562 100644
--- a/tree.go
+++ b/tree.go
@@ -134,7 +134,11 @@ func encodeTreeEntry(name string, n ipld.Node, w io.Writer) error {
 	if err != nil {
 		return err
 	}
-	_, err = w.Write(cidToSha(hal.(cidlink.Link).Cid))
+	hsha, err := sha(hal)
+	if err != nil {
+		return err
+	}
+	_, err = w.Write(hsha)
 	if err != nil {
 		return err
 	}
diff --git a/util.go b/util.go
index e41d58a..f046d56 100644
--- a/util.go
+++ b/util.go
@@ -1,6 +1,7 @@
 package ipldgit
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/ipfs/go-cid"
@@ -10,8 +11,7 @@ import (
 )
 
 // gitSHALen is the length of a git object hash. A reference of any other length
-// cannot name a git object, and cidToSha assumes this width when it turns a CID
-// back into one.
+// cannot name a git object.
 const gitSHALen = 20
 
 func shaToCid(sha []byte) (cid.Cid, error) {
@@ -25,39 +25,24 @@ func shaToCid(sha []byte) (cid.Cid, error) {
 	return cid.NewCidV1(cid.GitRaw, h), nil
 }
 
-func cidToSha(c cid.Cid) []byte {
-	h := c.Hash()
-	return h[len(h)-20:]
-}
-
-func sha(l ipld.Link) []byte {
-	cl, ok := l.(cidlink.Link)
-	if !ok {
-		return nil
+func cidToSha(c cid.Cid) ([]byte, error) {
+	if !c.Defined() {
+		return nil, errors.New("undefined CID cannot name a git object")
 	}
-	return cidToSha(cl.Cid)
-}
-
-func (l Link) sha() []byte {
-	cl, ok := l.x.(cidlink.Link)
-	if !ok {
-		return nil
+	h, err := mh.Decode(c.Hash())
+	if err != nil {
+		return nil, err
 	}
-	return cidToSha(cl.Cid)
-}
-
-func (l Tree_Link) sha() []byte {
-	cl, ok := l.x.(cidlink.Link)
-	if !ok {
-		return nil
+	if h.Code != mh.SHA1 || len(h.Digest) != gitSHALen {
+		return nil, fmt.Errorf("CID %s cannot name a git object: its hash is not a SHA-1", c)
 	}
-	return cidToSha(cl.Cid)
+	return h.Digest, nil
 }
 
-func (l Commit_Link) sha() []byte {
-	cl, ok := l.x.(cidlink.Link)
+func sha(l ipld.Link) ([]byte, error) {
+	cl, ok := l.(cidlink.Link)
 	if !ok {
-		return nil
+		return nil, fmt.Errorf("link of type %T cannot name a git object", l)
 	}
 	return cidToSha(cl.Cid)
 }
-- 
2.43.0


From 118b601e74812428d13a9df61d295c1c8cf6f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:47 +0000
Subject: [PATCH 11/17] fix: decode commits signed with SSH or X.509

A signature was taken for a PGP one whatever its first line, so decoding a
commit with another kind of signature failed. Keep the lines of those with the
other headers, like those of any header that has no field.
---
 commit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commit.go b/commit.go
index 9a6085c..2da8393 100644
--- a/commit.go
+++ b/commit.go
@@ -106,7 +106,7 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) ([]byte, error) {
 		c.mergetag.x = append(c.mergetag.x, *mt)
 
 		return rest, nil
-	case bytes.HasPrefix(line, []byte("gpgsig ")):
+	case string(line) == "gpgsig -----BEGIN PGP SIGNATURE-----":
 		sig, err := decodeGpgSig(rd)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 7e178b6bb8922189a1ff6e67808a901e6a99a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:49 +0000
Subject: [PATCH 12/17] fix: verify the checksum of a compressed blob

Decoding a blob stops after the declared number of bytes, so before the end of
the zlib stream, where its checksum is: a corrupt blob was accepted.
---
 helper.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/helper.go b/helper.go
index b2503c9..f0ba1aa 100644
--- a/helper.go
+++ b/helper.go
@@ -34,7 +34,15 @@ func ParseCompressedObject(r io.Reader) (ipld.Node, error) {
 	}
 	defer rc.Close()
 
-	return ParseObject(rc)
+	n, err := ParseObject(rc)
+	if err != nil {
+		return nil, err
+	}
+	// The checksum is verified at the end of the stream, which a blob is not read to.
+	if _, err := io.Copy(io.Discard, rc); err != nil {
+		return nil, err
+	}
+	return n, nil
 }
 
 // ParseObjectFromBuffer is like ParseObject, but with a fully in-memory stream
-- 
2.43.0


From fae389a11cd04ffaa8bea2c32bf6fc7616a8b562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:51 +0000
Subject: [PATCH 13/17] fix: encode commits given as representation or untyped
 nodes

Encoding such a commit panicked if it had an author or a committer, in the
generated assembler of an optional struct. ipld.Encode always passes the
representation node, so it panicked for every real commit.
---
 commit.go | 52 +++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/commit.go b/commit.go
index 2da8393..762cb2b 100644
--- a/commit.go
+++ b/commit.go
@@ -165,12 +165,58 @@ func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	return out, nil
 }
 
+// toCommit gives the Commit that n is, or that n has the shape of.
+func toCommit(n ipld.Node) (Commit, error) {
+	switch n := n.(type) {
+	case *_Commit:
+		return n, nil
+	case *_Commit__Repr:
+		return (*_Commit)(n), nil
+	}
+
+	nb := Type.Commit__Repr.NewBuilder()
+	ma, err := nb.BeginMap(n.Length())
+	if err != nil {
+		return nil, err
+	}
+	mi := n.MapIterator()
+	for !mi.Done() {
+		k, v, err := mi.Next()
+		if err != nil {
+			return nil, err
+		}
+		key, err := k.AsString()
+		if err != nil {
+			return nil, err
+		}
+		va, err := ma.AssembleEntry(key)
+		if err != nil {
+			return nil, err
+		}
+		if key == "author" || key == "committer" {
+			// The generated assembler of an optional struct can only take a
+			// node of that very type.
+			pi := Type.PersonInfo__Repr.NewBuilder()
+			if err := pi.AssignNode(v); err != nil {
+				return nil, err
+			}
+			v = pi.Build()
+		}
+		if err := va.AssignNode(v); err != nil {
+			return nil, err
+		}
+	}
+	if err := ma.Finish(); err != nil {
+		return nil, err
+	}
+	return nb.Build().(Commit), nil
+}
+
 func encodeCommit(n ipld.Node, w io.Writer) error {
-	ci := Type.Commit__Repr.NewBuilder()
-	if err := ci.AssignNode(n); err != nil {
+	c, err := toCommit(n)
+	if err != nil {
 		return fmt.Errorf("not a Commit: %T %w", n, err)
 	}
-	c := ci.Build().(Commit)
 
 	buf := new(bytes.Buffer)
 
-- 
2.43.0


From af6a1cfbd8cb4f5ca3b43ce062aca1a1900d7d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:53 +0000
Subject: [PATCH 14/17] fix: recognise untyped tags whatever the order of their
 entries

The kind of an untyped map was told from its first entry, and "message", which
is the first entry of a tag read from dag-json, was not in the list.
---
 marshal.go | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/marshal.go b/marshal.go
index d5bcc4a..11b2f8a 100644
--- a/marshal.go
+++ b/marshal.go
@@ -24,25 +24,11 @@ func Encode(n ipld.Node, w io.Writer) error {
 	case ipld.Kind_Bytes:
 		return encodeBlob(n, w)
 	case ipld.Kind_Map:
-		k, _, err := n.MapIterator().Next()
-		if err != nil {
-			return err
-		}
-		repKey, err := k.AsString()
-		if err != nil {
-			return err
-		}
-		switch repKey {
-		case
-			"object",
-			"type",
-			"tag",
-			"tagger",
-			"text":
+		// Only a tag has an object.
+		if _, err := n.LookupByString("object"); err == nil {
 			return encodeTag(n, w)
-		default:
-			return encodeCommit(n, w)
 		}
+		return encodeCommit(n, w)
 	default:
 		return fmt.Errorf("unrecognized object type: %T", n.Prototype())
 	}
-- 
2.43.0


From edf031f8f83cd982db3f4d8fb525382b80e74343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:25 +0000
Subject: [PATCH 15/17] fix: reject a tag whose size is not a number

Tags were the only objects whose size field could hold anything.
---
 tag.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tag.go b/tag.go
index 9543849..878a889 100644
--- a/tag.go
+++ b/tag.go
@@ -19,8 +19,7 @@ const tagTypePrefixLen = 5   // "prefix 'type '"
 
 // DecodeTag fills a NodeAssembler (from `Type.Tag__Repr.NewBuilder()`) from a stream of bytes
 func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
-	_, err := rd.ReadString(0)
-	if err != nil {
+	if _, err := readNullTerminatedNumber(rd); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 730ae1c5e61b1be187000b7b1d7bc5424f2e7239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:00 +0000
Subject: [PATCH 16/17] fix: report a failed lookup of a tag's tagger instead
 of dropping it

Encoding an untyped tag took any error of the lookup for a tag without a
tagger, so that a node whose tagger could not be read was encoded as another
object.
---
 tag.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tag.go b/tag.go
index 878a889..e997f7e 100644
--- a/tag.go
+++ b/tag.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/ipld/go-ipld-prime"
 	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
+	"github.com/ipld/go-ipld-prime/schema"
 )
 
 const tagObjectPrefixLen = 7 // "prefix 'object '"
@@ -172,6 +173,9 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 	}
 
 	tagger, taggerErr := n.LookupByString("tagger")
+	if taggerErr != nil && !isMissing(taggerErr) {
+		return taggerErr
+	}
 
 	buf := new(bytes.Buffer)
 	fmt.Fprintf(buf, "object %s\n", hex.EncodeToString(objSha))
@@ -201,3 +205,13 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 	_, err = buf.WriteTo(w)
 	return err
 }
+
+// isMissing tells a lookup of something that is not there from one that failed.
+func isMissing(err error) bool {
+	var (
+		notExists   ipld.ErrNotExists
+		noSuchField schema.ErrNoSuchField
+		invalidKey  schema.ErrInvalidKey
+	)
+	return errors.As(err, &notExists) || errors.As(err, &noSuchField) || errors.As(err, &invalidKey)
+}
-- 
2.43.0


From d2a72f2ae7573b4d3961f5714c7cd2f37d334900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:31 +0000
Subject: [PATCH 17/17] fix: return an error when a commit or tag is decoded
 into a tree

The generated assembler of a tree panics with an assignment to a nil map when
it is handed another map. Following a commit's tree link to an object that is a
commit or a tag, with the prototype that the link asks for, led there.
---
 commit.go |  2 +-
 helper.go | 11 +++++++++++
 tag.go    |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/commit.go b/commit.go
index 762cb2b..49db9da 100644
--- a/commit.go
+++ b/commit.go
@@ -45,7 +45,7 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 	if c.tree.x == nil {
 		return errors.New("commit has no tree")
 	}
-	return na.AssignNode(&c)
+	return assign(na, &c)
 }
 
 // decodeCommitLine decodes one line and what belongs to it. When it had to read
diff --git a/helper.go b/helper.go
index f0ba1aa..5be5fc7 100644
--- a/helper.go
+++ b/helper.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"errors"
+	"fmt"
 	"io"
 	"strconv"
 
@@ -50,6 +51,16 @@ func ParseObjectFromBuffer(b []byte) (ipld.Node, error) {
 	return ParseObject(bytes.NewReader(b))
 }
 
+// assign hands a decoded commit or tag to na. The generated assemblers of a tree
+// panic when given another map, which a link to an object of the wrong type leads to.
+func assign(na ipld.NodeAssembler, n ipld.Node) error {
+	switch na.Prototype() {
+	case Type.Tree, Type.Tree__Repr:
+		return fmt.Errorf("cannot decode a %T into a tree", n)
+	}
+	return na.AssignNode(n)
+}
+
 // readLine returns the next line without its terminating newline, or io.EOF once
 // the input is used up. Unlike bufio.Reader.ReadLine it never splits a line that
 // outgrows the reader's buffer, and it keeps a trailing carriage return: both are
diff --git a/tag.go b/tag.go
index e997f7e..ed44761 100644
--- a/tag.go
+++ b/tag.go
@@ -73,7 +73,7 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 	if out.object.x == nil {
 		return errors.New("tag has no object")
 	}
-	return na.AssignNode(&out)
+	return assign(na, &out)
 }
 
 // readMergeTag works for tags within commits like DecodeTag
-- 
2.43.0

