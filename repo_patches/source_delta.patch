From 205cab5773cbd84a755e300f459bc9ca13c12334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:34 +0000
Subject: [PATCH 01/13] fix: decode consecutive merge tags without recursing

decodeCommitLine called itself for the line that ends a merge tag, so a
commit with enough merge tags in a row overflowed the goroutine stack, which
kills the process.
---
 commit.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/commit.go b/commit.go
index 44e133e..af7e0a8 100644
--- a/commit.go
+++ b/commit.go
@@ -43,6 +43,7 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 }
 
 func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
+next:
 	switch {
 	case bytes.HasPrefix(line, []byte("tree ")):
 		sha, err := hex.DecodeString(string(line[5:]))
@@ -98,10 +99,10 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 		c.mergetag.x = append(c.mergetag.x, *mt)
 
 		if rest != nil {
-			err = decodeCommitLine(c, rest, rd)
-			if err != nil {
-				return err
-			}
+			// The line that ended the merge tag may start another one, so
+			// loop: recursing would let the input choose the stack depth.
+			line = rest
+			goto next
 		}
 	case bytes.HasPrefix(line, []byte("gpgsig ")):
 		sig, err := decodeGpgSig(rd)
-- 
2.43.0


From 949bc761946f408dfa66457e797eaaf142fb19fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:35 +0000
Subject: [PATCH 02/13] fix: read header lines whole and verbatim

bufio.Reader.ReadLine splits a line longer than its buffer (the isPrefix
result was ignored) and drops a CR before the LF, so commits and tags with
such lines decoded into nodes that encode to different bytes. Read up to the
LF instead, and take a line cut off by the end of the input for what it is.
Lines are no longer bounded by the buffer, so build names in a builder too.
---
 commit.go     |  6 +++---
 helper.go     | 15 +++++++++++++++
 personinfo.go | 10 +++++-----
 tag.go        |  6 +++---
 4 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/commit.go b/commit.go
index af7e0a8..bf5cb13 100644
--- a/commit.go
+++ b/commit.go
@@ -25,7 +25,7 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		parents: _Commit_Link_List{[]_Commit_Link{}},
 	}
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -126,7 +126,7 @@ next:
 func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	out := _GpgSig{}
 
-	line, _, err := rd.ReadLine()
+	line, err := readLine(rd)
 	if err != nil {
 		return out, err
 	}
@@ -146,7 +146,7 @@ func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	}
 
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			out.x = sig.String()
 			return out, err
diff --git a/helper.go b/helper.go
index 602cefe..d5f6e3a 100644
--- a/helper.go
+++ b/helper.go
@@ -42,6 +42,21 @@ func ParseObjectFromBuffer(b []byte) (ipld.Node, error) {
 	return ParseObject(bytes.NewReader(b))
 }
 
+// readLine returns the next line, without the LF that ends it. Unlike
+// bufio.Reader.ReadLine it returns long lines whole and keeps a trailing CR, so
+// that a decoded line can be encoded as it was. The error is io.EOF only if
+// there was nothing left to read.
+func readLine(rd *bufio.Reader) ([]byte, error) {
+	line, err := rd.ReadBytes('\n')
+	if err != nil {
+		if err == io.EOF && len(line) > 0 {
+			return nil, io.ErrUnexpectedEOF
+		}
+		return nil, err
+	}
+	return line[:len(line)-1], nil
+}
+
 func readNullTerminatedNumber(rd *bufio.Reader) (int, error) {
 	lstr, err := rd.ReadString(0)
 	if err != nil {
diff --git a/personinfo.go b/personinfo.go
index be7e182..0e233fa 100644
--- a/personinfo.go
+++ b/personinfo.go
@@ -17,7 +17,7 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 	at := 1
 
 	var pi _PersonInfo
-	var name string
+	var nameBuf strings.Builder
 
 	for {
 		if at == len(parts) {
@@ -28,13 +28,13 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 			if part[0] == '<' {
 				break
 			}
-			name += string(part) + " "
-		} else if len(name) > 0 {
-			name += " "
+			nameBuf.WriteString(string(part) + " ")
+		} else if nameBuf.Len() > 0 {
+			nameBuf.WriteString(" ")
 		}
 		at++
 	}
-	if len(name) != 0 {
+	if name := nameBuf.String(); len(name) != 0 {
 		pi.name = _String{name[:len(name)-1]}
 	}
 
diff --git a/tag.go b/tag.go
index ff6c544..9608438 100644
--- a/tag.go
+++ b/tag.go
@@ -26,7 +26,7 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 	out := _Tag{}
 
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -82,7 +82,7 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 	}
 	out.object = _Link{cidlink.Link{Cid: objCid}}
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -106,7 +106,7 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 			// repeated string concatenation would copy it on every line.
 			var msg strings.Builder
 			for {
-				line, _, err := rd.ReadLine()
+				line, err := readLine(rd)
 				if err != nil {
 					out.message.x = msg.String()
 					return nil, nil, err
-- 
2.43.0


From ae218100a1dbf71f2b9a1198b325492e26680bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 03/13] fix: reject a tree that ends inside an entry

DecodeTree takes io.EOF from DecodeTreeEntry for the end of the tree, but an
entry cut off in its mode, in its name or before its hash returned io.EOF as
well and was silently dropped.
---
 helper.go | 8 ++++++++
 tree.go   | 7 +++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/helper.go b/helper.go
index d5f6e3a..ba599b4 100644
--- a/helper.go
+++ b/helper.go
@@ -57,6 +57,14 @@ func readLine(rd *bufio.Reader) ([]byte, error) {
 	return line[:len(line)-1], nil
 }
 
+// unexpectedEOF converts an EOF met part way through something.
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 func readNullTerminatedNumber(rd *bufio.Reader) (int, error) {
 	lstr, err := rd.ReadString(0)
 	if err != nil {
diff --git a/tree.go b/tree.go
index 42959c1..196f29d 100644
--- a/tree.go
+++ b/tree.go
@@ -47,20 +47,23 @@ func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
 func DecodeTreeEntry(rd *bufio.Reader) (string, ipld.Node, error) {
 	data, err := rd.ReadString(' ')
 	if err != nil {
+		if len(data) > 0 {
+			err = unexpectedEOF(err)
+		}
 		return "", nil, err
 	}
 	data = data[:len(data)-1]
 
 	name, err := rd.ReadString(0)
 	if err != nil {
-		return "", nil, err
+		return "", nil, unexpectedEOF(err)
 	}
 	name = name[:len(name)-1]
 
 	sha := make([]byte, 20)
 	_, err = io.ReadFull(rd, sha)
 	if err != nil {
-		return "", nil, err
+		return "", nil, unexpectedEOF(err)
 	}
 
 	c, err := shaToCid(sha)
-- 
2.43.0


From fb8040b76965bec423bd0b96fc11f59bdd6200c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:01 +0000
Subject: [PATCH 04/13] fix: reject objects whose body does not have the
 declared size

Only blobs looked at the size in the header, and only for a body that was too
short: a truncated commit, tree or tag decoded as if it were complete, and
anything after a blob was ignored, including the checksum that ends a
compressed one. The size also has to be written the way it is encoded.
---
 blob.go   |  7 +++++++
 commit.go |  3 ++-
 helper.go | 28 +++++++++++++++++++++++++++-
 tag.go    |  2 +-
 tree.go   |  3 ++-
 5 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/blob.go b/blob.go
index 16f7a8d..bf5b38e 100644
--- a/blob.go
+++ b/blob.go
@@ -40,6 +40,13 @@ func DecodeBlob(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		return io.ErrUnexpectedEOF
 	}
 
+	if _, err := rd.ReadByte(); err != io.EOF {
+		if err != nil {
+			return err
+		}
+		return fmt.Errorf("object body longer than the expected %d bytes", sizen)
+	}
+
 	return na.AssignBytes(buf.Bytes())
 }
 
diff --git a/commit.go b/commit.go
index bf5cb13..daca7af 100644
--- a/commit.go
+++ b/commit.go
@@ -17,7 +17,8 @@ const prefixMergetag = 16 // the length of "mergetag object "
 
 // DecodeCommit fills a NodeAssembler (from `Type.Commit__Repr.NewBuilder()`) from a stream of bytes
 func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
-	if _, err := readNullTerminatedNumber(rd); err != nil {
+	rd, err := readBody(rd)
+	if err != nil {
 		return err
 	}
 
diff --git a/helper.go b/helper.go
index ba599b4..a912807 100644
--- a/helper.go
+++ b/helper.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"errors"
+	"fmt"
 	"io"
 	"strconv"
 
@@ -65,6 +66,24 @@ func unexpectedEOF(err error) error {
 	return err
 }
 
+// readBody reads the size that ends an object's header and the body after it,
+// which must have that size.
+func readBody(rd *bufio.Reader) (*bufio.Reader, error) {
+	size, err := readNullTerminatedNumber(rd)
+	if err != nil {
+		return nil, err
+	}
+
+	body, err := io.ReadAll(rd)
+	if err != nil {
+		return nil, err
+	}
+	if len(body) != size {
+		return nil, fmt.Errorf("object body of %d bytes, expected %d", len(body), size)
+	}
+	return bufio.NewReader(bytes.NewReader(body)), nil
+}
+
 func readNullTerminatedNumber(rd *bufio.Reader) (int, error) {
 	lstr, err := rd.ReadString(0)
 	if err != nil {
@@ -72,5 +91,12 @@ func readNullTerminatedNumber(rd *bufio.Reader) (int, error) {
 	}
 	lstr = lstr[:len(lstr)-1]
 
-	return strconv.Atoi(lstr)
+	n, err := strconv.Atoi(lstr)
+	if err != nil {
+		return 0, err
+	}
+	if strconv.Itoa(n) != lstr {
+		return 0, fmt.Errorf("invalid object size: %q", lstr)
+	}
+	return n, nil
 }
diff --git a/tag.go b/tag.go
index 9608438..61de621 100644
--- a/tag.go
+++ b/tag.go
@@ -18,7 +18,7 @@ const tagTypePrefixLen = 5   // "prefix 'type '"
 
 // DecodeTag fills a NodeAssembler (from `Type.Tag__Repr.NewBuilder()`) from a stream of bytes
 func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
-	_, err := rd.ReadString(0)
+	rd, err := readBody(rd)
 	if err != nil {
 		return err
 	}
diff --git a/tree.go b/tree.go
index 196f29d..1edb64c 100644
--- a/tree.go
+++ b/tree.go
@@ -12,7 +12,8 @@ import (
 
 // DecodeTree fills a NodeAssembler (from `Type.Tree__Repr.NewBuilder()`) from a stream of bytes
 func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
-	if _, err := readNullTerminatedNumber(rd); err != nil {
+	rd, err := readBody(rd)
+	if err != nil {
 		return err
 	}
 
-- 
2.43.0


From 398dd4d2019cf004dd8ab6f752cf0b0e4f8039c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 05/13] fix: encode commits without an author or committer

Both fields are optional, and decoding a commit without them leaves them
absent, but encodeCommit dereferenced them regardless and panicked.
---
 commit.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/commit.go b/commit.go
index daca7af..4f14665 100644
--- a/commit.go
+++ b/commit.go
@@ -177,8 +177,12 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 	for _, p := range c.parents.x {
 		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(p.sha()))
 	}
-	fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
-	fmt.Fprintf(buf, "committer %s\n", c.committer.v.GitString())
+	if c.author.m == schema.Maybe_Value {
+		fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
+	}
+	if c.committer.m == schema.Maybe_Value {
+		fmt.Fprintf(buf, "committer %s\n", c.committer.v.GitString())
+	}
 	if c.encoding.m == schema.Maybe_Value {
 		fmt.Fprintf(buf, "encoding %s\n", c.encoding.v.x)
 	}
-- 
2.43.0


From d1b68f047cce7b2d7a8b1186d0b70546ca3e19de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 06/13] fix: return an error when asked to encode a list

Encode passes lists to encodeTree, which iterates over a map: the iterator is
nil for any other kind, so every list panicked.
---
 tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree.go b/tree.go
index 1edb64c..348e71e 100644
--- a/tree.go
+++ b/tree.go
@@ -80,6 +80,10 @@ func DecodeTreeEntry(rd *bufio.Reader) (string, ipld.Node, error) {
 }
 
 func encodeTree(n ipld.Node, w io.Writer) error {
+	if n.Kind() != ipld.Kind_Map {
+		return fmt.Errorf("not a Tree: %T", n)
+	}
+
 	buf := new(bytes.Buffer)
 
 	mi := n.MapIterator()
-- 
2.43.0


From 4ca2e80f688c0028ed8b4975884baf043885c206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:33 +0000
Subject: [PATCH 07/13] fix: only encode links that are git object hashes

Encoding took the last 20 bytes of whatever hash a link carried: a longer one
was truncated into a reference to some other object, a shorter one panicked,
and a link that was absent or not a CID was written as an empty hash or
panicked.
---
 commit.go | 20 ++++++++++++++++----
 tag.go    |  6 +++++-
 tree.go   |  6 +++++-
 util.go   | 28 +++++++++++++++++-----------
 4 files changed, 43 insertions(+), 17 deletions(-)

diff --git a/commit.go b/commit.go
index 4f14665..cd22b8a 100644
--- a/commit.go
+++ b/commit.go
@@ -173,9 +173,17 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 
 	buf := new(bytes.Buffer)
 
-	fmt.Fprintf(buf, "tree %s\n", hex.EncodeToString(c.tree.sha()))
+	tree, err := c.tree.sha()
+	if err != nil {
+		return err
+	}
+	fmt.Fprintf(buf, "tree %s\n", hex.EncodeToString(tree))
 	for _, p := range c.parents.x {
-		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(p.sha()))
+		parent, err := p.sha()
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(parent))
 	}
 	if c.author.m == schema.Maybe_Value {
 		fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
@@ -187,7 +195,11 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 		fmt.Fprintf(buf, "encoding %s\n", c.encoding.v.x)
 	}
 	for _, mtag := range c.mergetag.x {
-		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(mtag.object.sha()))
+		object, err := mtag.object.sha()
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(object))
 		fmt.Fprintf(buf, " type %s\n", mtag.typ.x)
 		fmt.Fprintf(buf, " tag %s\n", mtag.tag.x)
 		fmt.Fprintf(buf, " tagger %s\n \n", mtag.tagger.GitString())
@@ -205,7 +217,7 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 
 	// fmt.Printf("encode commit len: %d \n", buf.Len())
 	//	fmt.Printf("out: %s\n", string(buf.Bytes()))
-	_, err := fmt.Fprintf(w, "commit %d\x00", buf.Len())
+	_, err = fmt.Fprintf(w, "commit %d\x00", buf.Len())
 	if err != nil {
 		return err
 	}
diff --git a/tag.go b/tag.go
index 61de621..8a08dda 100644
--- a/tag.go
+++ b/tag.go
@@ -133,6 +133,10 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 	if err != nil {
 		return err
 	}
+	objSha, err := sha(objLnk)
+	if err != nil {
+		return err
+	}
 
 	tt, err := n.LookupByString("type")
 	if err != nil {
@@ -164,7 +168,7 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 	tagger, taggerErr := n.LookupByString("tagger")
 
 	buf := new(bytes.Buffer)
-	fmt.Fprintf(buf, "object %s\n", hex.EncodeToString(sha(objLnk)))
+	fmt.Fprintf(buf, "object %s\n", hex.EncodeToString(objSha))
 	fmt.Fprintf(buf, "type %s\n", ttStr)
 	fmt.Fprintf(buf, "tag %s\n", tagStr)
 	if taggerErr == nil && !tagger.IsNull() {
diff --git a/tree.go b/tree.go
index 348e71e..0dcfb7c 100644
--- a/tree.go
+++ b/tree.go
@@ -131,7 +131,11 @@ func encodeTreeEntry(name string, n ipld.Node, w io.Writer) error {
 	if err != nil {
 		return err
 	}
-	_, err = w.Write(cidToSha(hal.(cidlink.Link).Cid))
+	hsha, err := sha(hal)
+	if err != nil {
+		return err
+	}
+	_, err = w.Write(hsha)
 	if err != nil {
 		return err
 	}
diff --git a/util.go b/util.go
index e41d58a..e185f0a 100644
--- a/util.go
+++ b/util.go
@@ -25,39 +25,45 @@ func shaToCid(sha []byte) (cid.Cid, error) {
 	return cid.NewCidV1(cid.GitRaw, h), nil
 }
 
-func cidToSha(c cid.Cid) []byte {
-	h := c.Hash()
-	return h[len(h)-20:]
+func cidToSha(c cid.Cid) ([]byte, error) {
+	h, err := mh.Decode(c.Hash())
+	if err != nil {
+		return nil, err
+	}
+	if h.Code != mh.SHA1 || h.Length != gitSHALen {
+		return nil, fmt.Errorf("not the link of a git object: %s", c)
+	}
+	return h.Digest, nil
 }
 
-func sha(l ipld.Link) []byte {
+func sha(l ipld.Link) ([]byte, error) {
 	cl, ok := l.(cidlink.Link)
 	if !ok {
-		return nil
+		return nil, fmt.Errorf("not a CID link: %T", l)
 	}
 	return cidToSha(cl.Cid)
 }
 
-func (l Link) sha() []byte {
+func (l Link) sha() ([]byte, error) {
 	cl, ok := l.x.(cidlink.Link)
 	if !ok {
-		return nil
+		return nil, fmt.Errorf("not a CID link: %T", l.x)
 	}
 	return cidToSha(cl.Cid)
 }
 
-func (l Tree_Link) sha() []byte {
+func (l Tree_Link) sha() ([]byte, error) {
 	cl, ok := l.x.(cidlink.Link)
 	if !ok {
-		return nil
+		return nil, fmt.Errorf("not a CID link: %T", l.x)
 	}
 	return cidToSha(cl.Cid)
 }
 
-func (l Commit_Link) sha() []byte {
+func (l Commit_Link) sha() ([]byte, error) {
 	cl, ok := l.x.(cidlink.Link)
 	if !ok {
-		return nil
+		return nil, fmt.Errorf("not a CID link: %T", l.x)
 	}
 	return cidToSha(cl.Cid)
 }
-- 
2.43.0


From a82947e506acc0a142fea64664e2631b3c0f6906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:02 +0000
Subject: [PATCH 08/13] fix: reject tag headers that cannot be represented

A tag header other than the four known ones was printed to standard output
and dropped; in a merge tag it was dropped silently, and a merge tag without
a message swallowed the rest of the commit. Either way the node encoded to a
different object.
---
 tag.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tag.go b/tag.go
index 8a08dda..1475664 100644
--- a/tag.go
+++ b/tag.go
@@ -65,7 +65,7 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 
 			out.message = _String{string(rest)}
 		default:
-			fmt.Println("unhandled line: ", string(line))
+			return fmt.Errorf("unrecognized tag header: %q", line)
 		}
 	}
 
@@ -84,10 +84,7 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 	for {
 		line, err := readLine(rd)
 		if err != nil {
-			if err == io.EOF {
-				break
-			}
-			return nil, nil, err
+			return nil, nil, unexpectedEOF(err)
 		}
 
 		switch {
@@ -119,9 +116,10 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 
 				msg.WriteString(string(line) + "\n")
 			}
+		default:
+			return nil, nil, fmt.Errorf("unrecognized merge tag header: %q", line)
 		}
 	}
-	return &out, nil, nil
 }
 
 func encodeTag(n ipld.Node, w io.Writer) error {
-- 
2.43.0


From 248b39c83fd3e3a5c1c9a033c519500215c55805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 09/13] fix: reject signatures that do not start as they are
 encoded

Whatever followed "gpgsig " was dropped, and always encoded as the first
line of a PGP signature.
---
 commit.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commit.go b/commit.go
index cd22b8a..c7bfde3 100644
--- a/commit.go
+++ b/commit.go
@@ -106,6 +106,10 @@ next:
 			goto next
 		}
 	case bytes.HasPrefix(line, []byte("gpgsig ")):
+		if string(line) != "gpgsig -----BEGIN PGP SIGNATURE-----" {
+			return fmt.Errorf("unsupported signature: %q", line)
+		}
+
 		sig, err := decodeGpgSig(rd)
 		if err != nil {
 			return err
-- 
2.43.0


From 453c8b65b08126c24d2f1970942603e7b025cc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:05 +0000
Subject: [PATCH 10/13] fix: keep all of a person line

Anything after the timezone was dropped, and so was each '<' that starts a
word of the email.
---
 personinfo.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/personinfo.go b/personinfo.go
index 0e233fa..dd0710a 100644
--- a/personinfo.go
+++ b/personinfo.go
@@ -38,6 +38,7 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 		pi.name = _String{name[:len(name)-1]}
 	}
 
+	emailAt := at
 	var email strings.Builder
 	for {
 		if at == len(parts) {
@@ -47,7 +48,8 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 		// A part can be empty when the email contains repeated spaces, which
 		// git itself produces, so skip rather than index into it. The name loop
 		// above already treats that case the same way.
-		if len(part) > 0 && part[0] == '<' {
+		// Only the first '<' delimits the email.
+		if at == emailAt && len(part) > 0 && part[0] == '<' {
 			part = part[1:]
 		}
 
@@ -69,7 +71,8 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 	if at == len(parts) {
 		return &pi, nil
 	}
-	pi.timezone = _String{string(parts[at])}
+	// Keep whatever else is on the line.
+	pi.timezone = _String{string(bytes.Join(parts[at:], []byte{' '}))}
 	return &pi, nil
 }
 
-- 
2.43.0


From d2229bdf5857e0b77aa2e7b66c86f1d5c413f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:06 +0000
Subject: [PATCH 11/13] fix: do not invent a tagger for tags without one

Early tags, such as v0.99 of git itself, have no tagger. They decode to an
empty one, which was encoded as "tagger  <>".
---
 commit.go | 6 ++++--
 tag.go    | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/commit.go b/commit.go
index c7bfde3..9342d09 100644
--- a/commit.go
+++ b/commit.go
@@ -206,8 +206,10 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(object))
 		fmt.Fprintf(buf, " type %s\n", mtag.typ.x)
 		fmt.Fprintf(buf, " tag %s\n", mtag.tag.x)
-		fmt.Fprintf(buf, " tagger %s\n \n", mtag.tagger.GitString())
-		fmt.Fprintf(buf, "%s", mtag.message.x)
+		if mtag.tagger != (_PersonInfo{}) {
+			fmt.Fprintf(buf, " tagger %s\n", mtag.tagger.GitString())
+		}
+		fmt.Fprintf(buf, " \n%s", mtag.message.x)
 	}
 	if c.signature.m == schema.Maybe_Value {
 		fmt.Fprintln(buf, "gpgsig -----BEGIN PGP SIGNATURE-----")
diff --git a/tag.go b/tag.go
index 1475664..4e1df89 100644
--- a/tag.go
+++ b/tag.go
@@ -179,7 +179,10 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 		if !ok {
 			return fmt.Errorf("could not parse tagger person info %v", tagger)
 		}
-		fmt.Fprintf(buf, "tagger %s\n", parsed.GitString())
+		// The schema has no other way to say that a tag has no tagger.
+		if *parsed != (_PersonInfo{}) {
+			fmt.Fprintf(buf, "tagger %s\n", parsed.GitString())
+		}
 	}
 	if messageStr != "" {
 		fmt.Fprintf(buf, "\n%s", messageStr)
-- 
2.43.0


From 6622ef35d0b82abeea819831a2ff4661e72111c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:08 +0000
Subject: [PATCH 12/13] fix: reject commits without a tree and tags without an
 object

The schema requires both, but decoding left them as nil links, which neither
this codec nor others can encode.
---
 commit.go | 4 ++++
 tag.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/commit.go b/commit.go
index 9342d09..dcd451f 100644
--- a/commit.go
+++ b/commit.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io"
 	"strings"
@@ -40,6 +41,9 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		}
 	}
 
+	if c.tree.x == nil {
+		return errors.New("commit without a tree")
+	}
 	return na.AssignNode(&c)
 }
 
diff --git a/tag.go b/tag.go
index 4e1df89..52f17d9 100644
--- a/tag.go
+++ b/tag.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io"
 	"strings"
@@ -69,6 +70,9 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		}
 	}
 
+	if out.object.x == nil {
+		return errors.New("tag without an object")
+	}
 	return na.AssignNode(&out)
 }
 
-- 
2.43.0


From 8cbd2ed5ca65af6f5d683e1cdeb5f991c376898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 13/13] fix: recognize a tag whose first field is its message

Encode tells a map that is a tag by its first key, which in DAG-JSON, and in
the README, is the message. Such tags were taken for commits and rejected.
---
 marshal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/marshal.go b/marshal.go
index d2610e5..4ec21e0 100644
--- a/marshal.go
+++ b/marshal.go
@@ -42,6 +42,12 @@ func Encode(n ipld.Node, w io.Writer) error {
 			"tagger",
 			"text":
 			return encodeTag(n, w)
+		case "message":
+			// Both have one, and it sorts first in the DAG-JSON form of a tag.
+			if _, err := n.LookupByString("object"); err == nil {
+				return encodeTag(n, w)
+			}
+			return encodeCommit(n, w)
 		default:
 			return encodeCommit(n, w)
 		}
-- 
2.43.0

