From 61f825959ef1d8e7d2c835b595f683feecf35f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:34 +0000
Subject: [PATCH 01/26] fix: write the closing tag when an Elem's Content grows
 the node stack

node.end() kept a pointer into w.nodes across opened(). When the element's
Content pushed a node that reallocated the stack, children was read from the
stale copy and the closing tag was left out: writing
Elem{Name: "x", Content: []Writable{Elem{Name: "y"}}} under 7 open nodes
produced "<x><y/>".
---
 node.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/node.go b/node.go
index f26ee9e..2d75bca 100644
--- a/node.go
+++ b/node.go
@@ -156,6 +156,8 @@ func (n *node) end(w *Writer) error {
 		if err := w.nodes[w.current].opened(w); err != nil {
 			return err
 		}
+		// opened() may have pushed children, which can reallocate the stack.
+		n = &w.nodes[w.current]
 	}
 
 	n.state = StateEnded
-- 
2.43.0


From 79792572a2dcc2297243cd53b12dda4058a58d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 02/26] fix: report the error when opening the current node
 fails

writeBeginNext() dropped the error from Next(), so invalid Content given to
StartComment, StartCData, StartElem or StartDTDAttList (and errors from an
Indenter) were swallowed, and the content lost, if the next call was a write.
---
 writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/writer.go b/writer.go
index ee9c6dd..ee6037e 100644
--- a/writer.go
+++ b/writer.go
@@ -484,7 +484,9 @@ func (w *Writer) checkParent(nodeFlags nodeFlag) error {
 }
 
 func (w *Writer) writeBeginNext(kind NodeKind) error {
-	w.Next()
+	if err := w.Next(); err != nil {
+		return err
+	}
 	return w.writeBeginCur(kind)
 }
 
-- 
2.43.0


From 4254191478d35479c20718779d7b04c93163b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:39 +0000
Subject: [PATCH 03/26] fix: report sink errors from WriteText

EscapeString() always returned nil, so WriteText was the only write that did
not report a failure of the underlying io.Writer.
---
 printer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printer.go b/printer.go
index cca62d5..6dbe5e3 100644
--- a/printer.go
+++ b/printer.go
@@ -155,7 +155,7 @@ func (p printer) EscapeString(s string) error {
 		last = i
 	}
 	p.WriteString(s[last:])
-	return nil
+	return p.cachedWriteError()
 }
 
 func (p printer) writeExternalID(publicID string, systemID string, enforce bool) error {
-- 
2.43.0


From 15e68b775ab7e7bf5aaa8d3d83ee8abdc65bf01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:42 +0000
Subject: [PATCH 04/26] fix: StandardIndenter must not panic when a node is
 ended again

If the underlying io.Writer fails while a node is being ended, the node stays
on the stack. Ending it again (a second End call, EndAll) popped the indenter's
stack twice and panicked with an index out of range.
---
 indenter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indenter.go b/indenter.go
index af51eb4..245deb2 100644
--- a/indenter.go
+++ b/indenter.go
@@ -80,7 +80,7 @@ func (s *StandardIndenter) Indent(w *Writer, last Event, next Event) error {
 		if next.State == StateOpened {
 			s.stack = append(s.stack, indentLevel{e: last})
 			s.depth++
-		} else if next.State == StateEnded {
+		} else if next.State == StateEnded && s.depth > 0 {
 			isInline = s.stack[s.depth].indents == 0
 			s.depth--
 			s.stack = s.stack[:len(s.stack)-1]
-- 
2.43.0


From fbfc7b42549c4405cb329b7d2226ba6b2595bffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:44 +0000
Subject: [PATCH 05/26] fix: reject an Attr written after its element's start
 tag is complete

WriteAttr only checked that the current node was an element, so an attribute
written after the first child ended up in the element's text.
---
 attr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attr.go b/attr.go
index f81acbf..4157fbe 100644
--- a/attr.go
+++ b/attr.go
@@ -64,6 +64,9 @@ func (a Attr) write(w *Writer) error {
 		if err := w.checkParent(noNodeFlag | elemNodeFlag); err != nil {
 			return err
 		}
+		if w.current >= 0 && w.nodes[w.current].state != StateOpen {
+			return fmt.Errorf("xmlwriter: attr must be written before the content of its element")
+		}
 	}
 
 	if w.Indenter != nil {
-- 
2.43.0


From c0b649bbbdcfb59028bc4d69cb1acfdb2a3fc0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:46 +0000
Subject: [PATCH 06/26] fix: EndElemFull must not change the element when it is
 rejected

EndElemFull("wrong-name") returned an error but left the current element
marked as Full, so a later EndElem no longer used the short close style.
---
 writer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/writer.go b/writer.go
index ee6037e..f2d16a9 100644
--- a/writer.go
+++ b/writer.go
@@ -324,10 +324,17 @@ func (w *Writer) EndElem(name ...string) error { return w.End(ElemNode, name...)
 // the current node is not an Elem. It will always be closed using the full
 // element close style even if it contains no children: "<tag></tag>".
 func (w *Writer) EndElemFull(name ...string) error {
-	if w.current >= 0 {
-		w.nodes[w.current].elem.Full = true
+	if w.current < 0 {
+		return w.End(ElemNode, name...)
+	}
+	prev := w.nodes[w.current].elem.Full
+	w.nodes[w.current].elem.Full = true
+	depth := w.current
+	err := w.End(ElemNode, name...)
+	if err != nil {
+		w.nodes[depth].elem.Full = prev
 	}
-	return w.End(ElemNode, name...)
+	return err
 }
 
 // EndAny ends the current node, regardless of what kind of node it is.
-- 
2.43.0


From 25104914560635e41e5baa86402ba7ce5ee4220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:48 +0000
Subject: [PATCH 07/26] fix: EndToDepth must not end a node at or above the
 supplied depth

When nothing had been started since Depth() was called, EndToDepth ended the
node that was already open at that depth.
---
 writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/writer.go b/writer.go
index f2d16a9..26fc861 100644
--- a/writer.go
+++ b/writer.go
@@ -423,6 +423,9 @@ func (w *Writer) EndAll() error {
 //	}
 //
 func (w *Writer) EndToDepth(depth int, kind NodeKind, name ...string) error {
+	if w.current <= depth {
+		return fmt.Errorf("xmlwriter: no node to end below depth %d", depth)
+	}
 	limit := depth + 1
 	for {
 		if w.current <= limit {
-- 
2.43.0


From d9d7d7952603d6000026c7441fec072932c511d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 08/26] fix: catch comment and CDATA delimiters split across
 writes

'--' and ']]>' were only looked for inside each piece of content, so
CDataContent("]]") followed by CDataContent(">") closed the section early, and
CommentContent("-") twice, or a comment ending in '-', was not well-formed.
---
 node.go  | 10 ++++++++++
 nodes.go | 31 +++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/node.go b/node.go
index 2d75bca..85e13b5 100644
--- a/node.go
+++ b/node.go
@@ -1,5 +1,7 @@
 package xmlwriter
 
+import "fmt"
+
 // NodeState is the state of the node being written.
 type NodeState int
 
@@ -64,6 +66,11 @@ type node struct {
 	// of an element if the element only contains cdata or comments
 	hasIndenter bool
 
+	// number of consecutive '-' (Comment) or ']' (CData) characters at the end
+	// of the content written so far, to catch a delimiter that is split across
+	// several writes.
+	trail int
+
 	// bogus tagged union, this keeps things from escaping to the heap
 	kind       NodeKind
 	flag       nodeFlag
@@ -159,6 +166,9 @@ func (n *node) end(w *Writer) error {
 		// opened() may have pushed children, which can reallocate the stack.
 		n = &w.nodes[w.current]
 	}
+	if w.Enforce && n.kind == CommentNode && n.trail > 0 {
+		return fmt.Errorf("xmlwriter: comment may not end with '-'")
+	}
 
 	n.state = StateEnded
 	if w.Indenter != nil {
diff --git a/nodes.go b/nodes.go
index 2dd7fd0..1d9f6e2 100644
--- a/nodes.go
+++ b/nodes.go
@@ -18,6 +18,9 @@ func (t Raw) write(w *Writer) error {
 		return err
 	}
 	w.printer.WriteString(string(t))
+	if w.current >= 0 && len(t) > 0 {
+		w.nodes[w.current].trail = 0
+	}
 	if w.Indenter != nil {
 		w.last = Event{StateEnded, RawNode, 0}
 	}
@@ -51,6 +54,19 @@ func (t Text) write(w *Writer) error {
 	return err
 }
 
+// trailing returns the number of consecutive c characters at the end of s, where
+// prev of them directly precede s.
+func trailing(s string, c byte, prev int) int {
+	i := len(s)
+	for i > 0 && s[i-1] == c {
+		i--
+	}
+	if i == 0 {
+		return prev + len(s)
+	}
+	return len(s) - i
+}
+
 // CommentContent represents a text portion of an XML comment which can
 // be written after a Comment is Started.
 type CommentContent string
@@ -78,6 +94,13 @@ func (c CommentContent) write(w *Writer) error {
 	if err := w.writeBeginNext(CommentContentNode); err != nil {
 		return err
 	}
+	if w.current >= 0 {
+		n := &w.nodes[w.current]
+		if w.Enforce && n.trail > 0 && strings.HasPrefix(s, "-") {
+			return fmt.Errorf("xmlwriter: comment may not contain '--'")
+		}
+		n.trail = trailing(s, '-', n.trail)
+	}
 	if _, err := w.printer.WriteString(s); err != nil {
 		return err
 	}
@@ -161,6 +184,14 @@ func (c CDataContent) write(w *Writer) error {
 	if err := w.writeBeginNext(CDataContentNode); err != nil {
 		return err
 	}
+	if w.current >= 0 {
+		n := &w.nodes[w.current]
+		rest := strings.TrimLeft(s, "]")
+		if w.Enforce && n.trail+len(s)-len(rest) >= 2 && strings.HasPrefix(rest, ">") {
+			return fmt.Errorf("xmlwriter: cdata may not contain ']]>'")
+		}
+		n.trail = trailing(s, ']', n.trail)
+	}
 	if _, err := w.printer.WriteString(s); err != nil {
 		return err
 	}
-- 
2.43.0


From 9f1a213bd59584c209584b7223286dc744c30b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:32 +0000
Subject: [PATCH 09/26] fix: CheckChars must reject invalid UTF-8

Ranging over the string turns a malformed byte into U+FFFD, which is a valid
character, so Comment and CData content was written out malformed.
---
 check.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/check.go b/check.go
index 8163d50..e11ce85 100644
--- a/check.go
+++ b/check.go
@@ -2,6 +2,7 @@ package xmlwriter
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 // CheckEncoding validates the characters in a Doc{} node's encoding="..."
@@ -56,6 +57,11 @@ func CheckName(name string) error {
 // that unicode characters referenced in the note are also excluded.
 func CheckChars(chars string, strict bool) error {
 	for i, rn := range chars {
+		if rn == utf8.RuneError {
+			if _, width := utf8.DecodeRuneInString(chars[i:]); width == 1 {
+				return fmt.Errorf("xmlwriter: invalid UTF-8 at position %d", i)
+			}
+		}
 		if rn == 0x9 || rn == 0xA || rn == 0xD ||
 			(rn >= 0x20 && rn <= 0xD7FF) ||
 			(rn >= 0xE000 && rn <= 0xFFFD) ||
-- 
2.43.0


From 96fb676a8e18d74f4fe14e18d3fc13dccf3af82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 10/26] fix: check the characters of PI content

PI content was the only character content written verbatim under Enforce
without being checked with CheckChars.
---
 nodes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodes.go b/nodes.go
index 1d9f6e2..a3cc247 100644
--- a/nodes.go
+++ b/nodes.go
@@ -402,6 +402,9 @@ func (p PI) write(w *Writer) error {
 		if strings.Index(p.Content, "?>") >= 0 {
 			return fmt.Errorf("xmlwriter: PI content may not contain '?>'")
 		}
+		if err := CheckChars(p.Content, w.StrictChars); err != nil {
+			return err
+		}
 	}
 
 	if err := w.writeBeginNext(PINode); err != nil {
-- 
2.43.0


From 5f170d93856f8167c90bfc66b250126ef3008195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:36 +0000
Subject: [PATCH 11/26] fix: check the public ID of a Notation that has no
 system ID

Notation{PublicID: ...} without a SystemID went straight to writePublicID(),
past CheckPubID(), so a double quote in it ended the literal early.
---
 printer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/printer.go b/printer.go
index 6dbe5e3..54f6186 100644
--- a/printer.go
+++ b/printer.go
@@ -172,9 +172,6 @@ func (p printer) writeExternalID(publicID string, systemID string, enforce bool)
 			if systemID == "" {
 				return fmt.Errorf("xmlwriter: DTD public ID provided but system ID missing")
 			}
-			if err := CheckPubID(publicID); err != nil {
-				return err
-			}
 		}
 		return p.writePublicID(publicID, systemID, enforce)
 	}
@@ -227,9 +224,12 @@ func (p printer) writeEntityValue(value string, enforce bool) error {
 
 func (p printer) writePublicID(publicID string, systemID string, enforce bool) error {
 	if enforce {
-		if len(publicID) < 0 {
+		if len(publicID) == 0 {
 			return fmt.Errorf("xmlwriter: public ID must not be empty")
 		}
+		if err := CheckPubID(publicID); err != nil {
+			return err
+		}
 	}
 	p.WriteString("PUBLIC ")
 	p.WriteByte('"')
-- 
2.43.0


From eaf6edd8ff23605474345fed524a01fb06231cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 12/26] fix: reject an Attr with an empty name

CheckName() lets the empty string pass and leaves it to the caller, which
every other named node does; Attr{} produced '<elem =""/>'.
---
 attr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attr.go b/attr.go
index 4157fbe..ea5129a 100644
--- a/attr.go
+++ b/attr.go
@@ -67,6 +67,9 @@ func (a Attr) write(w *Writer) error {
 		if w.current >= 0 && w.nodes[w.current].state != StateOpen {
 			return fmt.Errorf("xmlwriter: attr must be written before the content of its element")
 		}
+		if len(a.Name) == 0 {
+			return fmt.Errorf("xmlwriter: attr name must not be empty")
+		}
 	}
 
 	if w.Indenter != nil {
-- 
2.43.0


From 58b4c07dce82ad8b157e9500d529c12e652ea661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:41 +0000
Subject: [PATCH 13/26] fix: only declare the namespace of an Attr that has a
 prefix and was written

Attr{Name: "a", URI: "u"} produced ' xmlns:="u"', and an Attr rejected for its
name still left its xmlns declaration behind on the element.
---
 attr.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/attr.go b/attr.go
index ea5129a..88b6593 100644
--- a/attr.go
+++ b/attr.go
@@ -83,7 +83,9 @@ func (a Attr) write(w *Writer) error {
 		name = a.Prefix + ":" + name
 	}
 
-	if a.URI != "" && w.current >= 0 {
+	// An attribute without a prefix is in no namespace, there is nothing to declare.
+	declare := false
+	if a.URI != "" && a.Prefix != "" && w.current >= 0 {
 		ns := ns{prefix: a.Prefix, uri: a.URI}
 		found := false
 		fail := false
@@ -98,14 +100,17 @@ func (a Attr) write(w *Writer) error {
 		}
 		if fail {
 			return fmt.Errorf("uri already exists for ns prefix %s", a.Prefix)
-		} else if !found {
-			w.nodes[w.current].elem.namespaces = append(w.nodes[w.current].elem.namespaces, ns)
 		}
+		declare = !found
 	}
 
 	if err := w.printer.printAttr(name, a.Value, w.Enforce); err != nil {
 		return err
 	}
+	if declare {
+		n := &w.nodes[w.current]
+		n.elem.namespaces = append(n.elem.namespaces, ns{prefix: a.Prefix, uri: a.URI})
+	}
 	if w.Indenter != nil {
 		w.last = Event{StateEnded, AttrNode, 0}
 	}
-- 
2.43.0


From 9afba1556e18b69c2c7323afd622dd38bcc0f3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 14/26] fix: escape carriage returns in text

A literal CR in character data is normalised to LF by every XML parser, so
Text("a\\rb") did not survive a round trip. encoding/xml and libxml2 escape it
as well; attribute values already were.
---
 printer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/printer.go b/printer.go
index 54f6186..dadb5fb 100644
--- a/printer.go
+++ b/printer.go
@@ -143,6 +143,8 @@ func (p printer) EscapeString(s string) error {
 			esc = escLt
 		case '>':
 			esc = escGt
+		case '\r':
+			esc = escCr
 		default:
 			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
 				esc = escFffd
-- 
2.43.0


From d26d5f60778a021b1dd379f080f604a7339850f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:45 +0000
Subject: [PATCH 15/26] fix: ErrCollector.Do must keep the first error it
 collected

A later call to Do() with another error replaced the one already held, contrary
to the documentation ("fail with the first error that occurred").
---
 errs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/errs.go b/errs.go
index fd50dc0..2788c81 100644
--- a/errs.go
+++ b/errs.go
@@ -112,6 +112,9 @@ func (e *ErrCollector) Set(err *error) {
 // that subsequent calls after the first error are safe to make.
 //
 func (e *ErrCollector) Do(errs ...error) {
+	if e.Err != nil {
+		return
+	}
 	for i, err := range errs {
 		if err != nil {
 			_, file, line, _ := runtime.Caller(1)
-- 
2.43.0


From 2d9a05a834e11858ac01af5740d66f0bf143a044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:11 +0000
Subject: [PATCH 16/26] fix: CheckChars(strict) must exclude the discouraged
 characters

The strict ranges were only looked at for characters outside the Char
production, and then accepted, so StrictChars had no effect. The documentation
says they are excluded.
---
 check.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/check.go b/check.go
index e11ce85..75de16f 100644
--- a/check.go
+++ b/check.go
@@ -62,12 +62,6 @@ func CheckChars(chars string, strict bool) error {
 				return fmt.Errorf("xmlwriter: invalid UTF-8 at position %d", i)
 			}
 		}
-		if rn == 0x9 || rn == 0xA || rn == 0xD ||
-			(rn >= 0x20 && rn <= 0xD7FF) ||
-			(rn >= 0xE000 && rn <= 0xFFFD) ||
-			(rn >= 0x10000 && rn <= 0x10FFFF) {
-			continue
-		}
 		if strict {
 			// Document authors are encouraged to avoid "compatibility
 			// characters", as defined in section 2.3 of [Unicode]. The
@@ -82,9 +76,15 @@ func CheckChars(chars string, strict bool) error {
 				(rn >= 0xAFFFE && rn <= 0xAFFFF) || (rn >= 0xBFFFE && rn <= 0xBFFFF) || (rn >= 0xCFFFE && rn <= 0xCFFFF) ||
 				(rn >= 0xDFFFE && rn <= 0xDFFFF) || (rn >= 0xEFFFE && rn <= 0xEFFFF) || (rn >= 0xFFFFE && rn <= 0xFFFFF) ||
 				(rn >= 0x10FFFE && rn <= 0x10FFFF) {
-				continue
+				return fmt.Errorf("xmlwriter: discouraged chars at position %d: %c", i, rn)
 			}
 		}
+		if rn == 0x9 || rn == 0xA || rn == 0xD ||
+			(rn >= 0x20 && rn <= 0xD7FF) ||
+			(rn >= 0xE000 && rn <= 0xFFFD) ||
+			(rn >= 0x10000 && rn <= 0x10FFFF) {
+			continue
+		}
 		return fmt.Errorf("xmlwriter: invalid chars at position %d: %c", i, rn)
 	}
 	return nil
-- 
2.43.0


From 0a7fa0a637e7d82f04f098379dc7d802769bcffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:13 +0000
Subject: [PATCH 17/26] fix: a node started with an invalid name must not stay
 on the stack

The name was only checked once the node had been pushed, so a Start that
returned an error still left the node open: StartElem(Elem{Name: "!"})
followed by EndAll wrote "/>".
---
 dtd.go  | 32 ++++++++++++++++----------------
 elem.go | 19 ++++++++++---------
 2 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/dtd.go b/dtd.go
index b05ba7c..630bc93 100644
--- a/dtd.go
+++ b/dtd.go
@@ -14,6 +14,14 @@ type DTD struct {
 func (d DTD) kind() NodeKind { return DTDNode }
 
 func (d DTD) start(w *Writer) error {
+	if w.Enforce {
+		if len(d.Name) == 0 {
+			return fmt.Errorf("xmlwriter: DTD name must not be empty")
+		}
+		if err := CheckName(d.Name); err != nil {
+			return err
+		}
+	}
 	if err := w.pushBegin(DTDNode, noNodeFlag|docNodeFlag); err != nil {
 		return err
 	}
@@ -26,14 +34,6 @@ func (d DTD) start(w *Writer) error {
 }
 
 func (d DTD) open(n *node, w *Writer) error {
-	if w.Enforce {
-		if len(d.Name) == 0 {
-			return fmt.Errorf("xmlwriter: DTD name must not be empty")
-		}
-		if err := CheckName(d.Name); err != nil {
-			return err
-		}
-	}
 	w.printer.WriteString("<!DOCTYPE ")
 	w.printer.WriteString(d.Name)
 	if d.PublicID != "" || d.SystemID != "" {
@@ -227,6 +227,14 @@ type DTDAttList struct {
 }
 
 func (d DTDAttList) start(w *Writer) error {
+	if w.Enforce {
+		if len(d.Name) == 0 {
+			return fmt.Errorf("xmlwriter: DTD attlist name must not be empty")
+		}
+		if err := CheckName(d.Name); err != nil {
+			return err
+		}
+	}
 	if err := w.pushBegin(DTDAttListNode, noNodeFlag|dtdNodeFlag); err != nil {
 		return err
 	}
@@ -251,14 +259,6 @@ func (d DTDAttList) write(w *Writer) error {
 }
 
 func (d DTDAttList) open(n *node, w *Writer) error {
-	if w.Enforce {
-		if len(d.Name) == 0 {
-			return fmt.Errorf("xmlwriter: DTD attlist name must not be empty")
-		}
-		if err := CheckName(d.Name); err != nil {
-			return err
-		}
-	}
 	w.printer.WriteString("<!ATTLIST ")
 	w.printer.WriteString(d.Name)
 	return w.printer.cachedWriteError()
diff --git a/elem.go b/elem.go
index eba5eb7..5d40283 100644
--- a/elem.go
+++ b/elem.go
@@ -31,6 +31,15 @@ type ns struct {
 func (e Elem) kind() NodeKind { return ElemNode }
 
 func (e Elem) start(w *Writer) error {
+	if w.Enforce {
+		name := e.fullName()
+		if name == "" {
+			return fmt.Errorf("xmlwriter: element name must not be empty")
+		}
+		if err := CheckName(name); err != nil {
+			return err
+		}
+	}
 	if err := w.pushBegin(ElemNode, noNodeFlag|docNodeFlag|elemNodeFlag); err != nil {
 		return err
 	}
@@ -62,14 +71,6 @@ func (e Elem) fullName() string {
 
 func (e Elem) open(n *node, w *Writer) error {
 	name := e.fullName()
-	if w.Enforce {
-		if name == "" {
-			return fmt.Errorf("xmlwriter: element name must not be empty")
-		}
-		if err := CheckName(name); err != nil {
-			return err
-		}
-	}
 
 	if e.Prefix != "" && e.URI != "" {
 		n.elem.namespaces = append(e.namespaces, ns{prefix: e.Prefix, uri: e.URI, elem: true})
@@ -79,7 +80,7 @@ func (e Elem) open(n *node, w *Writer) error {
 	w.printer.WriteString(name)
 
 	if e.Prefix != "" && e.URI != "" {
-		// we can assume the prefix has been enforced already by open running
+		// we can assume the prefix has been enforced already by start running
 		// CheckName on elem.fullName()
 		n.elem.namespaces[0].written = true
 		if err := w.printer.printAttr("xmlns:"+e.Prefix, e.URI, w.Enforce); err != nil {
-- 
2.43.0


From b361f7c61af1d370f7d58c8f99b4103e8694fd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:31 +0000
Subject: [PATCH 18/26] fix: write every kind of node an Elem may contain from
 its Content

---
 elem.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elem.go b/elem.go
index 5d40283..b479c75 100644
--- a/elem.go
+++ b/elem.go
@@ -126,8 +126,10 @@ func (e Elem) opened(n *node, w *Writer, prev NodeState) error {
 				err = w.WriteComment(t)
 			case CData:
 				err = w.WriteCData(t)
-			default:
+			case nil:
 				return fmt.Errorf("xmlwriter: unexpected child of element")
+			default:
+				err = c.write(w)
 			}
 			if err != nil {
 				// TODO: context about which index failed
-- 
2.43.0


From d37b68d38e999b825cb62f25e97545d2442e965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:56 +0000
Subject: [PATCH 19/26] fix: tell the indenter about deferred content as the
 previous transition

node.opened recorded itself as the last event after the deferred Content of
the node had been written, so the indenter was told that the transition before
the next one was the opening of the parent and not the content. The standard
indenter then broke the line right after text.
---
 node.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index 85e13b5..c8d613e 100644
--- a/node.go
+++ b/node.go
@@ -130,6 +130,9 @@ func (n *node) opened(w *Writer) error {
 		if err := w.writeIndent(ev); err != nil {
 			return err
 		}
+		// before opened(), which may write deferred content with transitions of
+		// its own.
+		w.last = ev
 	}
 
 	switch n.kind {
@@ -149,9 +152,6 @@ func (n *node) opened(w *Writer) error {
 		// FIXME
 		panic(nil)
 	}
-	if w.Indenter != nil {
-		w.last = Event{n.state, n.kind, n.children}
-	}
 	return err
 }
 
-- 
2.43.0


From 7b4c823ed410d074122b7c5b92b95b08f4464817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 20/26] fix: close an element whose only Content is Raw

Raw does not count as a child, so an Elem with nothing but Raw in its Content
was opened with '<a>' and never closed.
---
 elem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elem.go b/elem.go
index b479c75..3018554 100644
--- a/elem.go
+++ b/elem.go
@@ -141,7 +141,7 @@ func (e Elem) opened(n *node, w *Writer, prev NodeState) error {
 }
 
 func (e Elem) end(n *node, w *Writer, prev NodeState) error {
-	if prev != StateOpen || e.Full || n.children > 0 {
+	if prev != StateOpen || e.Full || n.children > 0 || len(e.Content) > 0 {
 		w.printer.WriteString("</")
 		w.printer.WriteString(e.fullName())
 		w.printer.WriteByte('>')
-- 
2.43.0


From 1de3223802252d3f1963af7fcbb86d81eaf15ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:49 +0000
Subject: [PATCH 21/26] fix: check the characters of system IDs and entity
 values

---
 printer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/printer.go b/printer.go
index dadb5fb..216b516 100644
--- a/printer.go
+++ b/printer.go
@@ -190,6 +190,9 @@ func (p printer) writeSystemID(systemID string, enforce bool) error {
 		if dq >= 0 && sq >= 0 {
 			return fmt.Errorf("xmlwriter: DTD system ID must only contain double or single quotes, not both")
 		}
+		if err := CheckChars(systemID, false); err != nil {
+			return err
+		}
 	}
 	var qc byte = '"'
 	if dq >= 0 {
@@ -216,6 +219,9 @@ func (p printer) writeEntityValue(value string, enforce bool) error {
 		if dq >= 0 && sq >= 0 {
 			return fmt.Errorf("xmlwriter: entity value must only contain double or single quotes, not both")
 		}
+		if err := CheckChars(value, false); err != nil {
+			return err
+		}
 	}
 
 	p.WriteByte(qc)
-- 
2.43.0


From 02d0f19263782c3ac3499487e1537e324ced0eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:20 +0000
Subject: [PATCH 22/26] fix: accept the rest of the name characters of the BMP
 in names

---
 check.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/check.go b/check.go
index 75de16f..db1249e 100644
--- a/check.go
+++ b/check.go
@@ -33,7 +33,7 @@ func CheckName(name string) error {
 	var rn rune
 	for start, rn = range name {
 		if start == 0 {
-			if rn > 0xFFFF || nameChar[uint16(rn)] != 1 {
+			if nameClass(rn) != 1 || !validRune(rn, name) {
 				return fmt.Errorf("xmlwriter: invalid name at position %d: %c", 0, rn)
 			}
 
@@ -43,7 +43,7 @@ func CheckName(name string) error {
 	}
 
 	for i, rn := range name[start:] {
-		if rn > 0xFFFF || nameChar[uint16(rn)] == 0 {
+		if nameClass(rn) == 0 || !validRune(rn, name[start+i:]) {
 			return fmt.Errorf("xmlwriter: invalid name at position %d: %c", start+i, rn)
 		}
 	}
@@ -51,6 +51,35 @@ func CheckName(name string) error {
 	return nil
 }
 
+// nameClass returns 1 for characters which may start a name, 2 for those which
+// may only continue one and 0 for the rest. nameChar only covers characters up
+// to 0x37D, and a few above it. Characters above 0xFFFF are not supported.
+func nameClass(rn rune) int8 {
+	switch {
+	case rn >= 0x37F && rn <= 0x1FFF,
+		rn >= 0x200C && rn <= 0x200D,
+		rn >= 0x2070 && rn <= 0x218F,
+		rn >= 0x2C00 && rn <= 0x2FEF,
+		rn >= 0x3001 && rn <= 0xD7FF,
+		rn >= 0xF900 && rn <= 0xFDCF,
+		rn >= 0xFDF0 && rn <= 0xFFFD:
+		return 1
+	case rn > 0xFFFF:
+		return 0
+	}
+	return nameChar[rn]
+}
+
+// validRune reports whether rn, which was decoded from the start of s, really
+// is in s and does not stand for an invalid UTF-8 sequence.
+func validRune(rn rune, s string) bool {
+	if rn != utf8.RuneError {
+		return true
+	}
+	_, width := utf8.DecodeRuneInString(s)
+	return width > 1
+}
+
 // CheckChars ensures a string contains characters which are valid in a Text{}
 // node: https://www.w3.org/TR/xml/#NT-Char
 // The 'strict' argument (which xmlwriter should activate by default) ensures
-- 
2.43.0


From d16e8cc9dab34423c7975c103a12ff5a024da20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:42 +0000
Subject: [PATCH 23/26] fix: keep the first error of a collector when Must
 collects a later one

---
 errs.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/errs.go b/errs.go
index 2788c81..540e207 100644
--- a/errs.go
+++ b/errs.go
@@ -127,15 +127,18 @@ func (e *ErrCollector) Do(errs ...error) {
 	}
 }
 
-// Must collects the first error in a list of errors and panics with it.
+// Must collects the first error in a list of errors and panics with it. If an
+// error has been collected before, the collector keeps that one.
 func (e *ErrCollector) Must(errs ...error) {
 	for i, err := range errs {
 		if err != nil {
-			_, file, line, _ := runtime.Caller(1)
-			e.Err = err
-			e.Index = i + 1
-			e.File = file
-			e.Line = line
+			if e.Err == nil {
+				_, file, line, _ := runtime.Caller(1)
+				e.Err = err
+				e.Index = i + 1
+				e.File = file
+				e.Line = line
+			}
 			panic(e)
 		}
 	}
-- 
2.43.0


From 0c78245c415d26d583873c9b067147cea8449b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 24/26] fix: give a negative NodeKind an empty name instead of
 panicking

Name is documented to be empty for an invalid kind, but it indexed the table
with a negative kind, so End(NodeKind(-1)) with a node open panicked.
---
 nodekind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodekind.go b/nodekind.go
index eda607c..8f26a29 100644
--- a/nodekind.go
+++ b/nodekind.go
@@ -12,7 +12,7 @@ type NodeKind int
 // the Name() will be empty. String() returns a human-readable representation
 // for information purposes; if a stable string is required, use this instead.
 func (n NodeKind) Name() string {
-	if int(n) < nodeKindLength {
+	if n >= 0 && int(n) < nodeKindLength {
 		return kindName[n]
 	}
 	return ""
-- 
2.43.0


From ec5361bff53166794dd359d3c54493c13d5d8023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 25/26] fix: refuse an attribute or content before announcing
 it to the indenter

An attribute with an invalid name or a conflicting namespace, and comment or
CDATA content completing a forbidden delimiter, was announced to the indenter
as a transition and only then refused, so an indenter that writes put bytes
into the stream for a node that never came.
---
 attr.go  | 19 ++++++++++++-------
 nodes.go | 18 +++++++++++-------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/attr.go b/attr.go
index 88b6593..ae53164 100644
--- a/attr.go
+++ b/attr.go
@@ -72,12 +72,6 @@ func (a Attr) write(w *Writer) error {
 		}
 	}
 
-	if w.Indenter != nil {
-		if err := w.writeIndent(Event{StateOpen, AttrNode, 0}); err != nil {
-			return err
-		}
-	}
-
 	name := a.Name
 	if a.Prefix != "" {
 		name = a.Prefix + ":" + name
@@ -104,7 +98,18 @@ func (a Attr) write(w *Writer) error {
 		declare = !found
 	}
 
-	if err := w.printer.printAttr(name, a.Value, w.Enforce); err != nil {
+	if w.Enforce {
+		if err := CheckName(name); err != nil {
+			return err
+		}
+	}
+
+	if w.Indenter != nil {
+		if err := w.writeIndent(Event{StateOpen, AttrNode, 0}); err != nil {
+			return err
+		}
+	}
+	if err := w.printer.printAttr(name, a.Value, false); err != nil {
 		return err
 	}
 	if declare {
diff --git a/nodes.go b/nodes.go
index a3cc247..1a3e0c0 100644
--- a/nodes.go
+++ b/nodes.go
@@ -91,14 +91,15 @@ func (c CommentContent) write(w *Writer) error {
 		}
 	}
 
+	if w.Enforce && w.current >= 0 && w.nodes[w.current].trail > 0 && strings.HasPrefix(s, "-") {
+		return fmt.Errorf("xmlwriter: comment may not contain '--'")
+	}
+
 	if err := w.writeBeginNext(CommentContentNode); err != nil {
 		return err
 	}
 	if w.current >= 0 {
 		n := &w.nodes[w.current]
-		if w.Enforce && n.trail > 0 && strings.HasPrefix(s, "-") {
-			return fmt.Errorf("xmlwriter: comment may not contain '--'")
-		}
 		n.trail = trailing(s, '-', n.trail)
 	}
 	if _, err := w.printer.WriteString(s); err != nil {
@@ -181,15 +182,18 @@ func (c CDataContent) write(w *Writer) error {
 		}
 	}
 
+	if w.Enforce && w.current >= 0 {
+		rest := strings.TrimLeft(s, "]")
+		if w.nodes[w.current].trail+len(s)-len(rest) >= 2 && strings.HasPrefix(rest, ">") {
+			return fmt.Errorf("xmlwriter: cdata may not contain ']]>'")
+		}
+	}
+
 	if err := w.writeBeginNext(CDataContentNode); err != nil {
 		return err
 	}
 	if w.current >= 0 {
 		n := &w.nodes[w.current]
-		rest := strings.TrimLeft(s, "]")
-		if w.Enforce && n.trail+len(s)-len(rest) >= 2 && strings.HasPrefix(rest, ">") {
-			return fmt.Errorf("xmlwriter: cdata may not contain ']]>'")
-		}
 		n.trail = trailing(s, ']', n.trail)
 	}
 	if _, err := w.printer.WriteString(s); err != nil {
-- 
2.43.0


From e342aabe0160893d765053f4bef984925d09a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 26/26] fix: count trailing delimiter characters only in the
 node they belong to

---
 nodes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodes.go b/nodes.go
index 1a3e0c0..56419e6 100644
--- a/nodes.go
+++ b/nodes.go
@@ -98,7 +98,7 @@ func (c CommentContent) write(w *Writer) error {
 	if err := w.writeBeginNext(CommentContentNode); err != nil {
 		return err
 	}
-	if w.current >= 0 {
+	if w.current >= 0 && w.nodes[w.current].kind == CommentNode {
 		n := &w.nodes[w.current]
 		n.trail = trailing(s, '-', n.trail)
 	}
@@ -192,7 +192,7 @@ func (c CDataContent) write(w *Writer) error {
 	if err := w.writeBeginNext(CDataContentNode); err != nil {
 		return err
 	}
-	if w.current >= 0 {
+	if w.current >= 0 && w.nodes[w.current].kind == CDataNode {
 		n := &w.nodes[w.current]
 		n.trail = trailing(s, ']', n.trail)
 	}
-- 
2.43.0

