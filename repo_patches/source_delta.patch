From 47e9e7a2e32bc46f5260a9d1a3e1007579cd22e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 01/43] fix: the lexer dropped bytes read together with an
 error and took short reads as end of stream

---
 lexer.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lexer.go b/lexer.go
index 76c8f72..0b8b2cb 100644
--- a/lexer.go
+++ b/lexer.go
@@ -80,18 +80,27 @@ func (p *Lexer) fill() {
 		p.r = 0
 	}
 
-	for i := maxConsecutiveEmptyReads; i > 0; i-- {
+	// A reader may return fewer bytes than asked for, and may return bytes
+	// together with an error: the stream ends only when there is an error or
+	// when the reader makes no progress.
+	for i := maxConsecutiveEmptyReads; offset < bufSize; {
 		n, err := p.rd.Read(p.buf[offset:])
 		if n < 0 {
 			panic(errNegativeRead)
 		}
+		offset += n
 		if err != nil {
 			p.err = err
 			break
 		}
 
-		offset += n
-		if offset >= halfSize {
+		if n > 0 {
+			i = maxConsecutiveEmptyReads
+			continue
+		}
+		i--
+		if i == 0 {
+			p.err = io.ErrNoProgress
 			break
 		}
 	}
-- 
2.43.0


From 77fbd24b853d0c7ca2d3c1c4926b538259f80bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 02/43] fix: Lexer.Rune read past the end of the stream and
 split runes at the end of the buffer

---
 lexer.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/lexer.go b/lexer.go
index 0b8b2cb..8a30b16 100644
--- a/lexer.go
+++ b/lexer.go
@@ -131,6 +131,7 @@ func (p *Lexer) PeekRune() (rune, error) {
 	r, err := p.Rune()
 
 	if err != nil {
+		p.UnreadRune()
 		return 0, nil
 	}
 
@@ -163,15 +164,34 @@ func (p *Lexer) UnreadByte() {
 // Rune reads a single UTF-8 encoded Unicode character and returns the
 // rune. If the encoded rune is invalid, it consumes one byte
 // and returns unicode.ReplacementChar (U+FFFD) with a size of 1.
+// If no byte is available, returns 0 and an error.
 func (p *Lexer) Rune() (rune, error) {
 
-	p.fill()
+	c, err := p.Byte()
+	if err != nil {
+		p.lastRuneSize = append(p.lastRuneSize, 1)
+		return 0, err
+	}
+
+	r, size := rune(c), 1
+	if c >= utf8.RuneSelf {
+		// Bytes are read one by one since the rune can be at the end of the
+		// buffer.
+		b := []byte{c}
+		for len(b) < utf8.UTFMax && !utf8.FullRune(b) {
+			c, err = p.Byte()
+			if err != nil {
+				p.UnreadByte()
+				break
+			}
+			b = append(b, c)
+		}
 
-	r, size := rune(p.buf[p.r]), 1
-	if r >= utf8.RuneSelf {
-		r, size = utf8.DecodeRune(p.buf[p.r:p.lastByte])
+		r, size = utf8.DecodeRune(b)
+		for i := len(b); i > size; i-- {
+			p.UnreadByte()
+		}
 	}
-	p.r += size
 	p.lastRuneSize = append(p.lastRuneSize, size)
 	return r, nil
 }
-- 
2.43.0


From c12ab8d0f55f32f184984e5db27d17f161ba5fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 03/43] fix: a lone CR is a line break, and not swallowed when
 looking for one

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index 8a30b16..b7a0816 100644
--- a/lexer.go
+++ b/lexer.go
@@ -248,6 +248,10 @@ func (p *Lexer) Break() bool {
 
 	if c == '\r' {
 		c, _ = p.Byte()
+		if c != '\n' {
+			p.UnreadByte()
+		}
+		return true
 	}
 
 	if c == '\n' {
-- 
2.43.0


From 49cc465403c841b45039ebf055aab7d193b140fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 04/43] fix: Lexer.Number consumed a sign that is not followed
 by a number

---
 lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lexer.go b/lexer.go
index b7a0816..8e2eed3 100644
--- a/lexer.go
+++ b/lexer.go
@@ -490,6 +490,11 @@ func (p *Lexer) Number() (string, bool) {
 	}
 
 	p.UnreadByte()
+	if sign != 0 && len(buf) == 0 {
+		// A sign alone is not a number
+		p.UnreadByte()
+		return "", false
+	}
 	if sign == '-' {
 		return "-" + string(buf), len(buf) > 0
 	}
-- 
2.43.0


From 3035710eeff43e75c26b7742ff752c09962fbba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 05/43] fix: UnreadRune after UnreadByte could move before the
 start of the buffer

---
 lexer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 8e2eed3..08c4f42 100644
--- a/lexer.go
+++ b/lexer.go
@@ -202,7 +202,9 @@ func (p *Lexer) UnreadRune() error {
 		return ErrInvalidUnread
 	}
 
-	p.r -= p.lastRuneSize[len(p.lastRuneSize)-1]
+	for i := p.lastRuneSize[len(p.lastRuneSize)-1]; i > 0; i-- {
+		p.UnreadByte()
+	}
 	p.lastRuneSize = p.lastRuneSize[:len(p.lastRuneSize)-1]
 
 	return nil
-- 
2.43.0


From 3c1342e09e0208a96fe3b12073ead6f4d9f83db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 06/43] fix: a text block swallowed the indentation of the line
 that follows it

---
 lexer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 08c4f42..91f3120 100644
--- a/lexer.go
+++ b/lexer.go
@@ -575,7 +575,10 @@ func (p *Lexer) Block(nsp int) (string, bool) {
 	}
 	// Read NL if CR was found
 	if c == 13 {
-		p.Byte()
+		c, _ = p.Byte()
+		if c != 10 {
+			p.UnreadByte()
+		}
 	}
 
 	buffer := &bytes.Buffer{}
@@ -586,6 +589,10 @@ func (p *Lexer) Block(nsp int) (string, bool) {
 		ns, u := p.Space()
 
 		if u == 0 || ns <= nsp {
+			// This line is not part of the block
+			for ; ns > 0; ns-- {
+				p.UnreadByte()
+			}
 			break
 		}
 
@@ -596,6 +603,7 @@ func (p *Lexer) Block(nsp int) (string, bool) {
 			c, _ = p.Byte()
 
 			if IsEndChar(c) {
+				p.UnreadByte()
 				break
 			}
 
@@ -609,6 +617,10 @@ func (p *Lexer) Block(nsp int) (string, bool) {
 				break
 			}
 		}
+
+		if c != 10 {
+			break
+		}
 	}
 
 	// Remove trailing NLs
-- 
2.43.0


From e44b399f1655d21ef8f89d34e2846afe738ab287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 07/43] fix: unterminated indexes, selectors and arguments, and
 a line ending the stream, left the nesting level changed

---
 block.go | 1 +
 flow.go  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/block.go b/block.go
index e245127..cfe695b 100644
--- a/block.go
+++ b/block.go
@@ -122,6 +122,7 @@ func (p *Parser) line(ns int, types bool) (bool, error) {
 		// Block
 
 		if p.End() {
+			p.ev.SetLevel(level)
 			return false, nil
 		}
 
diff --git a/flow.go b/flow.go
index 74089af..303fd65 100644
--- a/flow.go
+++ b/flow.go
@@ -36,6 +36,7 @@ func (p *Parser) Index() bool {
 	p.Space()
 
 	if p.PeekByte() != ']' {
+		p.ev.SetLevel(i)
 		return false // error
 	}
 	p.Byte()
@@ -63,6 +64,7 @@ func (p *Parser) Selector() bool {
 	p.Space()
 
 	if p.PeekByte() != '}' {
+		p.ev.SetLevel(i)
 		return false // error
 	}
 	p.Byte()
@@ -139,6 +141,7 @@ func (p *Parser) Args(dot bool) (bool, error) {
 	p.WhiteSpace()
 
 	if p.PeekByte() != ')' {
+		p.ev.SetLevel(i)
 		return false, errors.New("missing )")
 	}
 	p.Byte()
-- 
2.43.0


From f16ca56c159e5e5d8f5ae29f37e375ab1c3b15ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 08/43] fix: nil graphs panicked in ThisType, Equals, GetAt,
 Merge, Find, Sort* and the This* and Scalar getters

---
 gettypes.go | 30 +++++++++++++++++++++++++-----
 graph.go    | 16 +++++++++++++---
 sort.go     |  9 +++++++++
 3 files changed, 47 insertions(+), 8 deletions(-)

diff --git a/gettypes.go b/gettypes.go
index d539673..7862f22 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -24,6 +24,10 @@ func (g *Graph) Find(re string) (*Graph, error) {
 		return nil, err
 	}
 
+	if g == nil {
+		return nil, nil
+	}
+
 	r := New("_")
 
 	for _, node := range g.Out {
@@ -76,6 +80,9 @@ func (g *Graph) Bool(def ...bool) bool {
 
 // ThisValue returns this node as a reflect.Value.
 func (g *Graph) ThisValue() reflect.Value {
+	if g == nil {
+		return reflect.Value{}
+	}
 	return reflect.ValueOf(g.This)
 }
 
@@ -192,6 +199,9 @@ func (g *Graph) Bytes() []byte {
 
 // ThisBytes returns the node as []byte, or nil if not possble.
 func (g *Graph) ThisBytes() []byte {
+	if g == nil {
+		return nil
+	}
 	return _bytes(g.This)
 }
 
@@ -202,16 +212,25 @@ func (g *Graph) Number() interface{} {
 
 // ThisNumber returns either a float64, int64 or nil
 func (g *Graph) ThisNumber() interface{} {
+	if g == nil {
+		return nil
+	}
 	return number(g.This)
 }
 
 // ThisInt64 returns a int64 or nil
 func (g *Graph) ThisInt64() (int64, bool) {
+	if g == nil {
+		return 0, false
+	}
 	return _int64f(g.This)
 }
 
 // ThisFloat64 returns a float64
 func (g *Graph) ThisFloat64() (float64, bool) {
+	if g == nil {
+		return 0, false
+	}
 	return _float64f(g.This)
 }
 
@@ -231,9 +250,6 @@ func (g *Graph) ThisFloat64() (float64, bool) {
 func (g *Graph) Scalar() interface{} {
 
 	itf := g.Interface()
-	if itf == nil && g.Out != nil {
-		itf = g.Out[0].This
-	}
 
 	// If it can be parsed as a number, return it.
 	n := number(itf)
@@ -254,9 +270,13 @@ func (g *Graph) Scalar() interface{} {
 // ThisScalar returns this node's content as an interface
 func (g *Graph) ThisScalar() interface{} {
 
+	if g == nil {
+		return nil
+	}
+
 	itf := g.This
-	if itf == nil && g.Out != nil {
-		itf = g.Out[0].This
+	if itf == nil {
+		itf = g.Interface()
 	}
 
 	// If it ca be parsed as a number, return it.
diff --git a/graph.go b/graph.go
index 710796b..2209a39 100644
--- a/graph.go
+++ b/graph.go
@@ -6,7 +6,6 @@ package ogdl
 
 import (
 	"bytes"
-	"reflect"
 	"strings"
 )
 
@@ -32,12 +31,19 @@ func (g *Graph) Len() int {
 
 // ThisType returns the name of the native type contained in the current node.
 func (g *Graph) ThisType() string {
-	return reflect.TypeOf(g.This).String()
+	if g == nil {
+		return ""
+	}
+	return _typeOf(g.This)
 }
 
 // Equals returns true if the given graph and the receiver graph are equal.
 func (g *Graph) Equals(c *Graph) bool {
 
+	if g == nil || c == nil {
+		return g == c
+	}
+
 	if c.This != g.This {
 		return false
 	}
@@ -202,7 +208,7 @@ func (g *Graph) Create(s string) *Graph {
 
 // GetAt returns a subnode by index, or nil if the index is out of range.
 func (g *Graph) GetAt(i int) *Graph {
-	if i >= len(g.Out) || i < 0 {
+	if g == nil || i >= len(g.Out) || i < 0 {
 		return nil
 	}
 
@@ -517,6 +523,10 @@ func (g *Graph) Substitute(s string, v interface{}) {
 // Merge the given graph into the current (receiver) graph
 func (g *Graph) Merge(src *Graph) {
 
+	if g == nil || src == nil {
+		return
+	}
+
 	for _, node := range src.Out {
 		n := g.Node(node.String())
 
diff --git a/sort.go b/sort.go
index ad80725..1f56e66 100644
--- a/sort.go
+++ b/sort.go
@@ -11,11 +11,17 @@ type stringSorter struct {
 }
 
 func (g *Graph) Sort(field string) {
+	if g == nil {
+		return
+	}
 	s := stringSorter{field, g.Out}
 	sort.Sort(s)
 }
 
 func (g *Graph) SortAsString(field string) {
+	if g == nil {
+		return
+	}
 	s := stringSorter{field, g.Out}
 	sort.Sort(s)
 }
@@ -38,6 +44,9 @@ type intSorter struct {
 }
 
 func (g *Graph) SortAsInt(field string) {
+	if g == nil {
+		return
+	}
 	s := intSorter{field, g.Out}
 	sort.Sort(s)
 }
-- 
2.43.0


From 7902f9c324212d516c492dfa319d2a64fab97dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 09/43] fix: rendering or checking an empty, blank or lone
 quote string, or no subnodes, panicked

---
 gettypes.go | 9 ++++++++-
 graph.go    | 4 ++--
 html.go     | 2 +-
 schema.go   | 2 +-
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/gettypes.go b/gettypes.go
index 7862f22..ee77268 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -128,6 +128,13 @@ func (g *Graph) StringCSV(def ...string) string {
 		s += ", " + _string(n.This)
 	}
 
+	if len(s) == 0 {
+		if len(def) == 0 {
+			return ""
+		}
+		return def[0]
+	}
+
 	return s[2:]
 }
 
@@ -712,7 +719,7 @@ func isInteger(s string) bool {
 		}
 	}
 
-	if s[i] == '-' {
+	if i < l && s[i] == '-' {
 		i++
 	}
 
diff --git a/graph.go b/graph.go
index 2209a39..1b5f2fe 100644
--- a/graph.go
+++ b/graph.go
@@ -380,7 +380,7 @@ func (g *Graph) Text() string {
 
 	// unquote
 
-	if s[0] == '"' {
+	if len(s) > 1 && s[0] == '"' && s[len(s)-1] == '"' {
 		s = s[1 : len(s)-1]
 		// But then also replace \"
 		s = strings.Replace(s, "\\\"", "\"", -1)
@@ -413,7 +413,7 @@ func (g *Graph) Show() string {
 
 	// unquote
 
-	if s[0] == '"' {
+	if len(s) > 1 && s[0] == '"' && s[len(s)-1] == '"' {
 		s = s[1 : len(s)-1]
 		// But then also replace \"
 		s = strings.Replace(s, "\\\"", "\"", -1)
diff --git a/html.go b/html.go
index 2efdc71..28ea147 100644
--- a/html.go
+++ b/html.go
@@ -31,7 +31,7 @@ func (g *Graph) Html(path string) string {
 
 	// unquote
 
-	if s[0] == '"' {
+	if len(s) > 1 && s[0] == '"' && s[len(s)-1] == '"' {
 		s = s[1 : len(s)-1]
 		// But then also replace \"
 		s = strings.Replace(s, "\\\"", "\"", -1)
diff --git a/schema.go b/schema.go
index ff81607..d684d6a 100644
--- a/schema.go
+++ b/schema.go
@@ -41,7 +41,7 @@ func (g *Graph) checkNode(x *Graph) bool {
 	var ok bool
 
 	// literal | literal* | literal? | literal+ | ** | ***
-	if sc[0] != '!' {
+	if len(sc) == 0 || sc[0] != '!' {
 		return sx == sc
 	}
 
-- 
2.43.0


From 9a307ae392e36e1f1b3f96b9bf2e685fcaa57902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 10/43] fix: comparing or deleting content that is not
 comparable in Go, such as bytes, panicked

---
 graph.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index 1b5f2fe..fcc7041 100644
--- a/graph.go
+++ b/graph.go
@@ -6,6 +6,7 @@ package ogdl
 
 import (
 	"bytes"
+	"reflect"
 	"strings"
 )
 
@@ -44,7 +45,7 @@ func (g *Graph) Equals(c *Graph) bool {
 		return g == c
 	}
 
-	if c.This != g.This {
+	if !reflect.DeepEqual(c.This, g.This) {
 		return false
 	}
 	if g.Len() != c.Len() {
@@ -243,7 +244,7 @@ func (g *Graph) Delete(n interface{}) {
 		return
 	}
 	for i := 0; i < g.Len(); i++ {
-		if g.Out[i].This == n {
+		if reflect.DeepEqual(g.Out[i].This, n) {
 			if i < (g.Len() - 1) {
 				g.Out = append(g.Out[:i], g.Out[i+1:]...)
 			} else {
-- 
2.43.0


From 10c9394e5113c227c3eba17f955040a9c690bae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 11/43] fix: adding a nil graph made a node holding a nil
 pointer, which panicked when converted to a number

---
 gettypes.go |  4 ++++
 graph.go    | 10 ++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/gettypes.go b/gettypes.go
index ee77268..d852b6e 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -497,6 +497,10 @@ func _float64(i interface{}) (float64, bool) {
 func _int64f(i interface{}) (int64, bool) {
 
 	if i2, ok := i.(*Graph); ok {
+		// i2 can still be nil (of type *Graph!)
+		if i2 == nil {
+			return 0, false
+		}
 		i = i2.This
 	}
 
diff --git a/graph.go b/graph.go
index fcc7041..4da7c4a 100644
--- a/graph.go
+++ b/graph.go
@@ -67,7 +67,10 @@ func (g *Graph) Add(n interface{}) *Graph {
 		return nil
 	}
 
-	if node, ok := n.(*Graph); ok && node != nil {
+	if node, ok := n.(*Graph); ok {
+		if node == nil {
+			return nil
+		}
 		g.Out = append(g.Out, node)
 		return node
 	}
@@ -84,7 +87,10 @@ func (g *Graph) addNodes(n interface{}) *Graph {
 		return nil
 	}
 
-	if node, ok := n.(*Graph); ok && node != nil {
+	if node, ok := n.(*Graph); ok {
+		if node == nil {
+			return nil
+		}
 		g.Out = append(g.Out, node.Out...)
 		return node
 	}
-- 
2.43.0


From 625c0f4089f106dae575dd5707dd1cb9faa09246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 12/43] fix: setting a path with a negative or large index
 panicked, and a gap was filled with nil nodes

---
 graph.go | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/graph.go b/graph.go
index 4da7c4a..43e4067 100644
--- a/graph.go
+++ b/graph.go
@@ -311,16 +311,7 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 
 		elem := path.Out[i]
 		if elem.ThisString() == TypeIndex {
-			i := elem.Int64()
-			if len(node.Out) <= int(i) {
-				o := make([]*Graph, i+1)
-				for j, n := range node.Out {
-					o[j] = n
-				}
-				node.Out = o
-			}
-			node.Out[i] = New(val)
-			return node.Out[i]
+			return node.setAt(elem.Int64(), val)
 		}
 		node = node.Node(elem.ThisString())
 
@@ -336,16 +327,7 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 			elem := path.Out[i]
 
 			if elem.ThisString() == TypeIndex {
-				i := elem.Int64()
-				if len(node.Out) <= int(i) {
-					o := make([]*Graph, i+1)
-					for j, n := range node.Out {
-						o[j] = n
-					}
-					node.Out = o
-				}
-				node.Out[i] = New(val)
-				return node.Out[i]
+				return node.setAt(elem.Int64(), val)
 			}
 
 			node = node.Add(elem.This)
@@ -357,6 +339,23 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 	return node.addNodes(val)
 }
 
+// maxIndex limits the gap that can be created by setting a subnode by index
+const maxIndex = 1 << 20
+
+// setAt sets the subnode at the given index, adding empty subnodes before it
+// if needed. It returns nil if the index is not valid.
+func (g *Graph) setAt(i int64, val interface{}) *Graph {
+	if i < 0 || i >= int64(len(g.Out))+maxIndex {
+		return nil
+	}
+	for int64(len(g.Out)) <= i {
+		g.Out = append(g.Out, New("_"))
+	}
+	n := New(val)
+	g.Out[i] = n
+	return n
+}
+
 // Text is the OGDL text emitter. It converts a Graph into OGDL text.
 //
 // Strings are quoted if they contain spaces, newlines or special
-- 
2.43.0


From 4bc9266d143cc3d4306a87ac291c60fd661579ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 13/43] fix: expressions and paths with missing operands
 panicked when parsed or evaluated

---
 eval.go       | 14 ++++++++++----
 expression.go |  3 +++
 graph.go      |  4 ++++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/eval.go b/eval.go
index d708441..6f0014c 100644
--- a/eval.go
+++ b/eval.go
@@ -125,7 +125,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 
 		case TypeGroup:
 			// The expression is evaluated and used as path element
-			itf, err := g.Eval(pathNode.Out[0])
+			itf, err := g.Eval(pathNode.GetAt(0))
 			if err != nil {
 				return nil, err
 			}
@@ -265,7 +265,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 
 		case TypeGroup:
 			// The expression is evaluated and used as path element
-			itf, err := g.Eval(pathNode.Out[0])
+			itf, err := g.Eval(pathNode.GetAt(0))
 			if err != nil {
 				return nil, err
 			}
@@ -321,7 +321,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 
 	// Return nil and empty strings as is
-	if p.This == nil {
+	if p == nil || p.This == nil {
 		return nil, ErrNilReceiver
 	}
 
@@ -340,6 +340,9 @@ func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 	switch s {
 	case "!":
 		// Unary expression !expr
+		if p.Len() == 0 {
+			return nil, ErrInvalidArgs
+		}
 		return !g.evalBool(p.Out[0]), nil
 	case TypeExpression:
 		return g.evalExpression(p.GetAt(0), simpl)
@@ -370,6 +373,9 @@ func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 	if isOperatorChar(c) {
 		if len(s) <= 2 {
 			if len(s) == 1 || isOperatorChar(s[1]) {
+				if p.Len() < 2 {
+					return nil, ErrInvalidArgs
+				}
 				return g.evalBinary(p), nil
 			}
 		}
@@ -556,7 +562,7 @@ func (g *Graph) assign(p *Graph, v interface{}, op int) interface{} {
 	// if p doesn't exist, just set it to the value given
 	left, _ := g.getPath(p)
 	if left != nil {
-		return g.set(p, calc(left.Out[0].This, v, op))
+		return g.set(p, calc(left.Interface(), v, op))
 	}
 
 	switch op {
diff --git a/expression.go b/expression.go
index 9fe3ba0..38975b2 100644
--- a/expression.go
+++ b/expression.go
@@ -64,6 +64,9 @@ func (g *Graph) _ast() {
 
 			node := g.Out[i]
 			if precedence(node.ThisString()) == j {
+				if i == 0 || i+1 == len(g.Out) {
+					continue // missing operand
+				}
 				e1 = g.Out[i-1]
 				e2 = g.Out[i+1]
 				g.Out = append(g.Out[:i-1], g.Out[i:]...)
diff --git a/graph.go b/graph.go
index 43e4067..04bb6bc 100644
--- a/graph.go
+++ b/graph.go
@@ -334,6 +334,10 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 		}
 	}
 
+	if node == nil {
+		return nil
+	}
+
 	node.Out = nil
 
 	return node.addNodes(val)
-- 
2.43.0


From d66f28f99347b6a75cfaa926ec0f24bf8db27384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 14/43] fix: integer division and modulus by zero panicked

---
 eval.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/eval.go b/eval.go
index 6f0014c..3a200fe 100644
--- a/eval.go
+++ b/eval.go
@@ -614,8 +614,14 @@ func calc(v1, v2 interface{}, op int) interface{} {
 		case '*':
 			return i1 * i2
 		case '/':
+			if i2 == 0 {
+				return nil
+			}
 			return i1 / i2
 		case '%':
+			if i2 == 0 {
+				return nil
+			}
 			return i1 % i2
 		}
 	}
@@ -655,6 +661,9 @@ func calc(v1, v2 interface{}, op int) interface{} {
 	case '/':
 		return i3 / i4
 	case '%':
+		if int(i4) == 0 {
+			return nil
+		}
 		return int(i3) % int(i4)
 	}
 
-- 
2.43.0


From cd1bdc27d57d71cd69db7db829085e6568cb8934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:20 +0000
Subject: [PATCH 15/43] fix: a break inside a conditional did not end the loop

---
 template.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/template.go b/template.go
index 9602ce2..fc0ed3d 100644
--- a/template.go
+++ b/template.go
@@ -100,7 +100,9 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			yes = c.evalBool(n.GetAt(0).GetAt(0))
 			// if true, evaluate the template part
 			if yes {
-				n.GetAt(1).process(c, buffer)
+				if n.GetAt(1).process(c, buffer) {
+					return true
+				}
 			}
 		case TypeElseIf:
 			if !yes {
@@ -108,13 +110,17 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 				yes = c.evalBool(n.GetAt(0).GetAt(0))
 				// if true, evaluate the template part
 				if yes {
-					n.GetAt(1).process(c, buffer)
+					if n.GetAt(1).process(c, buffer) {
+						return true
+					}
 				}
 			}
 		case TypeElse:
 			// if there was a previous if or elseif evaluating to false:
 			if !yes {
-				n.GetAt(0).process(c, buffer)
+				if n.GetAt(0).process(c, buffer) {
+					return true
+				}
 			}
 		case TypeFor:
 			// The first subnode (of !g) is a path
-- 
2.43.0


From f4a30abd5e748f2992969916aa449843ad9d7a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 16/43] fix: processing a loop with a nil context panicked

---
 template.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/template.go b/template.go
index fc0ed3d..223d1eb 100644
--- a/template.go
+++ b/template.go
@@ -153,6 +153,9 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			varname := n.GetAt(0).GetAt(0).GetAt(0).String()
 			c.Delete(varname)
 			it := c.Add(varname)
+			if it == nil {
+				continue
+			}
 
 			for _, ee := range gi.Out {
 
-- 
2.43.0


From e7beded815b9d5c8a4b2776099bfd993da2ae7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:22 +0000
Subject: [PATCH 17/43] fix: nodes of a template could become part of the
 context and be modified there

---
 eval.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/eval.go b/eval.go
index 3a200fe..d3a27b6 100644
--- a/eval.go
+++ b/eval.go
@@ -17,9 +17,10 @@ func (g *Graph) Eval(e *Graph) (interface{}, error) {
 		return g.evalExpression(e, true)
 	}
 
-	// A complex object that is not a path or expression: return as is.
+	// A complex object that is not a path or expression: return as is. It is
+	// a copy, since the result can become part of the context graph.
 	if e.Len() != 0 {
-		return e, nil
+		return e.Clone(), nil
 	}
 
 	// A constant: return in its normalizad native form
@@ -395,7 +396,7 @@ func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 		return s, nil
 	}
 
-	return p, nil
+	return p.Clone(), nil
 }
 
 func (g *Graph) evalBinary(p *Graph) interface{} {
-- 
2.43.0


From 8dc1a65d2db617e0ca28d3eede48ef238126c437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 18/43] fix: assigning to an index of a nil graph panicked

---
 graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 04bb6bc..7abd980 100644
--- a/graph.go
+++ b/graph.go
@@ -349,7 +349,7 @@ const maxIndex = 1 << 20
 // setAt sets the subnode at the given index, adding empty subnodes before it
 // if needed. It returns nil if the index is not valid.
 func (g *Graph) setAt(i int64, val interface{}) *Graph {
-	if i < 0 || i >= int64(len(g.Out))+maxIndex {
+	if g == nil || i < 0 || i >= int64(len(g.Out))+maxIndex {
 		return nil
 	}
 	for int64(len(g.Out)) <= i {
-- 
2.43.0


From a92a28a01d73f6aab8e48dc7527e7a0c920bfa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:03 +0000
Subject: [PATCH 19/43] fix: calling a function or method with missing or
 mismatched arguments, or a nil one, panicked

---
 function.go | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/function.go b/function.go
index bb11df0..43babe3 100644
--- a/function.go
+++ b/function.go
@@ -50,13 +50,18 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 		//log.Println(runtime.FuncForPC(v.Pointer()).Name())
 		//log.Println(reflect.TypeOf(typ).String())
 
+		fn := path.GetAt(1)
+		if fn == nil || v.IsNil() {
+			return nil, errors.New("No function or arguments")
+		}
+
 		// Pre-evaluate
 		var args []interface{}
 
 		if v.Type() == rfType {
 			// Remote function
 			n := New("_")
-			nn := n.Add(path.Out[1].This)
+			nn := n.Add(fn.This)
 			if len(path.Out) > 2 {
 				for _, arg := range path.Out[2].Out {
 					// log.Printf("arg:\n%s\n", arg.Show())
@@ -68,13 +73,19 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 			args = append(args, n)
 		} else {
 			// Local function
-			for _, arg := range path.Out[1].Out {
+			for _, arg := range fn.Out {
 				itf, _ := g.evalExpression(arg, true)
 				args = append(args, itf)
 				// log.Printf("%v\n", args[len(args)-1])
 			}
 		}
 
+		// Check that the argument types match, otherwise v.Call() will panic
+		if v.Type().NumIn() != len(args) {
+			// TODO Check that we print the name of the function
+			return nil, fmt.Errorf("Invalid number of arguments in function %s (is %d, soll %d)\n%s", runtime.FuncForPC(v.Pointer()).Name(), len(args), v.Type().NumIn(), path.Show())
+		}
+
 		for i, arg := range args {
 			if arg == nil {
 				// No untyped nil support :-(
@@ -84,20 +95,19 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 			}
 		}
 
-		// Check that the argument types match, otherwise v.Call() will panic
-		if v.Type().NumIn() != len(args) {
-			// TODO Check that we print the name of the function
-			return nil, fmt.Errorf("Invalid number of arguments in function %s (is %d, soll %d)\n%s", runtime.FuncForPC(v.Pointer()).Name(), len(args), v.Type().NumIn(), path.Show())
-		}
-
 		for i := 0; i < v.Type().NumIn(); i++ {
-			if v.Type().In(i).String() != vargs[i].Type().String() {
+			if v.Type().In(i) != vargs[i].Type() {
 				return nil, errors.New("arguments do not match")
 			}
 		}
 
 		// TODO: return 0..2 values
-		vv := v.Call(vargs)
+		var vv []reflect.Value
+		if v.Type().IsVariadic() {
+			vv = v.CallSlice(vargs)
+		} else {
+			vv = v.Call(vargs)
+		}
 		if len(vv) > 0 {
 			return vv[0].Interface(), nil
 		}
@@ -111,6 +121,9 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 		if fn == nil {
 			return nil, errors.New("No method")
 		}
+		if v.IsNil() {
+			return nil, ErrNilReceiver
+		}
 		fname := fn.ThisString()
 
 		// Check if it is a method
@@ -151,13 +164,22 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 
 			// Type adapter. A bit slow (cache could help)
 			dtype := mtype.In(i).String()
-			vargs = append(vargs, convert(args[i], dtype))
+			varg := convert(args[i], dtype)
+			if !varg.IsValid() || varg.Type() != mtype.In(i) {
+				return nil, errors.New("arguments do not match")
+			}
+			vargs = append(vargs, varg)
 		}
 
 		// log.Printf(" - vargs: %v", vargs)
 
 		// TODO: return 0..2 values
-		vv := me.Call(vargs)
+		var vv []reflect.Value
+		if me.Type().IsVariadic() {
+			vv = me.CallSlice(vargs)
+		} else {
+			vv = me.Call(vargs)
+		}
 		if len(vv) > 0 {
 			return vv[0].Interface(), nil
 		}
-- 
2.43.0


From 9faad408b6b1075f41c1e98c8b429f35f69d7bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:48 +0000
Subject: [PATCH 20/43] fix: decoding a truncated or failing binary stream did
 not end, and a binary or empty node swallowed the following nodes

---
 binary.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/binary.go b/binary.go
index 1471b83..cdb489b 100644
--- a/binary.go
+++ b/binary.go
@@ -282,7 +282,7 @@ func (p *binParser) line(write bool) (int, bool, []byte) {
 		// Read length, then bytes
 		for {
 			n = p.varInt()
-			if n < 0 {
+			if n <= 0 {
 				break
 			}
 			for ; n != 0; n-- {
@@ -298,7 +298,10 @@ func (p *binParser) line(write bool) (int, bool, []byte) {
 		return level, true, buf.Bytes()
 	}
 
-	// Text node. Read bytes until 0
+	// Text node. Read bytes until 0 (or the end of the stream)
+	if n <= 0 {
+		return level, false, buf.Bytes()
+	}
 
 	if write {
 		buf.WriteByte(byte(n))
@@ -306,7 +309,7 @@ func (p *binParser) line(write bool) (int, bool, []byte) {
 
 	for {
 		c := p.read()
-		if c == 0 {
+		if c <= 0 {
 			return level, false, buf.Bytes()
 		}
 		if write {
@@ -322,7 +325,7 @@ func (p *binParser) read() int {
 	i, err := p.r.ReadByte()
 
 	c := int(i)
-	if err == io.EOF {
+	if err != nil {
 		c = -1
 	} else {
 		p.n++
-- 
2.43.0


From 4e03f263bf9e87aabadd839b910af00783c10bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 21/43] fix: four byte variable integers were encoded with a
 wrong second byte

---
 binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index cdb489b..c4908cb 100644
--- a/binary.go
+++ b/binary.go
@@ -186,7 +186,7 @@ func newVarInt(i int) []byte {
 	if i < 0x10000000 {
 		b := make([]byte, 4)
 		b[0] = byte(i>>24 | 0xe0)
-		b[1] = byte(i>>16 | 0xff)
+		b[1] = byte(i >> 16 & 0xff)
 		b[2] = byte(i >> 8 & 0xff)
 		b[3] = byte(i & 0xff)
 		return b
-- 
2.43.0


From 663df665fe8dea3e674fa569f40a906a953b80a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 22/43] fix: content with zero bytes or a leading 0x01 was
 written as text in the binary form

---
 binary.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/binary.go b/binary.go
index c4908cb..772472d 100644
--- a/binary.go
+++ b/binary.go
@@ -111,12 +111,25 @@ func (g *Graph) Binary() []byte {
 	return buf
 }
 
+// maxChunk is the maximum length of a chunk of a binary node
+const maxChunk = 0xfffffff
+
 func (g *Graph) bin(level int, buf []byte) []byte {
 
 	// Skip empty nodes
 	b := _bytes(g.This)
 	if len(b) != 0 {
 		buf = append(buf, newVarInt(level)...)
+		if b[0] == 1 || bytes.IndexByte(b, 0) != -1 {
+			// This content cannot be written as text. Write a binary node.
+			buf = append(buf, 1)
+			for len(b) > maxChunk {
+				buf = append(buf, newVarInt(maxChunk)...)
+				buf = append(buf, b[:maxChunk]...)
+				b = b[maxChunk:]
+			}
+			buf = append(buf, newVarInt(len(b))...)
+		}
 		buf = append(buf, b...)
 		buf = append(buf, 0)
 		level++
-- 
2.43.0


From 6093192b7205d9bf94357b39802333a49cc2a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 23/43] fix: binary input with a huge level allocated
 gigabytes, and negative levels or deleting from an empty tree panicked

---
 event.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/event.go b/event.go
index 65ece2c..eb15219 100644
--- a/event.go
+++ b/event.go
@@ -50,6 +50,9 @@ func (e *SimpleEventHandler) AddAt(s string, lv int) {
 
 // Delete removes the last node added
 func (e *SimpleEventHandler) Delete() {
+	if len(e.items) == 0 {
+		return
+	}
 	e.items = e.items[0 : len(e.items)-1]
 	e.levels = e.levels[0 : len(e.levels)-1]
 }
@@ -87,8 +90,10 @@ func (e *SimpleEventHandler) Dec() {
 //
 func (e *SimpleEventHandler) Tree() *Graph {
 
-	g := make([]*Graph, e.max+2)
-	g[0] = New("_")
+	// Levels come from the input and can be arbitrarily high: do not allocate
+	// them all.
+	root := New("_")
+	g := map[int]*Graph{0: root}
 
 	for i := 0; i < len(e.items); i++ {
 		lv := e.levels[i] + 1
@@ -99,5 +104,5 @@ func (e *SimpleEventHandler) Tree() *Graph {
 		g[lv-1].Add(n)
 	}
 
-	return g[0]
+	return root
 }
-- 
2.43.0


From e86dd635f04ff902a4d8b706f7cb530505883f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 24/43] fix: Log.GetBinary returned the length instead of the
 position of the next object

---
 log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.go b/log.go
index 9567f32..41c0a77 100644
--- a/log.go
+++ b/log.go
@@ -164,5 +164,5 @@ func (log *Log) GetBinary(i int64) ([]byte, int64, error) {
 	b := make([]byte, n)
 	_, err = log.f.ReadAt(b, i)
 
-	return b, int64(n), err
+	return b, i + int64(n), err
 }
-- 
2.43.0


From 213ae9a2188127109ee698c20ab06be14be76ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 25/43] fix: ogdlrf.Client leaked failed connections, and
 reused the last one

---
 ogdlrf/client.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index 2945e95..89bd313 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -63,11 +63,12 @@ func (rf *Client) Call(g *ogdl.Graph) (*ogdl.Graph, error) {
 		if err == nil {
 			break
 		}
+		// Never use a connection again after an error
+		rf.Close()
 		n--
 		if n < 0 {
 			break
 		}
-		rf.conn = nil
 	}
 
 	return r, err
@@ -146,12 +147,12 @@ func (rf *Client) callV1(g *ogdl.Graph) (*ogdl.Graph, error) {
 	n, err := rf.conn.Write(b)
 
 	if err != nil {
-		rf.conn = nil
+		rf.Close()
 		log.Println("callv1", err)
 		return nil, err
 	}
 	if n != len(b) {
-		rf.conn = nil
+		rf.Close()
 		log.Println("callv1", err)
 		return nil, errWriting
 	}
-- 
2.43.0


From 9d832446271b230319560a3e000b015afa9b0e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 26/43] fix: ogdlrf took messages split by the network as
 errors

---
 ogdlrf/client.go | 27 ++++++++-------------------
 ogdlrf/server.go |  6 ++++--
 2 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index 89bd313..bbe40b1 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -7,6 +7,7 @@ package ogdlrf
 import (
 	"encoding/binary"
 	"errors"
+	"io"
 
 	"log"
 	"net"
@@ -103,31 +104,19 @@ func (rf *Client) callV2(g *ogdl.Graph) (*ogdl.Graph, error) {
 	}
 
 	// Read header response
-	j, err := rf.conn.Read(b4)
-	if j != 4 {
+	_, err = io.ReadFull(rf.conn, b4)
+	if err != nil {
 		log.Println("error reading incomming message LEN")
 		return nil, errors.New("error in message header")
 	}
 	l := binary.BigEndian.Uint32(b4)
 
 	// Read body response
-	buf3 := make([]byte, 0, l)
-	tmp := make([]byte, 10000)
-	l2 := uint32(0)
-
-	for {
-		i, err = rf.conn.Read(tmp)
-		l2 += uint32(i)
-		if err != nil || i == 0 {
-			log.Println("Error reading body", l2, l, err)
-			return nil, err
-		}
-
-		buf3 = append(buf3, tmp[:i]...)
-
-		if l2 >= l {
-			break
-		}
+	buf3 := make([]byte, l)
+	i, err = io.ReadFull(rf.conn, buf3)
+	if err != nil {
+		log.Println("Error reading body", i, l, err)
+		return nil, err
 	}
 
 	g = ogdl.FromBinary(buf3)
diff --git a/ogdlrf/server.go b/ogdlrf/server.go
index 5f399a5..c33d982 100644
--- a/ogdlrf/server.go
+++ b/ogdlrf/server.go
@@ -6,6 +6,7 @@ package ogdlrf
 
 import (
 	"encoding/binary"
+	"io"
 	"log"
 	"net"
 	"time"
@@ -119,7 +120,7 @@ func process(c net.Conn, handler Function, timeout int) {
 		// Thus, first read 4 bytes (LEN)
 
 		c.SetReadDeadline(time.Now().Add(time.Second * time.Duration(timeout)))
-		i, err := c.Read(b4)
+		i, err := io.ReadFull(c, b4)
 
 		if i == 0 {
 			break
@@ -144,7 +145,7 @@ func process(c net.Conn, handler Function, timeout int) {
 			log.Println("ogdlrf.Serve, cannot allocate memory for message")
 			break
 		}
-		i, err = c.Read(buf)
+		i, err = io.ReadFull(c, buf)
 
 		if err != nil {
 			log.Println("ogdlrf.Serve, error reading message body, ", err)
@@ -215,6 +216,7 @@ func process1(c net.Conn, handler Function, timeout int) {
 		}
 		if i != len(b) {
 			log.Println("ogdlrf.Serve, error writing body, LEN is", i, "should be", len(b))
+			break
 		}
 	}
 
-- 
2.43.0


From 5896cb607b1962aa767adfb67df33d299ad4302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 27/43] fix: simplifying XML with an @id text node, or a nil
 graph, panicked

---
 cmd/xml2ogdl/main.go | 4 ++--
 io/gxml/xml.go       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/xml2ogdl/main.go b/cmd/xml2ogdl/main.go
index d71f2a3..e2adfce 100644
--- a/cmd/xml2ogdl/main.go
+++ b/cmd/xml2ogdl/main.go
@@ -49,7 +49,7 @@ func main() {
 }
 
 func simplify(g *ogdl.Graph) {
-	if g.Out == nil {
+	if g == nil || g.Out == nil {
 		return
 	}
 
@@ -58,7 +58,7 @@ func simplify(g *ogdl.Graph) {
 		if len(n.Out) == 0 {
 			continue
 		}
-		if n.Out[0].ThisString() == "@id" && len(n.Out) >= 2 {
+		if n.Out[0].ThisString() == "@id" && n.Out[0].Len() > 0 && len(n.Out) >= 2 {
 			if n.This != "p" {
 				n.This = n.Out[0].Out[0].This
 			}
diff --git a/io/gxml/xml.go b/io/gxml/xml.go
index 5fd20b8..adb8722 100644
--- a/io/gxml/xml.go
+++ b/io/gxml/xml.go
@@ -13,7 +13,7 @@ import (
 )
 
 func Simplify(g *ogdl.Graph) {
-	if g.Out == nil {
+	if g == nil || g.Out == nil {
 		return
 	}
 
@@ -22,7 +22,7 @@ func Simplify(g *ogdl.Graph) {
 		if len(n.Out) == 0 {
 			continue
 		}
-		if n.Out[0].ThisString() == "@id" && len(n.Out) >= 2 {
+		if n.Out[0].ThisString() == "@id" && n.Out[0].Len() > 0 && len(n.Out) >= 2 {
 			if n.This != "p" {
 				n.This = n.Out[0].Out[0].This
 			}
-- 
2.43.0


From 547a4f712d8887f3d2763cc31eb14d5d3f8759fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 28/43] fix: JSON modified the graph temporarily

---
 encoding.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/encoding.go b/encoding.go
index ae60afd..7021cb8 100644
--- a/encoding.go
+++ b/encoding.go
@@ -103,14 +103,10 @@ func (g *Graph) JSON() []byte {
 	var buf *bytes.Buffer
 	buf = new(bytes.Buffer)
 
-	// Temporarily set root to something different than _
-	i := g.This
-	g.This = ""
-
-	g.json(buf)
-
-	// Restore root
-	g.This = i
+	// The root node is never a list, even if it is named _. The graph itself
+	// is not modified, since it could be in use elsewhere.
+	root := &Graph{"", g.Out}
+	root.json(buf)
 
 	return buf.Bytes()
 }
-- 
2.43.0


From 9bff4d3a6f1d46b1808141cba2ea729a9298ed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 29/43] fix: JSON strings with control characters or
 backslashes were not escaped, and NaN and infinities printed as is

---
 encoding.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/encoding.go b/encoding.go
index 7021cb8..bc88b1d 100644
--- a/encoding.go
+++ b/encoding.go
@@ -9,7 +9,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
-	"strings"
 )
 
 // FromJSON converts a JSON text stream into OGDL.
@@ -159,11 +158,11 @@ func (g *Graph) json(buf *bytes.Buffer) {
 }
 
 func (g *Graph) writeString(buf *bytes.Buffer) {
-	s := g.ThisString()
-	buf.WriteByte('"')
-	s = strings.Replace(s, "\"", "\\\"", -1)
-	buf.WriteString(s)
-	buf.WriteByte('"')
+	b := &bytes.Buffer{}
+	enc := json.NewEncoder(b)
+	enc.SetEscapeHTML(false)
+	enc.Encode(g.ThisString())
+	buf.Write(bytes.TrimRight(b.Bytes(), "\n"))
 	buf.WriteByte(' ')
 }
 
@@ -174,7 +173,7 @@ func (g *Graph) writeValue(buf *bytes.Buffer) {
 		return
 	}
 	f, ok := _float64(g.This)
-	if ok {
+	if ok && !math.IsNaN(f) && !math.IsInf(f, 0) {
 		buf.WriteString(fmt.Sprintf("%f ", f))
 		return
 	}
-- 
2.43.0


From 26e92c8a8fcff22440960054d07de3b44c058281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 30/43] fix: importing JSON objects gave a different order of
 nodes each time

---
 encoding.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index bc88b1d..6c842e6 100644
--- a/encoding.go
+++ b/encoding.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
+	"sort"
 )
 
 // FromJSON converts a JSON text stream into OGDL.
@@ -58,8 +59,15 @@ func toGraph(v interface{}) *Graph {
 		}
 	case map[string]interface{}:
 		n := g.Add("_")
-		for k, i := range v.(map[string]interface{}) {
-			n.Add(k).AddNodes(toGraph(i))
+		// Maps have no order in Go: sort the keys
+		m := v.(map[string]interface{})
+		var keys []string
+		for k := range m {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys)
+		for _, k := range keys {
+			n.Add(k).AddNodes(toGraph(m[k]))
 		}
 	case json.Number:
 		// try first to decode the number as an integer.
-- 
2.43.0


From 4caa7f55beb4dcdaa869e9fe24e61f23c6fec035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 31/43] fix: String and StringTxt did not return the default
 value for missing content

---
 gettypes.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gettypes.go b/gettypes.go
index d852b6e..4331d4f 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -106,7 +106,11 @@ func (g *Graph) String(def ...string) string {
 		return def[0]
 	}
 
-	return _string(g.Interface())
+	s := _string(g.Interface())
+	if len(s) == 0 && len(def) != 0 {
+		return def[0]
+	}
+	return s
 }
 
 // StringCSV returns a comma separated value representation of all direct subnodes.
@@ -173,7 +177,10 @@ func (g *Graph) StringTxt(def ...string) string {
 	}
 
 	if g.Len() == 0 {
-		return ""
+		if len(def) == 0 {
+			return ""
+		}
+		return def[0]
 	}
 
 	s := ""
-- 
2.43.0


From 9d7e0af8ebc8f7c41636c69eaeedd37cfebd020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 32/43] fix: an invalid UTF-8 byte in an argument list made the
 parser loop forever

---
 flow.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flow.go b/flow.go
index 303fd65..7040c4b 100644
--- a/flow.go
+++ b/flow.go
@@ -182,9 +182,9 @@ func (p *Parser) UnaryExpression() bool {
 	if IsLetter(rune(c)) {
 		p.ev.Add(TypePath)
 		p.ev.Inc()
-		p.Path()
+		ok := p.Path()
 		p.ev.Dec()
-		return true
+		return ok
 	}
 
 	b, ok := p.Number()
-- 
2.43.0


From 96816342f634a13749d24afc1936503763b7b4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 33/43] fix: looping over or assigning the context to a part of
 itself made a cyclic graph, and rendering it overflowed the stack

---
 eval.go     | 4 ++++
 template.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/eval.go b/eval.go
index d3a27b6..74bee14 100644
--- a/eval.go
+++ b/eval.go
@@ -557,6 +557,10 @@ func logic(i1, i2 interface{}, op int) bool {
 func (g *Graph) assign(p *Graph, v interface{}, op int) interface{} {
 
 	if op == '=' {
+		// Assign a copy, since p can be part of v
+		if n, ok := v.(*Graph); ok {
+			v = n.Clone()
+		}
 		return g.set(p, v)
 	}
 
diff --git a/template.go b/template.go
index 223d1eb..738df3b 100644
--- a/template.go
+++ b/template.go
@@ -159,6 +159,11 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 
 			for _, ee := range gi.Out {
 
+				// The variable can be one of the elements
+				if ee == it {
+					continue
+				}
+
 				it.Out = nil
 				it.Add(ee)
 
-- 
2.43.0


From 3d77e6a9af0459787368415c708a74e689a0023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 34/43] fix: only + concatenates a text and a number

---
 eval.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eval.go b/eval.go
index 74bee14..4b94424 100644
--- a/eval.go
+++ b/eval.go
@@ -646,6 +646,9 @@ func calc(v1, v2 interface{}, op int) interface{} {
 	if ok {
 		i3 = float64(i1)
 	} else if !ok3 {
+		if op != '+' {
+			return nil
+		}
 		return _string(v1) + _string(v2)
 	}
 
-- 
2.43.0


From 7310ae857e9f5615e18d8e6bde1581ff27ab345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 35/43] fix: ThisString uses its default if the node has no
 content

---
 gettypes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gettypes.go b/gettypes.go
index 4331d4f..c836155 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -203,7 +203,11 @@ func (g *Graph) ThisString(def ...string) string {
 		return def[0]
 	}
 
-	return _string(g.This)
+	s := _string(g.This)
+	if len(s) == 0 && len(def) != 0 {
+		return def[0]
+	}
+	return s
 }
 
 // Bytes returns the graph as []byte, or nil if not possble.
-- 
2.43.0


From 492921658a548916de3b6352d04a6238707217ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:20 +0000
Subject: [PATCH 36/43] fix: PeekByte at the end of the stream leaves the
 position where it was

---
 lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 91f3120..7ee0fe2 100644
--- a/lexer.go
+++ b/lexer.go
@@ -118,11 +118,11 @@ func (p *Lexer) Error() error {
 func (p *Lexer) PeekByte() byte {
 	c, err := p.Byte()
 
+	p.UnreadByte()
 	if err != nil {
 		return 0
 	}
 
-	p.UnreadByte()
 	return c
 }
 
-- 
2.43.0


From cf2617ab7b4e0ff9e972bb0e76c803d1b9c27bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:19 +0000
Subject: [PATCH 37/43] fix: Copy loses subnodes with no content

---
 graph.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index 7abd980..3353712 100644
--- a/graph.go
+++ b/graph.go
@@ -140,8 +140,7 @@ func (g *Graph) Copy(c *Graph) {
 		return
 	}
 	for _, n := range c.Out {
-		nn := g.Add(n.This)
-		nn.Copy(n)
+		g.Out = append(g.Out, n.Clone())
 	}
 }
 
-- 
2.43.0


From 1ea2996b4f3943787182074a9aae11e165184b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:17 +0000
Subject: [PATCH 38/43] fix: setting a node to itself keeps its subnodes

---
 graph.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graph.go b/graph.go
index 3353712..ba9e900 100644
--- a/graph.go
+++ b/graph.go
@@ -337,6 +337,11 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 		return nil
 	}
 
+	// Setting a node to itself changes nothing
+	if v, ok := val.(*Graph); ok && v == node {
+		return node
+	}
+
 	node.Out = nil
 
 	return node.addNodes(val)
-- 
2.43.0


From 30aa5d1ea44f62c7e1c1a053eef67d1bb157fd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:28 +0000
Subject: [PATCH 39/43] fix: importing a JSON list kept only its first element

---
 encoding.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index 6c842e6..09b53f4 100644
--- a/encoding.go
+++ b/encoding.go
@@ -43,7 +43,13 @@ func FromJSON(buf []byte) (*Graph, error) {
 		return nil, err
 	}
 
-	return toGraph(v).GetAt(0), nil
+	g := toGraph(v)
+
+	// The elements of a list have no root node of their own
+	if _, ok := v.([]interface{}); ok {
+		return g, nil
+	}
+	return g.GetAt(0), nil
 }
 
 func toGraph(v interface{}) *Graph {
-- 
2.43.0


From 520ce25a12a8d7cb6312f2432bd4339a3f26aed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:25 +0000
Subject: [PATCH 40/43] fix: at most as many spaces as asked for are skipped,
 so that quoted text keeps its own

---
 lexer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lexer.go b/lexer.go
index 7ee0fe2..3c0eb69 100644
--- a/lexer.go
+++ b/lexer.go
@@ -340,7 +340,7 @@ func (p *Lexer) SpaceMax(max int) (int, byte) {
 	spaces := 0
 	tabs := 0
 
-	for {
+	for n := 0; n < max; n++ {
 		c, _ := p.Byte()
 		if c != '\t' && c != ' ' {
 			p.UnreadByte()
@@ -352,9 +352,6 @@ func (p *Lexer) SpaceMax(max int) (int, byte) {
 		} else {
 			tabs++
 		}
-		if spaces == max || tabs == max {
-			break
-		}
 	}
 
 	var r byte
-- 
2.43.0


From e2aee9daf405fa3694ab07e45c67f2c806fc4ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:26 +0000
Subject: [PATCH 41/43] fix: a backslash at the end of text in backquotes was
 dropped

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index 3c0eb69..85eeceb 100644
--- a/lexer.go
+++ b/lexer.go
@@ -384,6 +384,10 @@ func (p *Lexer) Quoted(ind int) (string, bool, error) {
 		}
 
 		if c == c1 && c1 == '`' {
+			if c2 == '\\' {
+				// nothing is escaped here
+				buf = append(buf, c2)
+			}
 			break
 		}
 
-- 
2.43.0


From 407dad5a73d610290fb1ea1d438db8ccc5e24a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:48 +0000
Subject: [PATCH 42/43] fix: Merge looked subnodes up by their value and shared
 nodes with the other graph

---
 graph.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graph.go b/graph.go
index ba9e900..517e87b 100644
--- a/graph.go
+++ b/graph.go
@@ -542,11 +542,11 @@ func (g *Graph) Merge(src *Graph) {
 	}
 
 	for _, node := range src.Out {
-		n := g.Node(node.String())
+		n := g.Node(node.ThisString())
 
 		if n == nil {
-			g.Add(node)
-		} else {
+			g.Add(node.Clone())
+		} else if n != node {
 			n.Out = nil
 			n.Merge(node)
 		}
-- 
2.43.0


From 3e815474c2fa52f1f5b156764142ea968352aefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:50 +0000
Subject: [PATCH 43/43] fix: Find gave an empty node instead of nil if nothing
 matches

---
 gettypes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gettypes.go b/gettypes.go
index c836155..1cc4aa4 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -36,6 +36,9 @@ func (g *Graph) Find(re string) (*Graph, error) {
 		}
 	}
 
+	if r.Len() == 0 {
+		return nil, nil
+	}
 	return r, nil
 }
 
-- 
2.43.0

