From 32ef6485bb2f5ce22ccf098abbfc775c1b384ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:10 +0000
Subject: [PATCH 01/28] fix: ToMarker rejects markers outside of the text

The range check joined its two halves with &&, so it never fired and a later Tail() or Head() paniced.
---
 scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner.go b/scanner.go
index 475845e..965251d 100644
--- a/scanner.go
+++ b/scanner.go
@@ -371,7 +371,7 @@ type Marker int
 // Moves s to the marked position.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) ToMarker(m Marker) bool {
-	if m < 0 && Marker(len(s.full)) <= m {
+	if m < 0 || Marker(len(s.full)) < m {
 		return false
 	}
 	s.pos = int(m)
-- 
2.43.0


From 218c54a75feeb6f687494f27c6e5aa8d5656ba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:11 +0000
Subject: [PATCH 02/28] fix: fold functions do not panic if the text is shorter
 than the value

IfFold, RevIfFold and RevToFold sliced the text without a length check.
---
 scanner.go     | 4 ++--
 scanner_rev.go | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/scanner.go b/scanner.go
index 965251d..d801557 100644
--- a/scanner.go
+++ b/scanner.go
@@ -102,8 +102,8 @@ func (s *Scanner) To(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) IfFold(str string) bool {
 	i := len(str)
-	prefix := s.Tail()[:i]
-	if strings.EqualFold(prefix, str) {
+	tail := s.Tail()
+	if len(tail) >= i && strings.EqualFold(tail[:i], str) {
 		return s.Move(i)
 	}
 	return false
diff --git a/scanner_rev.go b/scanner_rev.go
index 997b270..4efab9e 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -53,8 +53,7 @@ func (s *Scanner) RevTo(str string) bool {
 func (s *Scanner) RevIfFold(str string) bool {
 	i := len(str)
 	head := s.Head()
-	suffix := head[len(head)-i:]
-	if strings.EqualFold(suffix, str) {
+	if len(head) >= i && strings.EqualFold(head[len(head)-i:], str) {
 		return s.Move(-i)
 	}
 	return false
@@ -66,6 +65,9 @@ func (s *Scanner) RevToFold(str string) bool {
 	i := len(str)
 	itr := makeRevItr(s.Head())
 	for itr.next() {
+		if len(itr.Str) < i {
+			return false
+		}
 		suffix := itr.Str[len(itr.Str)-i:]
 		if strings.EqualFold(suffix, str) {
 			return s.Move(-itr.pos())
-- 
2.43.0


From 7ab2e1ffb471b1f7b77b1a36f3b0cbd78e0edeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:12 +0000
Subject: [PATCH 03/28] fix: rune matchers match the adjacent rune and nothing
 at the end of the text

RevIfBetween and RevIfMatch moved over runes that do not match. IfRune,
RevIfRune, RevIfAnyRune and Holey accepted the RuneError of an empty
text as a match of width zero, an unterminated JSON string hung.
---
 reader.go      | 2 +-
 scanner.go     | 2 +-
 scanner_rev.go | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/reader.go b/reader.go
index 0fddcef..dc734a0 100644
--- a/reader.go
+++ b/reader.go
@@ -448,7 +448,7 @@ type holeyReader struct {
 
 func (r holeyReader) Read(s *Scanner) error {
 	val, i := utf8.DecodeRuneInString(s.Tail())
-	if inRange(r.min, val, r.max) && !strings.ContainsRune(r.holes, val) {
+	if i != 0 && inRange(r.min, val, r.max) && !strings.ContainsRune(r.holes, val) {
 		return s.ErrorIfFalse(s.Move(i), r.What())
 	}
 	return s.ErrorFor(r.What())
diff --git a/scanner.go b/scanner.go
index d801557..b5a9bcd 100644
--- a/scanner.go
+++ b/scanner.go
@@ -128,7 +128,7 @@ func (s *Scanner) ToFold(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) IfRune(r rune) bool {
 	first, i := utf8.DecodeRuneInString(s.Tail())
-	if i == -1 || first != r {
+	if i == 0 || first != r {
 		return false
 	}
 	return s.Move(i)
diff --git a/scanner_rev.go b/scanner_rev.go
index 4efab9e..c9443d6 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -82,7 +82,7 @@ func (s *Scanner) RevToFold(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfRune(r rune) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || last != r {
+	if i == 0 || last != r {
 		return false
 	}
 	return s.Move(-i)
@@ -127,7 +127,7 @@ func (s *Scanner) RevWhileRune(r rune) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfAnyRune(str string) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i != -1 && strings.ContainsRune(str, last) {
+	if i != 0 && strings.ContainsRune(str, last) {
 		return s.Move(-i)
 	}
 	return false
@@ -170,7 +170,7 @@ func (s *Scanner) RevWhileAnyRune(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfBetween(min, max rune) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || inRange(min, last, max) {
+	if i == 0 || !inRange(min, last, max) {
 		return false
 	}
 	return s.Move(-i)
@@ -213,7 +213,7 @@ func (s *Scanner) RevWhileBetween(min, max rune) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfMatch(check MatchFunc) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || check(last) {
+	if i == 0 || !check(last) {
 		return false
 	}
 	return s.Move(-i)
-- 
2.43.0


From 161ee94be38a9750373ac551cfc382c8b7d7abe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:13 +0000
Subject: [PATCH 04/28] fix: While functions report a move only if the scanner
 was moved

WhileRune, WhileBetween and the RevWhile functions returned true without
a move, WhileMatch did not move over a tail that matches completely.
---
 scanner.go     | 8 +++++++-
 scanner_rev.go | 8 ++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/scanner.go b/scanner.go
index b5a9bcd..9db13b2 100644
--- a/scanner.go
+++ b/scanner.go
@@ -155,6 +155,9 @@ func (s *Scanner) WhileRune(r rune) bool {
 
 	for i, v := range s.Tail() {
 		if v != r {
+			if i == 0 {
+				return false
+			}
 			return s.Move(i)
 		}
 	}
@@ -244,6 +247,9 @@ func (s *Scanner) WhileBetween(min, max rune) bool {
 
 	for i, v := range s.Tail() {
 		if !inRange(min, v, max) {
+			if i == 0 {
+				return false
+			}
 			return s.Move(i)
 		}
 	}
@@ -291,7 +297,7 @@ func (s *Scanner) WhileMatch(check MatchFunc) bool {
 		}
 	}
 
-	return false
+	return s.ToEnd()
 }
 
 // ----------------------------------------------------------------------- state
diff --git a/scanner_rev.go b/scanner_rev.go
index c9443d6..485df58 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -112,7 +112,7 @@ func (s *Scanner) RevWhileRune(r rune) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if itr.Val != r {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -156,7 +156,7 @@ func (s *Scanner) RevWhileAnyRune(str string) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !strings.ContainsRune(str, itr.Val) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -198,7 +198,7 @@ func (s *Scanner) RevWhileBetween(min, max rune) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !inRange(min, itr.Val, max) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -241,7 +241,7 @@ func (s *Scanner) RevWhileMatch(check MatchFunc) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !check(itr.Val) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
-- 
2.43.0


From 659b3f5980e27e20f42fdd50df332409ef4f9feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:14 +0000
Subject: [PATCH 05/28] fix: moving by runes handles invalid UTF-8 and U+FFFD

MoveRunes moved three bytes over an invalid byte and failed near the end
of the text, what let Past and Body loop for ever. The reverse iterator
stopped at the first U+FFFD or invalid byte.
---
 intl.go    | 6 ++----
 scanner.go | 7 ++++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/intl.go b/intl.go
index 1f0a2cc..e2edfe7 100644
--- a/intl.go
+++ b/intl.go
@@ -23,11 +23,9 @@ func makeRevItr(str string) revItr {
 }
 
 func (itr *revItr) next() bool {
-	if itr.Val != utf8.RuneError {
-		itr.Str = itr.Str[0 : len(itr.Str)-itr.vi]
-	}
+	itr.Str = itr.Str[0 : len(itr.Str)-itr.vi]
 	itr.Val, itr.vi = utf8.DecodeLastRuneInString(itr.Str)
-	return itr.Val != utf8.RuneError
+	return itr.vi != 0
 }
 
 func (itr *revItr) pos() int {
diff --git a/scanner.go b/scanner.go
index 9db13b2..e191419 100644
--- a/scanner.go
+++ b/scanner.go
@@ -340,10 +340,11 @@ func (s *Scanner) Move(n int) bool {
 func (s *Scanner) MoveRunes(n int) bool {
 	c := 0
 	if n > 0 {
-		for i, r := range s.Tail() {
+		for i := range s.Tail() {
 			c++
 			if n == c {
-				return s.Move(i + utf8.RuneLen(r))
+				_, w := utf8.DecodeRuneInString(s.Tail()[i:])
+				return s.Move(i + w)
 			}
 		}
 		return false
@@ -352,7 +353,7 @@ func (s *Scanner) MoveRunes(n int) bool {
 		for itr.next() {
 			c--
 			if n == c {
-				return s.Move(-(itr.pos() + utf8.RuneLen(itr.Val)))
+				return s.Move(-(itr.pos() + itr.vi))
 			}
 		}
 		return false
-- 
2.43.0


From 643935505b9b929c24678eabf25762f3e0fb4e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:15 +0000
Subject: [PATCH 06/28] fix: ReadRune and RevReadRune read U+FFFD

---
 read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 0773827..839c031 100644
--- a/read.go
+++ b/read.go
@@ -9,7 +9,7 @@ import (
 // ReadRune reads one rune value from the scanner.
 func (s *Scanner) ReadRune() (rune, error) {
 	r, i := utf8.DecodeRuneInString(s.Tail())
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && i <= 1 {
 		return utf8.RuneError, s.ErrorFor("rune")
 	}
 	return r, s.ErrorIfFalse(s.Move(i), "rune")
@@ -18,7 +18,7 @@ func (s *Scanner) ReadRune() (rune, error) {
 // RevReadRune reads one rune value from the scanner the reverse way.
 func (s *Scanner) RevReadRune() (rune, error) {
 	r, i := utf8.DecodeLastRuneInString(s.Head())
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && i <= 1 {
 		return r, s.ErrorFor("rune")
 	}
 	return r, s.ErrorIfFalse(s.Move(-i), "rune")
-- 
2.43.0


From 01926c64c0b7d50cefb6438dda0792befa804acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:16 +0000
Subject: [PATCH 07/28] fix: ReadInt and ReadUint detect every overflow

A wrapped 64 bit result that is still greater than the previous value was
accepted: 25000000000000000000 was read as 6553255926290448384.
---
 read.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/read.go b/read.go
index 839c031..6562681 100644
--- a/read.go
+++ b/read.go
@@ -109,15 +109,15 @@ func (s *Scanner) ReadInt(base int, bitSize int) (int64, error) {
 		}
 
 		if neg {
-			tmp = (i64)*int64(base) - int64(v)
-			if i64 < tmp || tmp < min {
+			if i64 < (min+int64(v))/int64(base) {
 				break
 			}
+			tmp = (i64)*int64(base) - int64(v)
 		} else {
-			tmp = (i64 * int64(base)) + int64(v)
-			if i64 > tmp || tmp > max {
+			if i64 > (max-int64(v))/int64(base) {
 				break
 			}
+			tmp = (i64 * int64(base)) + int64(v)
 		}
 
 		i64 = tmp
@@ -196,10 +196,10 @@ func (s *Scanner) ReadUint(base int, bitSize int) (uint64, error) {
 			break
 		}
 
-		tmp = (u64 * uint64(base)) + uint64(v)
-		if u64 > tmp || tmp > max {
+		if u64 > (max-uint64(v))/uint64(base) {
 			break
 		}
+		tmp = (u64 * uint64(base)) + uint64(v)
 
 		u64 = tmp
 		n = i
-- 
2.43.0


From 7943eefcd90b1cc4f0d9f0bcdcb1c44e1b0c7ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 08/28] fix: ScanString can read up to the last rune

---
 intl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intl.go b/intl.go
index e2edfe7..bb34c9b 100644
--- a/intl.go
+++ b/intl.go
@@ -42,7 +42,7 @@ func getPrefix(str string, n int) (string, bool) {
 		}
 		count++
 	}
-	return str, false
+	return str, count == n
 }
 
 func midSubString(str string, from int) string {
-- 
2.43.0


From 09a75441971380c060f30f05b2415be0e4c76344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:18 +0000
Subject: [PATCH 09/28] fix: Times moves the scanner back if it fails

---
 reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reader.go b/reader.go
index dc734a0..3472e8c 100644
--- a/reader.go
+++ b/reader.go
@@ -896,8 +896,10 @@ type timesReader struct {
 }
 
 func (r *timesReader) Read(s *Scanner) error {
+	m := s.Mark()
 	for i := 0; i < r.n; i++ {
 		if e := r.sub.Read(s); e != nil {
+			s.ToMarker(m)
 			return e
 		}
 	}
-- 
2.43.0


From 73bebe938fa26f4da048650a749bb9bac38b85c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:19 +0000
Subject: [PATCH 10/28] fix: Not fails at the end of the text

There is no rune to move over, Many(Not(...)) did not terminate.
---
 reader.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 3472e8c..053b49b 100644
--- a/reader.go
+++ b/reader.go
@@ -709,8 +709,7 @@ func (r *notReader) Read(s *Scanner) error {
 	if err == nil {
 		return s.ErrorFor(r.sub.What())
 	}
-	s.MoveRunes(1)
-	return nil
+	return s.ErrorIfFalse(s.MoveRunes(1), r.What())
 }
 
 func (r *notReader) What() string {
-- 
2.43.0


From 9cb4b43a232f795da1b3f6df055337c18affc39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:20 +0000
Subject: [PATCH 11/28] fix: Many and Zom terminate if the sub reader does not
 move the scanner

---
 reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 053b49b..fa79606 100644
--- a/reader.go
+++ b/reader.go
@@ -607,7 +607,7 @@ type manyReader struct {
 
 func (r manyReader) Read(s *Scanner) error {
 	start := s.Mark()
-	for r.sub.Read(s) == nil {
+	for m := start; r.sub.Read(s) == nil && m < s.Mark(); m = s.Mark() {
 	}
 	end := s.Mark()
 	return s.ErrorIfFalse(start < end, r.What())
@@ -1005,7 +1005,7 @@ type zomReader struct {
 }
 
 func (r zomReader) Read(s *Scanner) error {
-	for r.sub.Read(s) == nil {
+	for m := s.Mark(); r.sub.Read(s) == nil && m < s.Mark(); m = s.Mark() {
 	}
 	return nil
 }
-- 
2.43.0


From 61de379b5d0e4c33b1da603406ccd712ac2b4985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:55 +0000
Subject: [PATCH 12/28] fix: Past, Body and BodyTail try to match at the end of
 the text

To does it, Past(AtEnd()) and Body(..., AtEnd()) never matched.
---
 reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reader.go b/reader.go
index fa79606..b57bf1d 100644
--- a/reader.go
+++ b/reader.go
@@ -322,7 +322,7 @@ type bodyReader struct {
 
 func (r *bodyReader) Read(s *Scanner) error {
 	m := s.Mark()
-	for ; !s.AtEnd(); s.MoveRunes(1) {
+	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
 			sub := NewScanner(s.Get(MakeToken(m, t)))
@@ -355,7 +355,7 @@ type bodyTailReader struct {
 
 func (r *bodyTailReader) Read(s *Scanner) error {
 	m := s.Mark()
-	for ; !s.AtEnd(); s.MoveRunes(1) {
+	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
 			sub := NewScanner(s.Get(MakeToken(m, t)))
@@ -752,7 +752,7 @@ type pastReader struct {
 
 func (r *pastReader) Read(s *Scanner) error {
 	m := s.Mark()
-	for ; !s.AtEnd(); s.MoveRunes(1) {
+	for ok := true; ok; ok = s.MoveRunes(1) {
 		if e := r.sub.Read(s); e == nil {
 			return nil
 		}
-- 
2.43.0


From 9e73fcef63fe5992e28da6eea2e09ecbb0462196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:56 +0000
Subject: [PATCH 13/28] fix: body readers see the positions of the full text

Pick and Map inside of a Body or BodyTail body got tokens relative to the
start of the body.
---
 reader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index b57bf1d..a06071f 100644
--- a/reader.go
+++ b/reader.go
@@ -325,7 +325,8 @@ func (r *bodyReader) Read(s *Scanner) error {
 	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
-			sub := NewScanner(s.Get(MakeToken(m, t)))
+			sub := NewScanner(s.full[:t])
+			sub.ToMarker(m)
 			e = sub.Use(r.body)
 			if e != nil || !sub.AtEnd() {
 				break
@@ -358,7 +359,8 @@ func (r *bodyTailReader) Read(s *Scanner) error {
 	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
-			sub := NewScanner(s.Get(MakeToken(m, t)))
+			sub := NewScanner(s.full[:t])
+			sub.ToMarker(m)
 			e = sub.Use(r.body)
 			if e != nil || !sub.AtEnd() {
 				break
-- 
2.43.0


From 86178045614de6a99c30998cdfb0b53380ba5c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:57 +0000
Subject: [PATCH 14/28] fix: the end reader of Janus keeps the expected string

A match inside of an attempt that fails later forgot the string, the Lua
long string [==[ ]==x ]==] could not be read. MXT relied on it to forget the
salt of the previous chunk, a header without salt resets it now itself.
---
 grammar/mxt.go | 2 +-
 reader.go      | 6 +-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/grammar/mxt.go b/grammar/mxt.go
index 5edc60e..345471a 100644
--- a/grammar/mxt.go
+++ b/grammar/mxt.go
@@ -39,7 +39,7 @@ func MXT() *MXTReader {
 	g.Arrow.Reader = arrow
 	saltHead, saltTail := Janus("", Opt(&g.Word))
 	g.Salt.Reader = Seq(Many(' '), saltHead, Zom(' '))
-	g.Header.Reader = Seq(&g.Marker, Many(' '), &g.Name, &g.Comment, &g.Arrow, Opt(&g.Salt))
+	g.Header.Reader = Seq(&g.Marker, Many(' '), &g.Name, &g.Comment, &g.Arrow, Any(&g.Salt, Seq(At(Any(&g.NL, AtEnd())), saltHead)))
 	g.NextMarker.Reader = Seq(&g.NL, "//", saltTail)
 	g.EmptyContent.Reader = Any(AtEnd(), At(&g.NextMarker))
 	g.Content.Reader = To(Any(&g.NextMarker, AtEnd()))
diff --git a/reader.go b/reader.go
index a06071f..3a89c1b 100644
--- a/reader.go
+++ b/reader.go
@@ -518,11 +518,7 @@ type janusEndReader struct {
 }
 
 func (r *janusEndReader) Read(s *Scanner) error {
-	err := r.reader.Read(s)
-	if err == nil {
-		r.reader.str = ""
-	}
-	return err
+	return r.reader.Read(s)
 }
 
 func (r *janusEndReader) What() string {
-- 
2.43.0


From e8af7b4510c3b90057c8bc7018639e01c29ae138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:58 +0000
Subject: [PATCH 15/28] fix: SortSegments uses a strict order

Equal tokens compared as less in both directions, the stable sort reversed
them, clashing and empty tokens led to an order that is not transitive.
---
 segment.go | 4 ++--
 token.go   | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/segment.go b/segment.go
index c280450..1bb12cd 100644
--- a/segment.go
+++ b/segment.go
@@ -51,7 +51,7 @@ func SortSegments(values []Segment) {
 	sorter := &segSorter{
 		values: values,
 		cmpFunc: func(a, b Segment) bool {
-			return a.Covers(b.Token) || a.Before(b.Token)
+			return a.sortsBefore(b.Token)
 		},
 	}
 	sort.Stable(sorter)
@@ -64,7 +64,7 @@ func SortSegmentsByOrder(values []Segment, order []string) {
 		values: values,
 		cmpFunc: func(a, b Segment) bool {
 			if a.Token != b.Token {
-				return a.Covers(b.Token) || a.Before(b.Token)
+				return a.sortsBefore(b.Token)
 			}
 			ai, bi := -1, -1
 			for i, info := range order {
diff --git a/token.go b/token.go
index 94a733e..92ed4e0 100644
--- a/token.go
+++ b/token.go
@@ -54,6 +54,14 @@ func (t Token) Covers(sub Token) bool {
 	return t.from <= sub.from && t.to >= sub.to
 }
 
+// sortsBefore orders tokens by position, a token appears before the tokens it covers.
+func (t Token) sortsBefore(oth Token) bool {
+	if t.from != oth.from {
+		return t.from < oth.from
+	}
+	return t.to > oth.to
+}
+
 // Split splits a Token into two parts via sep.
 func (t Token) Split(sep Token) (Token, Token) {
 	return MakeToken(t.from, sep.from), MakeToken(sep.to, t.to)
-- 
2.43.0


From cf5f8b45da10bcaaa0e449a653061fafcc6c0071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:59 +0000
Subject: [PATCH 16/28] fix: the order of graph nodes is strict for empty
 tokens

---
 graph.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 8d2dece..842cb7a 100644
--- a/graph.go
+++ b/graph.go
@@ -38,7 +38,10 @@ func (s nodeByPos) Len() int {
 }
 
 func (s nodeByPos) Less(i, j int) bool {
-	return s[i].Before(s[j].Token)
+	if s[i].from != s[j].from {
+		return s[i].from < s[j].from
+	}
+	return s[i].to < s[j].to
 }
 
 func (s nodeByPos) Swap(i, j int) {
-- 
2.43.0


From 34a263c0264056536949b3be6de308bd429c44f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:00 +0000
Subject: [PATCH 17/28] fix: Log keeps the exit of entries with sub entries

Enter returned a pointer into a slice that grows while the entry is open, Exit
wrote into the old array. The preview used the byte position as rune index.
---
 monitor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monitor.go b/monitor.go
index cf3f8a3..c1bce08 100644
--- a/monitor.go
+++ b/monitor.go
@@ -12,6 +12,7 @@ type LogEntry struct {
 	Level   int
 	ExitAt  int
 	Error   error
+	index   int
 }
 
 func (e LogEntry) String() string {
@@ -36,6 +37,7 @@ func (l *Log) Enter(info string, pos int) *LogEntry {
 		EnterAt: pos,
 		Info:    info,
 		Level:   l.level,
+		index:   i,
 	})
 	return &l.Entries[i]
 }
@@ -43,6 +45,9 @@ func (l *Log) Enter(info string, pos int) *LogEntry {
 func (l *Log) Exit(e *LogEntry, pos int, err error) {
 	e.ExitAt = pos
 	e.Error = err
+	if e.index < len(l.Entries) {
+		l.Entries[e.index] = *e
+	}
 	l.level--
 }
 
@@ -60,7 +65,7 @@ func (l *Log) Print() {
 
 func (l *Log) PrintWithPreview(str string, n int) {
 	for _, e := range l.Entries {
-		fmt.Println(e, ">", strconv.Quote(subStringFrom(str, e.EnterAt, n)))
+		fmt.Println(e, ">", strconv.Quote(subStringFrom(str[e.EnterAt:], 0, n)))
 	}
 }
 
-- 
2.43.0


From d8746cb51b7dfa27081c31b4d81596f2c106f03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:01 +0000
Subject: [PATCH 18/28] fix: CheckRuleName checks the whole name

---
 grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index bcacd3e..28d5204 100644
--- a/grammar.go
+++ b/grammar.go
@@ -141,7 +141,7 @@ func (r ruleNameReader) What() string {
 
 // CheckRuleName validates the Name field of a RuleReader.
 func CheckRuleName(name string) error {
-	return NewScanner(name).Use(RuleName())
+	return NewScanner(name).Use(Seq(RuleName(), AtEnd()))
 }
 
 // RuleName returns a Reader to validate a Name field of a RuleReader.
-- 
2.43.0


From 94a93f10cfb743397f524a1d7649b09cba78a838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 19/28] fix: Any does not hide errors that are no ReadError

---
 reader.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 3a89c1b..8be476a 100644
--- a/reader.go
+++ b/reader.go
@@ -79,12 +79,20 @@ type anyReader struct {
 
 func getDeepest(errs []error) error {
 	var deepest ReadError
+	var other error
+	found := false
 	for _, e := range errs {
 		re, ok := e.(ReadError)
-		if ok && re.Later(deepest) {
+		if !ok {
+			other = e
+		} else if re.Later(deepest) {
 			deepest = re
+			found = true
 		}
 	}
+	if !found && other != nil {
+		return other
+	}
 	return deepest
 }
 
-- 
2.43.0


From e470ba1db84e894c862385526fd8ecb94e0ea2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:03 +0000
Subject: [PATCH 20/28] fix: Lua grammar reads //, << and >> and a comment at
 the end of the text

---
 grammar/lua.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index ad3eafc..4622317 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -41,7 +41,7 @@ func LuaString() Reader {
 }
 
 func LuaComment() Reader {
-	line := Seq("--", To('\n'))
+	line := Seq("--", To(Any('\n', AtEnd())))
 	cmtHead, cmtTail := Janus("", Zom("="))
 	longBeg := Seq("--[", cmtHead, '[')
 	longEnd := Seq(']', cmtTail, ']')
@@ -116,8 +116,8 @@ func Lua() *LuaReader {
 
 	g.UnOp.Reader = Any("-", "not", "#", "~")
 	g.BinOp.Reader = Any(
-		"..", "<=", "<", ">=", ">", "==", "~=", "and", "or",
-		"+", "-", "*", "/", "//", "^", "%", "&", "~", "|", ">>", "<<",
+		"..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", "and", "or",
+		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
 	skiper := Zom(Any(WS(), &g.Comment))
-- 
2.43.0


From 56ec3968d257696270b4b9b2cf77481fffa3bdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:32 +0000
Subject: [PATCH 21/28] fix: PrintWithPreview tolerates a text that is shorter
 than the logged one

---
 monitor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monitor.go b/monitor.go
index c1bce08..20ada89 100644
--- a/monitor.go
+++ b/monitor.go
@@ -65,7 +65,11 @@ func (l *Log) Print() {
 
 func (l *Log) PrintWithPreview(str string, n int) {
 	for _, e := range l.Entries {
-		fmt.Println(e, ">", strconv.Quote(subStringFrom(str[e.EnterAt:], 0, n)))
+		preview := ""
+		if 0 <= e.EnterAt && e.EnterAt <= len(str) {
+			preview, _ = getPrefix(str[e.EnterAt:], n)
+		}
+		fmt.Println(e, ">", strconv.Quote(preview))
 	}
 }
 
-- 
2.43.0


From 5a22c08044fb04fa615826fc02ec2f0599fd2be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:04 +0000
Subject: [PATCH 22/28] fix: SortSegmentsByOrder uses the first appearance of
 an info

The comparison mixed the first and the last appearance if the order holds an
info twice, so x,y,z,x gave a cyclic order.
---
 segment.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/segment.go b/segment.go
index 1bb12cd..18fa0b4 100644
--- a/segment.go
+++ b/segment.go
@@ -68,12 +68,11 @@ func SortSegmentsByOrder(values []Segment, order []string) {
 			}
 			ai, bi := -1, -1
 			for i, info := range order {
-				if a.Info == info {
+				if ai == -1 && a.Info == info {
 					ai = i
-				} else if b.Info == info {
+				}
+				if bi == -1 && b.Info == info {
 					bi = i
-				} else if ai != -1 && bi != -1 {
-					break
 				}
 			}
 
-- 
2.43.0


From 081593260cbf0e642d43caf806d09614002ef1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:50 +0000
Subject: [PATCH 23/28] fix: LuaString accepts control characters, line breaks
 and \z as Lua does

A short string literal may hold every character but its quote, a backslash
and line breaks, a backslash may be followed by a line break, and \z skips
the following whitespace.
---
 grammar/lua.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 4622317..01e8c8f 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -26,13 +26,15 @@ func LuaString() Reader {
 		Seq('\\', Between('0', '2'), Times(2, Digit())),
 	)
 	escapeSequence := Any(
-		Seq('\\', AnyRune("abfnrtvz\"'\\")),
+		Seq('\\', AnyRune("abfnrtv\"'\\")),
+		Seq('\\', Any("\r\n", "\n\r", '\n', '\r')),
+		Seq("\\z", Zom(AnyRune(" \t\n\r\v\f"))),
 		decimalEscape,
 		hexEscape,
 		utfEscape,
 	)
-	normalString := Seq('"', Zom(Any(Holey(' ', utf8.MaxRune, `"\`), escapeSequence)), '"')
-	charString := Seq('\'', Zom(Any(Holey(' ', utf8.MaxRune, `'\`), escapeSequence)), '\'')
+	normalString := Seq('"', Zom(Any(Holey(0, utf8.MaxRune, "\"\\\r\n"), escapeSequence)), '"')
+	charString := Seq('\'', Zom(Any(Holey(0, utf8.MaxRune, "'\\\r\n"), escapeSequence)), '\'')
 	strHead, strTail := Janus("", Zom("="))
 	longBeg := Seq('[', strHead, '[')
 	longEnd := Seq(']', strTail, ']')
-- 
2.43.0


From 93429f18cfa49c2346ac46b325003131bbf396cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:10 +0000
Subject: [PATCH 24/28] fix: unexported fields of a grammar struct are no rules
 and must not make CollectRules and SetRuleNames panic

---
 grammar.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index 28d5204..8bfa5ca 100644
--- a/grammar.go
+++ b/grammar.go
@@ -30,7 +30,7 @@ func SetRuleNames(g Grammar) error {
 	v := reflect.ValueOf(g).Elem()
 	for i := 0; i < t.NumField(); i++ {
 		field := t.Field(i)
-		if field.Type != reflect.TypeOf(Rule{}) {
+		if field.Type != reflect.TypeOf(Rule{}) || field.PkgPath != "" {
 			continue
 		}
 		name := field.Tag.Get("name")
@@ -61,6 +61,9 @@ func CollectRules(g Grammar) []*Rule {
 	v := reflect.ValueOf(g).Elem()
 	for i := 0; i < v.NumField(); i++ {
 		field := v.Field(i)
+		if !field.CanInterface() {
+			continue
+		}
 		i := field.Addr().Interface()
 		ptr, ok := i.(*Rule)
 		if !ok {
-- 
2.43.0


From 620d3cf61482edd36c17acf414db04fc728462a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:33 +0000
Subject: [PATCH 25/28] fix: lists of names and of table fields allow white
 space behind the separators in Lua

---
 grammar/lua.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 01e8c8f..b813aec 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -111,7 +111,7 @@ func Lua() *LuaReader {
 	MustSetRuleNames(g)
 	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
 	g.Name.Reader = Seq(Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
-	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(Seq(',', &g.Name)))
+	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
@@ -133,7 +133,7 @@ func Lua() *LuaReader {
 		skipSeq(&g.Name, '=', &g.Exp),
 		&g.Exp,
 	)
-	g.FieldList.Reader = skipSeq(&g.Field, Zom(Seq(&g.FieldSep, &g.Field)), Opt(&g.FieldSep))
+	g.FieldList.Reader = skipSeq(&g.Field, Zom(skipSeq(&g.FieldSep, &g.Field)), Opt(&g.FieldSep))
 	g.TableConstructor.Reader = skipSeq('{', Opt(&g.FieldList), '}')
 
 	nameAndArgs := skipSeq(Opt(Seq(':', &g.Name)), &g.FuncArgs)
-- 
2.43.0


From dd45c6328370f0381d6202cf8173aa2f0d5d9f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:34 +0000
Subject: [PATCH 26/28] fix: comments and white space are skipped between all
 tokens of Lua

---
 grammar/lua.go | 57 +++++++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index b813aec..2a75e71 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -109,9 +109,15 @@ type LuaReader struct {
 func Lua() *LuaReader {
 	g := &LuaReader{}
 	MustSetRuleNames(g)
+
+	skiper := Zom(Any(WS(), &g.Comment))
+	skipSeq := func(list ...interface{}) Reader {
+		return SkipSeq(skiper, list...)
+	}
+
 	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
 	g.Name.Reader = Seq(Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
-	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq(',', &g.Name)))
+	g.NameList.Reader = skipSeq(&g.Name, Zom(skipSeq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
@@ -122,11 +128,6 @@ func Lua() *LuaReader {
 		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
-	skiper := Zom(Any(WS(), &g.Comment))
-	skipSeq := func(list ...interface{}) Reader {
-		return SkipSeq(skiper, list...)
-	}
-
 	g.FieldSep.Reader = AnyRune(",;")
 	g.Field.Reader = Any(
 		skipSeq('[', &g.Exp, ']', '=', &g.Exp),
@@ -136,12 +137,12 @@ func Lua() *LuaReader {
 	g.FieldList.Reader = skipSeq(&g.Field, Zom(skipSeq(&g.FieldSep, &g.Field)), Opt(&g.FieldSep))
 	g.TableConstructor.Reader = skipSeq('{', Opt(&g.FieldList), '}')
 
-	nameAndArgs := skipSeq(Opt(Seq(':', &g.Name)), &g.FuncArgs)
+	nameAndArgs := skipSeq(Opt(skipSeq(':', &g.Name)), &g.FuncArgs)
 	varOrExp := Any(&g.Var, skipSeq('(', &g.Exp, ')'))
 
 	g.FuncParams.Reader = Any(skipSeq(&g.NameList, Opt(skipSeq(',', "..."))), "...")
 	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, "end")
-	g.FuncDef.Reader = SkipWSSeq(Lit("function"), &g.FuncBody)
+	g.FuncDef.Reader = skipSeq(Lit("function"), &g.FuncBody)
 	g.FuncArgs.Reader = Any(
 		skipSeq('(', Opt(&g.ExpList), ')'),
 		&g.TableConstructor,
@@ -159,41 +160,41 @@ func Lua() *LuaReader {
 		&g.PrefixExp,
 	)
 	g.Exp.Reader = Any(
-		SkipWSSeq(&g.FinalExp, &g.BinOp, &g.Exp),
+		skipSeq(&g.FinalExp, &g.BinOp, &g.Exp),
 		&g.FinalExp,
 	)
 	g.ExpList.Reader = skipSeq(&g.Exp, Zom(skipSeq(',', &g.Exp)))
 	g.VarSuffix.Reader = skipSeq(Zom(nameAndArgs), Any(
 		skipSeq('[', &g.Exp, ']'),
-		Seq('.', &g.Name),
+		skipSeq('.', &g.Name),
 	))
 	g.Var.Reader = Seq(Any(
 		&g.Name,
 		skipSeq('(', &g.Exp, ')', &g.VarSuffix),
 	), Zom(&g.VarSuffix))
-	g.VarList.Reader = SkipWSSeq(&g.Var, Zom(SkipWSSeq(',', &g.Var)))
+	g.VarList.Reader = skipSeq(&g.Var, Zom(skipSeq(',', &g.Var)))
 
-	g.FuncName.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq('.', &g.Name)), Opt(SkipWSSeq(':', &g.Name)))
-	g.Label.Reader = Seq(Lit("::"), &g.Name, Lit("::"))
-	g.RetStat.Reader = SkipWSSeq(Lit("return"), Opt(&g.ExpList), Opt(';'))
-	g.Attrib.Reader = Opt(Seq('<', &g.Name, '>'))
-	g.AttNameList.Reader = SkipWSSeq(&g.Name, &g.Attrib, Zom(SkipWSSeq(',', &g.Name, &g.Attrib)))
+	g.FuncName.Reader = skipSeq(&g.Name, Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)))
+	g.Label.Reader = skipSeq(Lit("::"), &g.Name, Lit("::"))
+	g.RetStat.Reader = skipSeq(Lit("return"), Opt(&g.ExpList), Opt(';'))
+	g.Attrib.Reader = Opt(skipSeq('<', &g.Name, '>'))
+	g.AttNameList.Reader = skipSeq(&g.Name, &g.Attrib, Zom(skipSeq(',', &g.Name, &g.Attrib)))
 	g.Break.Reader = Lit("break")
-	g.GoTo.Reader = SkipWSSeq("goto", &g.Name)
-	g.Do.Reader = SkipWSSeq("do", &g.Block, "end")
-	g.While.Reader = SkipWSSeq("while", &g.Exp, "do", &g.Block, "end")
-	g.Repeat.Reader = SkipWSSeq("repeat", &g.Block, "until", &g.Exp)
-	g.IfElse.Reader = SkipWSSeq(
+	g.GoTo.Reader = skipSeq("goto", &g.Name)
+	g.Do.Reader = skipSeq("do", &g.Block, "end")
+	g.While.Reader = skipSeq("while", &g.Exp, "do", &g.Block, "end")
+	g.Repeat.Reader = skipSeq("repeat", &g.Block, "until", &g.Exp)
+	g.IfElse.Reader = skipSeq(
 		"if", &g.Exp, "then", &g.Block,
-		Zom(SkipWSSeq("elseif", &g.Exp, "then", &g.Block)),
-		Opt(SkipWSSeq("else", &g.Block)),
+		Zom(skipSeq("elseif", &g.Exp, "then", &g.Block)),
+		Opt(skipSeq("else", &g.Block)),
 		"end",
 	)
-	g.For.Reader = SkipWSSeq("for", &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(SkipWSSeq(',', &g.Exp)), "do", &g.Block, "end")
-	g.ForEach.Reader = SkipWSSeq("for", &g.NameList, "in", &g.ExpList, "do", &g.Block, "end")
-	g.Func.Reader = SkipWSSeq("function", &g.FuncName, &g.FuncBody)
-	g.LocalFunc.Reader = SkipWSSeq("local", "function", &g.Name, &g.FuncBody)
-	g.LocalAtt.Reader = SkipWSSeq("local", &g.AttNameList, Opt(SkipWSSeq('=', &g.ExpList)))
+	g.For.Reader = skipSeq("for", &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(skipSeq(',', &g.Exp)), "do", &g.Block, "end")
+	g.ForEach.Reader = skipSeq("for", &g.NameList, "in", &g.ExpList, "do", &g.Block, "end")
+	g.Func.Reader = skipSeq("function", &g.FuncName, &g.FuncBody)
+	g.LocalFunc.Reader = skipSeq("local", "function", &g.Name, &g.FuncBody)
+	g.LocalAtt.Reader = skipSeq("local", &g.AttNameList, Opt(skipSeq('=', &g.ExpList)))
 	g.Stat.Reader = Any(
 		';',
 		Seq(&g.VarList, '=', &g.ExpList),
-- 
2.43.0


From 7598447820aa84a56ce458833f787eabeab14202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:34 +0000
Subject: [PATCH 27/28] fix: a Lua name that starts with nil, false or true is
 read as a whole

---
 grammar/lua.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 2a75e71..c35da27 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -151,8 +151,9 @@ func Lua() *LuaReader {
 	g.FuncCall.Reader = Seq(varOrExp, Many(nameAndArgs))
 
 	g.PrefixExp.Reader = Seq(varOrExp, Zom(nameAndArgs))
+	wordEnd := At(Any(AtEnd(), Not(Set("a-zA-Z0-9", "_"))))
 	g.FinalExp.Reader = Any(
-		"nil", "false", "true",
+		Seq(Any("nil", "false", "true"), wordEnd),
 		LuaNumeral(), &g.LiteralString, "...",
 		&g.FuncDef,
 		skipSeq(&g.UnOp, &g.Exp),
-- 
2.43.0


From 5aac01eecd2b3cc31a5f9ddbad2ad965b085403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:06 +0000
Subject: [PATCH 28/28] fix: keywords are told apart from names in Lua

---
 grammar/lua.go | 57 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index c35da27..f863751 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -115,16 +115,30 @@ func Lua() *LuaReader {
 		return SkipSeq(skiper, list...)
 	}
 
+	nameRune := Set("a-zA-Z0-9", "_")
+	wordEnd := At(Any(AtEnd(), Not(nameRune)))
+	word := func(str string) Reader {
+		return Seq(str, wordEnd)
+	}
+	keywords := []interface{}{}
+	for _, str := range []string{
+		"and", "break", "do", "else", "elseif", "end", "false", "for", "function", "goto", "if", "in",
+		"local", "nil", "not", "or", "repeat", "return", "then", "true", "until", "while",
+	} {
+		keywords = append(keywords, word(str))
+	}
+	keyword := Any(keywords...)
+
 	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
-	g.Name.Reader = Seq(Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
+	g.Name.Reader = Seq(At(Not(keyword)), Set("a-zA-Z", "_"), Zom(nameRune))
 	g.NameList.Reader = skipSeq(&g.Name, Zom(skipSeq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
 
-	g.UnOp.Reader = Any("-", "not", "#", "~")
+	g.UnOp.Reader = Any("-", word("not"), "#", "~")
 	g.BinOp.Reader = Any(
-		"..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", "and", "or",
+		"..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", word("and"), word("or"),
 		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
@@ -141,8 +155,8 @@ func Lua() *LuaReader {
 	varOrExp := Any(&g.Var, skipSeq('(', &g.Exp, ')'))
 
 	g.FuncParams.Reader = Any(skipSeq(&g.NameList, Opt(skipSeq(',', "..."))), "...")
-	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, "end")
-	g.FuncDef.Reader = skipSeq(Lit("function"), &g.FuncBody)
+	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, word("end"))
+	g.FuncDef.Reader = skipSeq(word("function"), &g.FuncBody)
 	g.FuncArgs.Reader = Any(
 		skipSeq('(', Opt(&g.ExpList), ')'),
 		&g.TableConstructor,
@@ -151,9 +165,8 @@ func Lua() *LuaReader {
 	g.FuncCall.Reader = Seq(varOrExp, Many(nameAndArgs))
 
 	g.PrefixExp.Reader = Seq(varOrExp, Zom(nameAndArgs))
-	wordEnd := At(Any(AtEnd(), Not(Set("a-zA-Z0-9", "_"))))
 	g.FinalExp.Reader = Any(
-		Seq(Any("nil", "false", "true"), wordEnd),
+		word("nil"), word("false"), word("true"),
 		LuaNumeral(), &g.LiteralString, "...",
 		&g.FuncDef,
 		skipSeq(&g.UnOp, &g.Exp),
@@ -177,25 +190,25 @@ func Lua() *LuaReader {
 
 	g.FuncName.Reader = skipSeq(&g.Name, Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)))
 	g.Label.Reader = skipSeq(Lit("::"), &g.Name, Lit("::"))
-	g.RetStat.Reader = skipSeq(Lit("return"), Opt(&g.ExpList), Opt(';'))
+	g.RetStat.Reader = skipSeq(word("return"), Opt(&g.ExpList), Opt(';'))
 	g.Attrib.Reader = Opt(skipSeq('<', &g.Name, '>'))
 	g.AttNameList.Reader = skipSeq(&g.Name, &g.Attrib, Zom(skipSeq(',', &g.Name, &g.Attrib)))
-	g.Break.Reader = Lit("break")
-	g.GoTo.Reader = skipSeq("goto", &g.Name)
-	g.Do.Reader = skipSeq("do", &g.Block, "end")
-	g.While.Reader = skipSeq("while", &g.Exp, "do", &g.Block, "end")
-	g.Repeat.Reader = skipSeq("repeat", &g.Block, "until", &g.Exp)
+	g.Break.Reader = word("break")
+	g.GoTo.Reader = skipSeq(word("goto"), &g.Name)
+	g.Do.Reader = skipSeq(word("do"), &g.Block, word("end"))
+	g.While.Reader = skipSeq(word("while"), &g.Exp, word("do"), &g.Block, word("end"))
+	g.Repeat.Reader = skipSeq(word("repeat"), &g.Block, word("until"), &g.Exp)
 	g.IfElse.Reader = skipSeq(
-		"if", &g.Exp, "then", &g.Block,
-		Zom(skipSeq("elseif", &g.Exp, "then", &g.Block)),
-		Opt(skipSeq("else", &g.Block)),
-		"end",
+		word("if"), &g.Exp, word("then"), &g.Block,
+		Zom(skipSeq(word("elseif"), &g.Exp, word("then"), &g.Block)),
+		Opt(skipSeq(word("else"), &g.Block)),
+		word("end"),
 	)
-	g.For.Reader = skipSeq("for", &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(skipSeq(',', &g.Exp)), "do", &g.Block, "end")
-	g.ForEach.Reader = skipSeq("for", &g.NameList, "in", &g.ExpList, "do", &g.Block, "end")
-	g.Func.Reader = skipSeq("function", &g.FuncName, &g.FuncBody)
-	g.LocalFunc.Reader = skipSeq("local", "function", &g.Name, &g.FuncBody)
-	g.LocalAtt.Reader = skipSeq("local", &g.AttNameList, Opt(skipSeq('=', &g.ExpList)))
+	g.For.Reader = skipSeq(word("for"), &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(skipSeq(',', &g.Exp)), word("do"), &g.Block, word("end"))
+	g.ForEach.Reader = skipSeq(word("for"), &g.NameList, word("in"), &g.ExpList, word("do"), &g.Block, word("end"))
+	g.Func.Reader = skipSeq(word("function"), &g.FuncName, &g.FuncBody)
+	g.LocalFunc.Reader = skipSeq(word("local"), word("function"), &g.Name, &g.FuncBody)
+	g.LocalAtt.Reader = skipSeq(word("local"), &g.AttNameList, Opt(skipSeq('=', &g.ExpList)))
 	g.Stat.Reader = Any(
 		';',
 		Seq(&g.VarList, '=', &g.ExpList),
-- 
2.43.0

