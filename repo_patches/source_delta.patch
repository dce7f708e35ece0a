From edb4ea6f9113cbd137d3c5dc7681325726e8ca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:22 +0000
Subject: [PATCH 01/45] fix: ToMarker rejects markers outside of the text

The bounds check used && and could never be true, so a marker beyond the
text moved the scanner to a position where Tail() and Head() panic.
---
 scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner.go b/scanner.go
index 475845e..965251d 100644
--- a/scanner.go
+++ b/scanner.go
@@ -371,7 +371,7 @@ type Marker int
 // Moves s to the marked position.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) ToMarker(m Marker) bool {
-	if m < 0 && Marker(len(s.full)) <= m {
+	if m < 0 || Marker(len(s.full)) < m {
 		return false
 	}
 	s.pos = int(m)
-- 
2.43.0


From 586c253e66d375342a11f0df9525d3587557e0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:23 +0000
Subject: [PATCH 02/45] fix: step over U+FFFD and invalid UTF-8 bytes one rune
 at a time

MoveRunes used the encoded length of the replacement rune (3) for an
invalid byte (1), and the reverse iterator stopped at every U+FFFD or
invalid byte, so MoveRunes and the Rev functions stopped short or jumped
too far and Past looped forever on such a text.
---
 intl.go    | 6 ++----
 scanner.go | 7 ++++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/intl.go b/intl.go
index 1f0a2cc..677a50f 100644
--- a/intl.go
+++ b/intl.go
@@ -23,11 +23,9 @@ func makeRevItr(str string) revItr {
 }
 
 func (itr *revItr) next() bool {
-	if itr.Val != utf8.RuneError {
-		itr.Str = itr.Str[0 : len(itr.Str)-itr.vi]
-	}
+	itr.Str = itr.Str[0 : len(itr.Str)-itr.vi]
 	itr.Val, itr.vi = utf8.DecodeLastRuneInString(itr.Str)
-	return itr.Val != utf8.RuneError
+	return itr.vi > 0
 }
 
 func (itr *revItr) pos() int {
diff --git a/scanner.go b/scanner.go
index 965251d..66bab62 100644
--- a/scanner.go
+++ b/scanner.go
@@ -334,10 +334,11 @@ func (s *Scanner) Move(n int) bool {
 func (s *Scanner) MoveRunes(n int) bool {
 	c := 0
 	if n > 0 {
-		for i, r := range s.Tail() {
+		for i := range s.Tail() {
 			c++
 			if n == c {
-				return s.Move(i + utf8.RuneLen(r))
+				_, size := utf8.DecodeRuneInString(s.Tail()[i:])
+				return s.Move(i + size)
 			}
 		}
 		return false
@@ -346,7 +347,7 @@ func (s *Scanner) MoveRunes(n int) bool {
 		for itr.next() {
 			c--
 			if n == c {
-				return s.Move(-(itr.pos() + utf8.RuneLen(itr.Val)))
+				return s.Move(-(itr.pos() + itr.vi))
 			}
 		}
 		return false
-- 
2.43.0


From 2731f53b3a421573f3a0ad7fcf4a15ace2d1ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:01 +0000
Subject: [PATCH 03/45] fix: ScanString reads the last n runes of the text

getPrefix only reported success when something followed the prefix.
---
 intl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intl.go b/intl.go
index 677a50f..e7ddaaa 100644
--- a/intl.go
+++ b/intl.go
@@ -42,7 +42,7 @@ func getPrefix(str string, n int) (string, bool) {
 		}
 		count++
 	}
-	return str, false
+	return str, count == n
 }
 
 func midSubString(str string, from int) string {
-- 
2.43.0


From 34f91aa20621e7c735004da154ee2d06cb736d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:02 +0000
Subject: [PATCH 04/45] fix: fold functions compare rune by rune and never
 leave the text

IfFold, RevIfFold and RevToFold sliced len(str) bytes and panicked if less
text was left. The byte window also missed runes whose case variants have
a different encoded length, like 'k' and the Kelvin sign.
---
 intl.go        | 20 ++++++++++++++++++++
 scanner.go     | 12 ++++--------
 scanner_rev.go |  9 ++-------
 3 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/intl.go b/intl.go
index e7ddaaa..e770953 100644
--- a/intl.go
+++ b/intl.go
@@ -1,6 +1,7 @@
 package tok
 
 import (
+	"strings"
 	"unicode/utf8"
 )
 
@@ -45,6 +46,25 @@ func getPrefix(str string, n int) (string, bool) {
 	return str, count == n
 }
 
+// foldPrefix returns the length of the prefix of str that equals sub under Unicode case-folding.
+func foldPrefix(str string, sub string) (int, bool) {
+	prefix, ok := getPrefix(str, utf8.RuneCountInString(sub))
+	return len(prefix), ok && strings.EqualFold(prefix, sub)
+}
+
+// foldSuffix returns the length of the suffix of str that equals sub under Unicode case-folding.
+func foldSuffix(str string, sub string) (int, bool) {
+	i := len(str)
+	for n := utf8.RuneCountInString(sub); n > 0; n-- {
+		_, size := utf8.DecodeLastRuneInString(str[:i])
+		if size == 0 {
+			return 0, false
+		}
+		i -= size
+	}
+	return len(str) - i, strings.EqualFold(str[i:], sub)
+}
+
 func midSubString(str string, from int) string {
 	c := 0
 	for i := range str {
diff --git a/scanner.go b/scanner.go
index 66bab62..6dd7ff2 100644
--- a/scanner.go
+++ b/scanner.go
@@ -101,9 +101,7 @@ func (s *Scanner) To(str string) bool {
 // Moves s the length of str forward if Tail() has str as the prefix under Unicode case-folding.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) IfFold(str string) bool {
-	i := len(str)
-	prefix := s.Tail()[:i]
-	if strings.EqualFold(prefix, str) {
+	if i, ok := foldPrefix(s.Tail(), str); ok {
 		return s.Move(i)
 	}
 	return false
@@ -112,15 +110,13 @@ func (s *Scanner) IfFold(str string) bool {
 // Moves s to the first appearance of str in Tail() under Unicode case-folding.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) ToFold(str string) bool {
-	i := len(str)
 	sub := s.Tail()
-	for n := 0; len(sub) >= i+n; n++ {
-		prefix := sub[n : n+i]
-		if strings.EqualFold(prefix, str) {
+	for n := range sub {
+		if _, ok := foldPrefix(sub[n:], str); ok {
 			return s.Move(n)
 		}
 	}
-	return false
+	return str == ""
 }
 
 // ------------------------------------------------------------------------ rune
diff --git a/scanner_rev.go b/scanner_rev.go
index 997b270..d8c1046 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -51,10 +51,7 @@ func (s *Scanner) RevTo(str string) bool {
 // Moves s the length of str backward if Head() has str as the suffix under Unicode case-folding.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfFold(str string) bool {
-	i := len(str)
-	head := s.Head()
-	suffix := head[len(head)-i:]
-	if strings.EqualFold(suffix, str) {
+	if i, ok := foldSuffix(s.Head(), str); ok {
 		return s.Move(-i)
 	}
 	return false
@@ -63,11 +60,9 @@ func (s *Scanner) RevIfFold(str string) bool {
 // Moves s to the last appearance of str in Head() under Unicode case-folding.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevToFold(str string) bool {
-	i := len(str)
 	itr := makeRevItr(s.Head())
 	for itr.next() {
-		suffix := itr.Str[len(itr.Str)-i:]
-		if strings.EqualFold(suffix, str) {
+		if _, ok := foldSuffix(itr.Str, str); ok {
 			return s.Move(-itr.pos())
 		}
 	}
-- 
2.43.0


From 40a03a7c6316a85b70706d998439122e5f0b9702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:03 +0000
Subject: [PATCH 05/45] fix: While functions return true exactly if the scanner
 was moved

WhileRune, WhileBetween and the RevWhile functions returned true without a
move if the first rune did not match, WhileMatch stayed in place and
returned false if the whole tail passed the check.
---
 scanner.go     | 8 +++++++-
 scanner_rev.go | 8 ++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/scanner.go b/scanner.go
index 6dd7ff2..304a42c 100644
--- a/scanner.go
+++ b/scanner.go
@@ -151,6 +151,9 @@ func (s *Scanner) WhileRune(r rune) bool {
 
 	for i, v := range s.Tail() {
 		if v != r {
+			if i == 0 {
+				return false
+			}
 			return s.Move(i)
 		}
 	}
@@ -240,6 +243,9 @@ func (s *Scanner) WhileBetween(min, max rune) bool {
 
 	for i, v := range s.Tail() {
 		if !inRange(min, v, max) {
+			if i == 0 {
+				return false
+			}
 			return s.Move(i)
 		}
 	}
@@ -287,7 +293,7 @@ func (s *Scanner) WhileMatch(check MatchFunc) bool {
 		}
 	}
 
-	return false
+	return s.ToEnd()
 }
 
 // ----------------------------------------------------------------------- state
diff --git a/scanner_rev.go b/scanner_rev.go
index d8c1046..5187203 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -105,7 +105,7 @@ func (s *Scanner) RevWhileRune(r rune) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if itr.Val != r {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -149,7 +149,7 @@ func (s *Scanner) RevWhileAnyRune(str string) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !strings.ContainsRune(str, itr.Val) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -191,7 +191,7 @@ func (s *Scanner) RevWhileBetween(min, max rune) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !inRange(min, itr.Val, max) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -234,7 +234,7 @@ func (s *Scanner) RevWhileMatch(check MatchFunc) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !check(itr.Val) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
-- 
2.43.0


From 0b0d1ae0bb430b5951cb9842a7948ee25b927379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:04 +0000
Subject: [PATCH 06/45] fix: RevIfBetween and RevIfMatch move if the last rune
 matches

Both conditions were inverted.
---
 scanner_rev.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scanner_rev.go b/scanner_rev.go
index 5187203..e49d0a4 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -163,7 +163,7 @@ func (s *Scanner) RevWhileAnyRune(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfBetween(min, max rune) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || inRange(min, last, max) {
+	if i == 0 || !inRange(min, last, max) {
 		return false
 	}
 	return s.Move(-i)
@@ -206,7 +206,7 @@ func (s *Scanner) RevWhileBetween(min, max rune) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfMatch(check MatchFunc) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || check(last) {
+	if i == 0 || !check(last) {
 		return false
 	}
 	return s.Move(-i)
-- 
2.43.0


From 876045e4856a079d8fe0382b5aca025acee160b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:05 +0000
Subject: [PATCH 07/45] fix: no rune matches at the border of the text

Decoding an empty string yields U+FFFD with size 0. IfRune, RevIfRune,
RevIfAnyRune and Holey accepted that as a match without a move, so the JSON
grammar looped forever on a string without a closing quote.
---
 reader.go      | 2 +-
 scanner.go     | 2 +-
 scanner_rev.go | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/reader.go b/reader.go
index 0fddcef..dc734a0 100644
--- a/reader.go
+++ b/reader.go
@@ -448,7 +448,7 @@ type holeyReader struct {
 
 func (r holeyReader) Read(s *Scanner) error {
 	val, i := utf8.DecodeRuneInString(s.Tail())
-	if inRange(r.min, val, r.max) && !strings.ContainsRune(r.holes, val) {
+	if i != 0 && inRange(r.min, val, r.max) && !strings.ContainsRune(r.holes, val) {
 		return s.ErrorIfFalse(s.Move(i), r.What())
 	}
 	return s.ErrorFor(r.What())
diff --git a/scanner.go b/scanner.go
index 304a42c..d5b0e5a 100644
--- a/scanner.go
+++ b/scanner.go
@@ -124,7 +124,7 @@ func (s *Scanner) ToFold(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) IfRune(r rune) bool {
 	first, i := utf8.DecodeRuneInString(s.Tail())
-	if i == -1 || first != r {
+	if i == 0 || first != r {
 		return false
 	}
 	return s.Move(i)
diff --git a/scanner_rev.go b/scanner_rev.go
index e49d0a4..d30c3d9 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -75,7 +75,7 @@ func (s *Scanner) RevToFold(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfRune(r rune) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || last != r {
+	if i == 0 || last != r {
 		return false
 	}
 	return s.Move(-i)
@@ -120,7 +120,7 @@ func (s *Scanner) RevWhileRune(r rune) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfAnyRune(str string) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i != -1 && strings.ContainsRune(str, last) {
+	if i != 0 && strings.ContainsRune(str, last) {
 		return s.Move(-i)
 	}
 	return false
-- 
2.43.0


From 7addfbd3ca5de0b3ff89f0b4be8971340550fc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:06 +0000
Subject: [PATCH 08/45] fix: ReadRune and RevReadRune read an encoded U+FFFD

---
 read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 0773827..839c031 100644
--- a/read.go
+++ b/read.go
@@ -9,7 +9,7 @@ import (
 // ReadRune reads one rune value from the scanner.
 func (s *Scanner) ReadRune() (rune, error) {
 	r, i := utf8.DecodeRuneInString(s.Tail())
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && i <= 1 {
 		return utf8.RuneError, s.ErrorFor("rune")
 	}
 	return r, s.ErrorIfFalse(s.Move(i), "rune")
@@ -18,7 +18,7 @@ func (s *Scanner) ReadRune() (rune, error) {
 // RevReadRune reads one rune value from the scanner the reverse way.
 func (s *Scanner) RevReadRune() (rune, error) {
 	r, i := utf8.DecodeLastRuneInString(s.Head())
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && i <= 1 {
 		return r, s.ErrorFor("rune")
 	}
 	return r, s.ErrorIfFalse(s.Move(-i), "rune")
-- 
2.43.0


From d7ac89f51d0a3ec8e33317d0dc05678022895482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:08 +0000
Subject: [PATCH 09/45] fix: ReadInt and ReadUint detect every 64 bit overflow

The wrapped product can be greater than the previous value, so values like
21000000000000000000 were returned as 2553255926290448384.
---
 read.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/read.go b/read.go
index 839c031..6562681 100644
--- a/read.go
+++ b/read.go
@@ -109,15 +109,15 @@ func (s *Scanner) ReadInt(base int, bitSize int) (int64, error) {
 		}
 
 		if neg {
-			tmp = (i64)*int64(base) - int64(v)
-			if i64 < tmp || tmp < min {
+			if i64 < (min+int64(v))/int64(base) {
 				break
 			}
+			tmp = (i64)*int64(base) - int64(v)
 		} else {
-			tmp = (i64 * int64(base)) + int64(v)
-			if i64 > tmp || tmp > max {
+			if i64 > (max-int64(v))/int64(base) {
 				break
 			}
+			tmp = (i64 * int64(base)) + int64(v)
 		}
 
 		i64 = tmp
@@ -196,10 +196,10 @@ func (s *Scanner) ReadUint(base int, bitSize int) (uint64, error) {
 			break
 		}
 
-		tmp = (u64 * uint64(base)) + uint64(v)
-		if u64 > tmp || tmp > max {
+		if u64 > (max-uint64(v))/uint64(base) {
 			break
 		}
+		tmp = (u64 * uint64(base)) + uint64(v)
 
 		u64 = tmp
 		n = i
-- 
2.43.0


From bb48f8a7c73464d4ed8fb584684120d7f01f65d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:47 +0000
Subject: [PATCH 10/45] fix: Times moves the scanner back if it fails

A failed Times left the scanner after the repetitions that it could read,
so that Any, Opt, Zom and Many continued in the middle of it.
---
 reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reader.go b/reader.go
index dc734a0..3472e8c 100644
--- a/reader.go
+++ b/reader.go
@@ -896,8 +896,10 @@ type timesReader struct {
 }
 
 func (r *timesReader) Read(s *Scanner) error {
+	m := s.Mark()
 	for i := 0; i < r.n; i++ {
 		if e := r.sub.Read(s); e != nil {
+			s.ToMarker(m)
 			return e
 		}
 	}
-- 
2.43.0


From f2e45ca44546c42691bec6685ddb791c09a27eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 11/45] fix: Not fails at the end of the text

There is no rune left to move over, and Zom or Many of a Not never ended.
---
 reader.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 3472e8c..053b49b 100644
--- a/reader.go
+++ b/reader.go
@@ -709,8 +709,7 @@ func (r *notReader) Read(s *Scanner) error {
 	if err == nil {
 		return s.ErrorFor(r.sub.What())
 	}
-	s.MoveRunes(1)
-	return nil
+	return s.ErrorIfFalse(s.MoveRunes(1), r.What())
 }
 
 func (r *notReader) What() string {
-- 
2.43.0


From 044377f4b9f2599a8b8cee96e88cfc4799098e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:49 +0000
Subject: [PATCH 12/45] fix: Zom and Many end if the sub Reader matches without
 a move

They repeated a Reader like Opt or Zom that can match the empty string
forever.
---
 reader.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 053b49b..d7f8868 100644
--- a/reader.go
+++ b/reader.go
@@ -607,7 +607,9 @@ type manyReader struct {
 
 func (r manyReader) Read(s *Scanner) error {
 	start := s.Mark()
-	for r.sub.Read(s) == nil {
+	last := start
+	for r.sub.Read(s) == nil && s.Mark() != last {
+		last = s.Mark()
 	}
 	end := s.Mark()
 	return s.ErrorIfFalse(start < end, r.What())
@@ -1005,7 +1007,9 @@ type zomReader struct {
 }
 
 func (r zomReader) Read(s *Scanner) error {
-	for r.sub.Read(s) == nil {
+	last := s.Mark()
+	for r.sub.Read(s) == nil && s.Mark() != last {
+		last = s.Mark()
 	}
 	return nil
 }
-- 
2.43.0


From 9d1aa9bf697492cd7a0fbc850a34bb16bc7a9378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:49 +0000
Subject: [PATCH 13/45] fix: Past, Body and BodyTail also look at the end of
 the text

To finds AtEnd or a Reader that matches the empty string at the end of the
text, but Past, Body and BodyTail gave up before that position.
---
 reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reader.go b/reader.go
index d7f8868..8beed81 100644
--- a/reader.go
+++ b/reader.go
@@ -322,7 +322,7 @@ type bodyReader struct {
 
 func (r *bodyReader) Read(s *Scanner) error {
 	m := s.Mark()
-	for ; !s.AtEnd(); s.MoveRunes(1) {
+	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
 			sub := NewScanner(s.Get(MakeToken(m, t)))
@@ -355,7 +355,7 @@ type bodyTailReader struct {
 
 func (r *bodyTailReader) Read(s *Scanner) error {
 	m := s.Mark()
-	for ; !s.AtEnd(); s.MoveRunes(1) {
+	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
 			sub := NewScanner(s.Get(MakeToken(m, t)))
@@ -754,7 +754,7 @@ type pastReader struct {
 
 func (r *pastReader) Read(s *Scanner) error {
 	m := s.Mark()
-	for ; !s.AtEnd(); s.MoveRunes(1) {
+	for ok := true; ok; ok = s.MoveRunes(1) {
 		if e := r.sub.Read(s); e == nil {
 			return nil
 		}
-- 
2.43.0


From 857fbae331f4cce5220aa3e484585e2862df1bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:50 +0000
Subject: [PATCH 14/45] fix: Body and BodyTail read the body at its position in
 the text

The body was read with a new scanner for the sub string, so picked
Segments, mapped Tokens and log entries of the body had positions relative
to the body and were not tracked.
---
 reader.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/reader.go b/reader.go
index 8beed81..b68d977 100644
--- a/reader.go
+++ b/reader.go
@@ -325,7 +325,8 @@ func (r *bodyReader) Read(s *Scanner) error {
 	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
-			sub := NewScanner(s.Get(MakeToken(m, t)))
+			s.ToMarker(m)
+			sub := &Scanner{full: s.full[:t], pos: int(m), Tracker: s.Tracker}
 			e = sub.Use(r.body)
 			if e != nil || !sub.AtEnd() {
 				break
@@ -358,12 +359,14 @@ func (r *bodyTailReader) Read(s *Scanner) error {
 	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
-			sub := NewScanner(s.Get(MakeToken(m, t)))
+			s.ToMarker(m)
+			sub := &Scanner{full: s.full[:t], pos: int(m), Tracker: s.Tracker}
 			e = sub.Use(r.body)
 			if e != nil || !sub.AtEnd() {
 				break
 			}
-			return nil
+			s.ToMarker(t)
+			return r.tail.Read(s)
 		}
 	}
 	s.ToMarker(m)
-- 
2.43.0


From e2eea85300f4c915d7b59ecf934243e83aef5f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:51 +0000
Subject: [PATCH 15/45] fix: Any reports its own position if no alternative has
 a ReadError

The error was an unnamed ReadError at position 0, whatever the position of
the scanner was.
---
 reader.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index b68d977..1322dd0 100644
--- a/reader.go
+++ b/reader.go
@@ -79,12 +79,17 @@ type anyReader struct {
 
 func getDeepest(errs []error) error {
 	var deepest ReadError
+	found := false
 	for _, e := range errs {
 		re, ok := e.(ReadError)
 		if ok && re.Later(deepest) {
 			deepest = re
+			found = true
 		}
 	}
+	if !found {
+		return nil
+	}
 	return deepest
 }
 
@@ -99,7 +104,10 @@ func (r *anyReader) Read(s *Scanner) error {
 		}
 	}
 	s.ToMarker(m)
-	return getDeepest(errs)
+	if err := getDeepest(errs); err != nil {
+		return err
+	}
+	return s.ErrorFor(r.What())
 }
 
 func (r *anyReader) What() string {
-- 
2.43.0


From 5babde40a3172c828192c79dd4c8d957d0b90107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:52 +0000
Subject: [PATCH 16/45] fix: Monitor completes the log entry that it entered

Nested entries can move the Entries slice, and the exit position and the
error were then written to the old copy.
---
 monitor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monitor.go b/monitor.go
index cf3f8a3..f2c2e84 100644
--- a/monitor.go
+++ b/monitor.go
@@ -77,7 +77,11 @@ type monitorReader struct {
 
 func (r *monitorReader) Read(s *Scanner) error {
 	entry := r.log.Enter(r.info, s.pos)
+	i := len(r.log.Entries) - 1
 	err := r.sub.Read(s)
+	if i < len(r.log.Entries) {
+		entry = &r.log.Entries[i]
+	}
 	r.log.Exit(entry, s.pos, err)
 	return err
 }
-- 
2.43.0


From c731c4af2e49a59c488d562d01043022d2ce3058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:53 +0000
Subject: [PATCH 17/45] fix: PrintWithPreview shows the text at the entered
 position

EnterAt is a byte position but was used as a number of runes.
---
 monitor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monitor.go b/monitor.go
index f2c2e84..96abf95 100644
--- a/monitor.go
+++ b/monitor.go
@@ -60,7 +60,11 @@ func (l *Log) Print() {
 
 func (l *Log) PrintWithPreview(str string, n int) {
 	for _, e := range l.Entries {
-		fmt.Println(e, ">", strconv.Quote(subStringFrom(str, e.EnterAt, n)))
+		preview := ""
+		if e.EnterAt < len(str) {
+			preview, _ = getPrefix(str[e.EnterAt:], n)
+		}
+		fmt.Println(e, ">", strconv.Quote(preview))
 	}
 }
 
-- 
2.43.0


From b63795cb0cfe85434c14b042cdc11bffafa77f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:54 +0000
Subject: [PATCH 18/45] fix: sort Segments by a strict order

Covers||Before holds in both directions for equal Tokens and for an empty
Token at the start of another one, and is not transitive for clashing
Tokens. Covered Segments could appear before the covering one and equal
Tokens did not keep their order.
---
 segment.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/segment.go b/segment.go
index c280450..faf5204 100644
--- a/segment.go
+++ b/segment.go
@@ -28,6 +28,14 @@ func (v Segment) String() string {
 	return v.Info + v.Token.String()
 }
 
+// startsBefore orders by the start and puts at the same start the longer Segment first.
+func (v Segment) startsBefore(oth Segment) bool {
+	if v.from != oth.from {
+		return v.from < oth.from
+	}
+	return v.to > oth.to
+}
+
 type segSorter struct {
 	values  []Segment
 	cmpFunc func(Segment, Segment) bool
@@ -51,7 +59,7 @@ func SortSegments(values []Segment) {
 	sorter := &segSorter{
 		values: values,
 		cmpFunc: func(a, b Segment) bool {
-			return a.Covers(b.Token) || a.Before(b.Token)
+			return a.startsBefore(b)
 		},
 	}
 	sort.Stable(sorter)
@@ -64,7 +72,7 @@ func SortSegmentsByOrder(values []Segment, order []string) {
 		values: values,
 		cmpFunc: func(a, b Segment) bool {
 			if a.Token != b.Token {
-				return a.Covers(b.Token) || a.Before(b.Token)
+				return a.startsBefore(b)
 			}
 			ai, bi := -1, -1
 			for i, info := range order {
-- 
2.43.0


From 8179d820285358e023cc347fed4a8caeec433752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:20 +0000
Subject: [PATCH 19/45] fix: a MXT header without a salt does not inherit an
 old one

The salt of the last chunk was still expected when the grammar was used for
the next text.
---
 grammar/mxt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/grammar/mxt.go b/grammar/mxt.go
index 5edc60e..950ba5a 100644
--- a/grammar/mxt.go
+++ b/grammar/mxt.go
@@ -39,7 +39,9 @@ func MXT() *MXTReader {
 	g.Arrow.Reader = arrow
 	saltHead, saltTail := Janus("", Opt(&g.Word))
 	g.Salt.Reader = Seq(Many(' '), saltHead, Zom(' '))
-	g.Header.Reader = Seq(&g.Marker, Many(' '), &g.Name, &g.Comment, &g.Arrow, Opt(&g.Salt))
+	// a header without a salt has to replace the salt of the previous header too
+	noSalt := Seq(At(Any(NL(), AtEnd())), saltHead)
+	g.Header.Reader = Seq(&g.Marker, Many(' '), &g.Name, &g.Comment, &g.Arrow, Opt(Any(&g.Salt, noSalt)))
 	g.NextMarker.Reader = Seq(&g.NL, "//", saltTail)
 	g.EmptyContent.Reader = Any(AtEnd(), At(&g.NextMarker))
 	g.Content.Reader = To(Any(&g.NextMarker, AtEnd()))
-- 
2.43.0


From 7c180dd884b5aa39893b491f6a7843c2ec2d9858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 20/45] fix: the second Janus Reader keeps the expected sub
 string

It forgot the sub string as soon as it matched once, even if the sequence
around it failed. A Lua string like [=[]=x]=] could not be read and
[=[]=x]] was read as a closed string.
---
 reader.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/reader.go b/reader.go
index 1322dd0..4515466 100644
--- a/reader.go
+++ b/reader.go
@@ -527,11 +527,7 @@ type janusEndReader struct {
 }
 
 func (r *janusEndReader) Read(s *Scanner) error {
-	err := r.reader.Read(s)
-	if err == nil {
-		r.reader.str = ""
-	}
-	return err
+	return r.reader.Read(s)
 }
 
 func (r *janusEndReader) What() string {
-- 
2.43.0


From 35b9b6e42e45413a0157dfadfc77c0aa2dc38939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:22 +0000
Subject: [PATCH 21/45] fix: CheckRuleName checks the whole name

Only the beginning of the name was checked.
---
 grammar.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index bcacd3e..9e6fad9 100644
--- a/grammar.go
+++ b/grammar.go
@@ -141,7 +141,11 @@ func (r ruleNameReader) What() string {
 
 // CheckRuleName validates the Name field of a RuleReader.
 func CheckRuleName(name string) error {
-	return NewScanner(name).Use(RuleName())
+	s := NewScanner(name)
+	if err := s.Use(RuleName()); err != nil {
+		return err
+	}
+	return s.ErrorIfFalse(s.AtEnd(), RuleName().What())
 }
 
 // RuleName returns a Reader to validate a Name field of a RuleReader.
-- 
2.43.0


From b5ffddde3e84c6822d2f317e4313bf1c7cff801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:23 +0000
Subject: [PATCH 22/45] fix: CollectRules skips unexported fields instead of
 panicking

---
 grammar.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grammar.go b/grammar.go
index 9e6fad9..6ba5482 100644
--- a/grammar.go
+++ b/grammar.go
@@ -61,6 +61,9 @@ func CollectRules(g Grammar) []*Rule {
 	v := reflect.ValueOf(g).Elem()
 	for i := 0; i < v.NumField(); i++ {
 		field := v.Field(i)
+		if !field.CanInterface() {
+			continue
+		}
 		i := field.Addr().Interface()
 		ptr, ok := i.(*Rule)
 		if !ok {
-- 
2.43.0


From 48e38426ee6ad517a73a323ad575f302d3314c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:24 +0000
Subject: [PATCH 23/45] fix: SetRuleNames skips unexported fields instead of
 panicking

---
 grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index 6ba5482..c2bbf99 100644
--- a/grammar.go
+++ b/grammar.go
@@ -30,7 +30,7 @@ func SetRuleNames(g Grammar) error {
 	v := reflect.ValueOf(g).Elem()
 	for i := 0; i < t.NumField(); i++ {
 		field := t.Field(i)
-		if field.Type != reflect.TypeOf(Rule{}) {
+		if field.Type != reflect.TypeOf(Rule{}) || field.PkgPath != "" {
 			continue
 		}
 		name := field.Tag.Get("name")
-- 
2.43.0


From 8b65035bb9d2f9926997c7224f961188a4b4289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:37 +0000
Subject: [PATCH 24/45] fix: Lua operators that are the prefix of other
 operators come last

'<<', '>>' and '//' could never be read because '<', '>' and '/' matched
before.
---
 grammar/lua.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index ad3eafc..9dc2bfc 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -116,8 +116,8 @@ func Lua() *LuaReader {
 
 	g.UnOp.Reader = Any("-", "not", "#", "~")
 	g.BinOp.Reader = Any(
-		"..", "<=", "<", ">=", ">", "==", "~=", "and", "or",
-		"+", "-", "*", "/", "//", "^", "%", "&", "~", "|", ">>", "<<",
+		"..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", "and", "or",
+		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
 	skiper := Zom(Any(WS(), &g.Comment))
-- 
2.43.0


From efb880e0f766c767686e2453bf844d0cefc85edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:38 +0000
Subject: [PATCH 25/45] fix: a Lua line comment can end with the text

---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 9dc2bfc..4622317 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -41,7 +41,7 @@ func LuaString() Reader {
 }
 
 func LuaComment() Reader {
-	line := Seq("--", To('\n'))
+	line := Seq("--", To(Any('\n', AtEnd())))
 	cmtHead, cmtTail := Janus("", Zom("="))
 	longBeg := Seq("--[", cmtHead, '[')
 	longEnd := Seq(']', cmtTail, ']')
-- 
2.43.0


From cd4111e5e97602413e7df3e6e6fa0182542e19b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:38 +0000
Subject: [PATCH 26/45] fix: a Lua keyword is not a Name

'if x then return end' could not be read because 'end' was taken as the
returned value.
---
 grammar/lua.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 4622317..cad7bd6 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -49,6 +49,26 @@ func LuaComment() Reader {
 	return Any(long, line)
 }
 
+var luaKeywords = map[string]bool{
+	"and": true, "break": true, "do": true, "else": true, "elseif": true, "end": true,
+	"false": true, "for": true, "function": true, "goto": true, "if": true, "in": true,
+	"local": true, "nil": true, "not": true, "or": true, "repeat": true, "return": true,
+	"then": true, "true": true, "until": true, "while": true,
+}
+
+func luaName() Reader {
+	word := Seq(Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
+	return Wrap(word.What(), func(s *Scanner) error {
+		m := s.Mark()
+		str, err := s.CaptureUse(word)
+		if err == nil && luaKeywords[str] {
+			s.ToMarker(m)
+			err = s.ErrorFor("Name")
+		}
+		return err
+	})
+}
+
 type LuaReader struct {
 	SheBang       Rule `name:"SheBang"`
 	Name          Rule `name:"Name"`
@@ -108,7 +128,7 @@ func Lua() *LuaReader {
 	g := &LuaReader{}
 	MustSetRuleNames(g)
 	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
-	g.Name.Reader = Seq(Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
+	g.Name.Reader = luaName()
 	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(Seq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
-- 
2.43.0


From be9c7cdaab3be84f6c754e46e1b728b1484620f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:39 +0000
Subject: [PATCH 27/45] fix: a Lua keyword ends at the end of the word

Calls like localize(x) or gotoxy(1) and values like true_value could not be
read because the grammar took the beginning of the word as a keyword.
---
 grammar/lua.go | 55 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index cad7bd6..d3a09fe 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -56,6 +56,21 @@ var luaKeywords = map[string]bool{
 	"then": true, "true": true, "until": true, "while": true,
 }
 
+// luaWord creates a Reader for a keyword that is not the beginning of a longer word.
+func luaWord(str string) Reader {
+	word := Lit(str)
+	char := At(Set("a-zA-Z0-9", "_"))
+	return Wrap(word.What(), func(s *Scanner) error {
+		m := s.Mark()
+		err := word.Read(s)
+		if err == nil && char.Read(s) == nil {
+			s.ToMarker(m)
+			err = s.ErrorFor(word.What())
+		}
+		return err
+	})
+}
+
 func luaName() Reader {
 	word := Seq(Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
 	return Wrap(word.What(), func(s *Scanner) error {
@@ -134,9 +149,9 @@ func Lua() *LuaReader {
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
 
-	g.UnOp.Reader = Any("-", "not", "#", "~")
+	g.UnOp.Reader = Any("-", luaWord("not"), "#", "~")
 	g.BinOp.Reader = Any(
-		"..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", "and", "or",
+		"..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", luaWord("and"), luaWord("or"),
 		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
@@ -158,8 +173,8 @@ func Lua() *LuaReader {
 	varOrExp := Any(&g.Var, skipSeq('(', &g.Exp, ')'))
 
 	g.FuncParams.Reader = Any(skipSeq(&g.NameList, Opt(skipSeq(',', "..."))), "...")
-	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, "end")
-	g.FuncDef.Reader = SkipWSSeq(Lit("function"), &g.FuncBody)
+	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, luaWord("end"))
+	g.FuncDef.Reader = SkipWSSeq(luaWord("function"), &g.FuncBody)
 	g.FuncArgs.Reader = Any(
 		skipSeq('(', Opt(&g.ExpList), ')'),
 		&g.TableConstructor,
@@ -169,7 +184,7 @@ func Lua() *LuaReader {
 
 	g.PrefixExp.Reader = Seq(varOrExp, Zom(nameAndArgs))
 	g.FinalExp.Reader = Any(
-		"nil", "false", "true",
+		luaWord("nil"), luaWord("false"), luaWord("true"),
 		LuaNumeral(), &g.LiteralString, "...",
 		&g.FuncDef,
 		skipSeq(&g.UnOp, &g.Exp),
@@ -193,25 +208,25 @@ func Lua() *LuaReader {
 
 	g.FuncName.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq('.', &g.Name)), Opt(SkipWSSeq(':', &g.Name)))
 	g.Label.Reader = Seq(Lit("::"), &g.Name, Lit("::"))
-	g.RetStat.Reader = SkipWSSeq(Lit("return"), Opt(&g.ExpList), Opt(';'))
+	g.RetStat.Reader = SkipWSSeq(luaWord("return"), Opt(&g.ExpList), Opt(';'))
 	g.Attrib.Reader = Opt(Seq('<', &g.Name, '>'))
 	g.AttNameList.Reader = SkipWSSeq(&g.Name, &g.Attrib, Zom(SkipWSSeq(',', &g.Name, &g.Attrib)))
-	g.Break.Reader = Lit("break")
-	g.GoTo.Reader = SkipWSSeq("goto", &g.Name)
-	g.Do.Reader = SkipWSSeq("do", &g.Block, "end")
-	g.While.Reader = SkipWSSeq("while", &g.Exp, "do", &g.Block, "end")
-	g.Repeat.Reader = SkipWSSeq("repeat", &g.Block, "until", &g.Exp)
+	g.Break.Reader = luaWord("break")
+	g.GoTo.Reader = SkipWSSeq(luaWord("goto"), &g.Name)
+	g.Do.Reader = SkipWSSeq(luaWord("do"), &g.Block, luaWord("end"))
+	g.While.Reader = SkipWSSeq(luaWord("while"), &g.Exp, luaWord("do"), &g.Block, luaWord("end"))
+	g.Repeat.Reader = SkipWSSeq(luaWord("repeat"), &g.Block, luaWord("until"), &g.Exp)
 	g.IfElse.Reader = SkipWSSeq(
-		"if", &g.Exp, "then", &g.Block,
-		Zom(SkipWSSeq("elseif", &g.Exp, "then", &g.Block)),
-		Opt(SkipWSSeq("else", &g.Block)),
-		"end",
+		luaWord("if"), &g.Exp, luaWord("then"), &g.Block,
+		Zom(SkipWSSeq(luaWord("elseif"), &g.Exp, luaWord("then"), &g.Block)),
+		Opt(SkipWSSeq(luaWord("else"), &g.Block)),
+		luaWord("end"),
 	)
-	g.For.Reader = SkipWSSeq("for", &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(SkipWSSeq(',', &g.Exp)), "do", &g.Block, "end")
-	g.ForEach.Reader = SkipWSSeq("for", &g.NameList, "in", &g.ExpList, "do", &g.Block, "end")
-	g.Func.Reader = SkipWSSeq("function", &g.FuncName, &g.FuncBody)
-	g.LocalFunc.Reader = SkipWSSeq("local", "function", &g.Name, &g.FuncBody)
-	g.LocalAtt.Reader = SkipWSSeq("local", &g.AttNameList, Opt(SkipWSSeq('=', &g.ExpList)))
+	g.For.Reader = SkipWSSeq(luaWord("for"), &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(SkipWSSeq(',', &g.Exp)), luaWord("do"), &g.Block, luaWord("end"))
+	g.ForEach.Reader = SkipWSSeq(luaWord("for"), &g.NameList, luaWord("in"), &g.ExpList, luaWord("do"), &g.Block, luaWord("end"))
+	g.Func.Reader = SkipWSSeq(luaWord("function"), &g.FuncName, &g.FuncBody)
+	g.LocalFunc.Reader = SkipWSSeq(luaWord("local"), luaWord("function"), &g.Name, &g.FuncBody)
+	g.LocalAtt.Reader = SkipWSSeq(luaWord("local"), &g.AttNameList, Opt(SkipWSSeq('=', &g.ExpList)))
 	g.Stat.Reader = Any(
 		';',
 		Seq(&g.VarList, '=', &g.ExpList),
-- 
2.43.0


From e2c4b0fcc00b7dde4ee93a2113b65eb26716eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:04 +0000
Subject: [PATCH 28/45] fix: whitespace and comments are allowed between all
 Lua tokens

'for k, v in pairs(t)', 'function f(a, b)' and '{ 1, 2 }' could not be read,
and comments were only skipped in some of the rules.
---
 grammar/lua.go | 50 +++++++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index d3a09fe..852776f 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -144,7 +144,6 @@ func Lua() *LuaReader {
 	MustSetRuleNames(g)
 	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
 	g.Name.Reader = luaName()
-	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(Seq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
@@ -160,21 +159,22 @@ func Lua() *LuaReader {
 		return SkipSeq(skiper, list...)
 	}
 
+	g.NameList.Reader = skipSeq(&g.Name, Zom(skipSeq(',', &g.Name)))
 	g.FieldSep.Reader = AnyRune(",;")
 	g.Field.Reader = Any(
 		skipSeq('[', &g.Exp, ']', '=', &g.Exp),
 		skipSeq(&g.Name, '=', &g.Exp),
 		&g.Exp,
 	)
-	g.FieldList.Reader = skipSeq(&g.Field, Zom(Seq(&g.FieldSep, &g.Field)), Opt(&g.FieldSep))
+	g.FieldList.Reader = skipSeq(&g.Field, Zom(skipSeq(&g.FieldSep, &g.Field)), Opt(&g.FieldSep))
 	g.TableConstructor.Reader = skipSeq('{', Opt(&g.FieldList), '}')
 
-	nameAndArgs := skipSeq(Opt(Seq(':', &g.Name)), &g.FuncArgs)
+	nameAndArgs := skipSeq(Opt(skipSeq(':', &g.Name)), &g.FuncArgs)
 	varOrExp := Any(&g.Var, skipSeq('(', &g.Exp, ')'))
 
 	g.FuncParams.Reader = Any(skipSeq(&g.NameList, Opt(skipSeq(',', "..."))), "...")
 	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, luaWord("end"))
-	g.FuncDef.Reader = SkipWSSeq(luaWord("function"), &g.FuncBody)
+	g.FuncDef.Reader = skipSeq(luaWord("function"), &g.FuncBody)
 	g.FuncArgs.Reader = Any(
 		skipSeq('(', Opt(&g.ExpList), ')'),
 		&g.TableConstructor,
@@ -192,44 +192,44 @@ func Lua() *LuaReader {
 		&g.PrefixExp,
 	)
 	g.Exp.Reader = Any(
-		SkipWSSeq(&g.FinalExp, &g.BinOp, &g.Exp),
+		skipSeq(&g.FinalExp, &g.BinOp, &g.Exp),
 		&g.FinalExp,
 	)
 	g.ExpList.Reader = skipSeq(&g.Exp, Zom(skipSeq(',', &g.Exp)))
 	g.VarSuffix.Reader = skipSeq(Zom(nameAndArgs), Any(
 		skipSeq('[', &g.Exp, ']'),
-		Seq('.', &g.Name),
+		skipSeq('.', &g.Name),
 	))
 	g.Var.Reader = Seq(Any(
 		&g.Name,
 		skipSeq('(', &g.Exp, ')', &g.VarSuffix),
 	), Zom(&g.VarSuffix))
-	g.VarList.Reader = SkipWSSeq(&g.Var, Zom(SkipWSSeq(',', &g.Var)))
+	g.VarList.Reader = skipSeq(&g.Var, Zom(skipSeq(',', &g.Var)))
 
-	g.FuncName.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq('.', &g.Name)), Opt(SkipWSSeq(':', &g.Name)))
-	g.Label.Reader = Seq(Lit("::"), &g.Name, Lit("::"))
-	g.RetStat.Reader = SkipWSSeq(luaWord("return"), Opt(&g.ExpList), Opt(';'))
-	g.Attrib.Reader = Opt(Seq('<', &g.Name, '>'))
-	g.AttNameList.Reader = SkipWSSeq(&g.Name, &g.Attrib, Zom(SkipWSSeq(',', &g.Name, &g.Attrib)))
+	g.FuncName.Reader = skipSeq(&g.Name, Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)))
+	g.Label.Reader = skipSeq(Lit("::"), &g.Name, Lit("::"))
+	g.RetStat.Reader = skipSeq(luaWord("return"), Opt(&g.ExpList), Opt(';'))
+	g.Attrib.Reader = Opt(skipSeq('<', &g.Name, '>'))
+	g.AttNameList.Reader = skipSeq(&g.Name, &g.Attrib, Zom(skipSeq(',', &g.Name, &g.Attrib)))
 	g.Break.Reader = luaWord("break")
-	g.GoTo.Reader = SkipWSSeq(luaWord("goto"), &g.Name)
-	g.Do.Reader = SkipWSSeq(luaWord("do"), &g.Block, luaWord("end"))
-	g.While.Reader = SkipWSSeq(luaWord("while"), &g.Exp, luaWord("do"), &g.Block, luaWord("end"))
-	g.Repeat.Reader = SkipWSSeq(luaWord("repeat"), &g.Block, luaWord("until"), &g.Exp)
-	g.IfElse.Reader = SkipWSSeq(
+	g.GoTo.Reader = skipSeq(luaWord("goto"), &g.Name)
+	g.Do.Reader = skipSeq(luaWord("do"), &g.Block, luaWord("end"))
+	g.While.Reader = skipSeq(luaWord("while"), &g.Exp, luaWord("do"), &g.Block, luaWord("end"))
+	g.Repeat.Reader = skipSeq(luaWord("repeat"), &g.Block, luaWord("until"), &g.Exp)
+	g.IfElse.Reader = skipSeq(
 		luaWord("if"), &g.Exp, luaWord("then"), &g.Block,
-		Zom(SkipWSSeq(luaWord("elseif"), &g.Exp, luaWord("then"), &g.Block)),
-		Opt(SkipWSSeq(luaWord("else"), &g.Block)),
+		Zom(skipSeq(luaWord("elseif"), &g.Exp, luaWord("then"), &g.Block)),
+		Opt(skipSeq(luaWord("else"), &g.Block)),
 		luaWord("end"),
 	)
-	g.For.Reader = SkipWSSeq(luaWord("for"), &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(SkipWSSeq(',', &g.Exp)), luaWord("do"), &g.Block, luaWord("end"))
-	g.ForEach.Reader = SkipWSSeq(luaWord("for"), &g.NameList, luaWord("in"), &g.ExpList, luaWord("do"), &g.Block, luaWord("end"))
-	g.Func.Reader = SkipWSSeq(luaWord("function"), &g.FuncName, &g.FuncBody)
-	g.LocalFunc.Reader = SkipWSSeq(luaWord("local"), luaWord("function"), &g.Name, &g.FuncBody)
-	g.LocalAtt.Reader = SkipWSSeq(luaWord("local"), &g.AttNameList, Opt(SkipWSSeq('=', &g.ExpList)))
+	g.For.Reader = skipSeq(luaWord("for"), &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(skipSeq(',', &g.Exp)), luaWord("do"), &g.Block, luaWord("end"))
+	g.ForEach.Reader = skipSeq(luaWord("for"), &g.NameList, luaWord("in"), &g.ExpList, luaWord("do"), &g.Block, luaWord("end"))
+	g.Func.Reader = skipSeq(luaWord("function"), &g.FuncName, &g.FuncBody)
+	g.LocalFunc.Reader = skipSeq(luaWord("local"), luaWord("function"), &g.Name, &g.FuncBody)
+	g.LocalAtt.Reader = skipSeq(luaWord("local"), &g.AttNameList, Opt(skipSeq('=', &g.ExpList)))
 	g.Stat.Reader = Any(
 		';',
-		Seq(&g.VarList, '=', &g.ExpList),
+		skipSeq(&g.VarList, '=', &g.ExpList),
 		&g.Label,
 		&g.Break,
 		&g.GoTo,
-- 
2.43.0


From 61a7de6be31d1a313cf41735b0c28c7faf0c1560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:04 +0000
Subject: [PATCH 29/45] fix: Lua numerals can start or end with the radix point

---
 grammar/lua.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 852776f..5e35b13 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -9,9 +9,11 @@ import (
 
 func LuaNumeral() Reader {
 	hexExponent := Seq(AnyRune("pP"), Opt(AnyRune("+-")), Many(Digit()))
-	hexFloat := Seq('0', AnyRune("xX"), Many(HexDigit()), Opt(Seq('.', Many(HexDigit()))), Opt(hexExponent))
+	hexDigits := Any(Seq('.', Many(HexDigit())), Seq(Many(HexDigit()), Opt(Seq('.', Zom(HexDigit())))))
+	hexFloat := Seq('0', AnyRune("xX"), hexDigits, Opt(hexExponent))
 	exponent := Seq(AnyRune("eE"), Opt(AnyRune("+-")), Many(Digit()))
-	floatValue := Seq(Many(Digit()), Opt(Seq('.', Many(Digit()))), Opt(exponent))
+	digits := Any(Seq('.', Many(Digit())), Seq(Many(Digit()), Opt(Seq('.', Zom(Digit())))))
+	floatValue := Seq(digits, Opt(exponent))
 	intValue := Many(Digit())
 	hexValue := Seq('0', AnyRune("xX"), Many(HexDigit()))
 	return Any(hexFloat, hexValue, floatValue, intValue)
-- 
2.43.0


From 2fd7c804cc043f463dcd69494acca4e704870c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:05 +0000
Subject: [PATCH 30/45] fix: Lua strings can contain tabs and escaped line
 breaks

---
 grammar/lua.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 5e35b13..c934745 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -28,13 +28,14 @@ func LuaString() Reader {
 		Seq('\\', Between('0', '2'), Times(2, Digit())),
 	)
 	escapeSequence := Any(
-		Seq('\\', AnyRune("abfnrtvz\"'\\")),
+		Seq("\\z", Zom(WS())),
+		Seq('\\', Any("\r\n", AnyRune("abfnrtvz\"'\\\r\n"))),
 		decimalEscape,
 		hexEscape,
 		utfEscape,
 	)
-	normalString := Seq('"', Zom(Any(Holey(' ', utf8.MaxRune, `"\`), escapeSequence)), '"')
-	charString := Seq('\'', Zom(Any(Holey(' ', utf8.MaxRune, `'\`), escapeSequence)), '\'')
+	normalString := Seq('"', Zom(Any(Holey(0, utf8.MaxRune, "\"\\\r\n"), escapeSequence)), '"')
+	charString := Seq('\'', Zom(Any(Holey(0, utf8.MaxRune, "'\\\r\n"), escapeSequence)), '\'')
 	strHead, strTail := Janus("", Zom("="))
 	longBeg := Seq('[', strHead, '[')
 	longEnd := Seq(']', strTail, ']')
-- 
2.43.0


From fef06a36d4e8ce041a4dd7ecc2b90193bf03b3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:56 +0000
Subject: [PATCH 31/45] fix: BodyTail moves back if its tail does not match
 again

---
 reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 4515466..ad25328 100644
--- a/reader.go
+++ b/reader.go
@@ -374,7 +374,10 @@ func (r *bodyTailReader) Read(s *Scanner) error {
 				break
 			}
 			s.ToMarker(t)
-			return r.tail.Read(s)
+			if r.tail.Read(s) != nil {
+				break
+			}
+			return nil
 		}
 	}
 	s.ToMarker(m)
-- 
2.43.0


From fa1c022b944f5cea0b7859d0110c859908b5cea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:32 +0000
Subject: [PATCH 32/45] fix: vertical tab and form feed are spaces in Lua

---
 grammar/lua.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index c934745..dd024e6 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -7,6 +7,11 @@ import (
 	. "github.com/aiq/tok"
 )
 
+// luaSpace creates a Reader to read one of the runes that Lua recognizes as space.
+func luaSpace() Reader {
+	return AnyRune(" \t\r\n\v\f")
+}
+
 func LuaNumeral() Reader {
 	hexExponent := Seq(AnyRune("pP"), Opt(AnyRune("+-")), Many(Digit()))
 	hexDigits := Any(Seq('.', Many(HexDigit())), Seq(Many(HexDigit()), Opt(Seq('.', Zom(HexDigit())))))
@@ -28,7 +33,7 @@ func LuaString() Reader {
 		Seq('\\', Between('0', '2'), Times(2, Digit())),
 	)
 	escapeSequence := Any(
-		Seq("\\z", Zom(WS())),
+		Seq("\\z", Zom(luaSpace())),
 		Seq('\\', Any("\r\n", AnyRune("abfnrtvz\"'\\\r\n"))),
 		decimalEscape,
 		hexEscape,
@@ -157,7 +162,7 @@ func Lua() *LuaReader {
 		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
-	skiper := Zom(Any(WS(), &g.Comment))
+	skiper := Zom(Any(luaSpace(), &g.Comment))
 	skipSeq := func(list ...interface{}) Reader {
 		return SkipSeq(skiper, list...)
 	}
-- 
2.43.0


From 25c766c8d6dbe9a886a668dcb8c656a67c06cef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:33 +0000
Subject: [PATCH 33/45] fix: a Lua line comment ends at every line break and
 does not open a long bracket

---
 grammar/lua.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index dd024e6..b388139 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -49,7 +49,8 @@ func LuaString() Reader {
 }
 
 func LuaComment() Reader {
-	line := Seq("--", To(Any('\n', AtEnd())))
+	notLong := Any(AtEnd(), At(Not(Seq('[', Zom('='), '['))))
+	line := Seq("--", notLong, To(Any('\r', '\n', AtEnd())))
 	cmtHead, cmtTail := Janus("", Zom("="))
 	longBeg := Seq("--[", cmtHead, '[')
 	longEnd := Seq(']', cmtTail, ']')
-- 
2.43.0


From e82604c76fddd53f82e9f5db958d0a18f1c07d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:50 +0000
Subject: [PATCH 34/45] fix: Lua escape sequences have a maximal value

---
 grammar/lua.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index b388139..3f93c5e 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -25,13 +25,13 @@ func LuaNumeral() Reader {
 }
 
 func LuaString() Reader {
-	utfEscape := Seq("\\u{", Many(HexDigit()), "}")
+	utfEscape := Seq("\\u{", At(HexDigit()), Int(16, 32), "}")
 	hexEscape := Seq("\\x", Times(2, HexDigit()))
-	decimalEscape := Any(
-		Seq('\\', Digit()),
-		Seq('\\', Times(2, Digit())),
-		Seq('\\', Between('0', '2'), Times(2, Digit())),
-	)
+	decimalEscape := Seq('\\', Any(
+		Seq(AnyRune("01"), Times(2, Digit())),
+		Seq('2', Any(Seq(Between('0', '4'), Digit()), Seq('5', Between('0', '5')))),
+		Seq(Digit(), Opt(Digit()), At(Not(Digit()))),
+	))
 	escapeSequence := Any(
 		Seq("\\z", Zom(luaSpace())),
 		Seq('\\', Any("\r\n", AnyRune("abfnrtvz\"'\\\r\n"))),
-- 
2.43.0


From 9b723c246b3db22bc952f7cca164000c54fa55f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:50 +0000
Subject: [PATCH 35/45] fix: a Lua numeral is not followed by the rest of a
 word

---
 grammar/lua.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 3f93c5e..f518fa3 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -192,9 +192,10 @@ func Lua() *LuaReader {
 	g.FuncCall.Reader = Seq(varOrExp, Many(nameAndArgs))
 
 	g.PrefixExp.Reader = Seq(varOrExp, Zom(nameAndArgs))
+	numeralEnd := Any(AtEnd(), At(Not(Set("a-zA-Z0-9", "_."))))
 	g.FinalExp.Reader = Any(
 		luaWord("nil"), luaWord("false"), luaWord("true"),
-		LuaNumeral(), &g.LiteralString, "...",
+		Seq(LuaNumeral(), numeralEnd), &g.LiteralString, "...",
 		&g.FuncDef,
 		skipSeq(&g.UnOp, &g.Exp),
 		&g.TableConstructor,
-- 
2.43.0


From 9a9ecf704f4dac0d4e7f17c2ffd6605130f1fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:39 +0000
Subject: [PATCH 36/45] fix: spaces are skipped behind ';' and 'break' in Lua

---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index f518fa3..9a16809 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -254,7 +254,7 @@ func Lua() *LuaReader {
 		&g.LocalAtt,
 		&g.FuncCall,
 	)
-	g.Block.Reader = skipSeq(Zom(&g.Stat), Opt(&g.RetStat))
+	g.Block.Reader = skipSeq(Zom(skipSeq(&g.Stat)), Opt(&g.RetStat))
 	g.Chunk.Reader = &g.Block
 	g.Script.Reader = Seq(Opt(&g.SheBang), &g.Block)
 
-- 
2.43.0


From 1fe96d9eab3c40c8e63ca672d2426f63fa199fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:27 +0000
Subject: [PATCH 37/45] fix: reading a Lua expression needs no exponential time
 for chains of operators

---
 grammar/lua.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 9a16809..cc5758c 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -201,10 +201,7 @@ func Lua() *LuaReader {
 		&g.TableConstructor,
 		&g.PrefixExp,
 	)
-	g.Exp.Reader = Any(
-		skipSeq(&g.FinalExp, &g.BinOp, &g.Exp),
-		&g.FinalExp,
-	)
+	g.Exp.Reader = Seq(&g.FinalExp, Opt(skipSeq(&g.BinOp, &g.Exp)))
 	g.ExpList.Reader = skipSeq(&g.Exp, Zom(skipSeq(',', &g.Exp)))
 	g.VarSuffix.Reader = skipSeq(Zom(nameAndArgs), Any(
 		skipSeq('[', &g.Exp, ']'),
-- 
2.43.0


From b01a87b3018b8373ad015b6be207de89c5ff4d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:50 +0000
Subject: [PATCH 38/45] fix: the Lua rule Numeral reads the numerals of
 expressions

---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index cc5758c..6ed675c 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -195,7 +195,7 @@ func Lua() *LuaReader {
 	numeralEnd := Any(AtEnd(), At(Not(Set("a-zA-Z0-9", "_."))))
 	g.FinalExp.Reader = Any(
 		luaWord("nil"), luaWord("false"), luaWord("true"),
-		Seq(LuaNumeral(), numeralEnd), &g.LiteralString, "...",
+		Seq(&g.Numeral, numeralEnd), &g.LiteralString, "...",
 		&g.FuncDef,
 		skipSeq(&g.UnOp, &g.Exp),
 		&g.TableConstructor,
-- 
2.43.0


From aeedfd2a218a44706be94f90f87b9b32e4a83aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:13 +0000
Subject: [PATCH 39/45] fix: order segments by the first mention of their info

An info that is mentioned more than once in the order list was ordered by
another mention, depending on the info it was compared with, which is no
order: with a, b, x, c, a the result depended on the order of the input.
---
 segment.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/segment.go b/segment.go
index faf5204..a10b860 100644
--- a/segment.go
+++ b/segment.go
@@ -76,12 +76,11 @@ func SortSegmentsByOrder(values []Segment, order []string) {
 			}
 			ai, bi := -1, -1
 			for i, info := range order {
-				if a.Info == info {
+				if ai == -1 && a.Info == info {
 					ai = i
-				} else if b.Info == info {
+				}
+				if bi == -1 && b.Info == info {
 					bi = i
-				} else if ai != -1 && bi != -1 {
-					break
 				}
 			}
 
-- 
2.43.0


From f4ae516876416f5f5cd75db1c8b21a72d5d1ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:30 +0000
Subject: [PATCH 40/45] fix: a Lua shebang line can end with the text

A script that consists of a shebang line without line break was not read.
---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 6ed675c..bdafa77 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -151,7 +151,7 @@ type LuaReader struct {
 func Lua() *LuaReader {
 	g := &LuaReader{}
 	MustSetRuleNames(g)
-	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
+	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n', AtEnd())))
 	g.Name.Reader = luaName()
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
-- 
2.43.0


From b92d95e5f462cb2cd84d4cb03fdf18f7a1a99458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:41 +0000
Subject: [PATCH 41/45] fix: later reads do not change a list that Picked
 returned

---
 tracker.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracker.go b/tracker.go
index 812de8c..afe082f 100644
--- a/tracker.go
+++ b/tracker.go
@@ -49,8 +49,9 @@ func (b *Basket) Update(m Marker) {
 }
 
 // Picked returns the picked Segments.
+// Later reads do not change the returned list.
 func (b *Basket) Picked() []Segment {
-	return b.segments
+	return append([]Segment{}, b.segments...)
 }
 
 func (b *Basket) String() string {
-- 
2.43.0


From 4bf93a115edc1ba38b108220415f06a9a4e70394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:03 +0000
Subject: [PATCH 42/45] fix: a Reset during a read does not disturb the later
 log entries

---
 monitor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monitor.go b/monitor.go
index 96abf95..e7cfb53 100644
--- a/monitor.go
+++ b/monitor.go
@@ -21,6 +21,7 @@ func (e LogEntry) String() string {
 type Log struct {
 	Entries []LogEntry
 	level   int
+	resets  int
 }
 
 func MonitorGrammar(g Grammar) *Log {
@@ -71,6 +72,7 @@ func (l *Log) PrintWithPreview(str string, n int) {
 func (l *Log) Reset() {
 	l.Entries = []LogEntry{}
 	l.level = 0
+	l.resets++
 }
 
 type monitorReader struct {
@@ -82,7 +84,11 @@ type monitorReader struct {
 func (r *monitorReader) Read(s *Scanner) error {
 	entry := r.log.Enter(r.info, s.pos)
 	i := len(r.log.Entries) - 1
+	resets := r.log.resets
 	err := r.sub.Read(s)
+	if resets != r.log.resets {
+		return err
+	}
 	if i < len(r.log.Entries) {
 		entry = &r.log.Entries[i]
 	}
-- 
2.43.0


From 4e5ba95523246b20aa4885e9ac1f670e1af351c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:07 +0000
Subject: [PATCH 43/45] fix: a quote in a range is described completely

---
 reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index ad25328..7992425 100644
--- a/reader.go
+++ b/reader.go
@@ -211,7 +211,8 @@ func (r betweenReader) Read(s *Scanner) error {
 }
 
 func quoteRune(r rune) string {
-	return strings.Trim(strconv.QuoteRuneToGraphic(r), "'")
+	q := strconv.QuoteRuneToGraphic(r)
+	return q[1 : len(q)-1]
 }
 
 func quoteBetween(min, max rune) string {
-- 
2.43.0


From db7480259e7c156839da2008a0ae2068d1b86e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:04 +0000
Subject: [PATCH 44/45] fix: RevTo and RevToFold find the empty string at the
 start

An empty string appears at every position, also at the start of the text.
To and ToFold already found it at the end, the mirrored functions only in
front of a rune.
---
 scanner_rev.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scanner_rev.go b/scanner_rev.go
index d30c3d9..8935ff6 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -44,7 +44,7 @@ func (s *Scanner) RevTo(str string) bool {
 		}
 	}
 
-	return false
+	return str == ""
 }
 
 // ------------------------------------------------------------------------ fold
@@ -67,7 +67,7 @@ func (s *Scanner) RevToFold(str string) bool {
 		}
 	}
 
-	return false
+	return str == ""
 }
 
 // ------------------------------------------------------------------------ rune
-- 
2.43.0


From a0cf31a81e7b392fae44fffd986623fed3b7c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:00 +0000
Subject: [PATCH 45/45] fix: the JSON rule digits reads with the rule digit

Digits had a reader of its own, so that picking, mapping or monitoring
the rule digit never reported anything.
---
 grammar/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/json.go b/grammar/json.go
index 1b39529..003a679 100644
--- a/grammar/json.go
+++ b/grammar/json.go
@@ -45,7 +45,7 @@ func JSON() *JSONReader {
 	g.Sign.Reader = Opt(AnyRune("+-"))
 	g.OneNine.Reader = Between('1', '9')
 	g.Digit.Reader = Digit()
-	g.Digits.Reader = Many(Digit())
+	g.Digits.Reader = Many(&g.Digit)
 	g.Exponent.Reader = Opt(Seq(AnyRune("eE"), &g.Sign, &g.Digits))
 	g.Fraction.Reader = Opt(Seq('.', &g.Digits))
 	g.Integer.Reader = Seq(Opt(Rune('-')), Any(Rune('0'), Seq(&g.OneNine, Opt(&g.Digits))))
-- 
2.43.0

