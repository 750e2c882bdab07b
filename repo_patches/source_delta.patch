From ddeb799ac0a68600c0ca05a5d0eb24d7b4185b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:44 +0000
Subject: [PATCH 01/62] fix: keep the exact source text when converting an
 inner node to an error

---
 typst/syntax/node.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index 97edac2..be06ccf 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -162,10 +162,7 @@ func (node *SyntaxNode) into_text() string {
 		return repr.Text
 	case *InnerNode:
 		buf := &strings.Builder{}
-		for i, child := range repr.Children {
-			if i != 0 {
-				buf.WriteString(" ")
-			}
+		for _, child := range repr.Children {
 			buf.WriteString(child.into_text())
 		}
 		return buf.String()
-- 
2.43.0


From 5dfaefee17defef27e5a8b4a9c813bb20f5f995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:50 +0000
Subject: [PATCH 02/62] fix: lex a lone minus as an operator instead of as
 subtract-assign

---
 typst/syntax/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 3dd18f8..5443436 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -942,7 +942,7 @@ func (lexer *Lexer) code(start uint, c rune) SyntaxKind {
 		return SyntaxKindGtEq
 	case c == '+' && lexer.s.EatIf("="):
 		return SyntaxKindPlusEq
-	case c == '-' || c == '\u2212' && lexer.s.EatIf("="):
+	case (c == '-' || c == '\u2212') && lexer.s.EatIf("="):
 		return SyntaxKindHyphEq
 	case c == '*' && lexer.s.EatIf("="):
 		return SyntaxKindStarEq
-- 
2.43.0


From e63b76e3d8f054d40e6b61d3025333b60377811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 03/62] fix: return the union of two syntax sets instead of
 discarding it

---
 typst/syntax/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/set.go b/typst/syntax/set.go
index 0e9bf7b..b2a2f5c 100644
--- a/typst/syntax/set.go
+++ b/typst/syntax/set.go
@@ -34,7 +34,7 @@ func (set *SyntaxSet) Add(kind SyntaxKind) *SyntaxSet {
 // The original set is not modified.
 func (set *SyntaxSet) Union(other *SyntaxSet) *SyntaxSet {
 	clone := set.Clone()
-	clone.b.Union(other.b)
+	clone.b.InPlaceUnion(other.b)
 	return clone
 }
 
-- 
2.43.0


From 9cf9bfb8ad32cb031d4a04776e9f6c05b1d53264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 04/62] fix: treat U+FFFD like any other character when
 checking boundaries

---
 internal/stdx/stdx.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/stdx/stdx.go b/internal/stdx/stdx.go
index cb44739..5566c14 100644
--- a/internal/stdx/stdx.go
+++ b/internal/stdx/stdx.go
@@ -22,8 +22,10 @@ func IsCharBoundary(str string, index uint) bool {
 	if index == 0 || index == uint(len(str)) {
 		return true
 	}
-	c, _ := utf8.DecodeRuneInString(str[index:])
-	return c != utf8.RuneError
+	if index > uint(len(str)) {
+		return false
+	}
+	return utf8.RuneStart(str[index])
 }
 
 // IsWhitespace reports whether the given character has the White_Space
-- 
2.43.0


From 47ba0546820ccd9d4951fd3d18266947b4e450cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:25 +0000
Subject: [PATCH 05/62] fix: consume a single character when eating a character
 class

---
 internal/scanner/scanner.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/internal/scanner/scanner.go b/internal/scanner/scanner.go
index 10447c0..76cc9f6 100644
--- a/internal/scanner/scanner.go
+++ b/internal/scanner/scanner.go
@@ -227,28 +227,21 @@ func (s *Scanner) EatIf(pattern string) bool {
 	return true
 }
 
-// EatIfFunc consumes the given pattern (a sequence of characters that satisfy
-// cond) if that's what's right after the cursor.
+// EatIfFunc consumes the given pattern (a single character that satisfies cond)
+// if that's what's right after the cursor.
 //
 // Returns true if the pattern was consumed.
 func (s *Scanner) EatIfFunc(cond func(rune) bool) bool {
-	after := s.After()
-	n := 0
-	for _, c := range after {
-		if !cond(c) {
-			break
-		}
-		n += utf8.RuneLen(c)
-	}
-	if n == 0 {
+	c, ok := s.Peek()
+	if !ok || !cond(c) {
 		return false
 	}
-	s.cursor += uint(n)
+	s.cursor += uint(utf8.RuneLen(c))
 	return true
 }
 
-// EatIfAny consumes the given pattern (a sequence of any of the given
-// characters) if that's what's right after the cursor.
+// EatIfAny consumes the given pattern (any one of the given characters) if
+// that's what's right after the cursor.
 //
 // Returns true if the pattern was consumed.
 func (s *Scanner) EatIfAny(valid []rune) bool {
-- 
2.43.0


From 2e1039b25036faf103d3e24e018c5884e82689c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 06/62] fix: lex a decimal point at the end of input as part of
 the number

---
 typst/syntax/lexer.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 5443436..a2b5510 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -1044,12 +1044,10 @@ func (lexer *Lexer) number(start uint, first_c rune) SyntaxKind {
 		if first_c == '.' {
 			is_float = true // We already ate the trailing digits above.
 		} else if !lexer.s.At("..") {
-			if c, ok := lexer.s.Scout(1); ok {
-				if !is_id_start(c) {
-					if lexer.s.EatIf(".") {
-						is_float = true
-						lexer.s.EatWhileFunc(stdx.IsAsciiDigit)
-					}
+			if c, ok := lexer.s.Scout(1); !ok || !is_id_start(c) {
+				if lexer.s.EatIf(".") {
+					is_float = true
+					lexer.s.EatWhileFunc(stdx.IsAsciiDigit)
 				}
 			}
 		}
-- 
2.43.0


From a2bc472a536dea19fa5cb0311c3320578412cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 07/62] fix: accept floating point literals whose magnitude is
 out of range

---
 typst/syntax/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index a2b5510..8f5b793 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -1436,7 +1436,8 @@ func GraphemeLen(str string) (int, bool) {
 
 func valid_float(str string) bool {
 	_, err := strconv.ParseFloat(str, 64)
-	return err == nil
+	// Magnitudes out of range are infinite, not invalid.
+	return err == nil || errors.Is(err, strconv.ErrRange)
 }
 
 func valid_uint(str string) bool {
-- 
2.43.0


From 3646cb8caf7cd32dda83c7aacd6093214fa2f218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 08/62] fix: dedent and trim raw blocks as documented

---
 typst/syntax/lexer.go | 134 ++++++++++++++++++++----------------------
 1 file changed, 63 insertions(+), 71 deletions(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 8f5b793..2e0a042 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -420,83 +420,56 @@ func (lexer *Lexer) blocky_raw(inner_end uint, push_raw func(SyntaxKind, *scanne
 	// The rest of the function operates on the lines between the backticks.
 	lines := split_newlines(lexer.s.To(inner_end))
 
-	// Determine dedent level.
-	// TODO: figure out how to handle.
-	const dedent = 0 // TODO: remove
-	/*
-		dedent := lines
-			.iter()
-			.skip(1)
-			.filter(|line| !line.chars().all(stdx.IsWhitespace))
-			// The line with the closing ``` is always taken into account
-			.chain(lines.last())
-			.map(|line| line.chars().take_while(|c| c.is_whitespace()).count())
-			.min()
-			.unwrap_or(0);
-	*/
-
-	// TODO: figure out how to handle.
-	/*
-		// Trim whitespace from the last line. Will be added as a `RawTrimmed`
-		// kind by the check for `lexer.s.cursor() != inner_end` below.
-		if lines.last().is_some_and(|last| last.chars().all(stdx.IsWhitespace)) {
-			lines.pop();
-		} else if let Some(last) = lines.last_mut() {
-			// If last line ends in a backtick, try to trim a single space. This
-			// check must happen before we add the first line since the last and
-			// first lines might be the same.
-			if last.trim_end().ends_with('`') {
-				*last = last.strip_suffix(' ').unwrap_or(last);
-			}
+	// Determine dedent level. The line with the closing delimiter is always
+	// taken into account.
+	last := len(lines) - 1
+	dedent := count_leading_whitespace(lines[last])
+	for _, line := range lines[1:] {
+		if !all_whitespace(line) {
+			dedent = min(dedent, count_leading_whitespace(line))
 		}
+	}
 
-		let mut lines = lines.into_iter();
-
-		// Handle the first line: trim if all whitespace, or trim a single space
-		// at the start. Note that the first line does not affect the dedent
-		// value.
-		if let Some(first_line) = lines.next() {
-			if first_line.chars().all(stdx.IsWhitespace) {
-				scanner_advance(lexer.s, first_line.len())
-				// This is the only spot we advance the scanner, but don't
-				// immediately call `push_raw`. But the rest of the function
-				// ensures we will always add this text to a `RawTrimmed` later.
-				debug_assert!(lexer.s.cursor() != inner_end);
-				// A proof by cases follows:
-				// # First case: The loop runs
-				// If the loop runs, there must be a newline following, so
-				// `cursor != inner_end`. And if the loop runs, the first thing
-				// it does is add a trimmed element.
-				// # Second case: The final if-statement runs.
-				// To _not_ reach the loop from here, we must have only one or
-				// two lines:
-				// 1. If one line, we cannot be here, because the first and last
-				//    lines are the same, so this line will have been removed by
-				//    the check for the last line being all whitespace.
-				// 2. If two lines, the loop will run unless the last is fully
-				//    whitespace, but if it is, it will have been popped, then
-				//    the final if-statement will run because the text removed
-				//    by the last line must include at least a newline, so
-				//    `cursor != inner_end` here.
-			} else {
-				let line_end = lexer.s.cursor() + first_line.len();
-				if lexer.s.EatIf(" ") {
-					// Trim a single space after the lang tag on the first line.
-					push_raw(SyntaxKindRawTrimmed, &lexer.s);
-				}
-				// We know here that the rest of the line is non-empty.
-				lexer.s.jump(line_end);
-				push_raw(SyntaxKindText, &lexer.s);
+	if all_whitespace(lines[last]) {
+		// Trim whitespace from the last line. Will be added as a `RawTrimmed`
+		// kind by the check for `lexer.s.Cursor() < inner_end` below.
+		lines = lines[:last]
+	} else if strings.HasSuffix(strings.TrimRightFunc(lines[last], stdx.IsWhitespace), "`") {
+		// If last line ends in a backtick, try to trim a single space. This
+		// check must happen before we add the first line since the last and
+		// first lines might be the same.
+		lines[last] = strings.TrimSuffix(lines[last], " ")
+	}
+
+	// Handle the first line: trim if all whitespace, or trim a single space at
+	// the start. Note that the first line does not affect the dedent value.
+	if len(lines) > 0 {
+		first_line := lines[0]
+		lines = lines[1:]
+		if all_whitespace(first_line) {
+			// Added as part of the next `RawTrimmed` below.
+			scanner_advance(lexer.s, uint(len(first_line)))
+		} else {
+			line_end := lexer.s.Cursor() + uint(len(first_line))
+			if lexer.s.EatIf(" ") {
+				// Trim a single space after the lang tag on the first line.
+				push_raw(SyntaxKindRawTrimmed, lexer.s)
 			}
+			// We know here that the rest of the line is non-empty.
+			lexer.s.Jump(line_end)
+			push_raw(SyntaxKindText, lexer.s)
 		}
-	*/
+	}
+
 	// Add lines.
 	for _, line := range lines {
-		// TODO: figure out how to handle.
-		const offset = 0 // TODO: remove
-		/*
-			offset := line.chars().take(dedent).map(char::len_utf8).sum()
-		*/
+		offset := uint(0)
+		for i, c := range []rune(line) {
+			if i >= dedent {
+				break
+			}
+			offset += uint(utf8.RuneLen(c))
+		}
 		eat_newline(lexer.s)
 		scanner_advance(lexer.s, offset)
 		push_raw(SyntaxKindRawTrimmed, lexer.s)
@@ -1335,6 +1308,25 @@ func split_newlines(text string) []string {
 	return lines
 }
 
+// Whether the text consists of whitespace only.
+func all_whitespace(text string) bool {
+	return !strings.ContainsFunc(text, func(c rune) bool {
+		return !stdx.IsWhitespace(c)
+	})
+}
+
+// Count the number of leading whitespace characters in text.
+func count_leading_whitespace(text string) int {
+	n := 0
+	for _, c := range text {
+		if !stdx.IsWhitespace(c) {
+			break
+		}
+		n++
+	}
+	return n
+}
+
 // Count the number of newlines in text.
 func count_newlines(text string) uint {
 	newlines := uint(0)
-- 
2.43.0


From a6d1ac9582bae1a79fb3b197f68cb3a996d1e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 09/62] fix: name the character that is not valid in code
 instead of its number

---
 typst/syntax/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 2e0a042..333b8d0 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -967,7 +967,7 @@ func (lexer *Lexer) code(start uint, c rune) SyntaxKind {
 		return lexer.ident(start)
 
 	default:
-		return lexer.error(fmt.Sprintf("the character `%v` is not valid in code", c))
+		return lexer.error(fmt.Sprintf("the character `%c` is not valid in code", c))
 	}
 }
 
-- 
2.43.0


From 2e39c1ce12d6a043bc953d9c6126985945de76ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 10/62] fix: return no expression instead of dereferencing nil
 when a node is none

---
 typst/syntax/ast.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index a821d67..13ed6c2 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -134,6 +134,7 @@ func SyntaxNode_cast[T AstNode](node *SyntaxNode) option.Option[T] {
 		if expr, ok := Expr_from_untyped(node).Get(); ok {
 			return option.Some[T](expr.(T))
 		}
+		return option.None[T]()
 	}
 	if _n, ok := zero.from_untyped(node).Get(); ok {
 		n := _n.(T)
-- 
2.43.0


From 78a02d694a6d3ed4cb9a05957f0b2687ac0d4e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:39 +0000
Subject: [PATCH 11/62] fix: report duplicate empty string keys in dictionaries

---
 typst/syntax/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/typst/syntax/parser.go b/typst/syntax/parser.go
index 5f5581f..41494ef 100644
--- a/typst/syntax/parser.go
+++ b/typst/syntax/parser.go
@@ -1305,15 +1305,16 @@ func array_or_dict_item(p *Parser, state *GroupState) {
 		}
 
 		var key string
+		var has_key bool
 		if expr, ok := SyntaxNode_cast[Expr](node).Get(); ok {
 			switch expr := expr.(type) {
 			case *Ident:
-				key = expr.get()
+				key, has_key = expr.get(), true
 			case *Str:
-				key = expr.get()
+				key, has_key = expr.get(), true
 			}
 		}
-		if len(key) > 0 {
+		if has_key {
 			if !map_insert(state.seen, key) {
 				node.convert_to_error(fmt.Sprintf("duplicate key: %v", key))
 			}
-- 
2.43.0


From bdfc0b0d07e024bbef96e559ece55f1bcadea892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 12/62] fix: keep the text of string escapes which name no
 character

---
 typst/syntax/ast.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 13ed6c2..4c10ed6 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -85,6 +85,7 @@ import (
 	"slices"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/mewmew/typast/internal/option"
 	"github.com/mewmew/typast/internal/scanner"
@@ -1390,13 +1391,12 @@ func (node *Str) get() string {
 			sequence := s.EatWhileFunc(stdx.IsAsciiHexdigit)
 			s.EatIf("}")
 			x, err := strconv.ParseUint(sequence, 16, 32)
-			if err != nil {
+			if err != nil || x > utf8.MaxRune || !utf8.ValidRune(rune(x)) {
 				// TODO: report warning?
 				out.WriteString(s.From(start))
 				continue
 			}
-			r := rune(x) // TODO: handle invalid rune (using `out.WriteString(s.From(start))`)?
-			out.WriteRune(r)
+			out.WriteRune(rune(x))
 		default:
 			out.WriteString(s.From(start))
 		}
-- 
2.43.0


From 9634851d354047888bdb82dfd1b6549264b9a02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:20 +0000
Subject: [PATCH 13/62] fix: stop the common prefix and suffix of a replacement
 at the first difference

---
 typst/syntax/lines.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 9e1e829..1328048 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -229,9 +229,10 @@ func (l *Lines) ReplacementRange(new string) (ReplacementRange, bool) {
 	n := min(len(old), len(new))
 	prefix := 0
 	for i := 0; i < n; i++ {
-		if old[i] == new[i] {
-			prefix++
+		if old[i] != new[i] {
+			break
 		}
+		prefix++
 	}
 
 	for !stdx.IsCharBoundary(old, uint(prefix)) || !stdx.IsCharBoundary(new, uint(prefix)) {
@@ -240,13 +241,14 @@ func (l *Lines) ReplacementRange(new string) (ReplacementRange, bool) {
 
 	suffix := 0
 	for i, j := len(old)-1, len(new)-1; i >= prefix && j >= prefix; i, j = i-1, j-1 {
-		if old[i] == new[j] {
-			suffix++
+		if old[i] != new[j] {
+			break
 		}
+		suffix++
 	}
 
 	for !stdx.IsCharBoundary(old, uint(len(old)-suffix)) || !stdx.IsCharBoundary(new, uint(len(new)-suffix)) {
-		suffix++
+		suffix--
 	}
 
 	return ReplacementRange{
-- 
2.43.0


From 18b131e8b200f9445a8b47c9e018890fc22ae42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:27 +0000
Subject: [PATCH 14/62] fix: report huge positions as out of bounds instead of
 panicking

---
 typst/syntax/lines.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 1328048..3fc7399 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -73,7 +73,7 @@ func (l *Lines) ByteToUtf16(byteIdx uint) (uint, bool) {
 //
 // It returns false if the byte index is out of bounds.
 func (l *Lines) ByteToLine(byteIdx uint) (uint, bool) {
-	if int(byteIdx) > len(l.Text) {
+	if byteIdx > uint(len(l.Text)) {
 		return 0, false
 	}
 	i := sort.Search(len(l.Lines), func(i int) bool {
@@ -152,7 +152,7 @@ func (l *Lines) Utf16ToByte(utf16Idx uint) (uint, bool) {
 //
 // It returns false if the line index is out of bounds.
 func (l *Lines) LineToByte(lineIdx uint) (uint, bool) {
-	if int(lineIdx) >= len(l.Lines) {
+	if lineIdx >= uint(len(l.Lines)) {
 		return 0, false
 	}
 	return l.Lines[lineIdx].ByteIdx, true
@@ -184,7 +184,7 @@ func (l *Lines) LineColumnToByte(lineIdx uint, columnIdx uint) (uint, bool) {
 	}
 	line := l.Text[r.Start:r.End]
 	chars := []rune(line)
-	if int(columnIdx) > len(chars) {
+	if columnIdx > uint(len(chars)) {
 		return 0, false
 	}
 	head := string(chars[:columnIdx])
-- 
2.43.0


From 3319e0bcd4cdd2cc542e69b9ed441bcb4e8bdb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:33 +0000
Subject: [PATCH 15/62] fix: recompute the line of a carriage return before an
 edit

---
 typst/syntax/lines.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 3fc7399..247f06d 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -3,7 +3,6 @@ package syntax
 import (
 	"fmt"
 	"sort"
-	"strings"
 	"unicode/utf16"
 	"unicode/utf8"
 
@@ -262,6 +261,10 @@ func (l *Lines) ReplacementRange(new string) (ReplacementRange, bool) {
 // The method panics if the replace range is out of bounds.
 func (l *Lines) Edit(replace ranges.Range, with string) {
 	startByte := uint(replace.Start)
+	// Handle adjoining and splitting of \r and \n.
+	if startByte > 0 && startByte <= uint(len(l.Text)) && l.Text[startByte-1] == '\r' {
+		startByte--
+	}
 	startUtf16, ok := l.ByteToUtf16(startByte)
 	if !ok {
 		panic("invalid byte index in replace range")
@@ -277,11 +280,6 @@ func (l *Lines) Edit(replace ranges.Range, with string) {
 	// Remove invalidated line starts.
 	l.Lines = l.Lines[:line+1]
 
-	// Handle adjoining of \r and \n.
-	if strings.HasSuffix(l.Text[:startByte], "\r") && strings.HasPrefix(with, "\n") {
-		l.Lines = l.Lines[:len(l.Lines)-1]
-	}
-
 	// Recalculate the line starts after the edit.
 	newLines := linesFrom(startByte, startUtf16, l.Text[startByte:])
 	l.Lines = append(l.Lines, newLines...)
-- 
2.43.0


From 690c35ef8785efc3f21a00e77cb5fa2c6b785ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:56 +0000
Subject: [PATCH 16/62] fix: make incremental reparsing of blocks and markup
 effective and consistent

Stop renumbering once it succeeds, look for errors in the children which
are not replaced, report success (not failure) of a reparsed block, and
reparse a range of expressions in top-level markup and content blocks only.
---
 typst/syntax/node.go     |  6 +++---
 typst/syntax/reparser.go | 10 ++++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index be06ccf..8da8c1a 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -655,12 +655,12 @@ func (node *InnerNode) replace_children(_range ranges.Range, replacement []*Synt
 		}
 	}
 	if node.Erroneous {
-		for _, c := range node.Children[:replacement_range.Start] {
+		for _, c := range node.Children[:_range.Start] {
 			if c.erroneous() {
 				erroneous = true
 			}
 		}
-		for _, c := range node.Children[replacement_range.End:] {
+		for _, c := range node.Children[_range.End:] {
 			if c.erroneous() {
 				erroneous = true
 			}
@@ -713,7 +713,7 @@ func (node *InnerNode) replace_children(_range ranges.Range, replacement []*Synt
 
 		// Try to renumber.
 		within := ranges.NewRange(start_number, end_number)
-		if node.numberize(id, option.Some(renumber), within) != nil {
+		if node.numberize(id, option.Some(renumber), within) == nil {
 			return nil
 		}
 
diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 1fce5d7..83c2c74 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -81,8 +81,9 @@ func try_reparse(
 			if child.kind().IsBlock() {
 				if newborn, ok := reparse_block(text, new_range).Get(); ok {
 					if err := node.replace_children(ranges.NewRange(uint64(i), uint64(i+1)), []*SyntaxNode{newborn}); err != nil {
-						return option.Some(new_range)
+						return option.None[ranges.Range]()
 					}
+					return option.Some(new_range)
 				}
 			}
 		}
@@ -111,7 +112,7 @@ func try_reparse(
 	if node.kind() != SyntaxKindMarkup {
 		return option.None[ranges.Range]()
 	}
-	if kind, ok := parent_kind.Get(); !ok || ok && kind == SyntaxKindContentBlock {
+	if kind, ok := parent_kind.Get(); ok && kind != SyntaxKindContentBlock {
 		return option.None[ranges.Range]()
 	}
 
@@ -180,9 +181,10 @@ func try_reparse(
 			// Similarly, if we children follow or we not top-level the nesting
 			// must match its previous value.
 			if (at_end || at_start == prev_at_start_after) && ((at_end && !parent_kind.IsPresent()) || nesting == prev_nesting_after) {
-				if err := node.replace_children(ranges.NewRange(uint64(start), uint64(end)), newborns); err == nil {
-					return option.Some(new_range)
+				if err := node.replace_children(ranges.NewRange(uint64(start), uint64(end)), newborns); err != nil {
+					return option.None[ranges.Range]()
 				}
+				return option.Some(new_range)
 			}
 		}
 
-- 
2.43.0


From f890031b14c18fe331f0a77cdc723014b2a0d74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:43 +0000
Subject: [PATCH 17/62] fix: intern file ids by the value of their package and
 path

---
 typst/syntax/file.go | 45 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/typst/syntax/file.go b/typst/syntax/file.go
index 7e11d17..3b320a6 100644
--- a/typst/syntax/file.go
+++ b/typst/syntax/file.go
@@ -12,13 +12,13 @@ import (
 
 // interner is the global package-path interner.
 var interner = &Interner{
-	toID:   make(map[Pair]FileID),
+	toID:   make(map[pairKey]FileID),
 	fromID: nil,
 }
 
 // Interner is a package-path interner.
 type Interner struct {
-	toID   map[Pair]FileID
+	toID   map[pairKey]FileID
 	fromID []Pair // maps from id-1 to Pair (since id is NonZero).
 
 	sync.RWMutex
@@ -30,6 +30,33 @@ type Pair struct {
 	VPath *VirtualPath
 }
 
+// pairKey identifies a pair by value.
+type pairKey struct {
+	hasSpec bool
+	spec    PackageSpec
+	path    string
+}
+
+// key returns the key of the pair.
+func (pair Pair) key() pairKey {
+	key := pairKey{path: pair.VPath.Path}
+	if spec, ok := pair.Spec.Get(); ok {
+		key.hasSpec = true
+		key.spec = *spec
+	}
+	return key
+}
+
+// clone returns a copy of the pair that shares no memory with it.
+func (pair Pair) clone() Pair {
+	vpath := *pair.VPath
+	spec := option.None[*PackageSpec]()
+	if s, ok := pair.Spec.Get(); ok {
+		spec = option.Some(s.Clone())
+	}
+	return Pair{Spec: spec, VPath: &vpath}
+}
+
 // FileID identifies a file in a project or package.
 //
 // This type is globally interned and thus cheap to copy, compare, and hash.
@@ -43,10 +70,13 @@ func NewFileID(spec option.Option[*PackageSpec], vpath *VirtualPath) FileID {
 	pair := Pair{Spec: spec, VPath: vpath}
 	interner.Lock()
 	defer interner.Unlock()
-	if id, ok := interner.toID[pair]; ok {
+	key := pair.key()
+	if id, ok := interner.toID[key]; ok {
 		return id
 	}
-	return pushPair(pair)
+	id := pushPair(pair)
+	interner.toID[key] = id
+	return id
 }
 
 // pushPair creates a new entry forever.
@@ -58,12 +88,7 @@ func pushPair(pair Pair) FileID {
 		panic("out of file ids") // uint16 overflow
 	}
 	id := FileID(num)
-	if _, ok := pair.Spec.Get(); ok {
-		// only add pair to map if spec exists (i.e. not a "fake" file
-		// specification)
-		interner.toID[pair] = id
-	}
-	interner.fromID = append(interner.fromID, pair)
+	interner.fromID = append(interner.fromID, pair.clone())
 	return id
 }
 
-- 
2.43.0


From 258dabc5f40e6ee62369d0e192dc47081281b985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:49 +0000
Subject: [PATCH 18/62] fix: root and normalize virtual paths, join absolute
 paths from the root

---
 typst/syntax/path.go | 49 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/typst/syntax/path.go b/typst/syntax/path.go
index 0423ab4..bb9f33e 100644
--- a/typst/syntax/path.go
+++ b/typst/syntax/path.go
@@ -1,6 +1,9 @@
 package syntax
 
-import "path/filepath"
+import (
+	"path/filepath"
+	"strings"
+)
 
 // VirtualPath is an absolute path in the virtual file system of a project or
 // package.
@@ -13,22 +16,48 @@ type VirtualPath struct {
 // Even if it doesn't start with `/` or `\`, it is still interpreted as
 // starting from the root.
 func NewVirtualPath(path string) *VirtualPath {
+	var components []string
+	for _, component := range strings.Split(path, "/") {
+		switch component {
+		case "", ".":
+			// nothing to do.
+		case "..":
+			if n := len(components); n > 0 && components[n-1] != ".." {
+				components = components[:n-1]
+			} else {
+				components = append(components, component)
+			}
+		default:
+			components = append(components, component)
+		}
+	}
 	return &VirtualPath{
-		Path: path,
+		Path: "/" + strings.Join(components, "/"),
 	}
 }
 
 // Join resolves a path relative to this virtual path.
 func (vpath *VirtualPath) Join(path string) *VirtualPath {
-	dir := filepath.Dir(vpath.Path)
-	new_path := filepath.Join(dir, path)
-	return NewVirtualPath(new_path)
+	if strings.HasPrefix(path, "/") {
+		return NewVirtualPath(path)
+	}
+	dir := vpath.Path[:strings.LastIndex(vpath.Path, "/")+1]
+	return NewVirtualPath(dir + path)
 }
 
-// WithExtension returns the path, but with a different extension.
+// WithExtension returns the path, but with a different extension (given with or
+// without its leading dot).
 func (vpath *VirtualPath) WithExtension(extension string) *VirtualPath {
-	ext := filepath.Ext(vpath.Path)
-	name := vpath.Path[:len(vpath.Path)-len(ext)]
-	new_path := name + extension
-	return NewVirtualPath(new_path)
+	base := vpath.Path[strings.LastIndex(vpath.Path, "/")+1:]
+	if base == "" || base == ".." {
+		return NewVirtualPath(vpath.Path)
+	}
+	name := vpath.Path
+	if ext := filepath.Ext(base); ext != base {
+		name = strings.TrimSuffix(name, ext)
+	}
+	if extension != "" && !strings.HasPrefix(extension, ".") {
+		extension = "." + extension
+	}
+	return NewVirtualPath(name + extension)
 }
-- 
2.43.0


From 1ff8278570a1a0c093addeadfdac7199d16035b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:03 +0000
Subject: [PATCH 19/62] fix: do not separate a hash from its expression when
 reparsing

---
 typst/syntax/reparser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 83c2c74..bd4d4f2 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -132,7 +132,9 @@ func try_reparse(
 		}
 
 		// Expand to the right.
-		for end < uint(len(children)) && expand(children[end]) {
+		//
+		// A hash is not separated from its expression.
+		for end < uint(len(children)) && (expand(children[end]) || (end > 0 && children[end-1].kind() == SyntaxKindHash)) {
 			end++
 		}
 
-- 
2.43.0


From d4f4f90fb8b205585c75fe36de257655acdb07ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:09 +0000
Subject: [PATCH 20/62] fix: take trivia at the end of nodes into account when
 reparsing

---
 typst/syntax/reparser.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index bd4d4f2..4fbdeba 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -245,8 +245,21 @@ func next_at_start(node *SyntaxNode, at_start *bool) {
 		if kind == SyntaxKindParbreak || (kind == SyntaxKindSpace && any_(node.text(), isNewline)) {
 			*at_start = true
 		}
-	} else {
+	} else if !node.is_empty() {
 		*at_start = false
+		// The node itself may end in trivia, for instance if it ends at a
+		// paragraph break.
+		children := node.children()
+		last := len(children)
+		for last > 0 {
+			last--
+			if child := children[last]; !child.kind().IsTrivia() && !child.is_empty() {
+				break
+			}
+		}
+		for _, child := range children[last:] {
+			next_at_start(child, at_start)
+		}
 	}
 }
 
-- 
2.43.0


From 6d84035683d01dc481833c313831de582afb541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:37 +0000
Subject: [PATCH 21/62] fix: reparse the link in front of punctuation

---
 typst/syntax/reparser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 4fbdeba..239ef55 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -3,6 +3,7 @@ package syntax
 import (
 	"fmt"
 	"math"
+	"strings"
 
 	"github.com/mewmew/typast/internal/option"
 	"github.com/mewmew/typast/internal/ranges"
@@ -230,11 +231,16 @@ func expand(node *SyntaxNode) bool {
 	if kind == SyntaxKindSemicolon {
 		return true
 	}
-	switch node.text() {
+	switch text := node.text(); text {
+	case "":
+		return false
 	case "/", ":":
 		return true
+	default:
+		// Punctuation behind a link becomes part of it if the link continues
+		// after the punctuation.
+		return strings.Trim(text, "!,.:;?'") == ""
 	}
-	return false
 }
 
 // Whether `at_start` would still be true after this node given the
-- 
2.43.0


From 6190944716e4c7d7280d5b8ee07535781f488307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:43 +0000
Subject: [PATCH 22/62] fix: reparse everything behind a quote that may become
 a string

---
 typst/syntax/reparser.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 239ef55..9a3890b 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -23,8 +23,11 @@ func reparse(
 	replaced ranges.Range,
 	replacement_len uint,
 ) ranges.Range {
-	if r, ok := try_reparse(text, replaced, replacement_len, option.None[SyntaxKind](), root, 0).Get(); ok {
-		return r
+	failed := false
+	if !open_quote(root, 0, uint(replaced.Start), &failed) {
+		if r, ok := try_reparse(text, replaced, replacement_len, option.None[SyntaxKind](), root, 0).Get(); ok {
+			return r
+		}
 	}
 	id, ok := root.span().ID()
 	*root = *Parse(text)
@@ -36,6 +39,31 @@ func reparse(
 	return ranges.NewRange(0, uint64(len(text)))
 }
 
+// Whether some code before the end offset failed to parse right in front of a
+// double quote. In that case, the quote has no closing counterpart, but any edit
+// behind it may add one and thereby turn the text in between into a string.
+//
+// Keeps track of whether the last node which is not trivia was an error.
+func open_quote(node *SyntaxNode, offset, end uint, failed *bool) bool {
+	kind := node.kind()
+	switch {
+	case offset >= end || kind.IsTrivia():
+		return false
+	case kind == SyntaxKindSmartQuote && *failed && node.text() == "\"":
+		return true
+	case !node.erroneous() || kind.IsError():
+		*failed = kind.IsError()
+		return false
+	}
+	for _, child := range node.children() {
+		if open_quote(child, offset, end, failed) {
+			return true
+		}
+		offset += child.len()
+	}
+	return false
+}
+
 // Try to reparse inside the given node.
 func try_reparse(
 	text string,
-- 
2.43.0


From be4f298cf6e9bd2801d465a5905d701d7f9d6f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:48 +0000
Subject: [PATCH 23/62] fix: leave a node unchanged when its new children
 cannot be numbered

---
 typst/syntax/node.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index 8da8c1a..0de3f8b 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -359,7 +359,7 @@ func (node *SyntaxNode) descendants() uint {
 
 // Replaces a range of children with a replacement.
 //
-// May have mutated the children if it returns `Err(_)`.
+// The children are left unchanged if an error is returned.
 func (node *SyntaxNode) replace_children(_range ranges.Range, replacement []*SyntaxNode) error {
 	if inner, ok := node.Repr.(*InnerNode); ok {
 		return inner.replace_children(_range, replacement)
@@ -603,7 +603,7 @@ func (node *InnerNode) spanless_eq(other *InnerNode) bool {
 
 // Replaces a range of children with a replacement.
 //
-// May have mutated the children if it returns `Err(_)`.
+// The children are left unchanged if an error is returned.
 func (node *InnerNode) replace_children(_range ranges.Range, replacement []*SyntaxNode) error {
 	id, ok := node.Span.ID()
 	if !ok {
@@ -628,20 +628,28 @@ func (node *InnerNode) replace_children(_range ranges.Range, replacement []*Synt
 	replacement = replacement_vec[replacement_range.Start:replacement_range.End]
 	superseded := node.Children[_range.Start:_range.End]
 
-	// Compute the new byte length.
+	// Compute the new number of descendants.
+	descendants := node.Descendants
 	for _, r := range replacement {
-		node.Len += r.len()
+		descendants += r.descendants()
 	}
 	for _, s := range superseded {
-		node.Len -= s.len()
+		descendants -= s.descendants()
 	}
 
-	// Compute the new number of descendants.
+	// Give up before anything has changed if there is not enough space for the
+	// new descendants. Otherwise, renumbering all children succeeds below.
+	if len(replacement) > 0 && node.Upper-(node.Span.Number()+1) < uint64(descendants) {
+		return ErrUnnumberable
+	}
+	node.Descendants = descendants
+
+	// Compute the new byte length.
 	for _, r := range replacement {
-		node.Descendants += r.descendants()
+		node.Len += r.len()
 	}
 	for _, s := range superseded {
-		node.Descendants -= s.descendants()
+		node.Len -= s.len()
 	}
 
 	// Determine whether we're still erroneous after the replacement. That's
-- 
2.43.0


From 69ffbc0776b86ac4fd80b512f3912925e449c14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:15 +0000
Subject: [PATCH 24/62] fix: saturate range spans at the largest value that
 fits

---
 typst/syntax/span.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/span.go b/typst/syntax/span.go
index e478289..0c38b0a 100644
--- a/typst/syntax/span.go
+++ b/typst/syntax/span.go
@@ -36,7 +36,7 @@ const (
 	rangePartShift = rangePartBits
 	rangePartMask  = (uint64(1) << rangePartBits) - 1
 	spanDetached   = 1
-	maxRangePart   = uint64(1) << rangePartBits
+	maxRangePart   = rangePartMask
 )
 
 var (
@@ -61,7 +61,7 @@ func NewSpanFromNumber(id FileID, number uint64) (Span, bool) {
 }
 
 // NewSpanFromRange creates a new span from a raw byte range.
-// If a range part exceeds the maximum value (2^23), it is saturated.
+// If a range part exceeds the maximum value (2^23-1), it is saturated.
 func NewSpanFromRange(id FileID, byteRange ranges.Range) Span {
 	start := min(byteRange.Start, maxRangePart)
 	end := min(byteRange.End, maxRangePart)
-- 
2.43.0


From a15a22fee2dd4da95cf2836480e20eb7adab1619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 25/62] fix: take backward iteration of children to the start
 of each child

---
 typst/syntax/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index 0de3f8b..09402e6 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -1205,8 +1205,8 @@ func (l *LinkedChildren) RevChildren() iter.Seq2[int, *LinkedNode] {
 	return func(yield func(int, *LinkedNode) bool) {
 		for index := len(l._children) - 1; index >= 0; index-- {
 			child := l._children[index]
-			offset := l.back
 			l.back -= child.len()
+			offset := l.back
 			link := &LinkedNode{
 				node:   child,
 				parent: option.Some(l.parent.clone()),
-- 
2.43.0


From a13a35f9e6a1d4cca898f9ca241fdc07c8c2a899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 26/62] fix: leave a hash uncategorised when no expression
 follows

---
 typst/syntax/highlight.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/highlight.go b/typst/syntax/highlight.go
index ab523bb..af416ae 100644
--- a/typst/syntax/highlight.go
+++ b/typst/syntax/highlight.go
@@ -572,8 +572,8 @@ func highlight_hash(node *LinkedNode) (Tag, bool) {
 	if !ok {
 		return 0, false
 	}
-	expr := SyntaxNode_cast[Expr](next.node).MustGet()
-	if !Expr_hash(expr) {
+	expr, ok := SyntaxNode_cast[Expr](next.node).Get()
+	if !ok || !Expr_hash(expr) {
 		return 0, false
 	}
 	if left, ok := next.leftmost_leaf(); ok {
-- 
2.43.0


From 6b1dfd566e6ddc503306f383282969a45a178030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 27/62] fix: read the paths of imports as Typst does

---
 cmd/offline-typ/main.go | 53 +++++++++++++++++++----------------------
 cmd/update-typ/main.go  | 45 ++++++++++++++++------------------
 typst/syntax/ast.go     |  5 ++++
 3 files changed, 50 insertions(+), 53 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 1cc30d2..8515711 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -221,27 +221,10 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 			return true
 		}
 		for i, child := range inner.Children {
-			var leaf *syntax.LeafNode
-			switch n := child.Repr.(type) {
-			case *syntax.LeafNode:
-				leaf = n
-			case *syntax.InnerNode:
-				if n.Kind != syntax.SyntaxKindParenthesized {
-					continue
-				}
-				l, ok := findFirst(n.Children, syntax.SyntaxKindStr)
-				if !ok {
-					continue
-				}
-				leaf = l.Repr.(*syntax.LeafNode)
-			}
-			if leaf.Kind != syntax.SyntaxKindStr {
+			leaf, str, ok := findStrLit(child)
+			if !ok {
 				continue
 			}
-			str, err := strconv.Unquote(leaf.Text)
-			if err != nil {
-				panic(err)
-			}
 			switch inner.Kind {
 			case syntax.SyntaxKindModuleImport:
 				spec, err := syntax.ParsePackageSpec(str)
@@ -483,16 +466,30 @@ func findFirstStr(nodes []*syntax.SyntaxNode) (string, bool) {
 	if !ok {
 		return "", false
 	}
-	leaf, ok := node.Repr.(*syntax.LeafNode)
-	if !ok {
-		return "", false
-	}
-	text, err := strconv.Unquote(leaf.Text)
-	if err != nil {
-		// TODO: report error?
-		return "", false
+	_, text, ok := findStrLit(node)
+	return text, ok
+}
+
+// findStrLit returns the string literal the given expression consists of
+// (possibly in parentheses), and its unquoted value.
+func findStrLit(node *syntax.SyntaxNode) (*syntax.LeafNode, string, bool) {
+	switch n := node.Repr.(type) {
+	case *syntax.LeafNode:
+		if n.Kind == syntax.SyntaxKindStr {
+			str := &syntax.Str{SyntaxNode: node}
+			return n, str.Get(), true
+		}
+	case *syntax.InnerNode:
+		if n.Kind != syntax.SyntaxKindParenthesized {
+			break
+		}
+		for _, child := range n.Children {
+			if leaf, str, ok := findStrLit(child); ok {
+				return leaf, str, true
+			}
+		}
 	}
-	return text, true
+	return nil, "", false
 }
 
 // findFirst returns the first node of the given kind.
diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 2364a47..6bc6a5c 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -208,27 +208,10 @@ func findOldVersions(rootNode *syntax.SyntaxNode, relTypPath string, libName str
 			return true
 		}
 		for _, child := range inner.Children {
-			var leaf *syntax.LeafNode
-			switch n := child.Repr.(type) {
-			case *syntax.LeafNode:
-				leaf = n
-			case *syntax.InnerNode:
-				if n.Kind != syntax.SyntaxKindParenthesized {
-					continue
-				}
-				l, ok := findFirst(n.Children, syntax.SyntaxKindStr)
-				if !ok {
-					continue
-				}
-				leaf = l.Repr.(*syntax.LeafNode)
-			}
-			if leaf.Kind != syntax.SyntaxKindStr {
+			leaf, str, ok := findStrLit(child)
+			if !ok {
 				continue
 			}
-			str, err := strconv.Unquote(leaf.Text)
-			if err != nil {
-				panic(err)
-			}
 			switch inner.Kind {
 			case syntax.SyntaxKindModuleImport:
 				spec, err := syntax.ParsePackageSpec(str)
@@ -531,14 +514,26 @@ func getPackagesDirs() []string {
 	return packagesDirs
 }
 
-// findFirst returns the first node of the given kind.
-func findFirst(nodes []*syntax.SyntaxNode, kind syntax.SyntaxKind) (*syntax.SyntaxNode, bool) {
-	for _, node := range nodes {
-		if node.SyntaxKind() == kind {
-			return node, true
+// findStrLit returns the string literal the given expression consists of
+// (possibly in parentheses), and its unquoted value.
+func findStrLit(node *syntax.SyntaxNode) (*syntax.LeafNode, string, bool) {
+	switch n := node.Repr.(type) {
+	case *syntax.LeafNode:
+		if n.Kind == syntax.SyntaxKindStr {
+			str := &syntax.Str{SyntaxNode: node}
+			return n, str.Get(), true
+		}
+	case *syntax.InnerNode:
+		if n.Kind != syntax.SyntaxKindParenthesized {
+			break
+		}
+		for _, child := range n.Children {
+			if leaf, str, ok := findStrLit(child); ok {
+				return leaf, str, true
+			}
 		}
 	}
-	return nil, false
+	return nil, "", false
 }
 
 // getRelLocalPath returns the path relative to the given directory.
diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 4c10ed6..4703521 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1348,6 +1348,11 @@ type Str struct {
 	*SyntaxNode
 }
 
+// Get returns the string value with resolved escape sequences.
+func (node *Str) Get() string {
+	return node.get()
+}
+
 // Get the string value with resolved escape sequences.
 func (node *Str) get() string {
 	text := node.SyntaxNode.text()
-- 
2.43.0


From fbaf3495c5a1d145e4fbeb276fb90e42891b87b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 28/62] fix: resolve packages in include statements as in
 imports

---
 cmd/offline-typ/main.go | 11 ++++-------
 cmd/update-typ/main.go  |  7 +------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 8515711..7f75762 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -226,7 +226,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				continue
 			}
 			switch inner.Kind {
-			case syntax.SyntaxKindModuleImport:
+			case syntax.SyntaxKindModuleImport, syntax.SyntaxKindModuleInclude:
 				spec, err := syntax.ParsePackageSpec(str)
 				if err != nil {
 					// NOTE: handle local import path e.g. `#import "foo/bar.typ"`
@@ -241,12 +241,9 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 					panic(fmt.Errorf("unable to get new package path for package %q; %+v", spec.String(), errors.WithStack(err)))
 				}
 				leaf.Text = strconv.Quote(newPkgPath)
-				insertPkgRename(inner, i+1, spec.Name)
-				return true // done with inner node
-			case syntax.SyntaxKindModuleInclude:
-				path := str
-				localTypPath := getRelLocalPath(relTypDir, path)
-				localTypPaths = append(localTypPaths, localTypPath)
+				if inner.Kind == syntax.SyntaxKindModuleImport {
+					insertPkgRename(inner, i+1, spec.Name)
+				}
 				return true // done with inner node
 			}
 		}
diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 6bc6a5c..d8c8631 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -213,7 +213,7 @@ func findOldVersions(rootNode *syntax.SyntaxNode, relTypPath string, libName str
 				continue
 			}
 			switch inner.Kind {
-			case syntax.SyntaxKindModuleImport:
+			case syntax.SyntaxKindModuleImport, syntax.SyntaxKindModuleInclude:
 				spec, err := syntax.ParsePackageSpec(str)
 				if err != nil {
 					// NOTE: handle local import path e.g. `#import "foo/bar.typ"`
@@ -233,11 +233,6 @@ func findOldVersions(rootNode *syntax.SyntaxNode, relTypPath string, libName str
 					updated = true
 				}
 				return true // done with inner node
-			case syntax.SyntaxKindModuleInclude:
-				path := str
-				localTypPath := getRelLocalPath(relTypDir, path)
-				localTypPaths = append(localTypPaths, localTypPath)
-				return true // done with inner node
 			}
 		}
 		return true
-- 
2.43.0


From 063fec846ce1d751c00f5150390623ded8051b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 29/62] fix: keep the version of packages with no newer version
 installed

---
 cmd/update-typ/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index d8c8631..cdbf6b6 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -395,8 +395,8 @@ func parsePackageManifest(pkgRoot *os.Root) (*syntax.PackageManifest, error) {
 // return value indicates that a new version was available.
 func latestSpec(spec *syntax.PackageSpec) (*syntax.PackageSpec, bool) {
 	verSpecs := findVersions(spec)
-	latestSpec := verSpecs[0]
-	for _, verSpec := range verSpecs[1:] {
+	latestSpec := spec // keep version if no newer version is installed.
+	for _, verSpec := range verSpecs {
 		if greaterThan(verSpec.Version, latestSpec.Version) {
 			latestSpec = verSpec
 		}
-- 
2.43.0


From f3abc4a7b1057c2a654f4aaea92325efcb7d6905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 30/62] fix: find every installed version of a package

---
 cmd/update-typ/main.go | 44 ++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index cdbf6b6..d3ffc66 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -6,7 +6,6 @@ import (
 	"bytes"
 	"flag"
 	"fmt"
-	"io/fs"
 	"os"
 	"path/filepath"
 	"runtime"
@@ -431,31 +430,24 @@ func findVersions(spec *syntax.PackageSpec) []*syntax.PackageSpec {
 	for _, packagesDir := range packagesDirs {
 		namespace := filepath.Base(packagesDir)
 		packageDir := filepath.Join(packagesDir, spec.Name)
-		visit := func(path string, info fs.FileInfo, err error) error {
+		entries, err := os.ReadDir(packageDir)
+		if err != nil {
+			continue // TODO: report warning?
+		}
+		for _, entry := range entries {
+			version, err := syntax.ParsePackageVersion(entry.Name())
 			if err != nil {
-				return err
+				continue // not a package version.
 			}
-			if info.IsDir() || info.Mode()&fs.ModeSymlink != 0 {
-				if path != packageDir {
-					versionRaw := info.Name()
-					version, err := syntax.ParsePackageVersion(versionRaw)
-					if err != nil {
-						return errors.WithStack(err)
-					}
-					verSpec := &syntax.PackageSpec{
-						Namespace: namespace,
-						Name:      spec.Name,
-						Version:   version,
-					}
-					verSpecs = append(verSpecs, verSpec)
-					// don't traverse into subdirectories.
-					return filepath.SkipDir
-				}
+			if !isDir(filepath.Join(packageDir, version.String())) {
+				continue // not installed.
 			}
-			return nil
-		}
-		if err := filepath.Walk(packageDir, visit); err != nil {
-			// TODO: report warning?
+			verSpec := &syntax.PackageSpec{
+				Namespace: namespace,
+				Name:      spec.Name,
+				Version:   version,
+			}
+			verSpecs = append(verSpecs, verSpec)
 		}
 	}
 	return verSpecs
@@ -599,3 +591,9 @@ func exists(path string) bool {
 	_, err := os.Stat(path)
 	return err == nil
 }
+
+// isDir reports whether the given path is a directory (or a symlink to one).
+func isDir(path string) bool {
+	info, err := os.Stat(path)
+	return err == nil && info.IsDir()
+}
-- 
2.43.0


From 1f132d189e460137569fe2a4e5d03e4889d718e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 31/62] fix: look packages up in their own namespace only

---
 cmd/update-typ/main.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index d3ffc66..3e4a647 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -426,7 +427,7 @@ func greaterThan(a, b syntax.PackageVersion) bool {
 // findVersions finds all versions of the given package.
 func findVersions(spec *syntax.PackageSpec) []*syntax.PackageSpec {
 	var verSpecs []*syntax.PackageSpec
-	packagesDirs := getPackagesDirs()
+	packagesDirs := getPackagesDirs(spec.Namespace)
 	for _, packagesDir := range packagesDirs {
 		namespace := filepath.Base(packagesDir)
 		packageDir := filepath.Join(packagesDir, spec.Name)
@@ -456,7 +457,7 @@ func findVersions(spec *syntax.PackageSpec) []*syntax.PackageSpec {
 // getPackageDir returns the directory of the given package
 // (e.g. "~/.local/share/typst/packages/local/hallon/0.1.2").
 func getPackageDir(spec *syntax.PackageSpec) (string, error) {
-	packagesDirs := getPackagesDirs()
+	packagesDirs := getPackagesDirs(spec.Namespace)
 	for _, packagesDir := range packagesDirs {
 		packageDir := filepath.Join(packagesDir, spec.Name, spec.Version.String())
 		if exists(packageDir) {
@@ -467,8 +468,8 @@ func getPackageDir(spec *syntax.PackageSpec) (string, error) {
 }
 
 // getPackagesDirs returns the list of packages directories used by Typst for
-// @local and @preview namespaces.
-func getPackagesDirs() []string {
+// the given namespace (@local or @preview).
+func getPackagesDirs(namespace string) []string {
 	var packagesDirs []string
 
 	// Typst universe 'packages' repo.
@@ -498,7 +499,9 @@ func getPackagesDirs() []string {
 		packagesDir = filepath.Join(rootDir, "typst", "packages", "local")
 		packagesDirs = append(packagesDirs, packagesDir)
 	}
-	return packagesDirs
+	return slices.DeleteFunc(packagesDirs, func(packagesDir string) bool {
+		return filepath.Base(packagesDir) != namespace
+	})
 }
 
 // findStrLit returns the string literal the given expression consists of
-- 
2.43.0


From 9b7249765326a250deebd370fb2d66bda2713f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 32/62] fix: reject package manifests without required fields

---
 typst/syntax/package.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/typst/syntax/package.go b/typst/syntax/package.go
index 329f1a6..49098b4 100644
--- a/typst/syntax/package.go
+++ b/typst/syntax/package.go
@@ -35,6 +35,14 @@ func ParsePackageManifestFromToml(content string) (*PackageManifest, error) {
 	if err := toml.Unmarshal([]byte(content), manifest); err != nil {
 		return nil, errors.WithStack(err)
 	}
+	switch {
+	case manifest.Pkg == nil:
+		return nil, errors.New("package manifest is missing section `package`")
+	case len(manifest.Pkg.Name) == 0:
+		return nil, errors.New("package manifest is missing field `name`")
+	case len(manifest.Pkg.Entrypoint) == 0:
+		return nil, errors.New("package manifest is missing field `entrypoint`")
+	}
 	return manifest, nil
 }
 
-- 
2.43.0


From 82a8a2d784cb6c5f54c6b9d269e1cb68df778203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 33/62] fix: take entry points of packages relative to the
 package root

---
 cmd/offline-typ/main.go | 2 +-
 cmd/update-typ/main.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 7f75762..bac6c68 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -542,7 +542,7 @@ func copyPackage(outRoot *os.Root, spec *syntax.PackageSpec) ([]*syntax.PackageS
 		return nil, errors.WithStack(err)
 	}
 	pkgInfo := manifest.Pkg
-	libSpecs, err := rewrite(outLibRoot, pkgRoot, pkgInfo.Entrypoint)
+	libSpecs, err := rewrite(outLibRoot, pkgRoot, getRelLocalPath(".", pkgInfo.Entrypoint))
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 3e4a647..88b87d9 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -306,7 +306,7 @@ func checkLibWrapper(spec *syntax.PackageSpec) ([]*syntax.PackageSpec, bool, err
 	if err != nil {
 		return nil, false, errors.WithStack(err)
 	}
-	relTypPath := manifest.Pkg.Entrypoint
+	relTypPath := getRelLocalPath(".", manifest.Pkg.Entrypoint)
 	return checkLib(projectRoot, relTypPath, spec.String())
 }
 
-- 
2.43.0


From 386e5a54d1115b4d3616a745d76abbaccca3f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 34/62] fix: report missing packages instead of crashing

---
 cmd/offline-typ/main.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index bac6c68..312256c 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -207,6 +207,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 	)
 
 	// walk CST tree.
+	var importErr error
 	visitImports := func(n any) bool {
 		inner, ok := n.(*syntax.InnerNode)
 		if !ok {
@@ -238,7 +239,10 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				specs = append(specs, spec)
 				newPkgPath, err := getNewPkgPath(spec)
 				if err != nil {
-					panic(fmt.Errorf("unable to get new package path for package %q; %+v", spec.String(), errors.WithStack(err)))
+					if importErr == nil {
+						importErr = errors.Wrapf(err, "unable to get new package path for package %q", spec.String())
+					}
+					return true // done with inner node
 				}
 				leaf.Text = strconv.Quote(newPkgPath)
 				if inner.Kind == syntax.SyntaxKindModuleImport {
@@ -250,6 +254,9 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 		return true
 	}
 	cstwalk.Walk(rootNode, visitImports)
+	if importErr != nil {
+		return nil, importErr
+	}
 
 	visitResourceFunc := func(n any) bool {
 		inner, ok := n.(*syntax.InnerNode)
-- 
2.43.0


From 77a6cb36d4aa6a9b25ca02389479c893a6be1432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:51 +0000
Subject: [PATCH 35/62] fix: write paths of vendored packages as Typst string
 literals

---
 cmd/offline-typ/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 312256c..93ce7b0 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -11,7 +11,6 @@ import (
 	"path/filepath"
 	"runtime"
 	"slices"
-	"strconv"
 	"strings"
 
 	"github.com/mewmew/typast/typst/cstwalk"
@@ -244,7 +243,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 					}
 					return true // done with inner node
 				}
-				leaf.Text = strconv.Quote(newPkgPath)
+				leaf.Text = quote(newPkgPath)
 				if inner.Kind == syntax.SyntaxKindModuleImport {
 					insertPkgRename(inner, i+1, spec.Name)
 				}
@@ -408,6 +407,11 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 	return specs, nil
 }
 
+// quote returns a Typst string literal with the given value.
+func quote(s string) string {
+	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
+}
+
 // getRelLocalPath returns the path relative to the given directory.
 func getRelLocalPath(relTypDir, path string) string {
 	if !filepath.IsAbs(path) {
-- 
2.43.0


From e0fbcd75f44ca4aadd7a071b16b675657831d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 36/62] fix: report unreadable font directories instead of
 crashing

---
 cmd/offline-typ/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 93ce7b0..216a45c 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -698,6 +698,9 @@ func exist(root *os.Root, path string) bool {
 // copyDir copies the given directory to the root file system.
 func copyDir(root *os.Root, dir string) error {
 	visit := func(path string, info fs.FileInfo, err error) error {
+		if err != nil {
+			return errors.WithStack(err)
+		}
 		if info.IsDir() {
 			if err := root.MkdirAll(path, 0o755); err != nil {
 				return errors.WithStack(err)
-- 
2.43.0


From 6ea56111c338959d9888f94b960df928c6d793b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 37/62] fix: copy files loaded by data loading functions

---
 cmd/offline-typ/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 216a45c..a0c2c6d 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -285,6 +285,8 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				// call to plugin function handled below.
 			case "read":
 				// call to read function handled below.
+			case "cbor", "csv", "json", "toml", "xml", "yaml":
+				// call to data loading function handled below.
 			default:
 				continue // skip other function calls
 			}
-- 
2.43.0


From 3ffba32761eb34ee3c3a01e22005a1b9696e2c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 38/62] fix: find bibliography styles behind other named
 arguments

---
 cmd/offline-typ/main.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index a0c2c6d..5798876 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -299,7 +299,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 					localResourcePaths = append(localResourcePaths, localResourcePath)
 				}
 				if foundFunc == "bibliography" {
-					if kv, ok := findFirstNamed(args.Children); ok {
+					if kv, ok := findNamed(args.Children, "style"); ok {
 						if kv.Key == "style" {
 							cslPath := kv.Value
 							localResourcePath := getRelLocalPath(relTypDir, cslPath)
@@ -349,7 +349,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 					localResourcePaths = append(localResourcePaths, localResourcePath)
 				}
 				if foundFunc == "bibliography" {
-					if kv, ok := findFirstNamed(args.Children); ok {
+					if kv, ok := findNamed(args.Children, "style"); ok {
 						if kv.Key == "style" {
 							cslPath := kv.Value
 							localResourcePath := getRelLocalPath(relTypDir, cslPath)
@@ -432,12 +432,22 @@ type KeyValuePair struct {
 	Value string
 }
 
-// findFirstNamed returns the key-value pair of the first named pair node.
-func findFirstNamed(nodes []*syntax.SyntaxNode) (KeyValuePair, bool) {
-	node, ok := findFirst(nodes, syntax.SyntaxKindNamed)
-	if !ok {
-		return KeyValuePair{}, false
+// findNamed returns the key-value pair of the first named pair node with the
+// given key and a string value.
+func findNamed(nodes []*syntax.SyntaxNode, key string) (KeyValuePair, bool) {
+	for _, node := range nodes {
+		if node.SyntaxKind() != syntax.SyntaxKindNamed {
+			continue
+		}
+		if kv, ok := getKeyValuePair(node); ok && kv.Key == key {
+			return kv, true
+		}
 	}
+	return KeyValuePair{}, false
+}
+
+// getKeyValuePair returns the key-value pair of the given named pair node.
+func getKeyValuePair(node *syntax.SyntaxNode) (KeyValuePair, bool) {
 	inner, ok := node.Repr.(*syntax.InnerNode)
 	if !ok {
 		return KeyValuePair{}, false
-- 
2.43.0


From abff2cf995e0b785aef9874aacbe99c9a65e08df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 39/62] fix: copy every file of bibliographies given as arrays

---
 cmd/offline-typ/main.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 5798876..1aee89d 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -294,7 +294,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				if args.Kind != syntax.SyntaxKindArgs {
 					continue
 				}
-				if path, ok := findFirstStr(args.Children); ok {
+				for _, path := range findPaths(args.Children) {
 					localResourcePath := getRelLocalPath(relTypDir, path)
 					localResourcePaths = append(localResourcePaths, localResourcePath)
 				}
@@ -344,7 +344,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				if args.Kind != syntax.SyntaxKindArgs {
 					continue
 				}
-				if path, ok := findFirstStr(args.Children); ok {
+				for _, path := range findPaths(args.Children) {
 					localResourcePath := getRelLocalPath(relTypDir, path)
 					localResourcePaths = append(localResourcePaths, localResourcePath)
 				}
@@ -467,6 +467,31 @@ func getKeyValuePair(node *syntax.SyntaxNode) (KeyValuePair, bool) {
 	return kv, true
 }
 
+// findPaths returns the paths given by the first positional argument; a string
+// literal or an array of string literals.
+func findPaths(args []*syntax.SyntaxNode) []string {
+	for _, arg := range args {
+		switch kind := arg.SyntaxKind(); {
+		case kind.IsTrivia(), kind == syntax.SyntaxKindLeftParen, kind == syntax.SyntaxKindComma, kind == syntax.SyntaxKindNamed:
+			continue
+		case kind == syntax.SyntaxKindArray:
+			var paths []string
+			for _, item := range arg.Repr.(*syntax.InnerNode).Children {
+				if _, path, ok := findStrLit(item); ok {
+					paths = append(paths, path)
+				}
+			}
+			return paths
+		default:
+			if _, path, ok := findStrLit(arg); ok {
+				return []string{path}
+			}
+			return nil
+		}
+	}
+	return nil
+}
+
 // findFirstIdent returns the name of the first identifier node.
 func findFirstIdent(nodes []*syntax.SyntaxNode) (string, bool) {
 	node, ok := findFirst(nodes, syntax.SyntaxKindIdent)
-- 
2.43.0


From e630f8f15dac1caa5c089b51fbadfd6c7b017a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 40/62] fix: keep rewritten Typst files that are loaded as
 resources

---
 cmd/offline-typ/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 1aee89d..ab24e71 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -377,7 +377,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 	// Copy local resources.
 	for _, localResourcePath := range localResourcePaths {
 		absResourcePath := filepath.Join(projectRoot.Name(), localResourcePath)
-		if resDone[absResourcePath] {
+		if resDone[absResourcePath] || typDone[absResourcePath] {
 			if verbose {
 				log.Printf("skipping %q (already copied)", absResourcePath)
 			}
-- 
2.43.0


From 1eb2d2904632b8b7fe5b1993bc04d68fe6cb61a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 41/62] fix: relocate paths relative to the root of vendored
 packages

---
 cmd/offline-typ/main.go | 62 ++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index ab24e71..521c9f3 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -97,7 +97,7 @@ func main() {
 	}
 
 	// rewrite Typst files for offline use.
-	specs, err := rewrite(outRoot, projectRoot, typPath)
+	specs, err := rewrite(outRoot, projectRoot, "", typPath)
 	if err != nil {
 		log.Fatalf("%+v", err)
 	}
@@ -170,8 +170,9 @@ var (
 	resDone = make(map[string]bool)
 )
 
-// rewrite rewrites the given Typst file for offline use.
-func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.PackageSpec, error) {
+// rewrite rewrites the given Typst file for offline use. For files of packages,
+// pkgPrefix specifies the project-rooted offline path of the package.
+func rewrite(outRoot, projectRoot *os.Root, pkgPrefix, relTypPath string) ([]*syntax.PackageSpec, error) {
 	absTypPath := filepath.Join(projectRoot.Name(), relTypPath)
 	if typDone[absTypPath] {
 		if verbose {
@@ -233,6 +234,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 					path := str
 					localTypPath := getRelLocalPath(relTypDir, path)
 					localTypPaths = append(localTypPaths, localTypPath)
+					rebase(leaf, path, pkgPrefix)
 					return true // done with inner node
 				}
 				specs = append(specs, spec)
@@ -294,9 +296,11 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				if args.Kind != syntax.SyntaxKindArgs {
 					continue
 				}
-				for _, path := range findPaths(args.Children) {
+				for _, leaf := range findPaths(args.Children) {
+					path := getStr(leaf)
 					localResourcePath := getRelLocalPath(relTypDir, path)
 					localResourcePaths = append(localResourcePaths, localResourcePath)
+					rebase(leaf, path, pkgPrefix)
 				}
 				if foundFunc == "bibliography" {
 					if kv, ok := findNamed(args.Children, "style"); ok {
@@ -305,6 +309,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 							localResourcePath := getRelLocalPath(relTypDir, cslPath)
 							if exist(projectRoot, localResourcePath) {
 								localResourcePaths = append(localResourcePaths, localResourcePath)
+								rebase(kv.leaf, cslPath, pkgPrefix)
 							}
 						}
 					}
@@ -344,9 +349,11 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				if args.Kind != syntax.SyntaxKindArgs {
 					continue
 				}
-				for _, path := range findPaths(args.Children) {
+				for _, leaf := range findPaths(args.Children) {
+					path := getStr(leaf)
 					localResourcePath := getRelLocalPath(relTypDir, path)
 					localResourcePaths = append(localResourcePaths, localResourcePath)
+					rebase(leaf, path, pkgPrefix)
 				}
 				if foundFunc == "bibliography" {
 					if kv, ok := findNamed(args.Children, "style"); ok {
@@ -355,6 +362,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 							localResourcePath := getRelLocalPath(relTypDir, cslPath)
 							if exist(projectRoot, localResourcePath) {
 								localResourcePaths = append(localResourcePaths, localResourcePath)
+								rebase(kv.leaf, cslPath, pkgPrefix)
 							}
 						}
 					}
@@ -367,7 +375,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 
 	// Convert local Typst files.
 	for _, localTypPath := range localTypPaths {
-		localSpecs, err := rewrite(outRoot, projectRoot, localTypPath)
+		localSpecs, err := rewrite(outRoot, projectRoot, pkgPrefix, localTypPath)
 		if err != nil {
 			return nil, errors.WithStack(err)
 		}
@@ -414,6 +422,14 @@ func quote(s string) string {
 	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
 }
 
+// rebase relocates the string literal with the given path if it is relative to
+// the root of a package, to the project-rooted offline path of the package.
+func rebase(leaf *syntax.LeafNode, path, pkgPrefix string) {
+	if len(pkgPrefix) > 0 && filepath.IsAbs(path) {
+		leaf.Text = quote(pkgPrefix + "/" + getRelLocalPath(".", path))
+	}
+}
+
 // getRelLocalPath returns the path relative to the given directory.
 func getRelLocalPath(relTypDir, path string) string {
 	if !filepath.IsAbs(path) {
@@ -430,6 +446,8 @@ func getRelLocalPath(relTypDir, path string) string {
 type KeyValuePair struct {
 	Key   string
 	Value string
+	// string literal of value.
+	leaf *syntax.LeafNode
 }
 
 // findNamed returns the key-value pair of the first named pair node with the
@@ -456,35 +474,36 @@ func getKeyValuePair(node *syntax.SyntaxNode) (KeyValuePair, bool) {
 	if !ok {
 		return KeyValuePair{}, false
 	}
-	value, ok := findFirstStr(inner.Children)
+	leaf, value, ok := findFirstStr(inner.Children)
 	if !ok {
 		return KeyValuePair{}, false
 	}
 	kv := KeyValuePair{
 		Key:   key,
 		Value: value,
+		leaf:  leaf,
 	}
 	return kv, true
 }
 
 // findPaths returns the paths given by the first positional argument; a string
 // literal or an array of string literals.
-func findPaths(args []*syntax.SyntaxNode) []string {
+func findPaths(args []*syntax.SyntaxNode) []*syntax.LeafNode {
 	for _, arg := range args {
 		switch kind := arg.SyntaxKind(); {
 		case kind.IsTrivia(), kind == syntax.SyntaxKindLeftParen, kind == syntax.SyntaxKindComma, kind == syntax.SyntaxKindNamed:
 			continue
 		case kind == syntax.SyntaxKindArray:
-			var paths []string
+			var paths []*syntax.LeafNode
 			for _, item := range arg.Repr.(*syntax.InnerNode).Children {
-				if _, path, ok := findStrLit(item); ok {
-					paths = append(paths, path)
+				if leaf, _, ok := findStrLit(item); ok {
+					paths = append(paths, leaf)
 				}
 			}
 			return paths
 		default:
-			if _, path, ok := findStrLit(arg); ok {
-				return []string{path}
+			if leaf, _, ok := findStrLit(arg); ok {
+				return []*syntax.LeafNode{leaf}
 			}
 			return nil
 		}
@@ -505,14 +524,19 @@ func findFirstIdent(nodes []*syntax.SyntaxNode) (string, bool) {
 	return leaf.Text, true
 }
 
-// findFirstStr returns the unquoted version of the first string literal node.
-func findFirstStr(nodes []*syntax.SyntaxNode) (string, bool) {
+// findFirstStr returns the first string literal node and its unquoted value.
+func findFirstStr(nodes []*syntax.SyntaxNode) (*syntax.LeafNode, string, bool) {
 	node, ok := findFirst(nodes, syntax.SyntaxKindStr)
 	if !ok {
-		return "", false
+		return nil, "", false
 	}
-	_, text, ok := findStrLit(node)
-	return text, ok
+	return findStrLit(node)
+}
+
+// getStr returns the unquoted value of the given string literal.
+func getStr(leaf *syntax.LeafNode) string {
+	str := &syntax.Str{SyntaxNode: &syntax.SyntaxNode{Repr: leaf}}
+	return str.Get()
 }
 
 // findStrLit returns the string literal the given expression consists of
@@ -590,7 +614,7 @@ func copyPackage(outRoot *os.Root, spec *syntax.PackageSpec) ([]*syntax.PackageS
 		return nil, errors.WithStack(err)
 	}
 	pkgInfo := manifest.Pkg
-	libSpecs, err := rewrite(outLibRoot, pkgRoot, getRelLocalPath(".", pkgInfo.Entrypoint))
+	libSpecs, err := rewrite(outLibRoot, pkgRoot, "/"+libTypDir, getRelLocalPath(".", pkgInfo.Entrypoint))
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-- 
2.43.0


From 3f363bd6b36c829df7589c902b1554cd2f62f258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 42/62] fix: report packages and files that would replace each
 other

---
 cmd/offline-typ/main.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 521c9f3..8f43c7c 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -168,8 +168,27 @@ var (
 	//
 	// key: full path to resource file.
 	resDone = make(map[string]bool)
+	// track origin of output files.
+	//
+	// key: path to output file.
+	// value: full path to Typst or resource file.
+	origins = make(map[string]string)
 )
 
+// writeFile writes the contents of the given output file, unless already used
+// for another Typst or resource file.
+func writeFile(outRoot *os.Root, relPath, origin string, buf []byte) error {
+	outPath := filepath.Join(outRoot.Name(), relPath)
+	if prev, ok := origins[outPath]; ok && prev != origin {
+		return errors.Errorf("output file %q used for both %q and %q", outPath, prev, origin)
+	}
+	origins[outPath] = origin
+	if err := outRoot.WriteFile(relPath, buf, 0o644); err != nil {
+		return errors.WithStack(err)
+	}
+	return nil
+}
+
 // rewrite rewrites the given Typst file for offline use. For files of packages,
 // pkgPrefix specifies the project-rooted offline path of the package.
 func rewrite(outRoot, projectRoot *os.Root, pkgPrefix, relTypPath string) ([]*syntax.PackageSpec, error) {
@@ -403,7 +422,7 @@ func rewrite(outRoot, projectRoot *os.Root, pkgPrefix, relTypPath string) ([]*sy
 		if err := outRoot.MkdirAll(dir, 0o755); err != nil {
 			return nil, errors.WithStack(err)
 		}
-		if err := outRoot.WriteFile(localResourcePath, buf, 0o644); err != nil {
+		if err := writeFile(outRoot, localResourcePath, absResourcePath, buf); err != nil {
 			return nil, errors.WithStack(err)
 		}
 	}
@@ -411,7 +430,7 @@ func rewrite(outRoot, projectRoot *os.Root, pkgPrefix, relTypPath string) ([]*sy
 	// output new version of file.
 	out := &bytes.Buffer{}
 	syntax.PrintNode(out, rootNode)
-	if err := outRoot.WriteFile(relTypPath, out.Bytes(), 0o644); err != nil {
+	if err := writeFile(outRoot, relTypPath, absTypPath, out.Bytes()); err != nil {
 		return nil, errors.WithStack(err)
 	}
 	return specs, nil
-- 
2.43.0


From b6052966702310d8fd9784ba5850366a22ac92cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 43/62] fix: convert nodes to typed AST nodes instead of
 crashing

---
 typst/syntax/ast_node.go | 182 +++++++++++++++++++--------------------
 1 file changed, 91 insertions(+), 91 deletions(-)

diff --git a/typst/syntax/ast_node.go b/typst/syntax/ast_node.go
index 7ba62b2..5e30d08 100644
--- a/typst/syntax/ast_node.go
+++ b/typst/syntax/ast_node.go
@@ -19,7 +19,7 @@ import "github.com/mewmew/typast/internal/option"
 // --- [ Markup ] --------------------------------------------------------------
 
 // from_untyped
-func (Markup) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Markup) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMarkup {
 		return option.Some[AstNode](&Markup{SyntaxNode: node})
 	} else {
@@ -39,7 +39,7 @@ func Markup_default() *Markup {
 // --- [ Text ] ----------------------------------------------------------------
 
 // from_untyped
-func (Text) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Text) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindText {
 		return option.Some[AstNode](&Text{SyntaxNode: node})
 	} else {
@@ -59,7 +59,7 @@ func Text_default() *Text {
 // --- [ Space ] ---------------------------------------------------------------
 
 // from_untyped
-func (Space) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Space) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpace {
 		return option.Some[AstNode](&Space{SyntaxNode: node})
 	} else {
@@ -79,7 +79,7 @@ func Space_default() *Space {
 // --- [ Linebreak ] -----------------------------------------------------------
 
 // from_untyped
-func (Linebreak) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Linebreak) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindLinebreak {
 		return option.Some[AstNode](&Linebreak{SyntaxNode: node})
 	} else {
@@ -99,7 +99,7 @@ func Linebreak_default() *Linebreak {
 // --- [ Parbreak ] ------------------------------------------------------------
 
 // from_untyped
-func (Parbreak) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Parbreak) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindParbreak {
 		return option.Some[AstNode](&Parbreak{SyntaxNode: node})
 	} else {
@@ -119,7 +119,7 @@ func Parbreak_default() *Parbreak {
 // --- [ Escape ] --------------------------------------------------------------
 
 // from_untyped
-func (Escape) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Escape) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindEscape {
 		return option.Some[AstNode](&Escape{SyntaxNode: node})
 	} else {
@@ -139,7 +139,7 @@ func Escape_default() *Escape {
 // --- [ Shorthand ] -----------------------------------------------------------
 
 // from_untyped
-func (Shorthand) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Shorthand) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindShorthand {
 		return option.Some[AstNode](&Shorthand{SyntaxNode: node})
 	} else {
@@ -159,7 +159,7 @@ func Shorthand_default() *Shorthand {
 // --- [ SmartQuote ] ----------------------------------------------------------
 
 // from_untyped
-func (SmartQuote) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*SmartQuote) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSmartQuote {
 		return option.Some[AstNode](&SmartQuote{SyntaxNode: node})
 	} else {
@@ -179,7 +179,7 @@ func SmartQuote_default() *SmartQuote {
 // --- [ Strong ] --------------------------------------------------------------
 
 // from_untyped
-func (Strong) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Strong) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindStrong {
 		return option.Some[AstNode](&Strong{SyntaxNode: node})
 	} else {
@@ -199,7 +199,7 @@ func Strong_default() *Strong {
 // --- [ Emph ] ----------------------------------------------------------------
 
 // from_untyped
-func (Emph) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Emph) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindEmph {
 		return option.Some[AstNode](&Emph{SyntaxNode: node})
 	} else {
@@ -219,7 +219,7 @@ func Emph_default() *Emph {
 // --- [ Raw ] -----------------------------------------------------------------
 
 // from_untyped
-func (Raw) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Raw) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindRaw {
 		return option.Some[AstNode](&Raw{SyntaxNode: node})
 	} else {
@@ -239,7 +239,7 @@ func Raw_default() *Raw {
 // --- [ RawLang ] -------------------------------------------------------------
 
 // from_untyped
-func (RawLang) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*RawLang) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindRawLang {
 		return option.Some[AstNode](&RawLang{SyntaxNode: node})
 	} else {
@@ -259,7 +259,7 @@ func RawLang_default() *RawLang {
 // --- [ RawDelim ] ------------------------------------------------------------
 
 // from_untyped
-func (RawDelim) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*RawDelim) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindRawDelim {
 		return option.Some[AstNode](&RawDelim{SyntaxNode: node})
 	} else {
@@ -279,7 +279,7 @@ func RawDelim_default() *RawDelim {
 // --- [ Link ] ----------------------------------------------------------------
 
 // from_untyped
-func (Link) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Link) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindLink {
 		return option.Some[AstNode](&Link{SyntaxNode: node})
 	} else {
@@ -299,7 +299,7 @@ func Link_default() *Link {
 // --- [ Label ] ---------------------------------------------------------------
 
 // from_untyped
-func (Label) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Label) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindLabel {
 		return option.Some[AstNode](&Label{SyntaxNode: node})
 	} else {
@@ -319,7 +319,7 @@ func Label_default() *Label {
 // --- [ Ref ] -----------------------------------------------------------------
 
 // from_untyped
-func (Ref) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Ref) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindRef {
 		return option.Some[AstNode](&Ref{SyntaxNode: node})
 	} else {
@@ -339,7 +339,7 @@ func Ref_default() *Ref {
 // --- [ Heading ] -------------------------------------------------------------
 
 // from_untyped
-func (Heading) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Heading) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindHeading {
 		return option.Some[AstNode](&Heading{SyntaxNode: node})
 	} else {
@@ -359,7 +359,7 @@ func Heading_default() *Heading {
 // --- [ ListItem ] ------------------------------------------------------------
 
 // from_untyped
-func (ListItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ListItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindListItem {
 		return option.Some[AstNode](&ListItem{SyntaxNode: node})
 	} else {
@@ -379,7 +379,7 @@ func ListItem_default() *ListItem {
 // --- [ EnumItem ] ------------------------------------------------------------
 
 // from_untyped
-func (EnumItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*EnumItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindEnumItem {
 		return option.Some[AstNode](&EnumItem{SyntaxNode: node})
 	} else {
@@ -399,7 +399,7 @@ func EnumItem_default() *EnumItem {
 // --- [ TermItem ] ------------------------------------------------------------
 
 // from_untyped
-func (TermItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*TermItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindTermItem {
 		return option.Some[AstNode](&TermItem{SyntaxNode: node})
 	} else {
@@ -419,7 +419,7 @@ func TermItem_default() *TermItem {
 // --- [ Equation ] ------------------------------------------------------------
 
 // from_untyped
-func (Equation) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Equation) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindEquation {
 		return option.Some[AstNode](&Equation{SyntaxNode: node})
 	} else {
@@ -439,7 +439,7 @@ func Equation_default() *Equation {
 // --- [ Math ] ----------------------------------------------------------------
 
 // from_untyped
-func (Math) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Math) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMath {
 		return option.Some[AstNode](&Math{SyntaxNode: node})
 	} else {
@@ -459,7 +459,7 @@ func Math_default() *Math {
 // --- [ MathText ] ------------------------------------------------------------
 
 // from_untyped
-func (MathText) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathText) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathText {
 		return option.Some[AstNode](&MathText{SyntaxNode: node})
 	} else {
@@ -479,7 +479,7 @@ func MathText_default() *MathText {
 // --- [ MathIdent ] -----------------------------------------------------------
 
 // from_untyped
-func (MathIdent) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathIdent) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathIdent {
 		return option.Some[AstNode](&MathIdent{SyntaxNode: node})
 	} else {
@@ -499,7 +499,7 @@ func MathIdent_default() *MathIdent {
 // --- [ MathShorthand ] -------------------------------------------------------
 
 // from_untyped
-func (MathShorthand) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathShorthand) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathShorthand {
 		return option.Some[AstNode](&MathShorthand{SyntaxNode: node})
 	} else {
@@ -519,7 +519,7 @@ func MathShorthand_default() *MathShorthand {
 // --- [ MathAlignPoint ] ------------------------------------------------------
 
 // from_untyped
-func (MathAlignPoint) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathAlignPoint) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathAlignPoint {
 		return option.Some[AstNode](&MathAlignPoint{SyntaxNode: node})
 	} else {
@@ -539,7 +539,7 @@ func MathAlignPoint_default() *MathAlignPoint {
 // --- [ MathDelimited ] -------------------------------------------------------
 
 // from_untyped
-func (MathDelimited) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathDelimited) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathDelimited {
 		return option.Some[AstNode](&MathDelimited{SyntaxNode: node})
 	} else {
@@ -559,7 +559,7 @@ func MathDelimited_default() *MathDelimited {
 // --- [ MathAttach ] ----------------------------------------------------------
 
 // from_untyped
-func (MathAttach) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathAttach) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathAttach {
 		return option.Some[AstNode](&MathAttach{SyntaxNode: node})
 	} else {
@@ -579,7 +579,7 @@ func MathAttach_default() *MathAttach {
 // --- [ MathPrimes ] ----------------------------------------------------------
 
 // from_untyped
-func (MathPrimes) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathPrimes) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathPrimes {
 		return option.Some[AstNode](&MathPrimes{SyntaxNode: node})
 	} else {
@@ -599,7 +599,7 @@ func MathPrimes_default() *MathPrimes {
 // --- [ MathFrac ] ------------------------------------------------------------
 
 // from_untyped
-func (MathFrac) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathFrac) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathFrac {
 		return option.Some[AstNode](&MathFrac{SyntaxNode: node})
 	} else {
@@ -619,7 +619,7 @@ func MathFrac_default() *MathFrac {
 // --- [ MathRoot ] ------------------------------------------------------------
 
 // from_untyped
-func (MathRoot) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathRoot) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathRoot {
 		return option.Some[AstNode](&MathRoot{SyntaxNode: node})
 	} else {
@@ -639,7 +639,7 @@ func MathRoot_default() *MathRoot {
 // --- [ Ident ] ---------------------------------------------------------------
 
 // from_untyped
-func (Ident) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Ident) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindIdent {
 		return option.Some[AstNode](&Ident{SyntaxNode: node})
 	} else {
@@ -659,7 +659,7 @@ func Ident_default() *Ident {
 // --- [ None ] ----------------------------------------------------------------
 
 // from_untyped
-func (None) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*None) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNone {
 		return option.Some[AstNode](&None{SyntaxNode: node})
 	} else {
@@ -679,7 +679,7 @@ func None_default() *None {
 // --- [ Auto ] ----------------------------------------------------------------
 
 // from_untyped
-func (Auto) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Auto) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindAuto {
 		return option.Some[AstNode](&Auto{SyntaxNode: node})
 	} else {
@@ -699,7 +699,7 @@ func Auto_default() *Auto {
 // --- [ Bool ] ----------------------------------------------------------------
 
 // from_untyped
-func (Bool) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Bool) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindBool {
 		return option.Some[AstNode](&Bool{SyntaxNode: node})
 	} else {
@@ -719,7 +719,7 @@ func Bool_default() *Bool {
 // --- [ Int ] -----------------------------------------------------------------
 
 // from_untyped
-func (Int) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Int) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindInt {
 		return option.Some[AstNode](&Int{SyntaxNode: node})
 	} else {
@@ -739,7 +739,7 @@ func Int_default() *Int {
 // --- [ Float ] ---------------------------------------------------------------
 
 // from_untyped
-func (Float) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Float) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindFloat {
 		return option.Some[AstNode](&Float{SyntaxNode: node})
 	} else {
@@ -759,7 +759,7 @@ func Float_default() *Float {
 // --- [ Numeric ] -------------------------------------------------------------
 
 // from_untyped
-func (Numeric) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Numeric) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNumeric {
 		return option.Some[AstNode](&Numeric{SyntaxNode: node})
 	} else {
@@ -779,7 +779,7 @@ func Numeric_default() *Numeric {
 // --- [ Str ] -----------------------------------------------------------------
 
 // from_untyped
-func (Str) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Str) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindStr {
 		return option.Some[AstNode](&Str{SyntaxNode: node})
 	} else {
@@ -799,7 +799,7 @@ func Str_default() *Str {
 // --- [ CodeBlock ] -----------------------------------------------------------
 
 // from_untyped
-func (CodeBlock) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*CodeBlock) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindCodeBlock {
 		return option.Some[AstNode](&CodeBlock{SyntaxNode: node})
 	} else {
@@ -819,7 +819,7 @@ func CodeBlock_default() *CodeBlock {
 // --- [ Code ] ----------------------------------------------------------------
 
 // from_untyped
-func (Code) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Code) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindCode {
 		return option.Some[AstNode](&Code{SyntaxNode: node})
 	} else {
@@ -839,7 +839,7 @@ func Code_default() *Code {
 // --- [ ContentBlock ] --------------------------------------------------------
 
 // from_untyped
-func (ContentBlock) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ContentBlock) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindContentBlock {
 		return option.Some[AstNode](&ContentBlock{SyntaxNode: node})
 	} else {
@@ -859,7 +859,7 @@ func ContentBlock_default() *ContentBlock {
 // --- [ Parenthesized ] -------------------------------------------------------
 
 // from_untyped
-func (Parenthesized) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Parenthesized) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindParenthesized {
 		return option.Some[AstNode](&Parenthesized{SyntaxNode: node})
 	} else {
@@ -879,7 +879,7 @@ func Parenthesized_default() *Parenthesized {
 // --- [ Array ] ---------------------------------------------------------------
 
 // from_untyped
-func (Array) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Array) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindArray {
 		return option.Some[AstNode](&Array{SyntaxNode: node})
 	} else {
@@ -899,7 +899,7 @@ func Array_default() *Array {
 // --- [ Dict ] ----------------------------------------------------------------
 
 // from_untyped
-func (Dict) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Dict) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindDict {
 		return option.Some[AstNode](&Dict{SyntaxNode: node})
 	} else {
@@ -919,7 +919,7 @@ func Dict_default() *Dict {
 // --- [ Named ] ---------------------------------------------------------------
 
 // from_untyped
-func (Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNamed {
 		return option.Some[AstNode](&Named{SyntaxNode: node})
 	} else {
@@ -939,7 +939,7 @@ func Named_default() *Named {
 // --- [ Keyed ] ---------------------------------------------------------------
 
 // from_untyped
-func (Keyed) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Keyed) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindKeyed {
 		return option.Some[AstNode](&Keyed{SyntaxNode: node})
 	} else {
@@ -959,7 +959,7 @@ func Keyed_default() *Keyed {
 // --- [ Spread ] --------------------------------------------------------------
 
 // from_untyped
-func (Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpread {
 		return option.Some[AstNode](&Spread{SyntaxNode: node})
 	} else {
@@ -979,7 +979,7 @@ func Spread_default() *Spread {
 // --- [ Unary ] ---------------------------------------------------------------
 
 // from_untyped
-func (Unary) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Unary) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindUnary {
 		return option.Some[AstNode](&Unary{SyntaxNode: node})
 	} else {
@@ -999,7 +999,7 @@ func Unary_default() *Unary {
 // --- [ Binary ] --------------------------------------------------------------
 
 // from_untyped
-func (Binary) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Binary) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindBinary {
 		return option.Some[AstNode](&Binary{SyntaxNode: node})
 	} else {
@@ -1019,7 +1019,7 @@ func Binary_default() *Binary {
 // --- [ FieldAccess ] ---------------------------------------------------------
 
 // from_untyped
-func (FieldAccess) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*FieldAccess) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindFieldAccess {
 		return option.Some[AstNode](&FieldAccess{SyntaxNode: node})
 	} else {
@@ -1039,7 +1039,7 @@ func FieldAccess_default() *FieldAccess {
 // --- [ FuncCall ] ------------------------------------------------------------
 
 // from_untyped
-func (FuncCall) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*FuncCall) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindFuncCall {
 		return option.Some[AstNode](&FuncCall{SyntaxNode: node})
 	} else {
@@ -1059,7 +1059,7 @@ func FuncCall_default() *FuncCall {
 // --- [ Args ] ----------------------------------------------------------------
 
 // from_untyped
-func (Args) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Args) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindArgs {
 		return option.Some[AstNode](&Args{SyntaxNode: node})
 	} else {
@@ -1079,7 +1079,7 @@ func Args_default() *Args {
 // --- [ Closure ] -------------------------------------------------------------
 
 // from_untyped
-func (Closure) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Closure) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindClosure {
 		return option.Some[AstNode](&Closure{SyntaxNode: node})
 	} else {
@@ -1099,7 +1099,7 @@ func Closure_default() *Closure {
 // --- [ Params ] --------------------------------------------------------------
 
 // from_untyped
-func (Params) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Params) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindParams {
 		return option.Some[AstNode](&Params{SyntaxNode: node})
 	} else {
@@ -1119,7 +1119,7 @@ func Params_default() *Params {
 // --- [ Underscore ] ----------------------------------------------------------
 
 // from_untyped
-func (Underscore) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Underscore) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindUnderscore {
 		return option.Some[AstNode](&Underscore{SyntaxNode: node})
 	} else {
@@ -1139,7 +1139,7 @@ func Underscore_default() *Underscore {
 // --- [ Destructuring ] -------------------------------------------------------
 
 // from_untyped
-func (Destructuring) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Destructuring) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindDestructuring {
 		return option.Some[AstNode](&Destructuring{SyntaxNode: node})
 	} else {
@@ -1159,7 +1159,7 @@ func Destructuring_default() *Destructuring {
 // --- [ LetBinding ] ----------------------------------------------------------
 
 // from_untyped
-func (LetBinding) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*LetBinding) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindLetBinding {
 		return option.Some[AstNode](&LetBinding{SyntaxNode: node})
 	} else {
@@ -1179,7 +1179,7 @@ func LetBinding_default() *LetBinding {
 // --- [ DestructAssignment ] --------------------------------------------------
 
 // from_untyped
-func (DestructAssignment) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DestructAssignment) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindDestructAssignment {
 		return option.Some[AstNode](&DestructAssignment{SyntaxNode: node})
 	} else {
@@ -1199,7 +1199,7 @@ func DestructAssignment_default() *DestructAssignment {
 // --- [ SetRule ] -------------------------------------------------------------
 
 // from_untyped
-func (SetRule) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*SetRule) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSetRule {
 		return option.Some[AstNode](&SetRule{SyntaxNode: node})
 	} else {
@@ -1219,7 +1219,7 @@ func SetRule_default() *SetRule {
 // --- [ ShowRule ] ------------------------------------------------------------
 
 // from_untyped
-func (ShowRule) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ShowRule) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindShowRule {
 		return option.Some[AstNode](&ShowRule{SyntaxNode: node})
 	} else {
@@ -1239,7 +1239,7 @@ func ShowRule_default() *ShowRule {
 // --- [ Contextual ] ----------------------------------------------------------
 
 // from_untyped
-func (Contextual) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Contextual) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindContextual {
 		return option.Some[AstNode](&Contextual{SyntaxNode: node})
 	} else {
@@ -1259,7 +1259,7 @@ func Contextual_default() *Contextual {
 // --- [ Conditional ] ---------------------------------------------------------
 
 // from_untyped
-func (Conditional) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Conditional) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindConditional {
 		return option.Some[AstNode](&Conditional{SyntaxNode: node})
 	} else {
@@ -1279,7 +1279,7 @@ func Conditional_default() *Conditional {
 // --- [ WhileLoop ] -----------------------------------------------------------
 
 // from_untyped
-func (WhileLoop) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*WhileLoop) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindWhileLoop {
 		return option.Some[AstNode](&WhileLoop{SyntaxNode: node})
 	} else {
@@ -1299,7 +1299,7 @@ func WhileLoop_default() *WhileLoop {
 // --- [ ForLoop ] -------------------------------------------------------------
 
 // from_untyped
-func (ForLoop) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ForLoop) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindForLoop {
 		return option.Some[AstNode](&ForLoop{SyntaxNode: node})
 	} else {
@@ -1319,7 +1319,7 @@ func ForLoop_default() *ForLoop {
 // --- [ ModuleImport ] --------------------------------------------------------
 
 // from_untyped
-func (ModuleImport) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ModuleImport) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindModuleImport {
 		return option.Some[AstNode](&ModuleImport{SyntaxNode: node})
 	} else {
@@ -1339,7 +1339,7 @@ func ModuleImport_default() *ModuleImport {
 // --- [ ImportItems ] ---------------------------------------------------------
 
 // from_untyped
-func (ImportItems) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ImportItems) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindImportItems {
 		return option.Some[AstNode](&ImportItems{SyntaxNode: node})
 	} else {
@@ -1359,7 +1359,7 @@ func ImportItems_default() *ImportItems {
 // --- [ ImportItemPath ] ------------------------------------------------------
 
 // from_untyped
-func (ImportItemPath) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ImportItemPath) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindImportItemPath {
 		return option.Some[AstNode](&ImportItemPath{SyntaxNode: node})
 	} else {
@@ -1379,7 +1379,7 @@ func ImportItemPath_default() *ImportItemPath {
 // --- [ RenamedImportItem ] ---------------------------------------------------
 
 // from_untyped
-func (RenamedImportItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*RenamedImportItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindRenamedImportItem {
 		return option.Some[AstNode](&RenamedImportItem{SyntaxNode: node})
 	} else {
@@ -1399,7 +1399,7 @@ func RenamedImportItem_default() *RenamedImportItem {
 // --- [ ModuleInclude ] -------------------------------------------------------
 
 // from_untyped
-func (ModuleInclude) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ModuleInclude) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindModuleInclude {
 		return option.Some[AstNode](&ModuleInclude{SyntaxNode: node})
 	} else {
@@ -1419,7 +1419,7 @@ func ModuleInclude_default() *ModuleInclude {
 // --- [ LoopBreak ] -----------------------------------------------------------
 
 // from_untyped
-func (LoopBreak) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*LoopBreak) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindLoopBreak {
 		return option.Some[AstNode](&LoopBreak{SyntaxNode: node})
 	} else {
@@ -1439,7 +1439,7 @@ func LoopBreak_default() *LoopBreak {
 // --- [ LoopContinue ] --------------------------------------------------------
 
 // from_untyped
-func (LoopContinue) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*LoopContinue) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindLoopContinue {
 		return option.Some[AstNode](&LoopContinue{SyntaxNode: node})
 	} else {
@@ -1459,7 +1459,7 @@ func LoopContinue_default() *LoopContinue {
 // --- [ FuncReturn ] ----------------------------------------------------------
 
 // from_untyped
-func (FuncReturn) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*FuncReturn) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindFuncReturn {
 		return option.Some[AstNode](&FuncReturn{SyntaxNode: node})
 	} else {
@@ -1481,7 +1481,7 @@ func FuncReturn_default() *FuncReturn {
 // --- [ ArrayItem_Pos ] -------------------------------------------------------
 
 // from_untyped
-func (ArrayItem_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ArrayItem_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if n, ok := SyntaxNode_cast[*ArrayItem_Pos](node).Get(); ok {
 		return option.Some[AstNode](n)
 	}
@@ -1495,7 +1495,7 @@ func (node *ArrayItem_Pos) to_untyped() *SyntaxNode {
 // --- [ ArrayItem_Spread ] ----------------------------------------------------
 
 // from_untyped
-func (ArrayItem_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ArrayItem_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpread {
 		return option.Some[AstNode](&ArrayItem_Spread{spread: &Spread{SyntaxNode: node}})
 	} else {
@@ -1512,7 +1512,7 @@ func (node *ArrayItem_Spread) to_untyped() *SyntaxNode {
 // --- [ DictItem_Named ] ------------------------------------------------------
 
 // from_untyped
-func (DictItem_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DictItem_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNamed {
 		return option.Some[AstNode](&DictItem_Named{item: &Named{SyntaxNode: node}})
 	} else {
@@ -1527,7 +1527,7 @@ func (node *DictItem_Named) to_untyped() *SyntaxNode {
 // --- [ DictItem_Keyed ] ------------------------------------------------------
 
 // from_untyped
-func (DictItem_Keyed) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DictItem_Keyed) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindKeyed {
 		return option.Some[AstNode](&DictItem_Keyed{item: &Keyed{SyntaxNode: node}})
 	} else {
@@ -1542,7 +1542,7 @@ func (node *DictItem_Keyed) to_untyped() *SyntaxNode {
 // --- [ DictItem_Spread ] -----------------------------------------------------
 
 // from_untyped
-func (DictItem_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DictItem_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpread {
 		return option.Some[AstNode](&DictItem_Spread{item: &Spread{SyntaxNode: node}})
 	} else {
@@ -1559,7 +1559,7 @@ func (node *DictItem_Spread) to_untyped() *SyntaxNode {
 // --- [ Arg_Named ] -----------------------------------------------------------
 
 // from_untyped
-func (Arg_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Arg_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNamed {
 		return option.Some[AstNode](&Arg_Named{arg: &Named{SyntaxNode: node}})
 	} else {
@@ -1574,7 +1574,7 @@ func (node *Arg_Named) to_untyped() *SyntaxNode {
 // --- [ Arg_Spread ] ----------------------------------------------------------
 
 // from_untyped
-func (Arg_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Arg_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpread {
 		return option.Some[AstNode](&Arg_Spread{arg: &Spread{SyntaxNode: node}})
 	} else {
@@ -1589,7 +1589,7 @@ func (node *Arg_Spread) to_untyped() *SyntaxNode {
 // --- [ Arg_Pos ] -------------------------------------------------------------
 
 // from_untyped
-func (Arg_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Arg_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if n, ok := SyntaxNode_cast[*Arg_Pos](node).Get(); ok {
 		return option.Some[AstNode](n)
 	}
@@ -1605,7 +1605,7 @@ func (node *Arg_Pos) to_untyped() *SyntaxNode {
 // --- [ Param_Named ] ---------------------------------------------------------
 
 // from_untyped
-func (Param_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Param_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNamed {
 		return option.Some[AstNode](&Param_Named{param: &Named{SyntaxNode: node}})
 	} else {
@@ -1620,7 +1620,7 @@ func (node *Param_Named) to_untyped() *SyntaxNode {
 // --- [ Param_Spread ] --------------------------------------------------------
 
 // from_untyped
-func (Param_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Param_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpread {
 		return option.Some[AstNode](&Param_Spread{param: &Spread{SyntaxNode: node}})
 	} else {
@@ -1635,7 +1635,7 @@ func (node *Param_Spread) to_untyped() *SyntaxNode {
 // --- [ Param_Pos ] -----------------------------------------------------------
 
 // from_untyped
-func (Param_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Param_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if n, ok := SyntaxNode_cast[*Param_Pos](node).Get(); ok {
 		return option.Some[AstNode](n)
 	}
@@ -1651,7 +1651,7 @@ func (node *Param_Pos) to_untyped() *SyntaxNode {
 // --- [ Pattern_Normal ] ------------------------------------------------------
 
 // from_untyped
-func (Pattern_Normal) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Pattern_Normal) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if n, ok := SyntaxNode_cast[*Pattern_Normal](node).Get(); ok {
 		return option.Some[AstNode](n)
 	}
@@ -1679,7 +1679,7 @@ func Pattern_Normal_default() *Pattern_Normal {
 // --- [ Pattern_Placeholder ] -------------------------------------------------
 
 // from_untyped
-func (Pattern_Placeholder) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Pattern_Placeholder) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindUnderscore {
 		return option.Some[AstNode](&Pattern_Placeholder{pattern: &Underscore{SyntaxNode: node}})
 	} else {
@@ -1699,7 +1699,7 @@ func (node *Pattern_Placeholder) bindings() []*Ident {
 // --- [ Pattern_Parenthesized ] -----------------------------------------------
 
 // from_untyped
-func (Pattern_Parenthesized) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Pattern_Parenthesized) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindParenthesized {
 		return option.Some[AstNode](&Pattern_Parenthesized{pattern: &Parenthesized{SyntaxNode: node}})
 	} else {
@@ -1719,7 +1719,7 @@ func (node *Pattern_Parenthesized) bindings() []*Ident {
 // --- [ Pattern_Destructuring ] -----------------------------------------------
 
 // from_untyped
-func (Pattern_Destructuring) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Pattern_Destructuring) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindDestructuring {
 		return option.Some[AstNode](&Pattern_Destructuring{pattern: &Destructuring{SyntaxNode: node}})
 	} else {
@@ -1741,7 +1741,7 @@ func (node *Pattern_Destructuring) bindings() []*Ident {
 // --- [ DestructuringItem_Pattern ] -------------------------------------------
 
 // from_untyped
-func (DestructuringItem_Pattern) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DestructuringItem_Pattern) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if n, ok := SyntaxNode_cast[*DestructuringItem_Pattern](node).Get(); ok {
 		return option.Some[AstNode](n)
 	}
@@ -1755,7 +1755,7 @@ func (node *DestructuringItem_Pattern) to_untyped() *SyntaxNode {
 // --- [ DestructuringItem_Named ] ---------------------------------------------
 
 // from_untyped
-func (DestructuringItem_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DestructuringItem_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNamed {
 		return option.Some[AstNode](&DestructuringItem_Named{named: &Named{SyntaxNode: node}})
 	} else {
@@ -1770,7 +1770,7 @@ func (node *DestructuringItem_Named) to_untyped() *SyntaxNode {
 // --- [ DestructuringItem_Spread ] ---------------------------------------------
 
 // from_untyped
-func (DestructuringItem_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DestructuringItem_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpread {
 		return option.Some[AstNode](&DestructuringItem_Spread{spread: &Spread{SyntaxNode: node}})
 	} else {
-- 
2.43.0


From eb41d31612aaa248df2cbe2502104895af86c192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 44/62] fix: convert nodes to items, arguments, parameters and
 patterns

---
 typst/syntax/ast.go      |  53 ++++++++++++++------
 typst/syntax/ast_node.go | 103 +++++++++++++++++++++++++++++++++++----
 2 files changed, 130 insertions(+), 26 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 4703521..66bc982 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -124,24 +124,33 @@ func SyntaxNode_is[T AstNode](node *SyntaxNode) bool {
 //
 // cast
 func SyntaxNode_cast[T AstNode](node *SyntaxNode) option.Option[T] {
-	var zero T
-	//if _, ok := zero.(Expr); ok {
-	//	return Expr_from_untyped(node)
-	//}
-	// HACK: unable to use type assertion with type parameter, so using string
-	// representation hack instead :)
-	type_name := fmt.Sprintf("%T", new(T))
-	if type_name == "*syntax.Expr" {
-		if expr, ok := Expr_from_untyped(node).Get(); ok {
-			return option.Some[T](expr.(T))
-		}
-		return option.None[T]()
+	var (
+		zero T
+		n    AstNode
+		ok   bool
+	)
+	switch any(&zero).(type) {
+	case *Expr:
+		n, ok = Expr_from_untyped(node).Get()
+	case *ArrayItem:
+		n, ok = ArrayItem_from_untyped(node).Get()
+	case *DictItem:
+		n, ok = DictItem_from_untyped(node).Get()
+	case *Arg:
+		n, ok = Arg_from_untyped(node).Get()
+	case *Param:
+		n, ok = Param_from_untyped(node).Get()
+	case *Pattern:
+		n, ok = Pattern_from_untyped(node).Get()
+	case *DestructuringItem:
+		n, ok = DestructuringItem_from_untyped(node).Get()
+	default:
+		n, ok = zero.from_untyped(node).Get()
 	}
-	if _n, ok := zero.from_untyped(node).Get(); ok {
-		n := _n.(T)
-		return option.Some[T](n)
+	if !ok {
+		return option.None[T]()
 	}
-	return option.None[T]()
+	return option.Some(n.(T))
 }
 
 // Find the first child that can cast to the AST type `T`.
@@ -1540,6 +1549,10 @@ type DictItem interface {
 	isDictItem()
 }
 
+func (*DictItem_Named) isDictItem()  {}
+func (*DictItem_Keyed) isDictItem()  {}
+func (*DictItem_Spread) isDictItem() {}
+
 // A named pair: `thickness: 3pt`.
 //
 // Named
@@ -2112,6 +2125,10 @@ type Arg interface {
 	isArg()
 }
 
+func (*Arg_Pos) isArg()    {}
+func (*Arg_Named) isArg()  {}
+func (*Arg_Spread) isArg() {}
+
 // A positional argument: `12`.
 //
 // Pos
@@ -2185,6 +2202,10 @@ type Param interface {
 	isParam()
 }
 
+func (*Param_Pos) isParam()    {}
+func (*Param_Named) isParam()  {}
+func (*Param_Spread) isParam() {}
+
 // A positional parameter: `x`.
 //
 // Pos
diff --git a/typst/syntax/ast_node.go b/typst/syntax/ast_node.go
index 5e30d08..d534e05 100644
--- a/typst/syntax/ast_node.go
+++ b/typst/syntax/ast_node.go
@@ -1478,12 +1478,24 @@ func FuncReturn_default() *FuncReturn {
 
 // === [ ArrayItem ] ===========================================================
 
+// from_untyped
+func ArrayItem_from_untyped(node *SyntaxNode) option.Option[ArrayItem] {
+	switch node.kind() {
+	case SyntaxKindSpread:
+		return option.Some[ArrayItem](&ArrayItem_Spread{spread: &Spread{SyntaxNode: node}})
+	}
+	if expr, ok := Expr_from_untyped(node).Get(); ok {
+		return option.Some[ArrayItem](&ArrayItem_Pos{expr: expr})
+	}
+	return option.None[ArrayItem]()
+}
+
 // --- [ ArrayItem_Pos ] -------------------------------------------------------
 
 // from_untyped
 func (*ArrayItem_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*ArrayItem_Pos](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if n, ok := Expr_from_untyped(node).Get(); ok {
+		return option.Some[AstNode](&ArrayItem_Pos{expr: n})
 	}
 	return option.None[AstNode]()
 }
@@ -1509,6 +1521,19 @@ func (node *ArrayItem_Spread) to_untyped() *SyntaxNode {
 
 // === [ DictItem ] ============================================================
 
+// from_untyped
+func DictItem_from_untyped(node *SyntaxNode) option.Option[DictItem] {
+	switch node.kind() {
+	case SyntaxKindNamed:
+		return option.Some[DictItem](&DictItem_Named{item: &Named{SyntaxNode: node}})
+	case SyntaxKindKeyed:
+		return option.Some[DictItem](&DictItem_Keyed{item: &Keyed{SyntaxNode: node}})
+	case SyntaxKindSpread:
+		return option.Some[DictItem](&DictItem_Spread{item: &Spread{SyntaxNode: node}})
+	}
+	return option.None[DictItem]()
+}
+
 // --- [ DictItem_Named ] ------------------------------------------------------
 
 // from_untyped
@@ -1556,6 +1581,20 @@ func (node *DictItem_Spread) to_untyped() *SyntaxNode {
 
 // === [ Arg ] =================================================================
 
+// from_untyped
+func Arg_from_untyped(node *SyntaxNode) option.Option[Arg] {
+	switch node.kind() {
+	case SyntaxKindNamed:
+		return option.Some[Arg](&Arg_Named{arg: &Named{SyntaxNode: node}})
+	case SyntaxKindSpread:
+		return option.Some[Arg](&Arg_Spread{arg: &Spread{SyntaxNode: node}})
+	}
+	if expr, ok := Expr_from_untyped(node).Get(); ok {
+		return option.Some[Arg](&Arg_Pos{arg: expr})
+	}
+	return option.None[Arg]()
+}
+
 // --- [ Arg_Named ] -----------------------------------------------------------
 
 // from_untyped
@@ -1590,8 +1629,8 @@ func (node *Arg_Spread) to_untyped() *SyntaxNode {
 
 // from_untyped
 func (*Arg_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*Arg_Pos](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if n, ok := Expr_from_untyped(node).Get(); ok {
+		return option.Some[AstNode](&Arg_Pos{arg: n})
 	}
 	return option.None[AstNode]()
 }
@@ -1602,6 +1641,20 @@ func (node *Arg_Pos) to_untyped() *SyntaxNode {
 
 // === [ Param ] ===============================================================
 
+// from_untyped
+func Param_from_untyped(node *SyntaxNode) option.Option[Param] {
+	switch node.kind() {
+	case SyntaxKindNamed:
+		return option.Some[Param](&Param_Named{param: &Named{SyntaxNode: node}})
+	case SyntaxKindSpread:
+		return option.Some[Param](&Param_Spread{param: &Spread{SyntaxNode: node}})
+	}
+	if pattern, ok := Pattern_from_untyped(node).Get(); ok {
+		return option.Some[Param](&Param_Pos{param: pattern})
+	}
+	return option.None[Param]()
+}
+
 // --- [ Param_Named ] ---------------------------------------------------------
 
 // from_untyped
@@ -1636,8 +1689,8 @@ func (node *Param_Spread) to_untyped() *SyntaxNode {
 
 // from_untyped
 func (*Param_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*Param_Pos](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if n, ok := Pattern_from_untyped(node).Get(); ok {
+		return option.Some[AstNode](&Param_Pos{param: n})
 	}
 	return option.None[AstNode]()
 }
@@ -1648,12 +1701,28 @@ func (node *Param_Pos) to_untyped() *SyntaxNode {
 
 // === [ Pattern ] ===============================================================
 
+// from_untyped
+func Pattern_from_untyped(node *SyntaxNode) option.Option[Pattern] {
+	switch node.kind() {
+	case SyntaxKindUnderscore:
+		return option.Some[Pattern](&Pattern_Placeholder{pattern: &Underscore{SyntaxNode: node}})
+	case SyntaxKindParenthesized:
+		return option.Some[Pattern](&Pattern_Parenthesized{pattern: &Parenthesized{SyntaxNode: node}})
+	case SyntaxKindDestructuring:
+		return option.Some[Pattern](&Pattern_Destructuring{pattern: &Destructuring{SyntaxNode: node}})
+	}
+	if expr, ok := Expr_from_untyped(node).Get(); ok {
+		return option.Some[Pattern](&Pattern_Normal{expr: expr})
+	}
+	return option.None[Pattern]()
+}
+
 // --- [ Pattern_Normal ] ------------------------------------------------------
 
 // from_untyped
 func (*Pattern_Normal) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*Pattern_Normal](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if n, ok := Expr_from_untyped(node).Get(); ok {
+		return option.Some[AstNode](&Pattern_Normal{expr: n})
 	}
 	return option.None[AstNode]()
 }
@@ -1738,12 +1807,26 @@ func (node *Pattern_Destructuring) bindings() []*Ident {
 
 // === [ DestructuringItem ] ===================================================
 
+// from_untyped
+func DestructuringItem_from_untyped(node *SyntaxNode) option.Option[DestructuringItem] {
+	switch node.kind() {
+	case SyntaxKindNamed:
+		return option.Some[DestructuringItem](&DestructuringItem_Named{named: &Named{SyntaxNode: node}})
+	case SyntaxKindSpread:
+		return option.Some[DestructuringItem](&DestructuringItem_Spread{spread: &Spread{SyntaxNode: node}})
+	}
+	if pattern, ok := Pattern_from_untyped(node).Get(); ok {
+		return option.Some[DestructuringItem](&DestructuringItem_Pattern{pattern: pattern})
+	}
+	return option.None[DestructuringItem]()
+}
+
 // --- [ DestructuringItem_Pattern ] -------------------------------------------
 
 // from_untyped
 func (*DestructuringItem_Pattern) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*DestructuringItem_Pattern](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if n, ok := Pattern_from_untyped(node).Get(); ok {
+		return option.Some[AstNode](&DestructuringItem_Pattern{pattern: n})
 	}
 	return option.None[AstNode]()
 }
-- 
2.43.0


From 51a34b5ca9d282bcba7838b9218d0b2ddf6cc898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 45/62] fix: return placeholders for parts missing from AST
 nodes

---
 typst/syntax/ast.go | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 66bc982..5a94201 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -185,8 +185,7 @@ func SyntaxNode_cast_first[T AstNode](node *SyntaxNode) T {
 	if n, ok := SyntaxNode_try_cast_first[T](node).Get(); ok {
 		return n
 	}
-	var zero T // default value (placeholder).
-	return zero
+	return SyntaxNode_default[T]() // default value (placeholder).
 }
 
 // Get the last child of AST type `T` or a placeholder if none.
@@ -196,8 +195,40 @@ func SyntaxNode_cast_last[T AstNode](node *SyntaxNode) T {
 	if n, ok := SyntaxNode_try_cast_last[T](node).Get(); ok {
 		return n
 	}
-	var zero T // default value (placeholder).
-	return zero
+	return SyntaxNode_default[T]() // default value (placeholder).
+}
+
+// The placeholder for a missing node of the AST type `T`.
+//
+// default
+func SyntaxNode_default[T AstNode]() T {
+	var (
+		zero T
+		n    AstNode
+	)
+	switch any(&zero).(type) {
+	case *Expr:
+		n = Expr_default()
+	case *Pattern:
+		n = Pattern_Normal_default()
+	case **Markup:
+		n = Markup_default()
+	case **Math:
+		n = Math_default()
+	case **Code:
+		n = Code_default()
+	case **Ident:
+		n = Ident_default()
+	case **Args:
+		n = Args_default()
+	case **Params:
+		n = Params_default()
+	case **ImportItemPath:
+		n = ImportItemPath_default()
+	default:
+		return zero
+	}
+	return n.(T)
 }
 
 // TODO: move ast_node.go to here.
-- 
2.43.0


From c4be8a09912f7e86452e4dbc7c528b6a46f51f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 46/62] fix: read decimal integers

---
 typst/syntax/ast.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 5a94201..8684b93 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1259,6 +1259,7 @@ func (node *Int) get() int64 {
 		s = strings.TrimPrefix(text, "0b")
 		base = 2
 	default:
+		s = text
 		base = 10
 	}
 	x, err := strconv.ParseInt(s, base, 64)
-- 
2.43.0


From c95a2de670f909d0ba1b1d08c136170ce451e8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 47/62] fix: split numeric values with exponents before the
 unit

---
 typst/syntax/ast.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 8684b93..e27ae63 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1301,9 +1301,10 @@ func (node *Numeric) get() (float64, Unit) {
 	chars := []rune(text)
 	count := 0
 	for _, c := range slices.Backward(chars) {
-		if stdx.IsAsciiLowercase(c) || c == '%' {
-			count++
+		if !stdx.IsAsciiLowercase(c) && c != '%' {
+			break
 		}
+		count++
 	}
 	split := len(text) - count
 	value_str := text[:split]
-- 
2.43.0


From 153708863af83449f0ea3706af3e30b5ae258ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 48/62] fix: recognise the operator `not in`

---
 typst/syntax/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index e27ae63..8359712 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1776,7 +1776,7 @@ type Binary struct {
 func (node *Binary) op() BinOp {
 	not := false
 	for _, child := range node.children() {
-		switch node.kind() {
+		switch child.kind() {
 		case SyntaxKindNot:
 			not = true
 			continue
-- 
2.43.0


From 681ab7f91176248b4932bf0df67fbb85b69edd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 49/62] fix: report only a comma at the end of arguments as
 trailing

---
 typst/syntax/ast.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 8359712..63d9941 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -2136,17 +2136,14 @@ func (node *Args) items() []Arg {
 func (node *Args) trailing_comma() bool {
 	children := node.children()
 	for i, child := range slices.Backward(children) {
-		if i == 0 {
-			continue // skip first
+		if i == len(children)-1 {
+			continue // skip last
 		}
 		kind := child.kind()
-		// TODO: double-check that conversion from Rust to Go is correct.
 		if kind.IsTrivia() {
 			continue
 		}
-		if kind == SyntaxKindComma {
-			return true
-		}
+		return kind == SyntaxKindComma
 	}
 	return false
 }
-- 
2.43.0


From 71a2f82d937c4f5bfb71211931a3f1f699a59525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 50/62] fix: find parts of AST nodes behind white space

---
 typst/syntax/ast.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 63d9941..1e41e39 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1091,7 +1091,9 @@ func (node *MathAttach) bottom() option.Option[Expr] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
+				return option.Some(expr)
+			}
 		}
 		if child.kind() == SyntaxKindUnderscore {
 			found = true
@@ -1105,7 +1107,9 @@ func (node *MathAttach) top() option.Option[Expr] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
+				return option.Some(expr)
+			}
 		}
 		if child.kind() == SyntaxKindHat {
 			found = true
@@ -2513,7 +2517,9 @@ func (node *SetRule) condition() option.Option[Expr] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
+				return option.Some(expr)
+			}
 		}
 		if child.kind() == SyntaxKindIf {
 			found = true
@@ -2535,7 +2541,9 @@ func (node *ShowRule) selector() option.Option[Expr] {
 	found := false
 	for _, child := range slices.Backward(children) {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
+				return option.Some(expr)
+			}
 		}
 		if child.kind() == SyntaxKindColon {
 			found = true
@@ -2641,8 +2649,6 @@ func (node *ForLoop) iterable() Expr {
 		if found {
 			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
 				return expr
-			} else {
-				return Expr_default() // default value
 			}
 		}
 		if child.kind() == SyntaxKindIn {
-- 
2.43.0


From cb7b140d768673220f001cab3d3aa9a67dfdf5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 51/62] fix: return the new name of imported modules

---
 typst/syntax/ast.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 1e41e39..90a11be 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -2736,7 +2736,9 @@ func (node *ModuleImport) new_name() option.Option[*Ident] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			SyntaxNode_cast[*Ident](child)
+			if ident, ok := SyntaxNode_cast[*Ident](child).Get(); ok {
+				return option.Some(ident)
+			}
 		}
 		if child.kind() == SyntaxKindAs {
 			found = true
-- 
2.43.0


From 19899e18479dca2b1c410712334a723e7afd5f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 52/62] fix: return no initial value for let bindings without
 one

---
 typst/syntax/ast.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 90a11be..5bb5c92 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -2446,21 +2446,9 @@ func (node *LetBinding) init() option.Option[Expr] {
 	let := node.kind()
 	switch let := let.(type) {
 	case *LetBindingKind_Normal:
-		pattern := let.pattern
-		switch pattern.(type) {
-		case *Pattern_Normal:
-			// TODO: double-check translation from Rust to Go.
-			var exprs []Expr
-			for _, child := range node.children() {
-				if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
-					exprs = append(exprs, expr)
-				}
-			}
-			if len(exprs) > 1 {
-				return option.Some(exprs[1])
-			}
-		case *Pattern_Parenthesized:
-			// TODO: double-check translation from Rust to Go.
+		switch let.pattern.(type) {
+		case *Pattern_Normal, *Pattern_Parenthesized:
+			// The first expression is the pattern.
 			var exprs []Expr
 			for _, child := range node.children() {
 				if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
@@ -2470,6 +2458,7 @@ func (node *LetBinding) init() option.Option[Expr] {
 			if len(exprs) > 1 {
 				return option.Some(exprs[1])
 			}
+			return option.None[Expr]()
 		}
 		return SyntaxNode_try_cast_first[Expr](node.SyntaxNode)
 	case *LetBindingKind_Closure:
-- 
2.43.0


From 83422e77a4912e80712c4bbeba8bbf630668cefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 53/62] fix: accept empty math

---
 typst/syntax/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 5bb5c92..c40a974 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -926,6 +926,9 @@ func (node *Math) exprs() []Expr {
 // Whether this `Math` node was originally parenthesized.
 func (node *Math) was_deparenthesized() bool {
 	children := node.children()
+	if len(children) == 0 {
+		return false
+	}
 	first := children[0]
 	last := children[len(children)-1]
 	return first.kind() == SyntaxKindLeftParen && last.kind() == SyntaxKindRightParen
-- 
2.43.0


From 23c7b36bdf7d16aa05d4b9808f722077590222a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 54/62] fix: return infinity for floats out of range

---
 typst/syntax/ast.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index c40a974..268bb9b 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1288,7 +1288,7 @@ type Float struct {
 func (node *Float) get() float64 {
 	text := node.SyntaxNode.text()
 	x, err := strconv.ParseFloat(text, 64)
-	if err != nil {
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
 		// TODO: report warning?
 		return 0.0 // default
 	}
@@ -1317,7 +1317,7 @@ func (node *Numeric) get() (float64, Unit) {
 	value_str := text[:split]
 	unit_str := text[split:]
 	value, err := strconv.ParseFloat(value_str, 64)
-	if err != nil {
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
 		// TODO: report warning?
 		value = 0.0 // default
 	}
-- 
2.43.0


From d6d62c03a9dd8aa8b4a8d2762f95d2ec9e7fc044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 55/62] fix: give math tokens with a node their own kind

---
 typst/syntax/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 333b8d0..bc9f0c4 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -133,7 +133,7 @@ func (lexer *Lexer) next() (SyntaxKind, *SyntaxNode) {
 			case SyntaxModeMath:
 				k, n := lexer.math(start, c)
 				if node, ok := n.Get(); ok {
-					return kind, node
+					return k, node
 				} else {
 					kind = k
 				}
-- 
2.43.0


From 9268dc893ba4c68e5a90b4fdd5501a91afb1cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 56/62] fix: take the math class of single characters only

---
 typst/syntax/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typst/syntax/parser.go b/typst/syntax/parser.go
index 41494ef..7e0fe95 100644
--- a/typst/syntax/parser.go
+++ b/typst/syntax/parser.go
@@ -2,6 +2,7 @@ package syntax
 
 import (
 	"fmt"
+	"unicode/utf8"
 
 	"github.com/mewmew/typast/internal/option"
 	"github.com/mewmew/typast/internal/ranges"
@@ -527,7 +528,7 @@ func math_class(text string) option.Option[stdx.MathClass] {
 		return option.Some(stdx.MathClass_Fence)
 	}
 
-	for _, c := range text {
+	if c, size := utf8.DecodeRuneInString(text); size > 0 && size == len(text) {
 		return typutil.DefaultMathClass(c)
 	}
 	return option.None[stdx.MathClass]()
-- 
2.43.0


From 509ff53af37688f37eab518120898e20937ae782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 57/62] fix: treat letter numbers and marks as alphabetic

---
 internal/stdx/stdx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/stdx/stdx.go b/internal/stdx/stdx.go
index 5566c14..eb6f121 100644
--- a/internal/stdx/stdx.go
+++ b/internal/stdx/stdx.go
@@ -72,7 +72,7 @@ func IsAsciiHexdigit(c rune) bool {
 
 // is_alphabetic
 func IsAlphabetic(c rune) bool {
-	return unicode.IsLetter(c)
+	return unicode.IsLetter(c) || unicode.In(c, unicode.Nl, unicode.Other_Alphabetic)
 }
 
 // is_numeric
-- 
2.43.0


From 687ed2ac66711e157cb3feeda93af119177f44c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 58/62] fix: find only primes attached to the base

---
 typst/syntax/ast.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 268bb9b..c754117 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1123,17 +1123,14 @@ func (node *MathAttach) top() option.Option[Expr] {
 
 // Extract attached primes if present.
 func (node *MathAttach) primes() option.Option[*MathPrimes] {
-	var expr_children []*SyntaxNode
-	// TODO: double-check conversion from Rust to Go.
+	// The primes directly follow the base; primes further behind are an
+	// attachment of their own.
+	found := false
 	for _, child := range node.children() {
-		_, ok := SyntaxNode_cast[Expr](child).Get()
-		if ok {
-			expr_children = append(expr_children, child)
+		if found {
+			return SyntaxNode_cast[*MathPrimes](child)
 		}
-	}
-	if len(expr_children) > 1 {
-		expr_child := expr_children[1]
-		return SyntaxNode_cast[*MathPrimes](expr_child)
+		_, found = SyntaxNode_cast[Expr](child).Get()
 	}
 	return option.None[*MathPrimes]()
 }
-- 
2.43.0


From b05dd9a5e0b44f0d49f9fd79b7708eec448bec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 59/62] fix: locate the cursor zero characters away

---
 internal/scanner/scanner.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/internal/scanner/scanner.go b/internal/scanner/scanner.go
index 76cc9f6..71498ee 100644
--- a/internal/scanner/scanner.go
+++ b/internal/scanner/scanner.go
@@ -163,14 +163,11 @@ func (s *Scanner) Locate(n int) uint {
 		i := 0
 		length := 0
 		for _, c := range chars {
-			if !utf8.ValidRune(c) {
+			if i == n || !utf8.ValidRune(c) {
 				break
 			}
 			length += utf8.RuneLen(c)
 			i++
-			if i == n {
-				break
-			}
 		}
 		return s.Cursor() + uint(length)
 	} else {
-- 
2.43.0


From a2748833912d304f422ca03ec3e5ce60435f7592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 60/62] fix: reject package manifests without a version or with
 incomplete templates

---
 typst/syntax/package.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/typst/syntax/package.go b/typst/syntax/package.go
index 49098b4..82a1db7 100644
--- a/typst/syntax/package.go
+++ b/typst/syntax/package.go
@@ -42,6 +42,22 @@ func ParsePackageManifestFromToml(content string) (*PackageManifest, error) {
 		return nil, errors.New("package manifest is missing field `name`")
 	case len(manifest.Pkg.Entrypoint) == 0:
 		return nil, errors.New("package manifest is missing field `entrypoint`")
+	case manifest.Template != nil && len(manifest.Template.Path) == 0:
+		return nil, errors.New("package manifest is missing field `path` in section `template`")
+	case manifest.Template != nil && len(manifest.Template.Entrypoint) == 0:
+		return nil, errors.New("package manifest is missing field `entrypoint` in section `template`")
+	}
+	// The zero value is a valid version; tell it apart from a missing one.
+	var required struct {
+		Pkg struct {
+			Version *PackageVersion `toml:"version"`
+		} `toml:"package"`
+	}
+	if err := toml.Unmarshal([]byte(content), &required); err != nil {
+		return nil, errors.WithStack(err)
+	}
+	if required.Pkg.Version == nil {
+		return nil, errors.New("package manifest is missing field `version`")
 	}
 	return manifest, nil
 }
-- 
2.43.0


From 568198371365ba8b7cb3f70aa0a9784037b18420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 61/62] fix: report nodes that cannot be numbered

---
 typst/syntax/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index 09402e6..8847752 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -328,7 +328,7 @@ func (node *SyntaxNode) numberize(id FileID, within ranges.Range) error {
 	case *LeafNode:
 		repr.Span = mid
 	case *InnerNode:
-		repr.numberize(id, option.None[ranges.Range](), within)
+		return repr.numberize(id, option.None[ranges.Range](), within)
 	case *ErrorNode:
 		repr.Error.Span = mid
 	}
-- 
2.43.0


From 38ccc955b096fa2243b46e893703bfcdcd148083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:41 +0000
Subject: [PATCH 62/62] fix: accept the root directory as project root

---
 cmd/offline-typ/main.go | 2 +-
 cmd/update-typ/main.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 8f43c7c..83b7f64 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -724,7 +724,7 @@ func stripPrefix(path, prefix string) (string, error) {
 	path = filepath.Clean(path)
 	prefix = filepath.Clean(prefix)
 	sep := fmt.Sprintf("%c", filepath.Separator)
-	prefixParts := strings.Split(prefix, sep)
+	prefixParts := strings.Split(strings.TrimSuffix(prefix, sep), sep) // note: the prefix may be "/"
 	pathParts := strings.Split(path, sep)
 	if len(pathParts) < len(prefixParts) {
 		return "", errors.Errorf("project root (%q) not a prefix of Typst file %q", prefix, path)
diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 88b87d9..a69de61 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -544,7 +544,7 @@ func stripPrefix(path, prefix string) (string, error) {
 	path = filepath.Clean(path)
 	prefix = filepath.Clean(prefix)
 	sep := fmt.Sprintf("%c", filepath.Separator)
-	prefixParts := strings.Split(prefix, sep)
+	prefixParts := strings.Split(strings.TrimSuffix(prefix, sep), sep) // note: the prefix may be "/"
 	pathParts := strings.Split(path, sep)
 	if len(pathParts) < len(prefixParts) {
 		return "", errors.Errorf("project root (%q) not a prefix of Typst file %q", prefix, path)
-- 
2.43.0

