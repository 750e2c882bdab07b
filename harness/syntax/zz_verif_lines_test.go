package syntax

// Replays edit histories into the line index (Lines) and into open source
// files (Source), and compares texts, line tables and conversions.

import (
	"encoding/json"
	"fmt"
	"math"
	"slices"
	"unicode/utf8"

	"github.com/mewmew/typast/internal/ranges"
)

type vLineOp struct {
	Op string `json:"op"`
	I  int    `json:"i"`
	J  int    `json:"j"`
	W  []int  `json:"w"`
}

type vLineCase struct {
	seed  string
	ops   []vLineOp
	text  string
	lines [][4]uint // byte start, utf-16 start, byte end, characters
	conv  [][4]uint // byte, utf-16, line, column
}

func vParseLineCase(line []byte) (c vLineCase) {
	var seed, text []int
	if err := json.Unmarshal(line, &[]any{&seed, &c.ops, &text, &c.lines, &c.conv}); err != nil {
		panic("harness: " + err.Error())
	}
	c.seed, c.text = vText(seed), vText(text)
	return c
}

func (c vLineCase) String() string {
	s := fmt.Sprintf("%q", c.seed)
	for _, o := range c.ops {
		if o.Op == "edit" {
			s += fmt.Sprintf(" edit(%d..%d, %q)", o.I, o.J, vText(o.W))
		} else {
			s += fmt.Sprintf(" replace(%q)", vText(o.W))
		}
	}
	return s
}

func vCheckTable(l *Lines, c vLineCase) string {
	if l.Text != c.text {
		return fmt.Sprintf("text is %q, want %q", l.Text, c.text)
	}
	if l.LenLines() != uint(len(c.lines)) {
		return fmt.Sprintf("%d lines, want %d, in %q", l.LenLines(), len(c.lines), c.text)
	}
	for i, w := range c.lines {
		b, ok := l.LineToByte(uint(i))
		if !ok || b != w[0] {
			return fmt.Sprintf("line %d starts at byte %d (%v), want %d, in %q", i, b, ok, w[0], c.text)
		}
		if u := l.Lines[i].Utf16Idx; u != w[1] {
			return fmt.Sprintf("line %d starts at UTF-16 unit %d, want %d, in %q", i, u, w[1], c.text)
		}
	}
	return ""
}

func vCheckConversions(l *Lines, c vLineCase) string {
	n := uint(len(c.text))
	last := c.conv[len(c.conv)-1]
	if l.LenBytes() != last[0] || l.LenUtf16() != last[1] || l.LenLines() != uint(len(c.lines)) {
		return fmt.Sprintf("lengths %d %d %d, want %d %d %d", l.LenBytes(), l.LenUtf16(), l.LenLines(), last[0], last[1], len(c.lines))
	}
	for _, w := range c.conv {
		if u, ok := l.ByteToUtf16(w[0]); !ok || u != w[1] {
			return fmt.Sprintf("ByteToUtf16(%d) = %d %v, want %d", w[0], u, ok, w[1])
		}
		if x, ok := l.ByteToLine(w[0]); !ok || x != w[2] {
			return fmt.Sprintf("ByteToLine(%d) = %d %v, want %d", w[0], x, ok, w[2])
		}
		if x, ok := l.ByteToColumn(w[0]); !ok || x != w[3] {
			return fmt.Sprintf("ByteToColumn(%d) = %d %v, want %d", w[0], x, ok, w[3])
		}
		if p, ok := l.ByteToLineColumn(w[0]); !ok || p.Line != w[2] || p.Col != w[3] {
			return fmt.Sprintf("ByteToLineColumn(%d) = %v %v, want %d:%d", w[0], p, ok, w[2], w[3])
		}
		if b, ok := l.Utf16ToByte(w[1]); !ok || b != w[0] {
			return fmt.Sprintf("Utf16ToByte(%d) = %d %v, want %d", w[1], b, ok, w[0])
		}
		if b, ok := l.LineColumnToByte(w[2], w[3]); !ok || b != w[0] {
			return fmt.Sprintf("LineColumnToByte(%d, %d) = %d %v, want %d", w[2], w[3], b, ok, w[0])
		}
	}
	for i, w := range c.lines {
		r, ok := l.LineToRange(uint(i))
		if !ok || uint(r.Start) != w[0] || uint(r.End) != w[2] {
			return fmt.Sprintf("LineToRange(%d) = %v %v, want %d..%d", i, r, ok, w[0], w[2])
		}
		// The column just past the line is the last one there is.
		if b, ok := l.LineColumnToByte(uint(i), w[3]); ok && b != w[2] {
			return fmt.Sprintf("LineColumnToByte(%d, %d) = %d, outside the line %d..%d", i, w[3], b, w[0], w[2])
		}
		for _, d := range []uint{1, 2, 100, math.MaxInt64, math.MaxUint - w[3]} {
			if b, ok := l.LineColumnToByte(uint(i), w[3]+d); ok {
				return fmt.Sprintf("LineColumnToByte(%d, %d) = %d on a line of %d characters", i, w[3]+d, b, w[3])
			}
		}
	}
	for _, d := range []uint{1, 2, 5, 1000, math.MaxInt64 - n, math.MaxInt64, math.MaxUint - n} {
		if x, ok := l.ByteToUtf16(n + d); ok {
			return fmt.Sprintf("ByteToUtf16(%d) = %d in %d bytes", n+d, x, n)
		}
		if x, ok := l.ByteToLine(n + d); ok {
			return fmt.Sprintf("ByteToLine(%d) = %d in %d bytes", n+d, x, n)
		}
		if x, ok := l.ByteToColumn(n + d); ok {
			return fmt.Sprintf("ByteToColumn(%d) = %d in %d bytes", n+d, x, n)
		}
		if x, ok := l.ByteToLineColumn(n + d); ok {
			return fmt.Sprintf("ByteToLineColumn(%d) = %v in %d bytes", n+d, x, n)
		}
		if x, ok := l.Utf16ToByte(last[1] + d); ok && d <= math.MaxInt64 {
			return fmt.Sprintf("Utf16ToByte(%d) = %d in %d units", last[1]+d, x, last[1])
		}
	}
	k := uint(len(c.lines))
	for _, i := range []uint{k, k + 1, k + 1000, math.MaxInt64, math.MaxUint} {
		if x, ok := l.LineToByte(i); ok {
			return fmt.Sprintf("LineToByte(%d) = %d in %d lines", i, x, k)
		}
		if x, ok := l.LineToRange(i); ok {
			return fmt.Sprintf("LineToRange(%d) = %v in %d lines", i, x, k)
		}
		if x, ok := l.LineColumnToByte(i, 0); ok {
			return fmt.Sprintf("LineColumnToByte(%d, 0) = %d in %d lines", i, x, k)
		}
	}
	// Inside a surrogate pair: never outside the text.
	for i, w := range c.conv {
		if i+1 < len(c.conv) && c.conv[i+1][1] == w[1]+2 {
			if b, ok := l.Utf16ToByte(w[1] + 1); ok && (b < w[0] || b > c.conv[i+1][0]) {
				return fmt.Sprintf("Utf16ToByte(%d) = %d, not within %d..%d", w[1]+1, b, w[0], c.conv[i+1][0])
			}
		}
	}
	return ""
}

// What an edit changed: the common parts of the texts it does not touch.
func vCheckReplacement(old, new string, o vLineOp, rr ReplacementRange, changed bool) string {
	if (o.I >= 0) != changed {
		return fmt.Sprintf("change reported: %v, want %v, replacing %q by %q", changed, o.I >= 0, old, new)
	}
	if !changed {
		return ""
	}
	p, s := int(rr.Prefix), int(rr.Suffix)
	if p+s > len(old) || p+s > len(new) {
		return fmt.Sprintf("prefix %d and suffix %d overlap, replacing %q by %q", p, s, old, new)
	}
	if old[:p] != new[:p] || old[len(old)-s:] != new[len(new)-s:] {
		return fmt.Sprintf("prefix %d or suffix %d not common, replacing %q by %q", p, s, old, new)
	}
	for _, x := range []string{old[p:], new[p:], old[len(old)-s:], new[len(new)-s:]} {
		if x != "" && !utf8.RuneStart(x[0]) {
			return fmt.Sprintf("prefix %d or suffix %d splits a character, replacing %q by %q", p, s, old, new)
		}
	}
	if p+s != o.I+o.J {
		return fmt.Sprintf("keeps %d+%d bytes, could keep %d, replacing %q by %q", p, s, o.I+o.J, old, new)
	}
	return ""
}

// vPlayLines replays a history into a line index.
func vPlayLines(c vLineCase) (*Lines, string) {
	l := NewLines(c.seed)
	for _, o := range c.ops {
		w := vText(o.W)
		if o.Op == "edit" {
			l.Edit(ranges.NewRange(uint64(o.I), uint64(o.J)), w)
			continue
		}
		old := l.Text
		rr, ok := l.ReplacementRange(w)
		if s := vCheckReplacement(old, w, o, rr, ok); s != "" {
			return l, s
		}
		if got := l.Replace(w); got != (o.I >= 0) {
			return l, fmt.Sprintf("Replace reports a change: %v, replacing %q by %q", got, old, w)
		}
		if l.Text != w {
			return l, fmt.Sprintf("text is %q after replacing %q by %q", l.Text, old, w)
		}
	}
	return l, ""
}

// vSpansOf appends the spans of a tree in document order.
func vSpansOf(n *SyntaxNode, to []Span) []Span {
	to = append(to, n.span())
	for _, c := range n.children() {
		to = vSpansOf(c, to)
	}
	return to
}

// vPlaySource replays a history into an open source file.
func vPlaySource(c vLineCase) (*Source, string) {
	src := NewDetachedSource(c.seed)
	for _, o := range c.ops {
		w := vText(o.W)
		if o.Op == "edit" {
			src.Edit(ranges.NewRange(uint64(o.I), uint64(o.J)), w)
			continue
		}
		// replacing the text by itself touches nothing
		same := src.Text() == w
		var before []Span
		if same {
			before = vSpansOf(src.Root, nil)
		}
		r := src.Replace(w)
		if same {
			if !r.IsEmpty() {
				return src, fmt.Sprintf("replacing %q by itself reads %v again", w, r)
			}
			if !slices.Equal(before, vSpansOf(src.Root, nil)) {
				return src, fmt.Sprintf("replacing %q by itself changes spans", w)
			}
		}
		if src.Text() != w {
			return src, fmt.Sprintf("source text is %q after replacing by %q", src.Text(), w)
		}
	}
	return src, ""
}

func vLinesOp(check func(l *Lines, c vLineCase) string, source bool) vOp {
	return func(line []byte) (string, any) {
		c := vParseLineCase(line)
		var l *Lines
		var s string
		if source {
			var src *Source
			if src, s = vPlaySource(c); s == "" {
				l = src.Lines
			}
		} else {
			l, s = vPlayLines(c)
		}
		if s == "" {
			s = check(l, c)
		}
		if s == "" {
			// Indexing the final text from scratch agrees as well.
			s = check(NewLines(c.text), c)
		}
		if s != "" {
			return s, c.String()
		}
		return "", nil
	}
}

func init() {
	vOps["line_table"] = vLinesOp(vCheckTable, false)
	vOps["line_conversions"] = vLinesOp(vCheckConversions, false)
	vOps["source_table"] = vLinesOp(vCheckTable, true)
	vOps["source_conversions"] = vLinesOp(vCheckConversions, true)
}
