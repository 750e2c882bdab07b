package syntax

// Replays edit histories into open source files: the tree against a parse
// from scratch, the reported ranges, and records of the numbered trees.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/mewmew/typast/internal/ranges"
)

type vEdit struct {
	I int   `json:"i"`
	J int   `json:"j"`
	W []int `json:"w"`
	A int   `json:"a"`
	B int   `json:"b"`
}

type vEditCase struct {
	seed  string
	edits []vEdit
	text  string
}

func vParseEditCase(line []byte) (c vEditCase) {
	var seed, text []int
	if err := json.Unmarshal(line, &[]any{&seed, &c.edits, &text}); err != nil {
		panic("harness: " + err.Error())
	}
	c.seed, c.text = vText(seed), vText(text)
	return c
}

func (c vEditCase) show(n int) string {
	s := fmt.Sprintf("open %q", c.seed)
	for _, e := range c.edits[:n] {
		s += fmt.Sprintf(" edit(%d..%d, %q)", e.I, e.J, vText(e.W))
	}
	return s
}

// vSame compares two trees apart from spans and returns the first difference.
func vSame(a, b *SyntaxNode, off int) string {
	if a.kind() != b.kind() {
		return fmt.Sprintf("at byte %d: %v instead of %v", off, a.kind(), b.kind())
	}
	ai, aok := a.Repr.(*InnerNode)
	bi, bok := b.Repr.(*InnerNode)
	if aok != bok {
		return fmt.Sprintf("at byte %d: %v has children in one tree only", off, a.kind())
	}
	if aok {
		if len(ai.Children) != len(bi.Children) {
			return fmt.Sprintf("at byte %d: %v has %d children instead of %d", off, a.kind(), len(ai.Children), len(bi.Children))
		}
		o := off
		for i := range ai.Children {
			if s := vSame(ai.Children[i], bi.Children[i], o); s != "" {
				return s
			}
			o += len(bi.Children[i].into_text())
		}
	}
	if a.text() != b.text() || a.len() != b.len() {
		return fmt.Sprintf("at byte %d: %v %q of length %d instead of %q of length %d", off, a.kind(), a.text(), a.len(), b.text(), b.len())
	}
	if a.erroneous() != b.erroneous() {
		return fmt.Sprintf("at byte %d: %v erroneous: %v instead of %v", off, a.kind(), a.erroneous(), b.erroneous())
	}
	ae, aok := a.Repr.(*ErrorNode)
	be, bok := b.Repr.(*ErrorNode)
	if aok && bok && !ae.Error.spanless_eq(be.Error) {
		return fmt.Sprintf("at byte %d: error %q %q instead of %q %q", off, ae.Error.Message, ae.Error.Hints, be.Error.Message, be.Error.Hints)
	}
	return ""
}

type vFlat struct {
	kind SyntaxKind
	text string // of a node that is not inner
	off  int
	len  int
}

func vFlatten(n *SyntaxNode, off int, out *[]vFlat) int {
	at := len(*out)
	*out = append(*out, vFlat{n.kind(), n.text(), off, 0})
	l := 0
	if in, ok := n.Repr.(*InnerNode); ok {
		for _, c := range in.Children {
			l += vFlatten(c, off+l, out)
		}
	} else {
		l = len(n.text())
	}
	(*out)[at].len = l
	return l
}

func vOutside(fs []vFlat, a, b, d int) (out []vFlat) {
	for _, f := range fs {
		if f.len > 0 && (f.off+f.len <= a || f.off >= b) {
			if f.off >= b {
				f.off += d
			}
			out = append(out, f)
		}
	}
	return out
}

// vRangeDeviation judges the range an edit reported.
func vRangeDeviation(old, now []vFlat, r ranges.Range, i, j, w, n int) string {
	if r.Start > r.End || r.End > uint64(n) {
		return fmt.Sprintf("the range %v is not within the text of %d bytes", r, n)
	}
	if int(r.Start) > i || int(r.End) < i+w {
		return fmt.Sprintf("the range %v does not cover the change %d..%d", r, i, i+w)
	}
	d := w - (j - i)
	if int(r.End)-d < j {
		return fmt.Sprintf("the range %v does not cover the deletion %d..%d", r, i, j)
	}
	x := vOutside(old, int(r.Start), int(r.End)-d, d)
	y := vOutside(now, int(r.Start), int(r.End), 0)
	for k := range x {
		if k >= len(y) || x[k] != y[k] {
			return fmt.Sprintf("the range %v leaves out a change: %v %q at byte %d of the old tree (new offset) is gone or moved", r, x[k].kind, x[k].text, x[k].off)
		}
	}
	if len(y) > len(x) {
		k := len(x)
		return fmt.Sprintf("the range %v leaves out a change: %v %q at byte %d is new", r, y[k].kind, y[k].text, y[k].off)
	}
	return ""
}

// vSpanDeviation judges the numbering of a source file's tree.
func vSpanDeviation(src *Source) string {
	last := uint64(1)
	bad := ""
	fail := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	var rec func(n *SyntaxNode, off int, lo, hi uint64) (l, d uint, e bool)
	rec = func(n *SyntaxNode, off int, lo, hi uint64) (uint, uint, bool) {
		s := n.span()
		x := s.Number()
		if id, ok := s.ID(); !ok || id != src.ID {
			fail("%v at byte %d does not belong to the file", n.kind(), off)
		}
		if x <= last {
			fail("%v at byte %d has number %d, which does not exceed %d", n.kind(), off, x, last)
		}
		if x < lo || x >= hi {
			fail("%v at byte %d has number %d, outside %d..%d of its parent", n.kind(), off, x, lo, hi)
		}
		last = x
		in, ok := n.Repr.(*InnerNode)
		if !ok {
			_, err := n.Repr.(*ErrorNode)
			return uint(len(n.text())), 1, err
		}
		if in.Upper > hi {
			fail("%v at byte %d reaches up to %d, beyond %d of its parent", n.kind(), off, in.Upper, hi)
		}
		l, d, e := uint(0), uint(1), false
		from := x + 1
		for _, c := range in.Children {
			cl, cd, ce := rec(c, off+int(l), from, in.Upper)
			l, d, e = l+cl, d+cd, e || ce
			if ci, ok := c.Repr.(*InnerNode); ok {
				from = ci.Upper
			} else {
				from = c.span().Number() + 1
			}
		}
		if in.Len != l || in.Descendants != d || in.Erroneous != e {
			fail("%v at byte %d records %d bytes, %d nodes, error %v instead of %d, %d, %v", n.kind(), off, in.Len, in.Descendants, in.Erroneous, l, d, e)
		}
		return l, d, e
	}
	rec(src.Root, 0, SpanFull.Start, SpanFull.End)
	return bad
}

// A recorded node: parent, class (same exactly if the trees are equal apart
// from spans), length, descendants, error flag, number and upper bound as two
// limbs, whether it belongs to the file, whether it is inner, its kind's
// number, and the byte range found for the span (-1 if none).
type vRow [14]int

type vShot struct {
	I     int    `json:"i"`
	J     int    `json:"j"`
	K     int    `json:"k"`
	A     int    `json:"a"`
	B     int    `json:"b"`
	Len   int    `json:"len"`
	Nodes []vRow `json:"nodes"`
}

type vRecorder struct {
	src     *Source
	classes map[string]int
	lookups bool
}

func (v *vRecorder) rec(n *SyntaxNode, parent int, rows *[]vRow) int {
	at := len(*rows)
	*rows = append(*rows, vRow{})
	var key string
	inner := 0
	switch r := n.Repr.(type) {
	case *InnerNode:
		inner = 1
		var sb strings.Builder
		fmt.Fprintf(&sb, "I%d:", r.Kind)
		for _, c := range r.Children {
			fmt.Fprintf(&sb, "%d,", v.rec(c, at+1, rows))
		}
		key = sb.String()
	case *LeafNode:
		key = fmt.Sprintf("L%d:%s", r.Kind, r.Text)
	case *ErrorNode:
		key = fmt.Sprintf("E%q %q %q", r.Text, r.Error.Message, r.Error.Hints)
	}
	cls, ok := v.classes[key]
	if !ok {
		cls = len(v.classes) + 1
		v.classes[key] = cls
	}
	num, up := n.span().Number(), n.upper()
	own, er := 0, 0
	if id, ok := n.span().ID(); ok && id == v.src.ID {
		own = 1
	}
	if n.erroneous() {
		er = 1
	}
	mk := 0
	if n.kind() == SyntaxKindMarkup {
		mk = 1
	}
	row := vRow{parent, cls, int(n.len()), int(n.descendants()), er, int(num >> 24), int(num & (1<<24 - 1)), int(up >> 24), int(up & (1<<24 - 1)), own, inner, mk, -2, -2}
	if v.lookups {
		row[12], row[13] = -1, -1
		if r, ok := v.src.Range(n.span()); ok {
			row[12], row[13] = int(r.Start), int(r.End)
		}
	}
	(*rows)[at] = row
	return cls
}

var (
	vRecMu  sync.Mutex
	vRecOut *os.File
)

func vRecordTo(s any) {
	vRecMu.Lock()
	defer vRecMu.Unlock()
	if vRecOut == nil {
		f, err := os.Create(os.Getenv("VERIF_TRACE"))
		if err != nil {
			panic("harness: " + err.Error())
		}
		vRecOut = f
	}
	buf, err := json.Marshal(s)
	if err != nil {
		panic("harness: " + err.Error())
	}
	vRecOut.Write(append(buf, '\n'))
}

// vIsWhole tells whether a range is the whole text.
func vWhole(r ranges.Range, n int) bool { return r.Start == 0 && r.End == uint64(n) }

func init() {
	// The incremental tree equals the tree of a parse from scratch.
	vOps["reparse"] = func(line []byte) (string, any) {
		c := vParseEditCase(line)
		k := 0
		defer func() {
			if r := recover(); r != nil {
				panic(fmt.Sprintf("%v, after %s", r, c.show(min(k+1, len(c.edits)))))
			}
		}()
		src := NewDetachedSource(c.seed)
		// some are edited by giving the whole new text
		whole := (len(c.seed)+len(c.text))%3 == 0
		for ; k < len(c.edits); k++ {
			e := c.edits[k]
			var r ranges.Range
			if whole {
				t := src.Text()
				r = src.Replace(t[:e.I] + vText(e.W) + t[e.J:])
			} else {
				r = src.Edit(ranges.NewRange(uint64(e.I), uint64(e.J)), vText(e.W))
			}
			vCount("edits")
			if vWhole(r, len(src.Text())) {
				vCount("whole text")
			} else {
				vCount("local")
			}
			if s := vSame(src.Root, Parse(src.Text()), 0); s != "" {
				return fmt.Sprintf("the tree differs from a parse of %q: %s", src.Text(), s), c.show(k + 1)
			}
		}
		if src.Text() != c.text {
			return fmt.Sprintf("text is %q, want %q", src.Text(), c.text), c.show(len(c.edits))
		}
		return "", nil
	}
	// Reported ranges.
	vOps["ranges"] = func(line []byte) (string, any) {
		c := vParseEditCase(line)
		src := NewDetachedSource(c.seed)
		var old, now []vFlat
		vFlatten(src.Root, 0, &old)
		for k, e := range c.edits {
			w := vText(e.W)
			r := src.Edit(ranges.NewRange(uint64(e.I), uint64(e.J)), w)
			now = nil
			vFlatten(src.Root, 0, &now)
			if s := vRangeDeviation(old, now, r, e.I, e.J, len(w), len(src.Text())); s != "" {
				return s, c.show(k + 1)
			}
			// The model reads the range A..B again.
			n := len(src.Text())
			if want := e.B - e.A; int(r.End-r.Start) > 4*want+60 {
				return fmt.Sprintf("the range %v of %d bytes was read again, %d..%d would do", r, n, e.A, e.B), c.show(k + 1)
			} else if n > 4*want+60 {
				vCount("small range demanded")
			}
			old = now
		}
		return "", nil
	}
	// Numbering, recorded for the specification to judge.
	vOps["spans"] = func(line []byte) (string, any) {
		c := vParseEditCase(line)
		src := NewDetachedSource(c.seed)
		v := &vRecorder{src: src, classes: map[string]int{}, lookups: len(c.seed) < 400}
		shot := func(i, j, k int, r ranges.Range) vShot {
			s := vShot{I: i, J: j, K: k, A: int(r.Start), B: int(r.End), Len: len(src.Text())}
			v.rec(src.Root, 0, &s.Nodes)
			return s
		}
		shots := []vShot{shot(0, 0, 0, ranges.NewRange(0, uint64(len(c.seed))))}
		for k, e := range c.edits {
			w := vText(e.W)
			r := src.Edit(ranges.NewRange(uint64(e.I), uint64(e.J)), w)
			shots = append(shots, shot(e.I, e.J, len(w), r))
			if s := vSpanDeviation(src); s != "" {
				return s, c.show(k + 1)
			}
			// Spans of other files and numbers in between are not found.
			if v.lookups && k == len(c.edits)-1 {
				if sp, ok := NewSpanFromNumber(FileIDFromUint16(src.ID.Uint16()^0x4000), src.Root.span().Number()); ok {
					if r, ok := src.Range(sp); ok {
						return fmt.Sprintf("a span of another file has the range %v here", r), c.show(k + 1)
					}
				}
			}
		}
		vRecordTo(map[string]any{"show": c.show(len(c.edits)), "shots": shots})
		return "", nil
	}
	// Random histories of the model's edit action: line = [seed, n, steps,
	// fragments, locality, size]; every invariant is evaluated after every
	// step.  VERIF_JUDGE selects the invariant.
	vOps["storm"] = func(line []byte) (string, any) {
		var p struct {
			Seed  int64
			N     int
			Steps int
			Size  int
			Local int // one in how many histories stays at one place
			Frags [][]int
			Seeds [][]int
		}
		if err := json.Unmarshal(line, &p); err != nil {
			panic("harness: " + err.Error())
		}
		judge := os.Getenv("VERIF_JUDGE")
		var frs, seeds []string
		for _, f := range p.Frags {
			frs = append(frs, vText(f))
		}
		for _, f := range p.Seeds {
			seeds = append(seeds, vText(f))
		}
		for h := 0; h < p.N; h++ {
			r := rand.New(rand.NewSource(p.Seed*1000003 + int64(h)))
			if dev, det := vStormOne(r, judge, frs, seeds, p.Steps, p.Size, p.Local, h == 0 && os.Getenv("VERIF_TRACE") != ""); dev != "" {
				return dev, det
			}
		}
		return "", nil
	}
}

func vStormOne(r *rand.Rand, judge string, frs, seeds []string, steps, size, local int, record bool) (dev string, det any) {
	var log strings.Builder
	defer func() {
		if e := recover(); e != nil {
			dev, det = fmt.Sprintf("panic: %v", e), log.String()
		}
	}()
	t := ""
	if len(seeds) > 0 && r.Intn(3) > 0 {
		t = seeds[r.Intn(len(seeds))]
		if r.Intn(2) == 0 {
			t += seeds[r.Intn(len(seeds))]
		}
	}
	for i := r.Intn(size + 1); i > 0 && len(t) < 6*size+20; i-- {
		t += frs[r.Intn(len(frs))]
	}
	// U+E000 marks the place where to edit.
	loc := local > 0 && r.Intn(local) == 0
	anchor := strings.IndexRune(t, 0xE000)
	t = strings.ReplaceAll(t, "\uE000", "")
	if anchor < 0 {
		anchor = r.Intn(len(t) + 1)
	}
	fmt.Fprintf(&log, "open %q", t)
	src := NewDetachedSource(t)
	v := &vRecorder{src: src, classes: map[string]int{}, lookups: false}
	var shots []vShot
	shot := func(i, j, k int, r ranges.Range) {
		if !record {
			return
		}
		s := vShot{I: i, J: j, K: k, A: int(r.Start), B: int(r.End), Len: len(src.Text())}
		v.rec(src.Root, 0, &s.Nodes)
		shots = append(shots, s)
	}
	shot(0, 0, 0, ranges.NewRange(0, uint64(len(t))))
	var old, now []vFlat
	if judge == "range" {
		vFlatten(src.Root, 0, &old)
	}
	for k := 0; k < steps; k++ {
		t = src.Text()
		i := r.Intn(len(t) + 1)
		if loc {
			i = min(max(anchor+r.Intn(4)-2, 0), len(t))
		}
		j := min(i+[]int{0, 0, 1, 1, 2, 3, 8}[r.Intn(7)], len(t))
		for i < len(t) && !utf8.RuneStart(t[i]) {
			i--
		}
		for j < len(t) && !utf8.RuneStart(t[j]) {
			j++
		}
		w := ""
		if r.Intn(4) > 0 {
			w = frs[r.Intn(len(frs))]
		}
		if r.Intn(6) == 0 {
			w += frs[r.Intn(len(frs))]
		}
		if len(t) > 8*size+200 {
			j, w = min(i+60, len(t)), ""
			for j < len(t) && !utf8.RuneStart(t[j]) {
				j++
			}
		}
		fmt.Fprintf(&log, " edit(%d..%d, %q)", i, j, w)
		rg := src.Edit(ranges.NewRange(uint64(i), uint64(j)), w)
		vStormEdits(vWhole(rg, len(src.Text())))
		shot(i, j, len(w), rg)
		s := ""
		switch judge {
		case "tree":
			s = vSame(src.Root, Parse(src.Text()), 0)
		case "range":
			now = nil
			vFlatten(src.Root, 0, &now)
			s = vRangeDeviation(old, now, rg, i, j, len(w), len(src.Text()))
			old = now
		case "spans":
			s = vSpanDeviation(src)
		default:
			panic("harness: judge " + judge)
		}
		if s != "" {
			return s, log.String()
		}
	}
	if record {
		vRecordTo(map[string]any{"show": log.String(), "shots": shots})
	}
	return "", nil
}

func vStormEdits(whole bool) {
	vStatMu.Lock()
	vStat["edits"]++
	if whole {
		vStat["whole text"]++
	}
	vStatMu.Unlock()
}

func vBits(bs []int) (x uint64) {
	for _, b := range bs {
		x |= 1 << b
	}
	return x
}

func init() {
	// Making a span and taking it apart again.
	vOps["spancode"] = func(line []byte) (string, any) {
		var sort string
		var id, n, a, b, code, ca, cb []int
		if err := json.Unmarshal(line, &[]any{&sort, &id, &n, &a, &b, &code, &ca, &cb}); err != nil {
			panic("harness: " + err.Error())
		}
		file := FileIDFromUint16(uint16(vBits(id)))
		var sp Span
		var show string
		switch sort {
		case "detached":
			sp, show = NewDetachedSpan(), "a detached span"
		case "number", "rejected":
			show = fmt.Sprintf("a span of file %d and number %d", file, vBits(n))
			var ok bool
			sp, ok = NewSpanFromNumber(file, vBits(n))
			if ok != (sort == "number") {
				return fmt.Sprintf("%s: accepted: %v", show, ok), nil
			}
			if !ok {
				return "", nil
			}
		case "range":
			show = fmt.Sprintf("a span of file %d and bytes %d..%d", file, vBits(a), vBits(b))
			sp = NewSpanFromRange(file, ranges.NewRange(vBits(a), vBits(b)))
		}
		if got := sp.IsDetached(); got != (sort == "detached") {
			return fmt.Sprintf("%s: detached: %v", show, got), nil
		}
		if got, ok := sp.ID(); ok != (sort != "detached") || ok && got != file {
			return fmt.Sprintf("%s: its file is %d (%v)", show, got, ok), nil
		}
		if got, ok := sp.RawRange(); ok != (sort == "range") || ok && (got.Start != vBits(ca) || got.End != vBits(cb)) {
			return fmt.Sprintf("%s: its range is %v (%v), want %d..%d", show, got, ok, vBits(ca), vBits(cb)), nil
		}
		if got := sp.Number(); sort == "number" && got != vBits(n) {
			return fmt.Sprintf("%s: its number is %d", show, got), nil
		}
		if NewSpanFromUint64(sp.Uint64()) != sp {
			return fmt.Sprintf("%s: its raw number %d makes another span", show, sp.Uint64()), nil
		}
		other := NewSpanFromUint64(sp.Uint64() ^ 1<<50 | 1<<51)
		if got := sp.Or(other); sort == "detached" && got != other || sort != "detached" && got != sp {
			return fmt.Sprintf("%s: or another one is %v", show, got), nil
		}
		if got := NewDetachedSpan().Or(sp); got != sp {
			return fmt.Sprintf("%s: detached or this one is %v", show, got), nil
		}
		if got := FindFirstNonDetached(func(yield func(Span) bool) {
			_ = yield(NewDetachedSpan()) && yield(sp) && yield(other)
		}); sort == "detached" && got != other || sort != "detached" && got != sp {
			return fmt.Sprintf("%s: the first span that is not detached is %v", show, got), nil
		}
		return "", nil
	}
}
