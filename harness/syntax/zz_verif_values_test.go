package syntax

import (
	"encoding/json"
	"fmt"
	"slices"
	"strings"

	"github.com/mewmew/typast/internal/option"
	"github.com/mewmew/typast/internal/ranges"
)

func init() { vOps["values"] = vValues }

type vVMsg struct {
	F string
	A []int
}

func (m vVMsg) String() string { return strings.ReplaceAll(m.F, "%", vText(m.A)) }

// A tree as the specification describes it.
type vVal struct {
	T, K string
	X    []int
	M    vVMsg
	H    []vVMsg
	C    []*vVal
	L, D uint
	R    bool
}

type vValOp struct {
	Op, K, W string
	A, I, J  int
	P, Rs    []int
	X        []int
	Hs       []string
}

// vValDiff compares a tree with its specified value.
func vValDiff(n *SyntaxNode, v *vVal) string {
	t := "I"
	switch r := n.Repr.(type) {
	case *LeafNode:
		t = "L"
	case *ErrorNode:
		t = "E"
		if r.Error.Message != v.M.String() {
			return fmt.Sprintf("an error says %q, specified %q", r.Error.Message, v.M)
		}
		var h []string
		for _, x := range v.H {
			h = append(h, x.String())
		}
		if !slices.Equal(h, r.Error.Hints) {
			return fmt.Sprintf("an error hints %q, specified %q", r.Error.Hints, h)
		}
	}
	if t != v.T || vKindName[n.kind()] != v.K {
		return fmt.Sprintf("a node is %s %s, specified %s %s", t, vKindName[n.kind()], v.T, v.K)
	}
	if n.text() != vText(v.X) {
		return fmt.Sprintf("the text of a %s node is %q, specified %q", v.K, n.text(), vText(v.X))
	}
	if n.len() != v.L || n.is_empty() != (v.L == 0) || n.descendants() != v.D || n.erroneous() != v.R || n.is_leaf() != (t == "L") {
		return fmt.Sprintf("a %s node has length %d (empty: %v), %d descendants, erroneous: %v, leaf: %v; specified %d, %d, %v, %v", v.K,
			n.len(), n.is_empty(), n.descendants(), n.erroneous(), n.is_leaf(), v.L, v.D, v.R, t == "L")
	}
	if len(n.children()) != len(v.C) {
		return fmt.Sprintf("a %s node has %d children, specified %d", v.K, len(n.children()), len(v.C))
	}
	for i, c := range n.children() {
		if d := vValDiff(c, v.C[i]); d != "" {
			return d
		}
	}
	return ""
}

func vSpans(n *SyntaxNode) []Span {
	out := []Span{n.span()}
	for _, c := range n.children() {
		out = append(out, vSpans(c)...)
	}
	return out
}

// vValues replays operations on trees; after each, every tree must have its
// specified value, and the trees it does not concern keep their spans.
func vValues(line []byte) (string, any) {
	var hist [][]json.RawMessage
	if err := json.Unmarshal(line, &hist); err != nil {
		return "harness: " + err.Error(), nil
	}
	kinds := map[string]SyntaxKind{}
	for k, n := range vKindName {
		kinds[n] = k
	}
	leaf := func(k, x string) (*SyntaxNode, *vVal) {
		return NewLeaf(kinds[k], x), &vVal{T: "L", K: k, X: []int{int(x[0])}, L: 1, D: 1}
	}
	a, av := leaf("Text", "a")
	c, cv := leaf("Text", "c")
	regs := []*SyntaxNode{a, NewError(NewSyntaxError("bad"), "b"), NewInner(SyntaxKindMarkup, []*SyntaxNode{c})}
	vals := []*vVal{av, {T: "E", K: "Error", X: []int{'b'}, M: vVMsg{F: "bad"}, L: 1, D: 1, R: true},
		{T: "I", K: "Markup", C: []*vVal{cv}, L: 1, D: 2}}
	spans := make([][]Span, 3)
	for i := range regs {
		spans[i] = vSpans(regs[i])
	}
	file := NewFileID(option.None[*PackageSpec](), NewVirtualPath("values.typ"))
	// The interval a tree was numbered in, if its numbers are known to be in order.
	type interval struct{ from, to uint64 }
	ordered := make([]*interval, 3)
	done := ""
	for _, h := range hist {
		var o vValOp
		var reg int
		var path []int
		v := &vVal{}
		var ok bool
		var same []int
		var errs []json.RawMessage
		var text []int
		for i, x := range []any{&o, &reg, &path, v, &ok, &same, &errs, &text} {
			if err := json.Unmarshal(h[i], x); err != nil {
				return "harness: " + err.Error(), nil
			}
		}
		done += fmt.Sprintf(" %s %d%v", o.Op, o.A, path)
		switch o.Op {
		case "leaf", "inner", "kind":
			done += " " + o.K
		case "replace":
			done += fmt.Sprintf(" %d..%d", o.I, o.J)
		case "number":
			done += fmt.Sprintf(" %d", o.I)
		}
		if len(o.Rs) > 0 {
			done += fmt.Sprintf(" by %v", o.Rs)
		}
		fail := func(f string, x ...any) (string, any) {
			return "after" + done + ": " + fmt.Sprintf(f, x...), nil
		}
		r := reg - 1
		copies := func() []*SyntaxNode {
			out := []*SyntaxNode{}
			for _, x := range o.Rs {
				out = append(out, regs[x-1].clone())
			}
			return out
		}
		// The nodes from the root of the register to the node of the path.
		var chain []*SyntaxNode
		if r < len(regs) {
			chain = []*SyntaxNode{regs[r]}
			for _, p := range path {
				chain = append(chain, chain[len(chain)-1].children()[p-1])
			}
		}
		// Change a node and bring its ancestors up to date.
		change := func(f func(n *SyntaxNode)) {
			n := chain[len(chain)-1]
			l, d := n.len(), n.descendants()
			f(n)
			for i := len(chain) - 2; i >= 0; i-- {
				pl, pd := chain[i].len(), chain[i].descendants()
				chain[i].update_parent(l, chain[i+1].len(), d, chain[i+1].descendants())
				l, d = pl, pd
			}
		}
		var made *SyntaxNode
		var order *interval
		switch o.Op {
		case "leaf":
			made = NewLeaf(kinds[o.K], vText(o.X))
		case "error":
			made = NewError(NewSyntaxError(o.W), vText(o.X))
			for _, x := range o.Hs {
				made.hint(x)
			}
		case "inner":
			made = NewInner(kinds[o.K], copies())
		case "clone":
			made, order = regs[o.A-1].clone(), ordered[o.A-1]
			if !slices.Equal(vSpans(made), vSpans(regs[o.A-1])) {
				return fail("the copy has other spans")
			}
		case "kind":
			chain[len(chain)-1].convert_to_kind(kinds[o.K])
		case "hint":
			chain[len(chain)-1].hint(o.W)
		case "convert":
			change(func(n *SyntaxNode) { n.convert_to_error(o.W) })
			ordered[r] = nil
		case "expected":
			change(func(n *SyntaxNode) { n.expected(o.W) })
			ordered[r] = nil
		case "unexpected":
			change(func(n *SyntaxNode) { n.unexpected() })
			ordered[r] = nil
		case "synthesize":
			s, _ := NewSpanFromNumber(file, uint64(o.I))
			regs[r].synthesize(s)
			for _, x := range vSpans(regs[r]) {
				if x != s {
					return fail("a node has span %v, specified %v", x, s)
				}
			}
			ordered[r] = nil
		case "number":
			iv := interval{uint64(o.J), uint64(o.J) + uint64(o.I)}
			err := regs[r].numberize(file, ranges.NewRange(iv.from, iv.to))
			if (err == nil) != ok {
				return fail("numbering %d nodes within %d numbers: error %v", v.D, o.I, err)
			}
			if ok {
				ordered[r] = &iv
			} else if !slices.Equal(vSpans(regs[r]), spans[r]) {
				return fail("numbering failed but changed spans")
			}
		case "replace":
			var err error
			change(func(n *SyntaxNode) {
				err = n.replace_children(ranges.NewRange(uint64(o.I), uint64(o.J)), copies())
			})
			if (err == nil) != ok {
				if ordered[r] != nil && ordered[r].to-ordered[r].from < 1<<30 {
					return "", nil // another behaviour goes on from here
				}
				return fail("replacing children: error %v", err)
			}
			if !ok && !slices.Equal(vSpans(regs[r]), spans[r]) {
				return fail("replacing failed but changed spans")
			}
		default:
			return "harness: operation " + o.Op, nil
		}
		if made != nil {
			regs, vals, spans, ordered = append(regs, made), append(vals, v), append(spans, nil), append(ordered, order)
		}
		vals[r] = v
		for i := range regs {
			if d := vValDiff(regs[i], vals[i]); d != "" {
				return fail("tree %d: %s", i+1, d)
			}
			now := vSpans(regs[i])
			if i != r && !slices.Equal(now, spans[i]) {
				return fail("the spans of tree %d changed", i+1)
			}
			spans[i] = now
		}
		if iv := ordered[r]; iv != nil {
			last := uint64(0)
			for _, s := range spans[r] {
				if id, ok := s.ID(); !ok || id != file {
					return fail("a node has no span in the file")
				}
				if s.Number() <= last || s.Number() < iv.from || s.Number() >= iv.to {
					return fail("the spans in %d..%d are %v", iv.from, iv.to, spans[r])
				}
				last = s.Number()
			}
		}
		for i := range regs {
			want := slices.Contains(same, i+1)
			if regs[i].spanless_eq(regs[r]) != want || regs[r].spanless_eq(regs[i]) != want {
				return fail("trees %d and %d are the same: %v and %v, specified %v", i+1, r+1, regs[i].spanless_eq(regs[r]), regs[r].spanless_eq(regs[i]), want)
			}
		}
		if got := regs[r].into_text(); got != vText(text) {
			return fail("the tree spells %q, specified %q", got, vText(text))
		}
		got := []string{}
		for _, e := range regs[r].errors() {
			got = append(got, fmt.Sprintf("%q %q", e.Message, e.Hints))
			e.Hints = append(e.Hints, "x") // a copy
			e.Message = ""
		}
		want := []string{}
		for _, e := range errs {
			var pair [2]json.RawMessage
			var m vVMsg
			var hs []vVMsg
			json.Unmarshal(e, &pair)
			json.Unmarshal(pair[0], &m)
			json.Unmarshal(pair[1], &hs)
			hints := []string{}
			for _, x := range hs {
				hints = append(hints, x.String())
			}
			want = append(want, fmt.Sprintf("%q %q", m.String(), hints))
		}
		if !slices.Equal(got, want) {
			return fail("the errors are %v, specified %v", got, want)
		}
		if d := vValDiff(regs[r], v); d != "" {
			return fail("changing a reported error changed the tree: %s", d)
		}
	}
	return "", nil
}
