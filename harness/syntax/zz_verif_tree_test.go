package syntax

import (
	"encoding/json"
	"fmt"

	"github.com/mewmew/typast/internal/option"
)

// A document with the nodes the specification expects, by number from 1.
type vTree struct {
	text, mode string
	offs       []int
	kind       []string
	from, to   []int // bytes
	par        []int
	root       *SyntaxNode
	id         map[Span]int
	nodes      []*SyntaxNode
	last       []int
	depth      []int
}

// vDecodeTree decodes [text, mode, nodes] and parses the text; same reports
// whether the parsed tree is the expected one (if not, that is for the checks
// of the parser to report).
func vDecodeTree(raw []json.RawMessage) (t *vTree, same bool, err error) {
	var cps []int
	var ns [][4]any
	if err = json.Unmarshal(raw[0], &cps); err != nil {
		return
	}
	t = &vTree{text: vText(cps), id: map[Span]int{}}
	json.Unmarshal(raw[1], &t.mode)
	if err = json.Unmarshal(raw[2], &ns); err != nil {
		return
	}
	for i := range t.text {
		t.offs = append(t.offs, i)
	}
	t.offs = append(t.offs, len(t.text))
	t.kind, t.from, t.to, t.par = []string{""}, []int{0}, []int{0}, []int{0}
	for _, n := range ns {
		t.kind = append(t.kind, n[0].(string))
		t.from = append(t.from, t.offs[int(n[1].(float64))])
		t.to = append(t.to, t.offs[int(n[2].(float64))])
		t.par = append(t.par, int(n[3].(float64)))
	}
	if t.mode == "Code" {
		t.root = parse_code(t.text)
	} else {
		t.root = Parse(t.text)
	}
	file := NewFileID(option.None[*PackageSpec](), NewVirtualPath("main.typ"))
	if e := t.root.numberize(file, SpanFull); e != nil {
		return nil, false, fmt.Errorf("numbering failed: %v", e)
	}
	t.nodes = []*SyntaxNode{nil}
	same = true
	var walk func(n *SyntaxNode, par, pos int) int
	walk = func(n *SyntaxNode, par, pos int) int {
		i := len(t.nodes)
		t.nodes = append(t.nodes, n)
		t.id[n.span()] = i
		if i >= len(t.kind) || t.kind[i] != vKindName[n.kind()] || t.par[i] != par || t.from[i] != pos {
			same = false
		}
		end := pos + len(n.text())
		for _, c := range n.children() {
			end = walk(c, i, end)
		}
		if i < len(t.to) && t.to[i] != end {
			same = false
		}
		return end
	}
	walk(t.root, 0, 0)
	if len(t.nodes) != len(t.kind) || len(t.id) != len(t.nodes)-1 {
		same = false
	}
	t.last = make([]int, len(t.kind))
	for i := len(t.kind) - 1; i >= 1; i-- {
		t.last[i] = max(t.last[i], i)
		t.last[t.par[i]] = max(t.last[t.par[i]], t.last[i])
	}
	return
}

func (t *vTree) name(i int) string {
	if i == 0 {
		return "nothing"
	}
	if i < 0 {
		return "an unknown node"
	}
	return fmt.Sprintf("node %d (%s %d..%d)", i, t.kind[i], t.from[i], t.to[i])
}
