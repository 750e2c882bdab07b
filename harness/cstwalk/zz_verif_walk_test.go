package cstwalk

import (
	"encoding/json"
	"fmt"

	"github.com/mewmew/typast/typst/syntax"
)

func init() { vOps["walk"] = vWalk }

// The concrete form of a node.
func vConcrete(n *syntax.SyntaxNode) any { return n.Repr }

// vWalk replays [text, mode, nodes, start, declined, shown].
func vWalk(line []byte) (string, any) {
	var raw []json.RawMessage
	if err := json.Unmarshal(line, &raw); err != nil || len(raw) != 6 {
		return "harness: cannot decode case", nil
	}
	var cps, declined, shown []int
	var mode string
	var ns [][4]any
	var start int
	json.Unmarshal(raw[0], &cps)
	json.Unmarshal(raw[1], &mode)
	if err := json.Unmarshal(raw[2], &ns); err != nil {
		return "harness: " + err.Error(), nil
	}
	json.Unmarshal(raw[3], &start)
	json.Unmarshal(raw[4], &declined)
	json.Unmarshal(raw[5], &shown)
	if mode != "Markup" {
		return "harness: only markup can be walked from outside", nil
	}
	text := vText(cps)
	root := syntax.Parse(text)

	// number the nodes
	nodes := []*syntax.SyntaxNode{nil}
	id := map[any]int{}
	children := func(n *syntax.SyntaxNode) []*syntax.SyntaxNode {
		if in, ok := n.Repr.(*syntax.InnerNode); ok {
			return in.Children
		}
		return nil
	}
	same := true
	var number func(n *syntax.SyntaxNode, par int)
	number = func(n *syntax.SyntaxNode, par int) {
		i := len(nodes)
		nodes = append(nodes, n)
		id[n] = i
		id[vConcrete(n)] = i
		if i > len(ns) || int(ns[i-1][3].(float64)) != par {
			same = false
		}
		for _, c := range children(n) {
			number(c, i)
		}
	}
	number(root, 0)
	if !same || len(nodes)-1 != len(ns) {
		vCount("other tree")
		return "", nil
	}
	dec := map[int]bool{}
	for _, i := range declined {
		dec[i] = true
	}
	// The walker presents a node in more than one form (the node, and its
	// concrete representation); each form must come once, in document order,
	// and not at all once the node was declined in an earlier form.
	for level := 0; level < 3; level++ {
		for form := 0; form < 5; form++ {
			n := nodes[start]
			var from any = n
			switch form {
			case 1:
				from = &n
			case 2:
				from = &n.Repr
			case 3:
				from = n.Repr
			case 4:
				switch y := n.Repr.(type) {
				case *syntax.LeafNode:
					from = &y
				case *syntax.InnerNode:
					from = &y
				case *syntax.ErrorNode:
					from = &y
				}
			}
			var gotN, gotC []int
			bad := ""
			Walk(from, func(x any) bool {
				switch y := x.(type) {
				case *syntax.SyntaxNode:
					i, ok := id[y]
					if !ok {
						bad = "a node that is not in the tree is visited"
						return false
					}
					gotN = append(gotN, i)
					return !(level == 0 && dec[i] || level == 2 && dec[i] && i%2 == 0)
				case *syntax.LeafNode, *syntax.InnerNode, *syntax.ErrorNode:
					i, ok := id[y]
					if !ok {
						bad = "a representation that is not in the tree is visited"
						return false
					}
					gotC = append(gotC, i)
					return !(level == 1 && dec[i] || level == 2 && dec[i])
				case **syntax.SyntaxNode, *syntax.Repr, **syntax.LeafNode, **syntax.InnerNode, **syntax.ErrorNode:
					return true
				}
				bad = fmt.Sprintf("a %T is visited", x)
				return true
			})
			if bad != "" {
				return fmt.Sprintf("for %q: %s", text, bad), nil
			}
			var wantN, wantC []int
			for _, i := range shown {
				if !(i == start && form >= 2) {
					wantN = append(wantN, i)
					if dec[i] && (level == 0 || level == 2 && i%2 == 0) {
						continue
					}
				} else if level == 0 && dec[i] {
					// the start cannot be declined in a form that is not shown
					wantN = nil
					break
				}
				wantC = append(wantC, i)
			}
			if form >= 2 && dec[start] && (level == 0 || level == 2) {
				continue
			}
			if fmt.Sprint(gotN) != fmt.Sprint(wantN) {
				return fmt.Sprintf("for %q from node %d (form %d), declining %v: nodes %v are visited, not %v", text, start, form, declined, gotN, wantN), nil
			}
			if fmt.Sprint(gotC) != fmt.Sprint(wantC) {
				return fmt.Sprintf("for %q from node %d (form %d), declining %v: representations %v are visited, not %v", text, start, form, declined, gotC, wantC), nil
			}
		}
	}
	return "", nil
}
