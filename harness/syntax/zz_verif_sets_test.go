package syntax

import (
	"encoding/json"
	"fmt"
	"slices"
)

func init() { vOps["sets"] = vSets }

func vPredefined(name string) *SyntaxSet {
	switch name {
	case "stmt":
		return StmtSet
	case "math":
		return MathExprSet
	case "code":
		return CodeExprSet
	case "atomicCode":
		return AtomicCodeExprSet
	case "codePrimary":
		return CodePrimarySet
	case "atomicCodePrimary":
		return AtomicCodePrimarySet
	case "unary":
		return UnaryOpSet
	case "binary":
		return BinaryOpSet
	case "item":
		return ArrayOrDictItemSet
	case "arg":
		return ArgSet
	case "param":
		return ParamSet
	case "destructItem":
		return DestructuringItemSet
	case "pattern":
		return PatternSet
	case "patternLeaf":
		return PatternLeafSet
	}
	return nil
}

var vPredefinedNames = []string{"stmt", "math", "code", "atomicCode", "codePrimary", "atomicCodePrimary", "unary", "binary",
	"item", "arg", "param", "destructItem", "pattern", "patternLeaf"}

// vSets replays how sets of kinds are made from each other: after every
// operation each set must hold what it held when it was made.
func vSets(line []byte) (string, any) {
	var raw []json.RawMessage
	var predefined bool
	var hist [][]json.RawMessage
	if json.Unmarshal(line, &raw) != nil || json.Unmarshal(raw[0], &predefined) != nil || json.Unmarshal(raw[1], &hist) != nil {
		return "harness: malformed case", nil
	}
	byName := map[string]SyntaxKind{}
	for k, n := range vKindName {
		byName[n] = k
	}
	type pre struct {
		N string
		V []string
	}
	var table []pre
	var classes map[string]struct {
		Name                                                      string
		Grouping, Terminator, Block, Stmt, Keyword, Trivia, Error bool
	}
	json.Unmarshal(raw[2], &table)
	json.Unmarshal(raw[3], &classes)
	same := func(set *SyntaxSet, want []string) string {
		for k, n := range vKindName {
			if set.Contains(k) != slices.Contains(want, n) {
				return fmt.Sprintf("contains %s: %v", n, set.Contains(k))
			}
		}
		return ""
	}
	for _, p := range table {
		if s := vPredefined(p.N); s == nil {
			return "harness: set " + p.N, nil
		} else if m := same(s, p.V); m != "" {
			return fmt.Sprintf("the %s set %s", p.N, m), nil
		}
	}
	if len(table) > 0 && len(classes) != len(vKindName) {
		return "harness: kinds", nil
	}
	for n, w := range classes {
		k := byName[n]
		if k.Name() != w.Name || k.String() != w.Name {
			return fmt.Sprintf("the kind %s is called %q and %q, specified %q", n, k.Name(), k.String(), w.Name), nil
		}
		if k.IsGrouping() != w.Grouping || k.IsTerminator() != w.Terminator || k.IsBlock() != w.Block || k.IsStmt() != w.Stmt ||
			k.IsKeyword() != w.Keyword || k.IsTrivia() != w.Trivia || k.IsError() != w.Error {
			return fmt.Sprintf("the classes of kind %s are not %+v", n, w), nil
		}
	}
	var sets []*SyntaxSet
	var want [][]string
	done := ""
	if predefined {
		for _, n := range vPredefinedNames {
			s := vPredefined(n)
			sets = append(sets, s)
			var w []string
			for k, kn := range vKindName {
				if s.Contains(k) {
					w = append(w, kn)
				}
			}
			want = append(want, w)
		}
	}
	for _, h := range hist {
		var o string
		var a, b int
		var ks, v []string
		if json.Unmarshal(h[0], &o) != nil || json.Unmarshal(h[1], &a) != nil || json.Unmarshal(h[2], &b) != nil ||
			json.Unmarshal(h[3], &ks) != nil || json.Unmarshal(h[4], &v) != nil {
			return "harness: malformed operation", nil
		}
		var kinds []SyntaxKind
		for _, n := range ks {
			kinds = append(kinds, byName[n])
		}
		done += fmt.Sprintf(" %s(%d,%d,%v)", o, a, b, ks)
		var s *SyntaxSet
		switch o {
		case "new":
			s = NewSyntaxSet(kinds...)
		case "add":
			s = sets[a-1].Add(kinds[0])
		case "union":
			s = sets[a-1].Union(sets[b-1])
		case "clone":
			s = sets[a-1].Clone()
		default:
			return "harness: operation " + o, nil
		}
		sets = append(sets, s)
		want = append(want, v)
		for i := range sets {
			if m := same(sets[i], want[i]); m != "" {
				return fmt.Sprintf("after%s: set %d, specified as %v, %s", done, i+1, want[i], m), nil
			}
		}
	}
	return "", nil
}
