package syntax

import (
	"encoding/json"
	"fmt"
	"math"
	"slices"

	"github.com/mewmew/typast/internal/ranges"
	"github.com/mewmew/typast/internal/scanner"
)

func init() { vOps["scan"] = vScan }

type vScanOp struct {
	Op   string
	S    []int
	X, Y int
}

// vScan replays the operations of one scanner; each result must be one of
// those the specification allows.
func vScan(line []byte) (string, any) {
	var raw []json.RawMessage
	if err := json.Unmarshal(line, &raw); err != nil {
		return "harness: " + err.Error(), nil
	}
	var cps []int
	var steps []json.RawMessage
	if json.Unmarshal(raw[0], &cps) != nil || json.Unmarshal(raw[1], &steps) != nil {
		return "harness: malformed case", nil
	}
	text := vText(cps)
	s := scanner.New(text)
	if s.Cursor() != 0 || s.Text() != text {
		return fmt.Sprintf("a scanner of %q starts at %d", text, s.Cursor()), nil
	}
	var first []int
	json.Unmarshal(steps[0], &first)
	s.Jump(uint(first[0]))
	saved := s.Clone()
	done := fmt.Sprintf("on %q at %d", text, first[0])
	for _, st := range steps[1:] {
		var f []json.RawMessage
		var o vScanOp
		var cursors []uint
		if json.Unmarshal(st, &f) != nil || json.Unmarshal(f[0], &o) != nil || json.Unmarshal(f[3], &cursors) != nil {
			return "harness: malformed step", nil
		}
		pat := vText(o.S)
		var set []rune
		for _, c := range o.S {
			set = append(set, rune(c))
		}
		cond := func(c rune) bool { return slices.Contains(set, c) }
		place := func(x int) uint {
			if x >= 1<<30 {
				return math.MaxInt64 // out of any text
			}
			return uint(x)
		}
		char := func(c rune, ok bool) any {
			if !ok {
				return []int{-1}
			}
			return []int{int(c)}
		}
		str := func(t string) any {
			r := []int{}
			for _, c := range t {
				r = append(r, int(c))
			}
			return r
		}
		done += fmt.Sprintf(", %s", o.Op)
		if len(o.S) > 0 {
			done += fmt.Sprintf(" %q", pat)
		}
		switch o.Op {
		case "scout", "locate", "from", "to", "get", "jump":
			done += fmt.Sprintf(" %d %d", o.X, o.Y)
		}
		var got any
		switch o.Op {
		case "peek":
			got = char(s.Peek())
		case "eat":
			got = char(s.Eat())
		case "uneat":
			got = char(s.Uneat())
		case "done":
			got = s.Done()
		case "before":
			got = str(s.Before())
		case "after":
			got = str(s.After())
		case "scout":
			got = char(s.Scout(o.X))
		case "locate":
			got = s.Locate(o.X)
		case "at":
			got = s.At(pat)
		case "atIn":
			a, b := s.AtFunc(cond), s.AtAny(set)
			if a != b {
				return fmt.Sprintf("%s: AtFunc %v, AtAny %v", done, a, b), nil
			}
			got = a
		case "eatIf":
			got = s.EatIf(pat)
		case "expect":
			ok := func() (ok bool) {
				defer func() { recover() }()
				s.Expect(pat)
				return true
			}()
			got = ok
		case "eatIfIn":
			t := s.Clone()
			a, b := s.EatIfFunc(cond), t.EatIfAny(set)
			if a != b || s.Cursor() != t.Cursor() {
				return fmt.Sprintf("%s: EatIfFunc %v, EatIfAny %v", done, a, b), nil
			}
			got = a
		case "eatWhile":
			got = str(s.EatWhile(pat))
		case "eatUntil":
			got = str(s.EatUntil(pat))
		case "eatWhileIn":
			got = str(s.EatWhileFunc(cond))
		case "eatUntilIn":
			got = str(s.EatUntilFunc(cond))
		case "from":
			got = str(s.From(place(o.X)))
		case "to":
			got = str(s.To(place(o.X)))
		case "get":
			got = str(s.Get(ranges.NewRange(uint64(place(o.X)), uint64(place(o.Y)))))
		case "jump":
			s.Jump(place(o.X))
			got = s.Cursor()
		case "save":
			saved = s.Clone()
			got = true
		case "back":
			s = saved.Clone()
			got = s.Cursor()
		default:
			return "harness: operation " + o.Op, nil
		}
		buf, _ := json.Marshal(got)
		var allowed []json.RawMessage
		if json.Unmarshal(f[2], &allowed) != nil {
			return "harness: malformed results", nil
		}
		ok := false
		for _, a := range allowed {
			ok = ok || string(a) == string(buf)
		}
		if !ok {
			return fmt.Sprintf("%s: specified %s, got %s", done, f[2], buf), nil
		}
		if !slices.Contains(cursors, s.Cursor()) {
			return fmt.Sprintf("%s: the cursor is specified at %v, got %d", done, cursors, s.Cursor()), nil
		}
		if s.Text() != text {
			return fmt.Sprintf("%s: the text became %q", done, s.Text()), nil
		}
		var branch uint
		if json.Unmarshal(f[4], &branch) != nil {
			return "harness: malformed step", nil
		}
		if branch != s.Cursor() {
			return "", nil // another behaviour goes on from here
		}
	}
	return "", nil
}
