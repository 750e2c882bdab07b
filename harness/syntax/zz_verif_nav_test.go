package syntax

import (
	"encoding/json"
	"fmt"
	"html"
	"strings"
)

func init() {
	vOps["nav"] = vNav
	vOps["tags"] = vTags
}

// Number of the node a link refers to, -1 if it is none of the tree.
func (t *vTree) at(l *LinkedNode, ok bool) int {
	if !ok {
		return 0
	}
	if i, ok := t.id[l.get().span()]; ok {
		return i
	}
	return -1
}

// Whether a link that should be at node i says so.
func (t *vTree) place(l *LinkedNode, i int) string {
	if int(l.offset) != t.from[i] {
		return fmt.Sprintf("reports offset %d for %s", l.offset, t.name(i))
	}
	r := l.Range()
	if int(r.Start) != t.from[i] || int(r.End) != t.to[i] {
		return fmt.Sprintf("reports range %d..%d for %s", r.Start, r.End, t.name(i))
	}
	pk, ok := l.parent_kind()
	want := t.kind[t.par[i]]
	got := ""
	if ok {
		got = vKindName[pk]
	}
	if want != got {
		return fmt.Sprintf("reports parent %q for %s", got, t.name(i))
	}
	return ""
}

// A linked node for every node, reached from the root forwards or backwards.
func (t *vTree) links(back bool) ([]*LinkedNode, string) {
	out := make([]*LinkedNode, len(t.kind))
	dev := ""
	var walk func(l *LinkedNode, i int)
	walk = func(l *LinkedNode, i int) {
		out[i] = l
		if d := t.place(l, i); d != "" && dev == "" {
			dev = fmt.Sprintf("iterating children (backwards: %v) %s", back, d)
		}
		var want, got []int
		for j := i + 1; j <= t.last[i]; j++ {
			if t.par[j] == i {
				want = append(want, j)
			}
		}
		var ls []*LinkedNode
		it := l.children()
		if back {
			for n, c := range it.RevChildren() {
				if n != len(want)-1-len(ls) && dev == "" {
					dev = fmt.Sprintf("iterating backwards numbers the children of %s wrongly: %d", t.name(i), n)
				}
				ls = append([]*LinkedNode{c}, ls...)
			}
		} else {
			for n, c := range it.Children() {
				if n != len(ls) && dev == "" {
					dev = fmt.Sprintf("iterating numbers the children of %s wrongly: %d", t.name(i), n)
				}
				ls = append(ls, c)
			}
		}
		for _, c := range ls {
			got = append(got, t.at(c, true))
		}
		if fmt.Sprint(want) != fmt.Sprint(got) {
			if dev == "" {
				dev = fmt.Sprintf("iterating children (backwards: %v) of %s visits %v, not %v", back, t.name(i), got, want)
			}
			return
		}
		for n, c := range ls {
			walk(c, want[n])
		}
	}
	walk(NewLinkedNode(t.root), 1)
	return out, dev
}

var vMoves = []struct {
	name string
	f    func(*LinkedNode) (*LinkedNode, bool)
}{
	{"prev_sibling", (*LinkedNode).prev_sibling},
	{"next_sibling", (*LinkedNode).next_sibling},
	{"prev_leaf", (*LinkedNode).prev_leaf},
	{"next_leaf", (*LinkedNode).next_leaf},
	{"leftmost_leaf", (*LinkedNode).leftmost_leaf},
	{"rightmost_leaf", (*LinkedNode).rightmost_leaf},
}

func vNav(line []byte) (string, any) {
	var raw []json.RawMessage
	if err := json.Unmarshal(line, &raw); err != nil || len(raw) != 4 {
		return "harness: cannot decode case", nil
	}
	t, same, err := vDecodeTree(raw)
	if err != nil {
		return "harness: " + err.Error(), nil
	}
	if !same {
		vCount("other tree")
		return "", nil
	}
	var rows [][]json.RawMessage
	if err := json.Unmarshal(raw[3], &rows); err != nil {
		return "harness: " + err.Error(), nil
	}
	n := len(t.kind) - 1
	moves := make([][6]int, n+1)
	before, after := make([][]int, n+1), make([][]int, n+1)
	for i, r := range rows {
		for m := 0; m < 6; m++ {
			json.Unmarshal(r[m], &moves[i+1][m])
		}
		json.Unmarshal(r[6], &before[i+1])
		json.Unmarshal(r[7], &after[i+1])
	}
	fail := func(f string, a ...any) (string, any) {
		return fmt.Sprintf("for %q: ", t.text) + fmt.Sprintf(f, a...), nil
	}
	fw, dev := t.links(false)
	if dev != "" {
		return fail("%s", dev)
	}
	bw, dev := t.links(true)
	if dev != "" {
		return fail("%s", dev)
	}
	// step checks one move from a link at node i.
	step := func(l *LinkedNode, i, m int, how string) (*LinkedNode, int, string) {
		r, ok := vMoves[m].f(l)
		j := t.at(r, ok)
		want := moves[i][m]
		if j != want {
			return nil, 0, fmt.Sprintf("%s of %s%s is %s, not %s", vMoves[m].name, t.name(i), how, t.name(j), t.name(want))
		}
		if j == 0 {
			return nil, 0, ""
		}
		if d := t.place(r, j); d != "" {
			return nil, 0, fmt.Sprintf("%s of %s%s %s", vMoves[m].name, t.name(i), how, d)
		}
		return r, j, ""
	}
	for way, links := range [][]*LinkedNode{fw, bw} {
		how := ""
		if way == 1 {
			how = ", reached backwards,"
		}
		for i := 1; i <= n; i++ {
			for m := range vMoves {
				l, j, d := step(links[i], i, m, how)
				if d != "" {
					return fail("%s", d)
				}
				if j == 0 {
					continue
				}
				// and on from where that led
				for m2 := range vMoves {
					if (way == 1 || n > 30) && m2 != (i+m)%6 {
						continue
					}
					if _, _, d := step(l, j, m2, fmt.Sprintf(" (reached by %s from %s)", vMoves[m].name, t.name(i))); d != "" {
						return fail("%s", d)
					}
				}
			}
			kind := func(k SyntaxKind, ok bool) string {
				if !ok {
					return ""
				}
				return vKindName[k]
			}
			if g, w := kind(links[i].prev_sibling_kind()), t.kind[moves[i][0]]; g != w {
				return fail("kind of previous sibling of %s is %q, not %q", t.name(i), g, w)
			}
			if g, w := kind(links[i].next_sibling_kind()), t.kind[moves[i][1]]; g != w {
				return fail("kind of next sibling of %s is %q, not %q", t.name(i), g, w)
			}
		}
	}
	// positions; those inside of a character belong to its leaf
	char := make([]int, len(t.text)+1) // character a byte belongs to
	for c := 0; c+1 < len(t.offs); c++ {
		for b := t.offs[c]; b < t.offs[c+1]; b++ {
			char[b] = c
		}
	}
	for i := 1; i <= n; i++ {
		c0 := 0
		if t.from[i] < len(t.text) {
			c0 = char[t.from[i]]
		}
		if n > 30 && i > 1 && i%3 != 0 {
			continue
		}
		for pos := t.from[i]; pos <= min(t.to[i]+2, len(t.text)+2); pos++ {
			type q struct {
				side Side
				name string
				want int
			}
			var qs []q
			switch {
			case pos > t.to[i]:
				qs = append(qs, q{SideBefore, "before", 0})
			case pos > t.from[i]:
				qs = append(qs, q{SideBefore, "before", before[i][char[pos-1]-c0+1]})
			default:
				qs = append(qs, q{SideBefore, "before", before[i][0]})
			}
			switch {
			case pos >= t.to[i]:
				qs = append(qs, q{SideAfter, "after", 0})
			default:
				qs = append(qs, q{SideAfter, "after", after[i][char[pos]-c0]})
			}
			for _, x := range qs {
				r, ok := fw[i].leaf_at(uint(pos), x.side)
				if j := t.at(r, ok); j != x.want {
					return fail("leaf %s %d in %s is %s, not %s", x.name, pos, t.name(i), t.name(j), t.name(x.want))
				} else if j != 0 {
					if d := t.place(r, j); d != "" {
						return fail("leaf %s %d in %s %s", x.name, pos, t.name(i), d)
					}
					for m := range vMoves {
						if (i > 1 || n > 30) && m != (i+pos)%4 {
							continue
						}
						if _, _, d := step(r, j, m, fmt.Sprintf(" (the leaf %s %d)", x.name, pos)); d != "" {
							return fail("%s", d)
						}
					}
				}
			}
		}
	}
	// by span
	for i := 1; i <= n; i++ {
		if n > 30 && i > 1 && i%4 != 0 {
			continue
		}
		for j := 1; j <= n; j++ {
			// everything from the root, and what is in or around the node
			if i > 1 && (j < i-1 || j > t.last[i]+1) && (i+j)%5 != 0 {
				continue
			}
			want := 0
			if i <= j && j <= t.last[i] {
				want = j
			}
			r, ok := fw[i].find(t.nodes[j].span())
			if g := t.at(r, ok); g != want {
				return fail("looking for %s in %s finds %s", t.name(j), t.name(i), t.name(g))
			} else if want != 0 {
				if d := t.place(r, j); d != "" {
					return fail("looking for %s in %s %s", t.name(j), t.name(i), d)
				}
				if _, _, d := step(r, j, (i+j)%4, " (found by span)"); d != "" {
					return fail("%s", d)
				}
			}
		}
		if i == 1 {
			if _, ok := fw[1].find(NewDetachedSpan()); ok {
				return fail("the detached span is found")
			}
		}
	}
	return "", nil
}

// --- highlighting ------------------------------------------------------------

// Categories of the specification, their CSS classes and TextMate scopes.
var vTag = map[string]struct {
	tag        Tag
	css, scope string
}{
	"Comment":      {Tag_Comment, "typ-comment", "comment.typst"},
	"Punctuation":  {Tag_Punctuation, "typ-punct", "punctuation.typst"},
	"Escape":       {Tag_Escape, "typ-escape", "constant.character.escape.typst"},
	"Strong":       {Tag_Strong, "typ-strong", "markup.bold.typst"},
	"Emph":         {Tag_Emph, "typ-emph", "markup.italic.typst"},
	"Link":         {Tag_Link, "typ-link", "markup.underline.link.typst"},
	"Raw":          {Tag_Raw, "typ-raw", "markup.raw.typst"},
	"Label":        {Tag_Label, "typ-label", "entity.name.label.typst"},
	"Ref":          {Tag_Ref, "typ-ref", "markup.other.reference.typst"},
	"Heading":      {Tag_Heading, "typ-heading", "markup.heading.typst"},
	"ListMarker":   {Tag_ListMarker, "typ-marker", "punctuation.definition.list.typst"},
	"ListTerm":     {Tag_ListTerm, "typ-term", "markup.list.term.typst"},
	"MathDelim":    {Tag_MathDelimiter, "typ-math-delim", "punctuation.definition.math.typst"},
	"MathOperator": {Tag_MathOperator, "typ-math-op", "keyword.operator.math.typst"},
	"Keyword":      {Tag_Keyword, "typ-key", "keyword.typst"},
	"Operator":     {Tag_Operator, "typ-op", "keyword.operator.typst"},
	"Number":       {Tag_Number, "typ-num", "constant.numeric.typst"},
	"String":       {Tag_String, "typ-str", "string.quoted.double.typst"},
	"Function":     {Tag_Function, "typ-func", "entity.name.function.typst"},
	"Interpolated": {Tag_Interpolated, "typ-pol", "meta.interpolation.typst"},
	"Error":        {Tag_Error, "typ-error", "invalid.typst"},
}

func vTags(line []byte) (string, any) {
	var raw []json.RawMessage
	if err := json.Unmarshal(line, &raw); err != nil || len(raw) != 5 {
		return "harness: cannot decode case", nil
	}
	t, same, err := vDecodeTree(raw)
	if err != nil {
		return "harness: " + err.Error(), nil
	}
	fail := func(f string, a ...any) (string, any) {
		return fmt.Sprintf("for %q: ", t.text) + fmt.Sprintf(f, a...), nil
	}
	doc := highlight_html(t.root)
	got, bad := vHTML(doc)
	if bad != "" {
		return fail("%s in %s", bad, doc)
	}
	// whatever the tree, the text is there
	sb := &strings.Builder{}
	for _, e := range got {
		if e[0] == 't' {
			sb.WriteString(e[1:])
		}
	}
	if sb.String() != t.text {
		return fail("the highlighted text is %q", sb.String())
	}
	if !same {
		vCount("other tree")
		return "", nil
	}
	var tags []string
	var evs [][]any
	json.Unmarshal(raw[3], &tags)
	json.Unmarshal(raw[4], &evs)
	for _, back := range []bool{false, true} {
		ls, dev := t.links(back)
		if dev != "" {
			// navigation has a check of its own
			vCount("navigation differs")
			if back {
				continue
			}
		}
		for i := 1; i < len(ls); i++ {
			if ls[i] == nil {
				continue
			}
			tag, ok := highlight(ls[i])
			want := tags[i-1]
			if !ok {
				if want != "" {
					return fail("%s has no category instead of %s", t.name(i), want)
				}
				continue
			}
			if want == "" {
				return fail("%s has category %s instead of none", t.name(i), tag.css_class())
			}
			w := vTag[want]
			if w.tag != tag {
				return fail("%s has category %s instead of %s", t.name(i), tag.css_class(), w.css)
			}
			if tag.css_class() != w.css || tag.tm_scope() != w.scope {
				return fail("category %s has CSS class %q and scope %q", want, tag.css_class(), tag.tm_scope())
			}
		}
	}
	var want []string
	for _, e := range evs {
		switch e[0].(string) {
		case "open":
			want = append(want, "o"+vTag[e[1].(string)].css)
		case "close":
			want = append(want, "c"+vTag[e[1].(string)].css)
		case "text":
			s := t.text[t.offs[int(e[1].(float64))]:t.offs[int(e[2].(float64))]]
			if n := len(want); n > 0 && want[n-1][0] == 't' {
				want[n-1] += s
			} else {
				want = append(want, "t"+s)
			}
		}
	}
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(want) || i >= len(got) || want[i] != got[i] {
			return fail("highlighted as %s, expected the events %q", doc, want)
		}
	}
	return "", nil
}

// vHTML takes <code>...</code> apart: "o"+class, "c"+class, "t"+text.
func vHTML(s string) ([]string, string) {
	var out, stack []string
	body, ok := strings.CutPrefix(s, "<code>")
	body, ok2 := strings.CutSuffix(body, "</code>")
	if !ok || !ok2 {
		return nil, "no code element"
	}
	text := func(x string) {
		x = html.UnescapeString(x)
		if x == "" {
			return
		}
		if n := len(out); n > 0 && out[n-1][0] == 't' {
			out[n-1] += x
		} else {
			out = append(out, "t"+x)
		}
	}
	for body != "" {
		i := strings.IndexByte(body, '<')
		if i < 0 {
			i = len(body)
		}
		if strings.ContainsAny(body[:i], ">\"'") {
			return nil, "unescaped character"
		}
		text(body[:i])
		body = body[i:]
		if body == "" {
			break
		}
		j := strings.IndexByte(body, '>')
		if j < 0 {
			return nil, "unfinished tag"
		}
		tag := body[1:j]
		body = body[j+1:]
		if tag == "/span" {
			if len(stack) == 0 {
				return nil, "closing tag too many"
			}
			out = append(out, "c"+stack[len(stack)-1])
			stack = stack[:len(stack)-1]
			continue
		}
		cls, ok := strings.CutPrefix(tag, "span class=\"")
		cls, ok2 := strings.CutSuffix(cls, "\"")
		if !ok || !ok2 {
			return nil, "unknown tag"
		}
		out = append(out, "o"+cls)
		stack = append(stack, cls)
	}
	if len(stack) != 0 {
		return nil, "tag not closed"
	}
	return out, ""
}
