package syntax

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
)

func init() {
	vOps["lossless"] = vParseOp(vLossless)
	vOps["structure"] = vParseOp(vStructure)
	vOps["errors"] = vParseOp(vErrors)
	vOps["tokens"] = vTokens
	vOps["terminates_text"] = vParseOp(vTerminatesText)
	vOps["terminates"] = vTerminates
}

// --- trees -------------------------------------------------------------------

type vMsg struct {
	F string `json:"f"`
	A []int  `json:"a"`
}

func (m vMsg) String() string { return strings.ReplaceAll(m.F, "%", vText(m.A)) }

// A node as the specification describes it; lengths in characters.
type vNode struct {
	K     string
	L     int
	C     []*vNode
	Inner bool
	M     vMsg
	H     []vMsg
}

func (n *vNode) UnmarshalJSON(b []byte) error {
	var raw []json.RawMessage
	if err := json.Unmarshal(b, &raw); err != nil {
		return err
	}
	if err := json.Unmarshal(raw[0], &n.K); err != nil {
		return err
	}
	if raw[1][0] == '[' {
		n.Inner = true
		if err := json.Unmarshal(raw[1], &n.C); err != nil {
			return err
		}
		for _, c := range n.C {
			n.L += c.L
		}
		return nil
	}
	if err := json.Unmarshal(raw[1], &n.L); err != nil {
		return err
	}
	if len(raw) > 2 {
		if err := json.Unmarshal(raw[2], &n.M); err != nil {
			return err
		}
		return json.Unmarshal(raw[3], &n.H)
	}
	return nil
}

type vCase struct {
	text string
	mode string // "Code" for texts that are read as code
	offs []int  // byte offset of every character position
	tree *vNode
}

func vDecodeCase(line []byte) (*vCase, error) {
	var raw [3]json.RawMessage
	if err := json.Unmarshal(line, &raw); err != nil {
		return nil, err
	}
	mode := ""
	if raw[2] != nil {
		json.Unmarshal(raw[2], &mode)
	}
	var cps []int
	if err := json.Unmarshal(raw[0], &cps); err != nil {
		return nil, err
	}
	c := &vCase{text: vText(cps), mode: mode}
	for i := range c.text {
		c.offs = append(c.offs, i)
	}
	c.offs = append(c.offs, len(c.text))
	c.tree = &vNode{}
	if err := json.Unmarshal(raw[1], c.tree); err != nil {
		return nil, err
	}
	return c, nil
}

// A flattened tree: one entry per node in pre-order.
type vFlat struct {
	Depth int
	K     string
	From  int // bytes
	To    int
	Err   string
	Bad   bool // is or contains an error
}

func (f vFlat) String() string {
	s := fmt.Sprintf("%s%s %d..%d", strings.Repeat(" ", f.Depth), f.K, f.From, f.To)
	if f.Err != "" {
		s += " " + f.Err
	}
	return s
}

func vFlattenSpec(c *vCase, n *vNode, depth, pos int, out *[]vFlat) bool {
	i := len(*out)
	f := vFlat{Depth: depth, K: n.K, From: c.offs[pos], To: c.offs[pos+n.L]}
	if n.K == "Error" {
		f.Bad = true
		f.Err = vErrText(n.M.String(), n.H)
	}
	*out = append(*out, f)
	for _, ch := range n.C {
		if vFlattenSpec(c, ch, depth+1, pos, out) {
			(*out)[i].Bad = true
		}
		pos += ch.L
	}
	return (*out)[i].Bad
}

func vErrText(m string, hs []vMsg) string {
	s := fmt.Sprintf("%q", m)
	for _, h := range hs {
		s += fmt.Sprintf(" hint %q", h.String())
	}
	return s
}

// vFlattenReal flattens a real tree; offsets are sums of actual leaf texts.
func vFlattenReal(n *SyntaxNode, depth, pos int, out *[]vFlat) int {
	i := len(*out)
	switch r := n.Repr.(type) {
	case *LeafNode:
		*out = append(*out, vFlat{Depth: depth, K: vKindName[r.Kind], From: pos, To: pos + len(r.Text)})
		return pos + len(r.Text)
	case *ErrorNode:
		e := fmt.Sprintf("%q", r.Error.Message)
		for _, h := range r.Error.Hints {
			e += fmt.Sprintf(" hint %q", h)
		}
		*out = append(*out, vFlat{Depth: depth, K: "Error", From: pos, To: pos + len(r.Text), Err: e, Bad: true})
		return pos + len(r.Text)
	case *InnerNode:
		*out = append(*out, vFlat{Depth: depth, K: vKindName[r.Kind], From: pos, Bad: r.Erroneous})
		for _, c := range r.Children {
			pos = vFlattenReal(c, depth+1, pos, out)
		}
		(*out)[i].To = pos
		return pos
	}
	panic("unknown node representation")
}

// --- operations --------------------------------------------------------------

func vParse(text, mode string) *SyntaxNode {
	if mode == "Code" {
		return parse_code(text)
	}
	return Parse(text)
}

func vParseOp(f func(c *vCase, root *SyntaxNode) (string, any)) vOp {
	return func(line []byte) (string, any) {
		c, err := vDecodeCase(line)
		if err != nil {
			return "harness: cannot decode case: " + err.Error(), nil
		}
		return f(c, vParse(c.text, c.mode))
	}
}

func vLossless(c *vCase, root *SyntaxNode) (string, any) {
	buf := &bytes.Buffer{}
	PrintNode(buf, root)
	if buf.String() != c.text {
		return fmt.Sprintf("printed tree is %q, source is %q", buf.String(), c.text), nil
	}
	var bad string
	var walk func(n *SyntaxNode) string
	walk = func(n *SyntaxNode) string {
		var text string
		switch r := n.Repr.(type) {
		case *LeafNode:
			text = r.Text
		case *ErrorNode:
			text = r.Text
		case *InnerNode:
			sb := &strings.Builder{}
			for _, ch := range r.Children {
				sb.WriteString(walk(ch))
			}
			text = sb.String()
			if int(r.Len) != len(text) && bad == "" {
				bad = fmt.Sprintf("%s node records length %d, covers %q", vKindName[r.Kind], r.Len, text)
			}
		}
		if int(n.len()) != len(text) && bad == "" {
			bad = fmt.Sprintf("node reports length %d, covers %q", n.len(), text)
		}
		return text
	}
	if got := walk(root); got != c.text {
		return fmt.Sprintf("leaves are %q, source is %q", got, c.text), nil
	}
	return bad, c.text
}

func vDiff(text string, want, got []string) (string, any) {
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "nothing", "nothing"
		if i < len(want) {
			w = strings.TrimSpace(want[i])
		}
		if i < len(got) {
			g = strings.TrimSpace(got[i])
		}
		if i >= len(want) || i >= len(got) || want[i] != got[i] {
			return fmt.Sprintf("for %q: specified %s, got %s", text, w, g),
				map[string]any{"text": text, "specified": want, "got": got}
		}
	}
	return "", nil
}

// Kinds and extents of all nodes; errors without their messages.
func vStructure(c *vCase, root *SyntaxNode) (string, any) {
	var ws, gs []vFlat
	vFlattenSpec(c, c.tree, 0, 0, &ws)
	vFlattenReal(root, 0, 0, &gs)
	strs := func(fs []vFlat) []string {
		var out []string
		for _, f := range fs {
			f.Err = ""
			out = append(out, f.String())
		}
		return out
	}
	return vDiff(c.text, strs(ws), strs(gs))
}

// Errors with extent, message and hints; erroneous flags; the error list.
func vErrors(c *vCase, root *SyntaxNode) (string, any) {
	var ws, gs []vFlat
	vFlattenSpec(c, c.tree, 0, 0, &ws)
	vFlattenReal(root, 0, 0, &gs)
	strs := func(fs []vFlat) []string {
		var out []string
		for _, f := range fs {
			if f.K == "Error" {
				f.Depth = 0
				out = append(out, f.String())
			}
		}
		return out
	}
	if dev, det := vDiff(c.text, strs(ws), strs(gs)); dev != "" {
		return dev, det
	}
	// every ancestor of an error, and nothing else, is flagged
	var bad string
	var walk func(n *SyntaxNode) bool
	walk = func(n *SyntaxNode) bool {
		e := false
		switch r := n.Repr.(type) {
		case *ErrorNode:
			e = true
		case *InnerNode:
			for _, ch := range r.Children {
				if walk(ch) {
					e = true
				}
			}
			if r.Erroneous != e && bad == "" {
				bad = fmt.Sprintf("for %q: %s node has error flag %v, contains errors: %v", c.text, vKindName[r.Kind], r.Erroneous, e)
			}
		}
		if n.erroneous() != e && bad == "" {
			bad = fmt.Sprintf("for %q: erroneous() is %v, contains errors: %v", c.text, n.erroneous(), e)
		}
		return e
	}
	walk(root)
	if bad != "" {
		return bad, c.text
	}
	var want, got []string
	for _, f := range gs {
		if f.K == "Error" {
			want = append(want, f.Err)
		}
	}
	for _, e := range root.errors() {
		s := fmt.Sprintf("%q", e.Message)
		for _, h := range e.Hints {
			s += fmt.Sprintf(" hint %q", h)
		}
		got = append(got, s)
	}
	return vDiff(c.text, want, got)
}

// The lexer on its own: [text, mode, [[kind, node] ...]].
func vTokens(line []byte) (string, any) {
	var raw [3]json.RawMessage
	if err := json.Unmarshal(line, &raw); err != nil {
		return "harness: cannot decode case: " + err.Error(), nil
	}
	var cps []int
	var mode string
	var toks []struct {
		K  string `json:"k"`
		NL bool   `json:"nl"`
		N  *vNode `json:"n"`
	}
	if err := json.Unmarshal(raw[0], &cps); err != nil {
		return "harness: " + err.Error(), nil
	}
	json.Unmarshal(raw[1], &mode)
	if err := json.Unmarshal(raw[2], &toks); err != nil {
		return "harness: " + err.Error(), nil
	}
	c := &vCase{text: vText(cps)}
	for i := range c.text {
		c.offs = append(c.offs, i)
	}
	c.offs = append(c.offs, len(c.text))
	var want, got []string
	pos := 0
	add := func(out *[]string, k string, nl bool, fs []vFlat) {
		s := k
		if nl {
			s += "+newline"
		}
		for _, f := range fs {
			f.Err = "" // messages belong to the error reporting
			s += " " + strings.TrimSpace(f.String())
		}
		*out = append(*out, s)
	}
	for _, t := range toks {
		var fs []vFlat
		vFlattenSpec(c, t.N, 0, pos, &fs)
		pos += t.N.L
		add(&want, t.K, t.NL, fs)
	}
	m := SyntaxModeMarkup
	if mode == "Code" {
		m = SyntaxModeCode
	}
	if mode == "Math" {
		m = SyntaxModeMath
	}
	lx := NewLexer(c.text, m)
	at := 0
	for {
		k, n := lx.next()
		if k == SyntaxKindEnd {
			break
		}
		var fs []vFlat
		end := vFlattenReal(n, 0, at, &fs)
		if int(lx.cursor()) != end {
			return fmt.Sprintf("for %q in %s mode: token %s ends at %d but its text ends at %d", c.text, mode, vKindName[k], lx.cursor(), end), nil
		}
		if end == at {
			return fmt.Sprintf("for %q in %s mode: empty %s token at %d", c.text, mode, vKindName[k], at), nil
		}
		at = end
		add(&got, vKindName[k], lx.newline && k.IsTrivia(), fs)
	}
	dev, det := vDiff(c.text, want, got)
	if dev != "" {
		dev = mode + " mode: " + dev
	}
	return dev, det
}

func vTerminatesText(c *vCase, root *SyntaxNode) (string, any) {
	if root == nil {
		return "no tree", nil
	}
	return "", nil
}

// Only that parsing returns: ["mode", "prefix", "unit", "suffix", n] stands for
// prefix + n*unit + mid + n*suffix.
func vTerminates(line []byte) (string, any) {
	var raw []json.RawMessage
	if err := json.Unmarshal(line, &raw); err != nil {
		return "harness: " + err.Error(), nil
	}
	if len(raw) != 6 {
		return "harness: bad case", nil
	}
	var mode string
	var n int
	json.Unmarshal(raw[0], &mode)
	json.Unmarshal(raw[5], &n)
	str := func(b json.RawMessage) string {
		var cps []int
		json.Unmarshal(b, &cps)
		return vText(cps)
	}
	pre, unit, mid, suf := str(raw[1]), str(raw[2]), str(raw[3]), str(raw[4])
	text := pre + strings.Repeat(unit, n) + mid + strings.Repeat(suf, n)
	var root *SyntaxNode
	if mode == "Code" {
		root = parse_code(text)
	} else {
		root = Parse(text)
	}
	if root == nil {
		return "no tree", nil
	}
	return "", nil
}
