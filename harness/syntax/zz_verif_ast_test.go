package syntax

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strings"

	"github.com/mewmew/typast/internal/option"
)

func init() {
	vOps["parts"] = vPartsOp
	vOps["casts"] = vCasts
}

// --- conversions -----------------------------------------------------------------

func vCastTo[T AstNode](n *SyntaxNode) (AstNode, bool) {
	is := SyntaxNode_is[T](n)
	x, ok := SyntaxNode_cast[T](n).Get()
	if is != ok {
		panic("SyntaxNode_is and SyntaxNode_cast disagree")
	}
	return x, ok
}

// Every type of node of its own kind.
var vConcrete = map[string]func(*SyntaxNode) (AstNode, bool){
	"Markup":             vCastTo[*Markup],
	"Text":               vCastTo[*Text],
	"Space":              vCastTo[*Space],
	"Linebreak":          vCastTo[*Linebreak],
	"Parbreak":           vCastTo[*Parbreak],
	"Escape":             vCastTo[*Escape],
	"Shorthand":          vCastTo[*Shorthand],
	"SmartQuote":         vCastTo[*SmartQuote],
	"Strong":             vCastTo[*Strong],
	"Emph":               vCastTo[*Emph],
	"Raw":                vCastTo[*Raw],
	"RawLang":            vCastTo[*RawLang],
	"RawDelim":           vCastTo[*RawDelim],
	"Link":               vCastTo[*Link],
	"Label":              vCastTo[*Label],
	"Ref":                vCastTo[*Ref],
	"Heading":            vCastTo[*Heading],
	"ListItem":           vCastTo[*ListItem],
	"EnumItem":           vCastTo[*EnumItem],
	"TermItem":           vCastTo[*TermItem],
	"Equation":           vCastTo[*Equation],
	"Math":               vCastTo[*Math],
	"MathText":           vCastTo[*MathText],
	"MathIdent":          vCastTo[*MathIdent],
	"MathShorthand":      vCastTo[*MathShorthand],
	"MathAlignPoint":     vCastTo[*MathAlignPoint],
	"MathDelimited":      vCastTo[*MathDelimited],
	"MathAttach":         vCastTo[*MathAttach],
	"MathPrimes":         vCastTo[*MathPrimes],
	"MathFrac":           vCastTo[*MathFrac],
	"MathRoot":           vCastTo[*MathRoot],
	"Ident":              vCastTo[*Ident],
	"None":               vCastTo[*None],
	"Auto":               vCastTo[*Auto],
	"Bool":               vCastTo[*Bool],
	"Int":                vCastTo[*Int],
	"Float":              vCastTo[*Float],
	"Numeric":            vCastTo[*Numeric],
	"Str":                vCastTo[*Str],
	"CodeBlock":          vCastTo[*CodeBlock],
	"Code":               vCastTo[*Code],
	"ContentBlock":       vCastTo[*ContentBlock],
	"Parenthesized":      vCastTo[*Parenthesized],
	"Array":              vCastTo[*Array],
	"Dict":               vCastTo[*Dict],
	"Named":              vCastTo[*Named],
	"Keyed":              vCastTo[*Keyed],
	"Spread":             vCastTo[*Spread],
	"Unary":              vCastTo[*Unary],
	"Binary":             vCastTo[*Binary],
	"FieldAccess":        vCastTo[*FieldAccess],
	"FuncCall":           vCastTo[*FuncCall],
	"Args":               vCastTo[*Args],
	"Closure":            vCastTo[*Closure],
	"Params":             vCastTo[*Params],
	"Underscore":         vCastTo[*Underscore],
	"Destructuring":      vCastTo[*Destructuring],
	"LetBinding":         vCastTo[*LetBinding],
	"DestructAssignment": vCastTo[*DestructAssignment],
	"SetRule":            vCastTo[*SetRule],
	"ShowRule":           vCastTo[*ShowRule],
	"Contextual":         vCastTo[*Contextual],
	"Conditional":        vCastTo[*Conditional],
	"WhileLoop":          vCastTo[*WhileLoop],
	"ForLoop":            vCastTo[*ForLoop],
	"ModuleImport":       vCastTo[*ModuleImport],
	"ImportItems":        vCastTo[*ImportItems],
	"ImportItemPath":     vCastTo[*ImportItemPath],
	"RenamedImportItem":  vCastTo[*RenamedImportItem],
	"ModuleInclude":      vCastTo[*ModuleInclude],
	"LoopBreak":          vCastTo[*LoopBreak],
	"LoopContinue":       vCastTo[*LoopContinue],
	"FuncReturn":         vCastTo[*FuncReturn],
}

// Every place at which nodes of several kinds may stand.
var vPlaces = map[string]func(*SyntaxNode) (AstNode, bool){
	"Expr":              vCastTo[Expr],
	"Pattern":           vCastTo[Pattern],
	"ArrayItem":         vCastTo[ArrayItem],
	"DictItem":          vCastTo[DictItem],
	"Arg":               vCastTo[Arg],
	"Param":             vCastTo[Param],
	"DestructuringItem": vCastTo[DestructuringItem],
}

// The variant a node is at a place, by the name of its type.
func vVariantOf(x any) string {
	s := strings.TrimPrefix(fmt.Sprintf("%T", x), "*syntax.")
	if _, after, ok := strings.Cut(s, "_"); ok {
		return after
	}
	return s
}

func vTry(f func() any) (v any, crash string) {
	defer func() {
		if r := recover(); r != nil {
			crash = fmt.Sprint(r)
		}
	}()
	return f(), ""
}

// vCasts checks for a kind into which types its nodes convert: [kind, {place: variant}].
func vCasts(line []byte) (string, any) {
	var raw [4]json.RawMessage
	var kind string
	var hash, literal bool
	want := map[string]string{}
	if err := json.Unmarshal(line, &raw); err != nil {
		return fmt.Sprintf("harness: %v", err), nil
	}
	json.Unmarshal(raw[0], &kind)
	json.Unmarshal(raw[1], &want)
	json.Unmarshal(raw[2], &hash)
	json.Unmarshal(raw[3], &literal)
	for k := range vKindName {
		if vKindName[k] != kind || SyntaxKind(k) == SyntaxKindError {
			continue
		}
		n := SyntaxNode_placeholder(SyntaxKind(k))
		for name, f := range vConcrete {
			v, crash := vTry(func() any {
				x, ok := f(n)
				if !ok {
					return ""
				}
				if x.to_untyped() != n {
					return "another node"
				}
				return vVariantOf(x)
			})
			exp := ""
			if name == kind {
				exp = kind
			}
			if crash != "" || v != exp {
				return fmt.Sprintf("converting a node of kind %s to %s gives %q %s, not %q", kind, name, v, crash, exp), nil
			}
		}
		if x, ok := SyntaxNode_cast[Expr](n).Get(); ok {
			if Expr_hash(x) != hash {
				return fmt.Sprintf("an expression of kind %s may follow a hash: %v, not %v", kind, !hash, hash), nil
			}
			if Expr_is_literal(x) != literal {
				return fmt.Sprintf("an expression of kind %s is a literal: %v, not %v", kind, !literal, literal), nil
			}
		}
		for name, f := range vPlaces {
			v, crash := vTry(func() any {
				x, ok := f(n)
				if !ok {
					return ""
				}
				if x.to_untyped() != n {
					return "another node"
				}
				return vVariantOf(x)
			})
			if crash != "" || v != want[name] {
				return fmt.Sprintf("a node of kind %s as %s is %q %s, not %q", kind, name, v, crash, want[name]), nil
			}
		}
	}
	return "", nil
}

// --- parts -------------------------------------------------------------------------

func vOpt[T any](o option.Option[T]) any {
	if x, ok := o.Get(); ok {
		return x
	}
	return nil
}

func vAny[T any](xs []T) []any {
	out := []any{}
	for _, x := range xs {
		out = append(out, x)
	}
	return out
}

// The parts of a node, by name.
func vAccessors(n *SyntaxNode) map[string]func() any {
	type m = map[string]func() any
	switch x, _ := SyntaxNode_cast[Expr](n).Get(); x := x.(type) {
	case *Text:
		return m{"get": func() any { return x.get() }}
	case *Link:
		return m{"get": func() any { return x.get() }}
	case *Label:
		return m{"get": func() any { return x.get() }}
	case *Ident:
		return m{"get": func() any { return x.get() }}
	case *Str:
		return m{"get": func() any {
			if x.get() != x.Get() {
				return "get and Get differ"
			}
			return x.get()
		}}
	case *Escape:
		return m{"get": func() any { return uint64(x.get()) }}
	case *Shorthand:
		return m{"get": func() any { return uint64(x.get()) }}
	case *SmartQuote:
		return m{"double": func() any { return x.double() }}
	case *Bool:
		return m{"get": func() any { return x.get() }}
	case *Int:
		return m{"get": func() any { return x.get() }}
	case *Float:
		return m{"get": func() any { return x.get() }}
	case *Numeric:
		return m{"value": func() any { v, _ := x.get(); return v }, "unit": func() any { _, u := x.get(); return vUnit(u) }}
	case *Strong:
		return m{"body": func() any { return x.body() }}
	case *Emph:
		return m{"body": func() any { return x.body() }}
	case *ListItem:
		return m{"body": func() any { return x.body() }}
	case *CodeBlock:
		return m{"body": func() any { return x.body() }}
	case *ContentBlock:
		return m{"body": func() any { return x.body() }}
	case *Heading:
		return m{"body": func() any { return x.body() }, "depth": func() any { return x.depth() }}
	case *EnumItem:
		return m{"body": func() any { return x.body() }, "number": func() any { return vOpt(x.number()) }}
	case *TermItem:
		return m{"term": func() any { return x.term() }, "description": func() any { return x.description() }}
	case *Raw:
		return m{"lines": func() any { return vAny(x.lines()) }, "lang": func() any { return vOpt(x.lang()) },
			"block": func() any { return x.block() }}
	case *Ref:
		return m{"target": func() any { return x.target() }, "supplement": func() any { return vOpt(x.supplement()) }}
	case *Parenthesized:
		return m{"expr": func() any { return x.expr() }, "pattern": func() any { return vAt{x.pattern()} }}
	case *Array:
		return m{"items": func() any { return vAts(x.items()) }}
	case *Dict:
		return m{"items": func() any { return vAts(x.items()) }}
	case *Unary:
		return m{"expr": func() any { return x.expr() }, "op": func() any { return vName(x.op().String()) }}
	case *Binary:
		return m{"lhs": func() any { return x.lhs() }, "rhs": func() any { return x.rhs() }, "op": func() any { return vName(x.op().String()) }}
	case *FieldAccess:
		return m{"target": func() any { return x.target() }, "field": func() any { return x.field() }}
	case *FuncCall:
		return m{"callee": func() any { return x.callee() }, "args": func() any { return x.args() }}
	case *Closure:
		return m{"name": func() any { return vOpt(x.name()) }, "params": func() any { return x.params() }, "body": func() any { return x.body() }}
	case *LetBinding:
		return m{"function": func() any {
			if c, ok := x.kind().(*LetBindingKind_Closure); ok {
				return c.ident
			}
			return nil
		}, "pattern": func() any {
			if p, ok := x.kind().(*LetBindingKind_Normal); ok {
				return vAt{p.pattern}
			}
			return nil
		}, "bindings": func() any { return vAny(x.kind().bindings()) }, "init": func() any { return vOpt(x.init()) }}
	case *DestructAssignment:
		return m{"pattern": func() any { return vAt{x.pattern()} }, "value": func() any { return x.value() }}
	case *SetRule:
		return m{"target": func() any { return x.target() }, "args": func() any { return x.args() }, "condition": func() any { return vOpt(x.condition()) }}
	case *ShowRule:
		return m{"selector": func() any { return vOpt(x.selector()) }, "transform": func() any { return x.transform() }}
	case *Contextual:
		return m{"body": func() any { return x.body() }}
	case *Conditional:
		return m{"condition": func() any { return x.condition() }, "if_body": func() any { return x.if_body() }, "else_body": func() any { return vOpt(x.else_body()) }}
	case *WhileLoop:
		return m{"condition": func() any { return x.condition() }, "body": func() any { return x.body() }}
	case *ForLoop:
		return m{"pattern": func() any { return vAt{x.pattern()} }, "iterable": func() any { return x.iterable() }, "body": func() any { return x.body() }}
	case *ModuleImport:
		return m{"source": func() any { return x.source() }, "new_name": func() any { return vOpt(x.new_name()) },
			"imports": func() any {
				switch y := vOpt(x.imports()).(type) {
				case *Imports_Wildcard:
					return vName("wildcard")
				case *Imports_Items:
					return y.items
				}
				return nil
			}, "bare_name": func() any {
				s, err := x.bare_name()
				switch {
				case errors.Is(err, ErrBareImport_Dynamic):
					return vName("dynamic")
				case errors.Is(err, ErrBareImport_PathInvalid):
					return vName("path")
				case errors.Is(err, ErrBareImport_PackageInvalid):
					return vName("package")
				case err != nil:
					return err.Error()
				}
				return s
			}}
	case *Equation:
		return m{"body": func() any { return x.body() }, "block": func() any { return x.block() }}
	case *Math:
		return m{"exprs": func() any { return vAny(x.exprs()) }, "was_deparenthesized": func() any { return x.was_deparenthesized() }}
	case *MathText:
		return m{"get": func() any {
			switch y := x.get().(type) {
			case *MathTextKind_Character:
				return uint64(y.c)
			case *MathTextKind_Number:
				return y.str
			}
			return nil
		}}
	case *MathIdent:
		return m{"get": func() any { return x.get() }}
	case *MathShorthand:
		return m{"get": func() any { return uint64(x.get()) }}
	case *MathDelimited:
		return m{"open": func() any { return x.open() }, "body": func() any { return x.body() }, "close": func() any { return x.close() }}
	case *MathAttach:
		return m{"base": func() any { return x.base() }, "bottom": func() any { return vOpt(x.bottom()) }, "top": func() any { return vOpt(x.top()) },
			"primes": func() any { return vOpt(x.primes()) }}
	case *MathPrimes:
		return m{"count": func() any { return x.count() }}
	case *MathFrac:
		return m{"num": func() any { return x.num() }, "denom": func() any { return x.denom() }}
	case *MathRoot:
		return m{"index": func() any { return vOpt(x.index()) }, "radicand": func() any { return x.radicand() }}
	case *ModuleInclude:
		return m{"source": func() any { return x.source() }}
	case *FuncReturn:
		return m{"body": func() any { return vOpt(x.body()) }}
	}
	switch vKindName[n.kind()] {
	case "Markup":
		x := SyntaxNode_cast[*Markup](n).MustGet()
		return m{"exprs": func() any { return vAny(x.exprs()) }}
	case "Code":
		x := SyntaxNode_cast[*Code](n).MustGet()
		return m{"exprs": func() any { return vAny(x.exprs()) }}
	case "RawLang":
		x := SyntaxNode_cast[*RawLang](n).MustGet()
		return m{"get": func() any { return x.get() }}
	case "Named":
		x := SyntaxNode_cast[*Named](n).MustGet()
		return m{"name": func() any { return x.name() }, "expr": func() any { return x.expr() }, "pattern": func() any { return vAt{x.pattern()} }}
	case "Keyed":
		x := SyntaxNode_cast[*Keyed](n).MustGet()
		return m{"key": func() any { return x.key() }, "expr": func() any { return x.expr() }}
	case "Spread":
		x := SyntaxNode_cast[*Spread](n).MustGet()
		return m{"expr": func() any { return x.expr() }, "sink_ident": func() any { return vOpt(x.sink_ident()) }, "sink_expr": func() any { return vOpt(x.sink_expr()) }}
	case "Args":
		x := SyntaxNode_cast[*Args](n).MustGet()
		return m{"items": func() any { return vAts(x.items()) }, "trailing_comma": func() any { return x.trailing_comma() }}
	case "Params":
		x := SyntaxNode_cast[*Params](n).MustGet()
		return m{"children": func() any { return vAts(x.children()) }}
	case "Destructuring":
		x := SyntaxNode_cast[*Destructuring](n).MustGet()
		return m{"items": func() any { return vAts(x.items()) }, "bindings": func() any { return vAny(x.bindings()) }}
	case "ImportItems":
		x := SyntaxNode_cast[*ImportItems](n).MustGet()
		return m{"iter": func() any {
			out := [][3]*SyntaxNode{}
			for _, it := range x.iter() {
				out = append(out, [3]*SyntaxNode{it.path().SyntaxNode, it.original_name().SyntaxNode, it.bound_name().SyntaxNode})
			}
			return out
		}}
	case "ImportItemPath":
		x := SyntaxNode_cast[*ImportItemPath](n).MustGet()
		return m{"iter": func() any { return vAny(x.iter()) }, "name": func() any { return x.name() }}
	case "RenamedImportItem":
		x := SyntaxNode_cast[*RenamedImportItem](n).MustGet()
		return m{"path": func() any { return x.path() }, "original_name": func() any { return x.original_name() }, "new_name": func() any { return x.new_name() }}
	}
	return nil
}

type vName string        // one of a set of names
type vAt struct{ x any } // a node as the variant it is

func vAts[T any](xs []T) []any {
	out := []any{}
	for _, x := range xs {
		out = append(out, vAt{x})
	}
	return out
}

func vUnit(u Unit) any {
	s, ok := map[Unit]string{Unit_Pt: "Pt", Unit_Mm: "Mm", Unit_Cm: "Cm", Unit_In: "In", Unit_Rad: "Rad", Unit_Deg: "Deg",
		Unit_Em: "Em", Unit_Fr: "Fr", Unit_Percent: "Percent"}[u]
	if !ok {
		return fmt.Sprintf("unit %d", u)
	}
	return vName(s)
}

// A value as text, comparable with vWant.
func (t *vTree) show(v any) string {
	id := func(n *SyntaxNode) string {
		if n == nil {
			return "no node"
		}
		if i, ok := t.id[n.span()]; ok {
			return t.name(i)
		}
		return "a node outside the tree"
	}
	switch v := v.(type) {
	case nil:
		return "nothing"
	case vAt:
		if v.x == nil {
			return "nothing"
		}
		return vVariantOf(v.x) + " " + id(v.x.(AstNode).to_untyped())
	case AstNode:
		n := v.to_untyped()
		if i, ok := t.id[n.span()]; ok && vVariantOf(v) != t.kind[i] {
			return vVariantOf(v) + " made from " + id(n)
		}
		return id(n)
	case []any:
		var s []string
		for _, x := range v {
			s = append(s, t.show(x))
		}
		return "[" + strings.Join(s, ", ") + "]"
	case [][3]*SyntaxNode:
		var s []string
		for _, x := range v {
			s = append(s, id(x[0])+" named "+id(x[1])+" bound to "+id(x[2]))
		}
		return "[" + strings.Join(s, ", ") + "]"
	case string:
		return fmt.Sprintf("%q", v)
	case vName:
		return "<" + string(v) + ">"
	default:
		return fmt.Sprint(v)
	}
}

func vDigits(raw json.RawMessage) *big.Int {
	var d []int64
	json.Unmarshal(raw, &d)
	v := big.NewInt(0)
	for _, x := range d {
		v.Mul(v, big.NewInt(10)).Add(v, big.NewInt(x))
	}
	return v
}

// What the specification says a part is, as text.
func (t *vTree) want(v []json.RawMessage) string {
	var tag string
	json.Unmarshal(v[0], &tag)
	num := func(i int) int {
		var x int
		json.Unmarshal(v[i], &x)
		return x
	}
	str := func(i int) string {
		var x string
		json.Unmarshal(v[i], &x)
		return x
	}
	switch tag {
	case "-":
		return "nothing"
	case "n":
		return t.name(num(1))
	case "v":
		return str(1) + " " + t.name(num(2))
	case "ns":
		var ids []int
		json.Unmarshal(v[1], &ids)
		s := []string{}
		for _, i := range ids {
			s = append(s, t.name(i))
		}
		return "[" + strings.Join(s, ", ") + "]"
	case "vs":
		var xs [][2]any
		json.Unmarshal(v[1], &xs)
		s := []string{}
		for _, x := range xs {
			s = append(s, x[0].(string)+" "+t.name(int(x[1].(float64))))
		}
		return "[" + strings.Join(s, ", ") + "]"
	case "is":
		var xs [][3]int
		json.Unmarshal(v[1], &xs)
		s := []string{}
		for _, x := range xs {
			s = append(s, t.name(x[0])+" named "+t.name(x[1])+" bound to "+t.name(x[2]))
		}
		return "[" + strings.Join(s, ", ") + "]"
	case "s":
		var c []int
		json.Unmarshal(v[1], &c)
		return fmt.Sprintf("%q", vText(c))
	case "e":
		return "<" + str(1) + ">"
	case "u":
		return fmt.Sprint(num(1))
	case "b":
		var b bool
		json.Unmarshal(v[1], &b)
		return fmt.Sprint(b)
	case "i":
		return vDigits(v[1]).String()
	case "f":
		r := new(big.Rat).SetInt(vDigits(v[1]))
		x := num(2)
		p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(max(x, -x))), nil))
		if x < 0 {
			r.Quo(r, p)
		} else {
			r.Mul(r, p)
		}
		f, _ := r.Float64()
		return fmt.Sprint(f)
	}
	return "?" + tag
}

// vPartsOp compares the typed view of every node: [text, mode, nodes, parts].
func vPartsOp(line []byte) (string, any) {
	var raw []json.RawMessage
	if err := json.Unmarshal(line, &raw); err != nil {
		return fmt.Sprintf("harness: %v", err), nil
	}
	t, same, err := vDecodeTree(raw)
	if err != nil {
		return fmt.Sprintf("harness: %v", err), nil
	}
	if !same {
		vCount("other tree")
	}
	// No part of any node crashes, whatever the tree.
	got := make([]map[string]any, len(t.nodes))
	for i := 1; i < len(t.nodes); i++ {
		got[i] = map[string]any{}
		acc := vAccessors(t.nodes[i])
		for name, f := range acc {
			v, crash := vTry(f)
			if crash != "" {
				return fmt.Sprintf("%q: %s of %s %q crashes: %s", t.text, name, vKindName[t.nodes[i].kind()], t.nodes[i].into_text(), crash), nil
			}
			got[i][name] = v
		}
	}
	if !same {
		return "", nil
	}
	var parts [][][2]json.RawMessage
	if err := json.Unmarshal(raw[3], &parts); err != nil {
		return fmt.Sprintf("harness: %v", err), nil
	}
	for i, ps := range parts {
		for _, p := range ps {
			var name string
			var v []json.RawMessage
			json.Unmarshal(p[0], &name)
			json.Unmarshal(p[1], &v)
			g, ok := got[i+1][name]
			if !ok {
				return fmt.Sprintf("harness: no part %s of %s", name, t.kind[i+1]), nil
			}
			if s, w := t.show(g), t.want(v); s != w {
				return fmt.Sprintf("%q: %s of %s is %s, not %s", t.text, name, t.name(i+1), s, w), nil
			}
		}
	}
	return "", nil
}
