package main

import (
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
)

var tokens = []string{"1", "2", "6", "0", "10", "D", "B", "R", "U", "d", "b", "r", "u", "+", "-", "*", "/", "(", ")", "[", "]", "...", ".", "=", "<>", "<", "<=", ">", ">=", "C(", "c(", "CHOICE[", "Choice[", ",", " ", "S", "/U", "/R", "=<", "=>", "><", "==", "９", "Ｄ", "\t", "a", "りんご", "9223372036854775807", "9223372036854775808", "99999999999999999999", "\n", "\u3000", "K", "ſ", "2D6", "1B6", "3R6", "1U6", "[1...3]", "(1+2)"}

// mutate edits a text at random.
func mutate(t *rapid.T, s string) string {
	r := []rune(s)
	n := fw.OneOf(t, 1, 1, 1, 2, 3)
	for i := 0; i < n; i++ {
		p := fw.IntIn(t, 0, len(r))
		switch fw.Weighted(t, 4, 5, 3, 2, 1, 1) {
		case 0: // insert
			x := []rune(fw.OneOf(t, tokens...))
			r = append(append(append([]rune{}, r[:p]...), x...), r[p:]...)
		case 1: // delete
			if p < len(r) {
				q := min(len(r), p+fw.OneOf(t, 1, 1, 1, 2, 3))
				r = append(append([]rune{}, r[:p]...), r[q:]...)
			}
		case 2: // replace
			if p < len(r) {
				x := []rune(fw.OneOf(t, tokens...))
				r = append(append(append([]rune{}, r[:p]...), x...), r[p+1:]...)
			}
		case 3: // duplicate a part
			if p < len(r) {
				q := min(len(r), p+fw.IntIn(t, 1, 6))
				r = append(append(append([]rune{}, r[:q]...), r[p:q]...), r[q:]...)
			}
		case 4: // swap neighbours
			if p+1 < len(r) {
				r = append([]rune{}, r...)
				r[p], r[p+1] = r[p+1], r[p]
			}
		case 5: // truncate
			r = r[:p]
		}
	}
	return string(r)
}

// fragment makes a piece of a command's text.
func fragment(t *rapid.T, g *gen.G) string {
	switch fw.Pick(t, 6) {
	case 0:
		return g.Any().S
	case 1:
		return g.Expr(fw.OneOf(t, gen.CInt, gen.CRand, gen.CD), fw.IntIn(t, 1, 4)).S
	case 2:
		return g.Roll(fw.OneOf(t, "D", "B", "R", "U")).S
	case 3:
		return g.Rand().S
	}
	return fw.OneOf(t, tokens...)
}

// BadByte is a byte put in at a character's place (an offset of the text).
type BadByte struct {
	At int  `json:"at"`
	B  byte `json:"b"`
}

// genBad makes bytes for spoil; a single byte of 0x80 or more between
// characters is invalid UTF-8.
func genBad(t *rapid.T, s string) []*BadByte {
	var out []*BadByte
	for n := fw.OneOf(t, 1, 1, 1, 2); n > 0; n-- {
		out = append(out, &BadByte{At: fw.IntIn(t, 0, len(s)), B: fw.OneOf(t, byte(0xff), 0x80, 0xc3, 0xe3, 0xf0, 0xed, 0xbf)})
	}
	return out
}

// spoil puts the bytes in.
func spoil(s string, bad []*BadByte) string {
	for _, b := range bad {
		at := max(0, min(b.At, len(s)))
		for at < len(s) && !utf8.RuneStart(s[at]) {
			at++
		}
		s = s[:at] + string([]byte{b.B}) + s[at:]
	}
	return s
}

func validUTF8(s string) bool { return utf8.ValidString(s) }
