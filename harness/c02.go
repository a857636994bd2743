//go:build c02 || all

package main

import (
	"strings"

	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C02", Quick: 300000, Thorough: 8000000,
		Rule: "the text is a command of at least two operators, rolls or items, or a rejected text made from a command by up to three edits",
		Assumptions: []string{
			"whether a byte that is no UTF-8 after the end of C(...) or CHOICE[...] is read is left open; before that end, and anywhere in other commands, it must be rejected",
			"the accept/reject oracle and the trees come from a hand-written recursive-descent parser, and for derived commands also from the derivation itself",
		},
	}, genC02, runC02, fixedC02()...)
	fw.Sweep("C02", scopeC02+"; "+scopeSlots, func(deep bool, yield func(*Text) bool) {
		someRunes(deep, func(r rune) bool {
			for _, f := range []string{"#", "2D6#", "#2D6", "2#6", "#D6", "2D6+#", "C(#)", "CHOI#E[a]", "2D6[#]", "CHOICE[#]"} {
				if !yield(&Text{Text: strings.ReplaceAll(f, "#", string(r))}) {
					return false
				}
			}
			return true
		})
		_ = sweepSlots(func(s string) bool { return yield(&Text{Text: s}) }) &&
			sweepTexts(smallTokens, upTo(deep, 4, 5), func(s string) bool { return yield(&Text{Text: s}) })
	})
}

// Text is a case made of one text.
type Text struct {
	Text    string `json:"text"`
	SExp    string `json:"sexp,omitempty"`
	Mutated bool   `json:"mutated,omitempty"`
	// Bad are bytes put in that are no UTF-8.
	Bad []*BadByte `json:"bad,omitempty"`
}

func genC02(t *rapid.T) *Text {
	g := gen.New(t)
	switch fw.Weighted(t, 40, 30, 12, 10, 8, 4) {
	case 0:
		c := g.Any()
		return &Text{Text: c.S, SExp: c.Cmd.SExp()}
	case 1:
		return &Text{Text: mutate(t, g.Any().S), Mutated: true}
	case 2: // fragments of different commands
		n := fw.IntIn(t, 2, 5)
		s := ""
		for i := 0; i < n; i++ {
			s += fragment(t, g)
			if fw.Coin(t, 40) {
				s += fw.OneOf(t, "+", "-", "*", "/", ">=", "=", "<>", "[", "]", "(", ")", ",")
			}
		}
		return &Text{Text: s, Mutated: true}
	case 3: // tokens
		n := fw.IntIn(t, 1, 9)
		s := ""
		for i := 0; i < n; i++ {
			s += fw.OneOf(t, tokens...)
		}
		return &Text{Text: s, Mutated: true}
	case 5: // a byte that is no UTF-8
		s := g.Any().S
		if fw.Coin(t, 30) { // after many characters
			switch fw.Pick(t, 3) {
			case 0:
				s += strings.Repeat(fw.OneOf(t, "+1", "-12", "*(3)"), fw.IntIn(t, 1, 600))
			case 1:
				s = "CHOICE[" + strings.Repeat(fw.OneOf(t, "a", "りんご,", "ab "), fw.IntIn(t, 1, 600)) + "b]"
			case 2:
				s = "C(" + strings.Repeat(fw.OneOf(t, "1+", "-", "(2)*"), fw.IntIn(t, 1, 600)) + "3)"
			}
		}
		return &Text{Text: s, Bad: genBad(t, s)}
	}
	// a prefix command with a tail
	var c gen.C
	if fw.Coin(t, 50) {
		c = g.Calc(fw.IntIn(t, 1, 5))
	} else {
		c = g.Choice()
	}
	s := c.S
	n := fw.IntIn(t, 1, 3)
	for i := 0; i < n; i++ {
		s += fragment(t, g)
	}
	return &Text{Text: s, SExp: c.Cmd.SExp()}
}

func realSExp(text string) (string, bool) {
	n, err := parser.Parse("input", []byte(text))
	if err != nil {
		return err.Error(), false
	}
	return n.(ast.Node).SExp(), true
}

func runC02(c *Text, m *fw.Meta) error {
	text := spoil(c.Text, c.Bad)
	if model.Unclear(text) {
		return nil
	}
	want := model.Parse(text)
	m.Class(!validUTF8(text), "a byte that is no UTF-8")
	m.Class(!validUTF8(text) && len(text) > 300, "a byte that is no UTF-8 in a long text")
	if c.SExp != "" && (want == nil || want.SExp() != c.SExp) {
		panic("harness: the model parser does not parse " + c.Text + " as derived")
	}
	got, ok := realSExp(text)
	if ok != (want != nil) {
		if ok {
			return errf("%q must be rejected, it is accepted as %s", text, got)
		}
		return errf("%q must be accepted as %s, it is rejected: %s", text, want.SExp(), got)
	}
	if want != nil && want.SExp() != got {
		return errf("%q is parsed as %s, want %s", text, got, want.SExp())
	}
	m.Class(want != nil, "accepted")
	m.Class(want == nil, "rejected")
	m.Class(want != nil && c.Mutated, "accepted after edits")
	if want != nil {
		m.Class(true, "accepted "+want.T)
		n := want.Count(model.KBin) + want.Count(model.KRoll) + want.Count(model.KNeg) + len(want.Items) + len(want.Bonus)
		m.NonTrivial = n >= 2
	} else {
		m.NonTrivial = c.Mutated || len(c.Bad) > 0
		for _, k := range []string{"D", "B", "R", "U", "C(", "CHOICE["} {
			if strings.Contains(strings.ToUpper(c.Text), k) {
				m.Class(true, "rejected with "+k)
				break
			}
		}
	}
	return nil
}

func fixedC02() []*Text {
	var out []*Text
	for _, s := range []string{"", "1", "1+2", "(1)", "-1", "[1...3]", "2D6", "2d6+[1...3]", "2D6>=[1...3]", "2D6>=2D6", "2D6=>3", "2D6=3", "2D6==3", "2D6<>3", "2D6><3",
		"2D6>=", "2D6>=3>4", "2B6+3D6", "2B6+1", "2B6-1B6", "2B6*2", "(2B6)", "-2B6", "2R6[5]+1", "2R6+1", "2R6[5]+1R6", "1U6[6]-2-3", "1U6[6]+2-3*4", "1U6[6]*2", "1U6+1U6[5]+1U6",
		"1U6+1U6[5]-1U6", "2R6[1...3]", "2R6[(5)]", "2R6[5][5]", "D6", "2D", "+2D6", "-2D6", "2D-6", "2D+6", "2D(-6)", "1D6D6", "(1D6)D6", "[1...3]D6", "[1D6...3]D6", "[(1)...(3)]D6", "[[1...2]...3]D6",
		"[-1...3]D6", "[+1...3]D6", "[1..3]D6", "[1....3]D6", "[1...3D6", "C()", "C(1", "C(1)", "C(1)x", "C (1)", "C(1D6)", "C([1...3])", "C(1)>=1", "c(1/2u)", "C(1/2U/3)", "C(1/U2)", "C(1/2RU)",
		"CHOICE[]", "CHOICE[,]", "CHOICE[a]", "CHOICE[a,]", "CHOICE[a,,b]", "CHOICE[,a]", "CHOICE[a,b", "CHOICE[a]b]", "CHOICE [a]", "choice[a]", "CHOICE[ ]", "CHOICE[a, ]", "CHOICE[a,\t]", "CHOICE[\t]", "CHOICE[a\n,b]",
		"9223372036854775808D6", "2D9223372036854775808", "2D9223372036854775807", "2D6>=9223372036854775808", "C(9223372036854775808)", "C(-9223372036854775808)", "C(09223372036854775807)", "C(1)9223372036854775808",
		"2D6 ", " 2D6", "2 D6", "2D6 x", "S2D6", "2D6*/3", "2D6*-3", "2D6-+3", "2D6--3", "2D6+-+-3", "1+2+3D6*4/5U-6R", "1/2R+3D6", "1/2/3D6", "((2))D((6))", "(2D6)", "((2D6+1))*2>=7", "(2D6>=7)"} {
		out = append(out, &Text{Text: s, Mutated: true})
	}
	return out
}
