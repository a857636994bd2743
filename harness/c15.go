//go:build c15 || all

package main

import (
	"strings"

	"github.com/raa0121/GoBCDice/pkg/core/util"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
	"verif/sut"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C15", Quick: 150000, Thorough: 5000000,
		Rule: "the text without marker is a command that rolls or computes, or a text with a second marker or an edited command (which must fail with and without the marker alike)",
		Assumptions: []string{
			"about one case in sixty also runs a REPL process, with the queue source and the dice of the direct run",
		},
	}, genC15, runC15, fixedC15()...)
	fw.Sweep("C15", "all sequences of up to three of 24 tokens (thorough: four), with S and s; "+scopeSlots+", with S or s", func(deep bool, yield func(*SecretCase) bool) {
		i := 0
		if !sweepSlots(func(s string) bool {
			i++
			return yield(&SecretCase{Text: s, Script: &scriptT{Vals: slotDice()}, Marks: 1, Upper: i%2 == 0})
		}) {
			return
		}
		sweepTexts(smallTokens, upTo(deep, 3, 4), func(s string) bool {
			for _, up := range []bool{true, false} {
				if !yield(&SecretCase{Text: s, Script: &scriptT{Seed: 1}, Marks: 1, Upper: up}) {
					return false
				}
			}
			return true
		})
	})
}

// SecretCase is a text t that does not start with a marker.
type SecretCase struct {
	Text   string   `json:"text"`
	Script *scriptT `json:"dice"`
	Marks  int      `json:"marks"` // markers in front (2: the second belongs to the text)
	Upper  bool     `json:"upper"`
	REPL   bool     `json:"repl,omitempty"`
	Raw    []byte   `json:"raw,omitempty"` // bytes, possibly no UTF-8, that are put into the text
	RawAt  int      `json:"raw_at,omitempty"`
}

func genC15(t *rapid.T) *SecretCase {
	g := gen.New(t)
	g.Dice = 15
	c := &SecretCase{Script: gen.Script(t), Marks: 1, Upper: fw.Coin(t, 50)}
	switch fw.Weighted(t, 55, 15, 20, 10) {
	case 0:
		c.Text = g.Any().S
	case 1:
		c.Text = g.AnyRoll().S + fw.OneOf(t, " ", "\t", "\n") + fw.OneOf(t, "s", "S", "S2D6", "コメント", "comment s", "1D6", "")
	case 2:
		c.Text = mutate(t, g.Any().S)
	case 3:
		n := fw.IntIn(t, 0, 4)
		for i := 0; i < n; i++ {
			c.Text += fragment(t, g)
		}
	}
	if fw.Coin(t, 12) {
		c.Marks = 2
	}
	if fw.Coin(t, 8) {
		c.Raw = []byte(fw.OneOf(t, "\xff", "\xe3", "\xe3\x81", "\x80", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\ufffd"))
		c.RawAt = fw.IntIn(t, 0, len(c.Text))
		if fw.Coin(t, 40) {
			c.RawAt = len(c.Text)
		}
	}
	c.REPL = fw.Bits(t, 6) == 63
	if c.REPL { // its queue takes no other dice
		c.Script.Off = 0
	}
	return c
}

func runC15(c *SecretCase, m *fw.Meta) error {
	t := c.Text
	if at := c.RawAt; at >= 0 && at <= len(t) {
		t = t[:at] + string(c.Raw) + t[at:]
	}
	for startsWithMark(t) {
		t = t[1:]
	}
	mark := "s"
	if c.Upper {
		mark = "S"
	}
	if c.Marks == 2 {
		t = mark + t // one marker is removed; the text itself then starts with one and is no command
	}
	plain := t
	var base *sut.Got
	var err error
	if c.Marks == 2 {
		base = &sut.Got{Err: true, ErrText: "only one marker is removed"}
	} else {
		base, err = sut.Exec(plain, c.Script)
		if err != nil {
			return err
		}
		if !base.Err && base.Secret {
			return errf("%q has no marker and is marked secret", plain)
		}
	}
	for _, mk := range []string{"S", "s"} {
		g, err := sut.Exec(mk+plain, c.Script)
		if err != nil {
			return err
		}
		if !sameOutcome(base, g) {
			return errf("%q gives %s, without the marker %s", mk+plain, outcome(g), outcome(base))
		}
		if !g.Err && !g.Secret {
			return errf("%q is not marked secret", mk+plain)
		}
	}
	for _, s := range []string{plain, mark + plain} {
		rest, is := util.CheckIfInputMayBeASecretRoll(s)
		wantRest, want := s, false
		if startsWithMark(s) {
			wantRest, want = s[1:], true
		}
		if rest != wantRest || is != want {
			return errf("CheckIfInputMayBeASecretRoll(%q) = %q, %v", s, rest, is)
		}
	}
	if c.REPL && replable(plain) {
		if err := replSecret(c, plain, mark, base); err != nil {
			return err
		}
		m.Class(true, "in the REPL")
	}
	cmd := model.Parse(plain)
	if cmd == nil {
		cmd = model.Parse(model.FirstPart(plain))
	}
	m.NonTrivial = cmd != nil || c.Marks == 2 || len(plain) > 2
	m.Class(!validUTF8(plain), "not UTF-8")
	m.Class(c.Marks == 2, "two markers")
	m.Class(base.Err && c.Marks == 1, "error without and with the marker")
	m.Class(!base.Err, "answered")
	m.Class(!base.Err && len(base.Dice) > 0, "answered with dice")
	m.Class(!base.Err && base.Success > 0, "success check")
	return nil
}

// replSecret types the line with and without the marker, also as arguments of .eval and .ast.
func replSecret(c *SecretCase, plain, mark string, base *sut.Got) error {
	var in strings.Builder
	in.WriteString(".set-die-feeder queue\n")
	if !base.Err && len(base.Drawn) > 0 {
		if len(base.Drawn) > 200 {
			return nil
		}
		in.WriteString(".set-dice-queue ")
		for i, d := range base.Drawn {
			if i > 0 {
				in.WriteString(", ")
			}
			in.WriteString(itoa(d.Value) + "/" + itoa(d.Sides))
		}
		in.WriteString("\n")
	}
	lines := []string{plain, mark + plain, ".eval " + plain, ".eval " + mark + plain, ".ast " + plain, ".ast " + mark + plain}
	for _, l := range lines {
		in.WriteString(l + "\n")
	}
	s, err := replRun(in.String())
	if err != nil {
		return err
	}
	o := &replOut{s}
	if err := o.welcome(); err != nil {
		return err
	}
	for i := 0; i < strings.Count(in.String(), "\n")-len(lines); i++ {
		if a, e, ok := o.answer(); !ok || e || a != okLine {
			return errf("REPL: setting up the queue answers %q", a)
		}
	}
	ast, isAST := "", false
	// .ast shows the tree of the whole line without the marker
	if x := model.Parse(strings.TrimRight(plain, " ")); x != nil && c.Marks == 1 {
		ast, isAST = x.SExp(), true
	}
	for i, l := range lines {
		a, isErr, ok := o.answer()
		if !ok {
			return errf("REPL: no answer to %q", l)
		}
		marked := i%2 == 1
		if i%2 == 0 && c.Marks == 2 {
			continue // the text itself starts with a marker
		}
		want, wantErr := resHeader, base.Err
		if marked {
			want += secHeader
		}
		if i < 4 {
			want += base.Msg
		} else {
			want += ast
			wantErr = !isAST
		}
		if isErr != wantErr {
			return errf("REPL: %q answers %q, want error %v", l, a, wantErr)
		}
		if !isErr && a != want {
			return errf("REPL: %q answers %q, want %q", l, a, want)
		}
	}
	return nil
}

func fixedC15() []*SecretCase {
	var out []*SecretCase
	for i, s := range []string{"", "2D6", "2d6>=7", "C(1)", "CHOICE[s,S]", "choice[S]", " 2D6", "2D6 S", "C(1)s", "3B6>=3", "2R6", "2R6[5]", "2U6[5]+1", "C(1/0)", "x", "ſ2D6", "Ｓ2D6", "\t", "あ"} {
		for _, n := range []int{1, 2} {
			out = append(out, &SecretCase{Text: s, Script: &scriptT{Seed: uint64(i + 1)}, Marks: n, Upper: i%2 == 0, REPL: true})
		}
	}
	// the text is kept byte by byte, also where it is no UTF-8
	for i, s := range []string{"CHOICE[]", "CHOICE[a]", "CHOICE[a,]b", "C(1)", "C(1) ", "2D6 ", "2D6", "2D6>=7 ", ""} {
		for at := 0; at <= len(s); at++ {
			for _, raw := range []string{"\xff", "\xe3\x81", "\x80", "\ufffd"} {
				out = append(out, &SecretCase{Text: s, Raw: []byte(raw), RawAt: at, Script: &scriptT{Seed: uint64(i + 1)}, Marks: 1, Upper: at%2 == 0})
			}
		}
	}
	return out
}
