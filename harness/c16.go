//go:build c16 || all

package main

import (
	"strings"

	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
	"verif/sut"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C16", Quick: 80000, Thorough: 3000000,
		Rule: "the command is answered or fails in its evaluation, and a non-empty comment follows it or a letter changes its case",
		Assumptions: []string{
			"a comment after `C(...)` or `CHOICE[...]` needs no white space in front; after a roll command it needs one ASCII white space character (tab, line feed, form feed, carriage return or space)",
		},
	}, genC16, runC16, fixedC16()...)
	fw.Sweep("C16", "seven commands with each character of some blocks (thorough: all) as comment; all ways to write their letters", func(deep bool, yield func(*CommentCase) bool) {
		cmds := []string{"2D6", "2D6/2U>=3", "2B6+1B6=3", "2R6[5]", "1U6[6]+1", "C(7/2R)", "CHOICE[a,b]"}
		i := 0
		for _, c := range cmds {
			for f := 0; f < 64; f++ {
				for _, s := range []string{"", "S", "s"} {
					if !yield(&CommentCase{Cmd: c, Flips: uint64(f), Secret: s, Script: &scriptT{Seed: 5}}) {
						return
					}
				}
			}
		}
		someRunes(deep, func(r rune) bool {
			i++
			return yield(&CommentCase{Cmd: cmds[i%7], Sep: []string{" ", "\t", "\n", "\f", "\r"}[i%5], Text: string(r), Script: &scriptT{Seed: 5}}) &&
				yield(&CommentCase{Cmd: cmds[(i+3)%7], Sep: []string{" ", "\t", "\n", "\f", "\r"}[(i/7)%5], Text: "x" + string(r) + "y", Script: &scriptT{Seed: 5}})
		})
	})
}

// CommentCase is a command, what follows it and which letters change case.
type CommentCase struct {
	Cmd    string   `json:"cmd"`
	Sep    string   `json:"sep"`
	Text   string   `json:"text"`
	Flips  uint64   `json:"flips"`
	Secret string   `json:"secret"` // "", "S" or "s"
	Script *scriptT `json:"dice"`
}

var commentPieces = []string{"攻撃！", "comment", "2D6", "1B6>=3", "C(1)", "CHOICE[a,b]", "S", "s", " ", "\t", "\n", "\r\n", "\u3000", ">=7", "+1", "(", ")", "[", "]", ",", "# ", "//", "\x00", "\u00a0", "D", "9", "\v", "\u2028", "😀", "＞", "/0", "*", "1D6", "\f"}

func genC16(t *rapid.T) *CommentCase {
	g := gen.New(t)
	g.Dice = 15
	c := &CommentCase{Script: gen.Script(t)}
	prefix := false
	switch fw.Weighted(t, 70, 15, 15) {
	case 0:
		c.Cmd = g.AnyRoll().S
	case 1:
		c.Cmd, prefix = g.Calc(fw.IntIn(t, 1, 6)).S, true
	case 2:
		c.Cmd, prefix = g.Choice().S, true
	}
	if x := model.Parse(c.Cmd); x != nil && x.T != model.Calc && x.T != model.Choice {
		prefix = false
	} else {
		prefix = true
	}
	if !prefix || fw.Coin(t, 40) {
		c.Sep = fw.OneOf(t, " ", "\t", "\n", "\f", "\r")
	}
	n := fw.IntIn(t, 0, 4)
	for i := 0; i < n; i++ {
		switch fw.Pick(t, 4) {
		case 0:
			c.Text += fragment(t, g)
		case 1:
			c.Text += c.Cmd
		default:
			c.Text += fw.OneOf(t, commentPieces...)
		}
	}
	if fw.Coin(t, 3) {
		c.Text += strings.Repeat(fw.OneOf(t, "あ", "x ", "\n", "2D6+"), fw.IntIn(t, 100, 3000))
	}
	c.Flips = uint64(fw.Bits(t, 32))
	c.Secret = fw.OneOf(t, "", "", "", "S", "s")
	return c
}

// flip changes the case of ASCII letters as the bits say; of a choice only the keyword's.
func flip(s string, bits uint64) string {
	lim := len(s)
	if i := strings.IndexByte(s, '['); i > 0 && strings.EqualFold(s[:i], "choice") {
		lim = i
	}
	b := []byte(s)
	for i, k := 0, 0; i < lim; i++ {
		if c := b[i] | 0x20; c >= 'a' && c <= 'z' {
			if bits>>(k%64)&1 == 1 {
				b[i] ^= 0x20
			}
			k++
		}
	}
	return string(b)
}

func runC16(c *CommentCase, m *fw.Meta) error {
	cmd := model.Parse(c.Cmd)
	if cmd == nil {
		return nil
	}
	base, err := sut.Exec(c.Secret+c.Cmd, c.Script)
	if err != nil {
		return err
	}
	full := c.Secret + c.Cmd + c.Sep + c.Text
	if c.Sep == "" && cmd.T != model.Calc && cmd.T != model.Choice {
		full = c.Secret + c.Cmd
	}
	variants := []struct{ name, text string }{
		{"with the comment", full},
		{"with other letter case", flip(c.Secret+c.Cmd, 0)},
		{"with other letter case", flipSecret(c.Secret, c.Flips>>40) + flip(c.Cmd, c.Flips)},
		{"in upper case", flipSecret(c.Secret, 0) + upperSyntax(c.Cmd)},
		{"in lower case", flipSecret(c.Secret, 1) + lowerSyntax(c.Cmd)},
		{"with comment and other letter case", flipSecret(c.Secret, c.Flips) + flip(c.Cmd, c.Flips>>3) + full[len(c.Secret)+len(c.Cmd):]},
	}
	for _, v := range variants {
		g, err := sut.Exec(v.text, c.Script)
		if err != nil {
			return err
		}
		if !sameOutcome(base, g) {
			return errf("%q gives %s; %s, %q gives %s", c.Secret+c.Cmd, outcome(base), v.name, v.text, outcome(g))
		}
		if !g.Err && g.Secret != base.Secret {
			return errf("%q secret %v; %q secret %v", c.Secret+c.Cmd, base.Secret, v.text, g.Secret)
		}
	}
	flipped := flip(c.Cmd, c.Flips) != c.Cmd
	m.NonTrivial = len(full) > len(c.Secret)+len(c.Cmd) || flipped
	m.Class(c.Text != "", "comment")
	m.Class(c.Sep == "" && c.Text != "", "text directly after a calculation or choice")
	m.Class(flipped, "case changed")
	m.Class(base.Err, "evaluation error")
	m.Class(strings.ContainsAny(c.Text, "\n\r"), "comment of several lines")
	m.Class(model.Parse(c.Text) != nil, "the comment is itself a command")
	m.Class(true, "command "+cmd.T)
	return nil
}

func flipSecret(s string, bits uint64) string {
	if s == "" {
		return s
	}
	if bits&1 == 1 {
		return "s"
	}
	return "S"
}

func upperSyntax(s string) string {
	if i := strings.IndexByte(s, '['); i > 0 && strings.EqualFold(s[:i], "choice") {
		return strings.ToUpper(s[:i]) + s[i:]
	}
	return strings.ToUpper(s)
}

func lowerSyntax(s string) string {
	if i := strings.IndexByte(s, '['); i > 0 && strings.EqualFold(s[:i], "choice") {
		return strings.ToLower(s[:i]) + s[i:]
	}
	return strings.ToLower(s)
}

func fixedC16() []*CommentCase {
	var out []*CommentCase
	for i, s := range []string{"2D6", "2d6>=7", "3b6+2B4>=3", "2r6[5]>=4", "2u6[5]+1", "C(7/2u+7/2R)", "CHOICE[a B c,D]", "(2D6+1)/2r", "[1...3]d6", "2R6", "2D6/(1D1-1)"} {
		for _, sep := range []string{" ", "\t", "\n", "\f", "\r"} {
			for _, x := range []string{"", "あ", "2D6", "\n\n", "S", "]", ")", "\v", ">=3", " "} {
				out = append(out, &CommentCase{Cmd: s, Sep: sep, Text: x, Flips: 0xaaaaaaaaaaaa, Secret: []string{"", "S", "s"}[i%3], Script: &scriptT{Seed: uint64(i + 1)}})
			}
		}
	}
	return out
}
