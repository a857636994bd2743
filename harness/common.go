package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/core/dice"

	"verif/gen"
	"verif/model"
	"verif/sut"
)

// Line is a case made of one command line and the dice.
type Line struct {
	Cmd    string      `json:"cmd"`
	SExp   string      `json:"sexp,omitempty"` // the tree the generator meant
	Script *sut.Script `json:"dice,omitempty"`
	// Limit is the evaluator's limit of rerolls (0: as the instance sets it up).
	Limit int `json:"limit,omitempty"`
}

// lineOf makes a case of a generated command.
func lineOf(c gen.C, s *sut.Script) *Line { return &Line{Cmd: c.S, SExp: c.Cmd.SExp(), Script: s} }

// runLine executes the line and compares it with the model.
func runLine(l *Line) (*sut.Got, *sut.Want, error) {
	if l.Script == nil {
		l.Script = &sut.Script{}
	}
	g, w, err := sut.DiffLimit(l.Cmd, l.Script, l.Limit)
	if l.SExp != "" {
		if w.Cmd == nil || w.Cmd.SExp() != l.SExp {
			panic(fmt.Sprintf("harness: the model parses %q differently from its derivation", l.Cmd))
		}
	}
	return g, w, err
}

func contains(s string, subs ...string) bool {
	for _, x := range subs {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}

func dist(a, b *big.Int) *big.Int { return new(big.Int).Abs(new(big.Int).Sub(a, b)) }

func opsOf(c *model.Cmd) map[string]int {
	m := map[string]int{}
	for _, e := range c.Exprs() {
		e.Walk(func(n *model.Node) {
			if n.K == model.KBin {
				m[n.Op]++
			}
		})
	}
	return m
}

func sizeClass(n int) string {
	switch {
	case n <= 1:
		return "size 1"
	case n <= 4:
		return "size 2-4"
	case n <= 16:
		return "size 5-16"
	case n <= 100:
		return "size 17-100"
	}
	return "size >100"
}

// rngCase returns lines of plain texts with uniform dice.
func fixedLines(cmds ...string) []*Line {
	var out []*Line
	for i, c := range cmds {
		out = append(out, &Line{Cmd: c, Script: &sut.Script{Seed: uint64(i + 1)}})
	}
	return out
}

func errf(f string, a ...any) error { return fmt.Errorf(f, a...) }

func itoa(n int) string { return fmt.Sprint(n) }

// scriptSource is a model die source.
type scriptSource struct {
	s *sut.Script
	n int
}

func (f *scriptSource) Next(sides int) (model.Die, error) {
	f.n++
	return f.s.Die(f.n, sides)
}

type scriptT = sut.Script

func startsWithMark(s string) bool { return strings.HasPrefix(s, "s") || strings.HasPrefix(s, "S") }

func outcome(g *sut.Got) string {
	if g.Err {
		return "an error (" + g.ErrText + ")"
	}
	return "the answer " + g.Msg + " with dice " + sut.ShowDice(g.Dice) + " and success result " + itoa(g.Success)
}

func sameOutcome(a, b *sut.Got) bool {
	if a.Err != b.Err {
		return false
	}
	if a.Err {
		return true
	}
	return a.Msg == b.Msg && a.Success == b.Success && sut.SameDice(a.Dice, b.Dice) && sut.SameDice(a.Drawn, b.Drawn) && a.GameID == b.GameID
}

// someDice makes dice, mostly six-sided.
func someDice(n int, seed int64) []dice.Die {
	s := scriptT{Seed: uint64(seed) + 1}
	var ds []model.Die
	for i := 1; i <= n; i++ {
		d, _ := s.Die(i, 6)
		ds = append(ds, d)
	}
	return sut.ToDice(ds)
}

// lastPart is the end of a text.
func lastPart(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}
