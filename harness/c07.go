//go:build c07 || all

package main

import (
	"fmt"
	"math/big"
	"strings"

	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
	"verif/sut"
)

func init() {
	lim := &Line{Cmd: "2U6[6]+1", Script: &scriptT{Seed: 1, ExpAt: 1, Exp: 9999}}
	lim2 := &Line{Cmd: "2U6[6]>=60000", Script: &scriptT{Seed: 1, ExpAt: 1, Exp: 10000}}
	lim3 := &Line{Cmd: "3U6[6]-1", Script: &scriptT{Seed: 1, ExpAt: 2, Exp: 20003}}
	lim4 := &Line{Cmd: "12U6[6]", Script: &scriptT{Seed: 1, ExpAt: 1, Exp: 200000}}
	fw.Register(fw.Prop{
		ID: "C07", Quick: 150000, Thorough: 5000000,
		Rule: "a die is rerolled, or at least two dice are rolled with a modifier or comparison, or the threshold is missing or too low",
	}, genC07, runC07, append(fixedLines("2U6", "2U6[1]", "2U6[-3]+1", "2U6>=5", "2U6>=1", "2U6[6]", "2U6[6]+0", "2U6[6]-0", "2U6[6]+1", "2U6[6]-1", "1U6[6]-2-3", "1U6[6]-2+3*4", "1U6[6]-(2-3)", "1U6[6]--2", "1U6[6]+-2",
		"3U6+2U10[6]-1>=7", "3U6[6]-10", "3U6[6]-10>=-5", "3U6[4]+2=6", "3U6[4]+2<>6", "3U6[4]<6", "3U6[4]<=6", "3U6[4]>6", "[1...3]U6", "[1...3]U[4...6][4]", "1U6[6]+1/0", "1U6[6]>=1/0", "1U6[1/0]", "0U6[6]", "1U0[6]",
		"5U1[2]", "1U6[9223372036854775807]", "100001U2[3]", "2U6[6]+9223372036854775807", "1U6[5]+7/2R-1*3", "2U6[6]-9223372036854775807-1", "2U6[6]-9223372036854775807-1>=-9223372036854775807", "2U6-9223372036854775807-1"), lim, lim2, lim3, lim4)...)
	fw.Sweep("C07", scopeC07, sweepC07)
}

func genC07(t *rapid.T) *Line {
	g := gen.New(t)
	g.Dice = fw.OneOf(t, 3, 10, 10, 40)
	g.MaxSides = fw.OneOf(t, 0, 4, 10)
	g.Long = fw.Coin(t, 5)
	if fw.Coin(t, 1) { // the least modifier, or one near it
		k := fw.OneOf(t, 1, 1, 1, 2, 50)
		cmd := fmt.Sprintf("%dU%d[%d]-%d-%d", fw.IntIn(t, 1, 5), fw.IntIn(t, 2, 10), fw.IntIn(t, 2, 8), uint64(1<<63)-uint64(k), fw.OneOf(t, k, k, k-1))
		if fw.Coin(t, 40) {
			cmd += fw.OneOf(t, "=", "<>", "<", "<=", ">", ">=") + fmt.Sprintf("-%d", uint64(1<<63)-uint64(fw.IntIn(t, 1, 30)))
		}
		return &Line{Cmd: cmd, Script: gen.Script(t)}
	}
	c := g.UExpr()
	s := gen.Script(t)
	if fw.Coin(t, 30) {
		s.ExpAt = fw.IntIn(t, 1, 8)
		s.Exp = fw.OneOf(t, 1, 2, 5, 20)
	} else if fw.Coin(t, 1) {
		s.ExpAt, s.Exp = fw.IntIn(t, 1, 4), fw.OneOf(t, 3000, 9999, 10000, 10001, 20000, 40000)
	}
	if fw.Coin(t, 45) {
		v := g.Target(c)
		if fw.Coin(t, 70) {
			// near the sum of one die and the modifier
			k := *c.Cmd
			k.T, k.Op, k.Target = model.UComp, "=", model.IntOf(0)
			if o := model.Exec(&k, &scriptSource{s: s}, 200); o.LastCompare != nil && o.LastCompare.CmpAbs(big.NewInt(1<<40)) < 0 {
				v = int(o.LastCompare.Int64()) + fw.OneOf(t, 0, 0, 1, -1)
			}
		}
		c = g.Comp(c, v)
	}
	l := lineOf(c, s)
	if fw.Coin(t, 12) {
		l.Limit = fw.OneOf(t, 1, 2, 3, 4, 5, 8, 13, 30, 100)
		if fw.Coin(t, 60) && s.Exp == 0 {
			s.ExpAt, s.Exp = fw.IntIn(t, 1, 8), fw.OneOf(t, 3, 10, 40, 200)
		}
	}
	return l
}

const knownC07 = "modifier -2^63 shown with two signs"

// leastModifier checks the answer to a command whose modifier is the least
// integer.
func leastModifier(l *Line, g *sut.Got, m *fw.Meta) error {
	limit := l.Limit
	if limit == 0 {
		limit = model.MaxRerolls
	}
	model.LeastModifier = true
	w := sut.ModelLimit(l.Cmd, l.Script, limit)
	model.LeastModifier = false
	if w.Overflow {
		m.Class(true, "overflow")
		return nil
	}
	m.Class(true, "least modifier")
	err := sut.Compare(l.Cmd, g, w)
	if err == nil || w.Err {
		return err
	}
	const least = "-9223372036854775808"
	shown := w.Parts[0]
	for i := 1; i < len(shown); i++ {
		if !strings.HasPrefix(shown[i:], least) || strings.ContainsRune("[=<>", rune(shown[i-1])) {
			continue
		}
		w.Parts = append([]string{shown[:i] + "-" + shown[i:]}, w.Parts[1:]...)
		if sut.Compare(l.Cmd, g, w) == nil {
			m.Known = knownC07
			return nil
		}
	}
	return err
}

func runC07(l *Line, m *fw.Meta) error {
	g, w, err := runLine(l)
	if err != nil {
		return err
	}
	if w.Overflow {
		return leastModifier(l, g, m)
	}
	c := w.Cmd
	if c == nil || w.Err {
		m.Class(w.Err, "error: "+w.Why)
		return nil
	}
	bad := c.T[0] == 'U' && len(w.Parts) == 2 && (w.Parts[1] == model.MsgNoThresholdU || w.Parts[1] == model.MsgLowThreshold)
	m.NonTrivial = w.Groups > 0 || bad || len(w.Dice) >= 2 && (len(c.Bonus) > 0 || c.T == model.UComp)
	m.Class(bad, "missing or low threshold")
	m.Class(w.Groups > 0, "a die is rerolled")
	m.Class(w.Groups > 1, "several dice are rerolled")
	m.Class(w.Limited, "reroll limit reached")
	m.Class(l.Limit > 0, "small reroll limit set")
	m.Class(len(c.Rolls) > 1, "several rolls")
	m.Class(len(c.Bonus) > 0, "modifier")
	m.Class(len(c.Bonus) > 1, "modifier of several terms")
	m.Class(len(c.Bonus) > 1 && c.Bonus[0].Sign == "-", "modifier of several terms starting with -")
	if c.T == model.UComp {
		m.Class(true, "operator "+c.Op)
	} else if !bad {
		m.Class(true, "maximum and total")
	}
	return nil
}
