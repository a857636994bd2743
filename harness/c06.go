//go:build c06 || all

package main

import (
	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
)

func init() {
	lim := &Line{Cmd: "1R6[6]", Script: &scriptT{Seed: 1, ExpAt: 1, Exp: 30000}}
	lim2 := &Line{Cmd: "3R6+2R10[3]", Script: &scriptT{Seed: 1, ExpAt: 1, Exp: 60000}}
	lim3 := &Line{Cmd: "2R6>=6", Script: &scriptT{Seed: 3, ExpAt: 1, Exp: 19998}}
	lim4 := &Line{Cmd: "2R6[6]", Script: &scriptT{Seed: 3, ExpAt: 1, Exp: 19997}}
	fw.Register(fw.Prop{
		ID: "C06", Quick: 150000, Thorough: 5000000,
		Rule: "at least one group is rerolled, or the threshold is missing or too low",
	}, genC06, runC06, append(fixedLines("2R6", "2R6[1]", "2R6[0]", "2R6[-5]", "2R6>=1", "2R6>=2", "2R6=6", "2R6<>6", "2R6<5", "2R6[4]<3", "3R6+2R10[6]", "1R6+1R6+1R6[2]", "2R6[7/2U]>=3",
		"[1...3]R6", "[1...3]R6[1]", "(1+1)R(2*3)[5]>=4*1", "0R6[5]", "1R0[5]", "2R6[5]>=1/0", "2R6[1/0]", "20R1[2]", "2R6[9223372036854775807]", "100001R6[6]", "50000R6+50001R6[7]"), lim, lim2, lim3, lim4)...)
	fw.Sweep("C06", scopeC06, sweepC06)
}

func genC06(t *rapid.T) *Line {
	g := gen.New(t)
	g.Dice = fw.OneOf(t, 4, 12, 12, 40)
	g.MaxSides = fw.OneOf(t, 0, 4, 10)
	g.Long = fw.Coin(t, 5)
	c := g.RList()
	s := gen.Script(t)
	if fw.Coin(t, 30) { // a chain of maxima somewhere
		s.ExpAt = fw.IntIn(t, 1, 8)
		s.Exp = fw.OneOf(t, 1, 2, 5, 20, 100)
	} else if fw.Coin(t, 1) {
		s.ExpAt, s.Exp = fw.IntIn(t, 1, 4), fw.OneOf(t, 3000, 9990, 9999, 10000, 10001, 12000, 40000)
	}
	if fw.Coin(t, 55) {
		c = g.Comp(c, aimList(t, g, c, s))
	}
	l := lineOf(c, s)
	if fw.Coin(t, 12) {
		l.Limit = fw.OneOf(t, 1, 2, 3, 4, 5, 8, 13, 30, 100)
		if fw.Coin(t, 60) && s.Exp == 0 {
			s.ExpAt, s.Exp = fw.IntIn(t, 1, 8), fw.OneOf(t, 3, 10, 40, 200)
		}
	}
	return l
}

// aimList draws a target near the sides of a die or near the threshold.
func aimList(t *rapid.T, g *gen.G, c gen.C, s *scriptT) int {
	if fw.Coin(t, 30) {
		o := model.Exec(c.Cmd, &scriptSource{s: s}, 200)
		if len(o.Dice) > 0 {
			if d := o.Dice[fw.Pick(t, len(o.Dice))].Value; d < 1<<40 {
				return d + fw.OneOf(t, 0, 0, 1, -1)
			}
		}
	}
	if c.Cmd.Th == nil && fw.Coin(t, 60) {
		// the target is the threshold too: keep it near the top so that chains end
		m := 6
		for _, r := range c.Cmd.Rolls {
			if r.R.K == model.KInt && r.R.V.IsInt64() && r.R.V.Int64() < 100000 {
				m = int(r.R.V.Int64())
			}
		}
		return max(2, m-fw.OneOf(t, 0, 0, 1, 2))
	}
	return g.Target(c)
}

func runC06(l *Line, m *fw.Meta) error {
	_, w, err := runLine(l)
	if err != nil {
		return err
	}
	c := w.Cmd
	if c == nil || w.Err {
		m.Class(w.Err, "error: "+w.Why)
		return nil
	}
	bad := c.T[0] == 'R' && len(w.Parts) == 2 && (w.Parts[1] == model.MsgNoThresholdR || w.Parts[1] == model.MsgLowThreshold)
	m.NonTrivial = w.Groups > 0 || bad
	m.Class(bad, "missing or low threshold")
	m.Class(w.Groups > 0, "rerolls")
	m.Class(w.Groups >= 4, "four groups rerolled or more")
	m.Class(w.Groups >= 100, "100 groups rerolled or more")
	m.Class(w.Limited, "reroll limit reached")
	m.Class(l.Limit > 0, "small reroll limit set")
	m.Class(w.Groups > 0 && len(c.Rolls) > 1, "rerolls of several rolls")
	if c.T == model.RComp {
		m.Class(true, "operator "+c.Op)
		m.Class(c.Th == nil && !bad, "threshold from the target")
		m.Class(c.Th != nil && !bad, "threshold and target")
	}
	return nil
}
