//go:build c05 || all

package main

import (
	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C05", Quick: 200000, Thorough: 6000000,
		Rule: "at least two dice are listed and answered; with a comparison, some dice satisfy it and some do not, or a die equals the target",
	}, func(t *rapid.T) *Line {
		g := gen.New(t)
		g.Dice = fw.OneOf(t, 5, 40, 40, 400)
		g.Long = fw.Coin(t, 10)
		c := g.BList()
		s := gen.Script(t)
		if fw.Coin(t, 65) {
			c = g.Comp(c, aim(t, g, c, s))
		}
		return lineOf(c, s)
	}, runC05, fixedLines("1B6", "2B6+3B10", "3B6>=4", "3B6=1", "3B6<>1", "3B6<1", "3B6<=1", "3B6>6", "3B6>=-1", "3B6<7/2R", "[1...3]B6", "(1+1)B(2*3)+1B6>=(1+2)*1", "100000B2=1",
		"100001B6", "60000B6+60000B6", "0B6", "1B0", "3B6>=1/0", "1B1=1", "5B6=(7-1)/1")...)
	fw.Sweep("C05", scopeC05, sweepC05)
}

// aim draws a target that some of the dice will equal.
func aim(t *rapid.T, g *gen.G, c gen.C, s *scriptT) int {
	if fw.Coin(t, 60) {
		o := model.Exec(c.Cmd, &scriptSource{s: s}, model.MaxRerolls)
		if len(o.Dice) > 0 {
			d := o.Dice[fw.Pick(t, len(o.Dice))].Value
			if d < 1<<40 {
				return d + fw.OneOf(t, 0, 0, 0, 1, -1)
			}
		}
	}
	return g.Target(c)
}

func runC05(l *Line, m *fw.Meta) error {
	_, w, err := runLine(l)
	if err != nil {
		return err
	}
	c := w.Cmd
	if c == nil || w.Err {
		m.Class(w.Err, "error: "+w.Why)
		return nil
	}
	n := len(w.Dice)
	m.Class(len(c.Rolls) > 1, "several rolls")
	m.Class(len(c.Rolls) > 5, "more than five rolls")
	m.Class(n > 50, "more than 50 dice")
	if c.T == model.BComp {
		eq := false
		for _, d := range w.Dice {
			eq = eq || w.Target.IsInt64() && int64(d.Value) == w.Target.Int64()
		}
		m.NonTrivial = n >= 2 && (w.Successes > 0 && w.Successes < n || eq)
		m.Class(true, "operator "+c.Op)
		m.Class(eq, "a die equals the target")
		m.Class(w.Successes == 0, "no success")
		m.Class(w.Successes == n, "all dice succeed")
	} else {
		m.NonTrivial = n >= 2
		m.Class(true, "no comparison")
	}
	return nil
}
