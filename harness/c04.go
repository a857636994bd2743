//go:build c04 || all

package main

import (
	"math/big"

	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C04", Quick: 150000, Thorough: 5000000,
		Rule:        "a comparison that is answered, whose target is within 2 of the value, or negative, or an expression",
		Assumptions: []string{"intermediate results beyond 64 bits are only required not to crash"},
	}, genC04, runC04, fixedLines("(8/2)D(4+6)<=(5*3)", "2D6>=7", "2D6=7", "2D6<>7", "2D6<7", "2D6<=7", "2D6>7", "2D6-20>=-13", "-2D6<-7", "1D6>=1/0", "1D6>=7/2", "1D6>=7/2U", "1D6>=7/2R", "1D6=(1)",
		"[1...3]D6>=3", "(1D6+1)*2>=4*(1+1)", "2D6>=9223372036854775807", "2D6>=-9223372036854775807-1", "100000D1=100000", "2D6", "2B6>=3", "2R6>=3", "2U6[6]>=3", "C(1)>=1", "CHOICE[a]>=1")...)
	fw.Sweep("C04", scopeC04, sweepC04)
}

func genC04(t *rapid.T) *Line {
	g := gen.New(t)
	g.Dice = 20
	s := gen.Script(t)
	if fw.Coin(t, 5) {
		// not a check: the result must stay unspecified
		return lineOf(g.Any(), s)
	}
	c := g.DExpr(fw.OneOf(t, 1, 1, 2, 3, 6))
	v := g.Target(c)
	// most targets are adjacent to the value the dice will give
	if fw.Coin(t, 75) {
		o := model.Exec(c.Cmd, &scriptSource{s: s}, model.MaxRerolls)
		if !o.Err && o.Value.CmpAbs(big.NewInt(1<<40)) < 0 {
			v = int(o.Value.Int64()) + fw.OneOf(t, 0, 0, 1, -1, 2, -2)
		}
	}
	return lineOf(g.Comp(c, v), s)
}

func runC04(l *Line, m *fw.Meta) error {
	g, w, err := runLine(l)
	if err != nil {
		return err
	}
	c := w.Cmd
	if c == nil || w.Err {
		m.Class(w.Err, "error")
		return nil
	}
	if c.T != model.DComp {
		if g.Success != 0 {
			return errf("%q has a success check result", l.Cmd)
		}
		m.Class(true, "not a check")
		return nil
	}
	d := dist(w.Value, w.Target)
	near := d.Cmp(big.NewInt(2)) <= 0
	m.NonTrivial = near || w.Target.Sign() < 0 || c.Target.K != model.KInt
	m.Class(true, "operator "+c.Op)
	m.Class(d.Sign() == 0, "value equals target")
	m.Class(d.Cmp(big.NewInt(1)) == 0, "value next to target")
	m.Class(w.Target.Sign() < 0, "negative target")
	m.Class(w.Value.Sign() < 0, "negative value")
	m.Class(w.Success == 1, "success")
	m.Class(w.Success == 2, "failure")
	m.Class(c.E.K == model.KRoll, "single roll")
	m.Class(c.E.K == model.KRoll && (c.E.L.K != model.KInt || c.E.R.K != model.KInt), "single roll with expression arguments")
	return nil
}
