//go:build c03 || all

package main

import (
	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C03", Quick: 160000, Thorough: 5000000,
		Rule:        "the expression has a roll of at least two dice and another operand, and is answered",
		Assumptions: []string{"expressions with an intermediate result beyond 64 bits are only required not to crash"},
	}, func(t *rapid.T) *Line {
		g := gen.New(t)
		g.Dice = fw.OneOf(t, 10, 40, 100, 300)
		g.Long = fw.Coin(t, 5)
		n := fw.OneOf(t, 1, 2, 3, 5, 8, 14)
		if g.Long {
			n = 60
		}
		if fw.Coin(t, 1) {
			// one very large roll
			k := fw.IntIn(t, 1000, 20000)
			return lineOf(gen.C{S: itoa(k) + "D6+1", Cmd: &model.Cmd{T: model.DExpr,
				E: model.Bin("+", model.Roll("D", model.IntOf(int64(k)), model.IntOf(6)), model.IntOf(1))}}, gen.Script(t))
		}
		return lineOf(g.DExpr(n), gen.Script(t))
	}, runC03, fixedLines("2D6", "2D6+3D10-1", "(2D6+3)*2", "-2D6", "-(2D6-1D4)", "10-2D6*2/3U", "2D6/1D3R", "1-(2D6+-3)", "2D6-(1D6-1D6)", "2D6/(1D6/1D6)", "100000D6", "100001D6",
		"50000D6+50001D6", "1D6/(1D1-1)", "1D9223372036854775807", "2D9223372036854775807", "1D1", "0D6", "1D0", "(1-1)D6", "2D6+[1...3]")...)
	fw.Sweep("C03", scopeC03, sweepC03)
}

func runC03(l *Line, m *fw.Meta) error {
	_, w, err := runLine(l)
	if err != nil {
		return err
	}
	c := w.Cmd
	if c == nil || c.T != model.DExpr {
		return nil
	}
	rolls := c.Count(model.KRoll)
	m.NonTrivial = !w.Err && len(w.Dice) >= 2 && c.E.K != model.KRoll
	m.Class(w.Err, "error: "+w.Why)
	m.Class(rolls >= 2, "several rolls")
	m.Class(rolls >= 6, "six rolls or more")
	m.Class(len(w.Dice) > 50, "more than 50 dice")
	m.Class(len(w.Dice) >= 1000, "1000 dice or more")
	ops := opsOf(c)
	for _, o := range []string{"+", "-", "*", "/", "/U", "/R"} {
		m.Class(ops[o] > 0, "operator "+o)
	}
	m.Class(c.Count(model.KNeg) > 0, "sign inversion")
	m.Class(!w.Err && w.Value.Sign() < 0, "negative value")
	return nil
}
