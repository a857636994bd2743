//go:build c09 || all

package main

import (
	"strings"

	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C09", Quick: 150000, Thorough: 5000000,
		Rule: "a roll argument is an expression or a random number, and the command is answered or fails because of an argument",
	}, genC09, runC09, fixedLines("[1...3]D6", "[3...3]D6", "[3...1]D6", "[0...1]D6", "[(-5)...5]D6", "[(0-5)...(0-3)]D6", "2D[1...6]", "[1...2]D[3...4]", "([1...2]+[1...2])D([1...6]*2)", "(1-[1...2])D6", "([1...2]-1)D6",
		"[1...9223372036854775807]D6", "[0...9223372036854775807]D6", "[(-9223372036854775807)...9223372036854775807]D6", "([1...9223372036854775807]-9223372036854775806+[1...2])D6", "(4/2)B6+[1...2]B(3*2)>=4",
		"[1...3]R[2...6][5]", "[1...3]U[2...6][5]+1", "([1...2])D6+([1...2]D6)", "[(1+1)...(2*3)]D6", "((([1...2])))D6", "(-[1...2]+3)D6", "([1...2]/0)D6", "1D([1...2]/2R)", "([2...1]*0+1)D6", "[1...1000000]B6[",
		// long lists and sums
		strings.Repeat("1B6+", 5000)+"(1+1)B6+[1...2]B(2*3)", strings.Repeat("(1+1)B6+", 5000)+"[1...2]B6", strings.Repeat("1U6+", 5000)+"(1+1)U6[7]", strings.Repeat("1R6+", 5000)+"(1+1)R[6...7][7]", strings.Repeat("1D6+", 1500)+"(1+1)D6+[1...2]D6", strings.Repeat("[1...2]D6-", 1500)+"(1+1)D6", strings.Repeat("[1...2]U6+", 1500)+"[1...3]U6[6]")...)
	fw.Sweep("C09", scopeC09, sweepC09)
}

func genC09(t *rapid.T) *Line {
	g := gen.New(t)
	g.RandArgs = fw.OneOf(t, 40, 70, 100)
	g.Wild = fw.OneOf(t, 0, 5, 20)
	g.Dice = 20
	g.MaxSides = fw.OneOf(t, 0, 10)
	s := gen.Script(t)
	if fw.Coin(t, 20) { // one range with chosen, possibly extreme, bounds and every kind of outcome
		lo := fw.OneOf(t, 0, 1, -3, -100, 5, 1, 1)
		w := fw.OneOf(t, 1, 1, 2, 3, 9, 99, 1000, 0, -1, 1<<40, 1<<62)
		b := func(v int) gen.E {
			if v >= 0 {
				return g.IntLit(v)
			}
			e := g.IntLit(-v)
			return gen.E{S: "(-" + e.S + ")", N: model.Neg(e.N)}
		}
		x, y := b(lo), b(lo+w)
		r := gen.E{S: "[" + x.S + "..." + y.S + "]", N: model.Rand(x.N, y.N)}
		s.Vals = []int{fw.OneOf(t, 1, w+1, w, 2, (w+1)/2)}
		if fw.Coin(t, 50) || lo < 1 || w > 60 {
			e := gen.E{S: "1" + "D" + r.S, N: model.Roll("D", model.IntOf(1), r.N)}
			if lo < 1 {
				off := g.IntLit(1 - lo)
				e = gen.E{S: "1D(" + r.S + "+" + off.S + ")", N: model.Roll("D", model.IntOf(1), model.Bin("+", r.N, off.N))}
			}
			return lineOf(gen.C{S: e.S, Cmd: &model.Cmd{T: model.DExpr, E: e.N}}, s)
		}
		op := fw.OneOf(t, "D", "B")
		c := &model.Cmd{T: model.DExpr, E: model.Roll(op, r.N, model.IntOf(6))}
		if op == "B" {
			c = &model.Cmd{T: model.BList, Rolls: []*model.Node{c.E}}
		}
		return lineOf(gen.C{S: r.S + op + "6", Cmd: c}, s)
	}
	return lineOf(g.AnyRoll(), s)
}

func runC09(l *Line, m *fw.Meta) error {
	_, w, err := runLine(l)
	if err != nil {
		return err
	}
	c := w.Cmd
	if c == nil {
		return nil
	}
	args, rands, letters := 0, 0, map[string]bool{}
	for _, e := range c.Exprs() {
		e.Walk(func(n *model.Node) {
			if n.K == model.KRoll {
				for _, x := range []*model.Node{n.L, n.R} {
					if x.K != model.KInt {
						args++
						letters[n.Op] = true
					}
					rands += x.Count(model.KRand)
				}
			}
		})
	}
	m.NonTrivial = args > 0 && !w.Overflow
	m.Class(w.Err, "error: "+w.Why)
	m.Class(rands > 0 && !w.Err, "random numbers in arguments")
	m.Class(rands >= 3 && !w.Err, "three random numbers or more")
	for k := range letters {
		m.Class(!w.Err, "expression argument of "+k)
	}
	return nil
}
