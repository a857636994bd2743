//go:build c01 || all

package main

import (
	"math/big"
	"strconv"

	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
	"verif/sut"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C01", Quick: 240000, Thorough: 8000000,
		Rule: "the expression has at least two operators and its value fits in 64 bits, or it divides by zero",
		Assumptions: []string{
			"expressions with an intermediate result beyond 64 bits are only required not to crash",
			"expressions have up to 3000 operands and 300 nested parentheses",
		},
	}, genC01, runC01, fixedC01()...)
	fw.Sweep("C01", scopeC01, sweepC01)
}

func genC01(t *rapid.T) *Line {
	g := gen.New(t)
	g.RandArgs = 0
	var c gen.C
	switch fw.Weighted(t, 50, 25, 20, 4) {
	case 0:
		g.Big = fw.Coin(t, 35)
		c = g.Calc(fw.OneOf(t, 1, 2, 2, 3, 4, 6, 9, 16))
	case 1: // one division with chosen magnitudes: multiples, halves and their neighbours
		g.Big = false
		b := magnitude(t)
		q := magnitude(t)
		a := new(big.Int).Mul(b, q)
		half := new(big.Int).Rsh(b, 1)
		switch fw.Pick(t, 4) {
		case 0:
			a.Add(a, half)
		case 1:
			a.Add(a, half).Add(a, big.NewInt(1))
		case 2:
			a.Sub(a, big.NewInt(1))
		}
		if !a.IsInt64() || a.Sign() < 0 {
			a = magnitude(t)
		}
		neg := func(v *big.Int) (string, *model.Node) {
			n := model.Int(v)
			switch fw.Pick(t, 4) {
			case 0, 1:
				return v.String(), n
			case 2:
				return "-" + v.String(), model.Neg(n)
			}
			return "(-" + v.String() + ")", model.Neg(n)
		}
		sa, na := neg(a)
		sb, nb := neg(b)
		op := fw.OneOf(t, "/", "/U", "/R")
		s, n := sa+"/"+sb+g.Letters(op[1:]), model.Bin(op, na, nb)
		if fw.Coin(t, 30) {
			x := g.Lit()
			o := fw.OneOf(t, "+", "-", "*", "/")
			s, n = s+o+x.S, model.Bin(o, n, x.N)
		}
		c = gen.C{S: g.Letters("C") + "(" + s + ")", Cmd: &model.Cmd{T: model.Calc, E: n}}
	case 2: // chains without parentheses
		n := fw.IntIn(t, 2, 12)
		g.Redundant = 0
		e := g.Primary(gen.CInt, 1)
		add := fw.Coin(t, 50)
		if add {
			for i := 0; i < n; i++ {
				op := fw.OneOf(t, "+", "-")
				r := g.Multi(gen.CInt, fw.OneOf(t, 1, 1, 2, 3))
				e = gen.E{S: e.S + op + r.S, N: model.Bin(op, e.N, r.N)}
			}
		} else {
			g.Big = true
			for i := 0; i < n; i++ {
				op := fw.OneOf(t, "/", "/", "/U", "/R", "*")
				r := g.IntLit(fw.IntIn(t, 1, 9))
				if fw.Coin(t, 20) {
					r = gen.E{S: "-" + r.S, N: model.Neg(r.N)}
				}
				s := e.S + op[:1] + r.S + g.Letters(op[1:])
				e = gen.E{S: s, N: model.Bin(op, e.N, r.N)}
			}
		}
		c = gen.C{S: "C(" + e.S + ")", Cmd: &model.Cmd{T: model.Calc, E: e.N}}
	default: // long or deep
		if fw.Coin(t, 50) {
			n := fw.IntIn(t, 20, 3000)
			k := fw.IntIn(t, 1, 50)
			s, e := "", (*model.Node)(nil)
			seed := uint64(fw.Bits(t, 20))
			for i := 0; i < n; i++ {
				v := int64((seed + uint64(i*k)) % 97)
				op := "+"
				if (seed>>3+uint64(i)*7)%5 < 2 {
					op = "-"
				}
				if e == nil {
					s, e = strconv.FormatInt(v, 10), model.IntOf(v)
					continue
				}
				s += op + strconv.FormatInt(v, 10)
				e = model.Bin(op, e, model.IntOf(v))
			}
			c = gen.C{S: "C(" + s + ")", Cmd: &model.Cmd{T: model.Calc, E: e}}
		} else {
			n := fw.IntIn(t, 5, 300)
			e := g.Lit()
			seed := uint64(fw.Bits(t, 20))
			for i := 0; i < n; i++ {
				op := []string{"+", "-", "*", "/", "/R", "/U"}[(seed+uint64(i)*5+uint64(i)*uint64(i))%6]
				if op == "*" && i%3 != 0 {
					op = "-"
				}
				v := int64(1 + (seed+uint64(i))%7)
				if (seed>>uint(i%8))&1 == 0 {
					e = gen.E{S: "(" + e.S + ")" + op[:1] + strconv.FormatInt(v, 10) + op[1:], N: model.Bin(op, e.N, model.IntOf(v))}
				} else {
					e = gen.E{S: strconv.FormatInt(v, 10) + op[:1] + "(" + e.S + ")" + op[1:], N: model.Bin(op, model.IntOf(v), e.N)}
				}
			}
			c = gen.C{S: "C(" + e.S + ")", Cmd: &model.Cmd{T: model.Calc, E: e.N}}
		}
	}
	return &Line{Cmd: c.S, SExp: c.Cmd.SExp()}
}

func magnitude(t *rapid.T) *big.Int {
	k := fw.IntIn(t, 0, 62)
	v := new(big.Int).Lsh(big.NewInt(1), uint(k))
	switch fw.Pick(t, 4) {
	case 0:
		v.Add(v, big.NewInt(int64(fw.IntIn(t, -3, 3))))
	case 1:
		v = big.NewInt(int64(fw.IntIn(t, 1, 12)))
	case 2:
		v.Add(v, new(big.Int).SetUint64(uint64(fw.Bits(t, 30))))
	default:
		v = new(big.Int).Sub(v, big.NewInt(int64(fw.IntIn(t, 0, 7))))
	}
	if v.Sign() <= 0 || !v.IsInt64() {
		return big.NewInt(1)
	}
	return v
}

func runC01(l *Line, m *fw.Meta) error {
	g, w, err := runLine(l)
	if err != nil {
		return err
	}
	if len(g.Reqs) > 0 {
		return errf("command %q: %d dice were rolled", l.Cmd, len(g.Reqs))
	}
	c := w.Cmd
	if c == nil {
		return nil
	}
	ops := opsOf(c)
	nops := 0
	for _, n := range ops {
		nops += n
	}
	m.NonTrivial = !w.Overflow && (nops >= 2 || w.Err)
	m.Class(w.Overflow, "overflow (only: no crash)")
	m.Class(w.Err && !w.Overflow, "division by zero")
	m.Class(ops["/U"] > 0, "division rounding up")
	m.Class(ops["/R"] > 0, "division rounding to nearest")
	m.Class(ops["/"] > 0, "division truncating")
	m.Class(true, sizeClass(nops+1))
	m.Class(c.E.Depth() > 20, "deep tree")
	if !w.Err {
		m.Class(w.Value.Sign() < 0, "negative value")
		m.Class(w.Value.BitLen() > 53, "value beyond 2^53")
	}
	return nil
}

func fixedC01() []*Line {
	return fixedLines("C(9223372036854775807/R)", "C(9223372036854775807/1R)", "C(9223372036854775807/2R)", "C(-9223372036854775807/2U)",
		"C(9223372036854775807/9223372036854775806R)", "C(4611686018427387904/9223372036854775807R)", "C((-9223372036854775807-1)/-1)",
		"C(-9223372036854775807-1)", "C((-9223372036854775807-1)/2R)", "C((-9223372036854775807-1)/(-9223372036854775807)U)",
		"C(1/0)", "C(1/0U)", "C(0/0R)", "C(1+2/(3-3)R)", "C(9007199254740993/1R)", "C(7/2R*2)", "C(-7/2)", "C(-7/2R)", "C(-7/2U)", "C(7/-2U)")
}

var _ = sut.Exec
