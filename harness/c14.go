//go:build c14 || all

package main

import (
	"strings"

	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/notation"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
	"verif/sut"
)

const knownC14 = "right operand of * with a division in its product"

func init() {
	fw.Register(fw.Prop{
		ID: "C14", Quick: 120000, Thorough: 4000000,
		Rule: "the command has at least two operators, or an argument or item that is not written in its shortest form",
		Assumptions: []string{
			"meaning is compared by trees, up to the associativity of + and *; a sign applied to a product or quotient counts as different from a sign of its first factor",
			"commands with the known finding (a right operand of * that contains a division) are only required to be displayed as the reference rendering",
		},
	}, genC14, runC14, fixedLines("C(2*(7/2))", "C(2*(3*4))", "C(2*(3*4)/5)", "C(1-(2+3))", "C(1-(2-3))", "C(1+(2-3))", "C((1-2)-3)", "C(8/(4*2))", "C(8/(4/2))", "C((8/4)/2U)", "C(8/4R*2)", "C(8*4/2U)", "C(-(1+2))", "C(-(-1))",
		"C(--1)", "C(-1*2)", "C(-(1*2))", "C(2*-3)", "C(2+-3)", "C(2-(-3+4))", "C((-3)*2+1)", "C(2+(-3)*4)", "C(+(+1))", "C(007)", "((1+2))D((3))", "(-1+2)D6", "(1*2)D(3+4)", "[(1)...(2+3)]D6", "[(1-2)...3]D(6)",
		"-(2D6)", "-(2D6+1)", "(2D6)*(1D6+1)/2r", "(2d6-(1d6-1d4))>=(1+2)*3", "2b6+(1+1)B(6)=+3", "2R6[(2+3)]>=4", "1u6[6]-2-3", "1U6[6]-(2-3)", "1U6[6]+(2-3)", "1U6[6]+-2", "1U6[6]-2", "1U6[6]--2", "1U6[(3)+3]-2*3+4>=-1", "CHOICE[ a ,b ,]", "choice[a b]", "2D6>=-(1+2)", "2D6=-1-2", "2D6<>2*(3/2)")...)
	fw.Sweep("C14", scopeC14, sweepC14)
}

func genC14(t *rapid.T) *Line {
	g := gen.New(t)
	g.Redundant = fw.OneOf(t, 0, 15, 40)
	g.Dice = 12
	g.MaxSides = 20
	g.NoDiv = fw.Coin(t, 25)
	var c gen.C
	switch fw.Weighted(t, 5, 2, 2) {
	case 0:
		c = g.Calc(fw.OneOf(t, 2, 3, 4, 6, 10, 20))
	case 1:
		c = g.DExpr(fw.OneOf(t, 2, 3, 5, 9))
		if fw.Coin(t, 40) {
			c = g.Comp(c, g.Target(c))
		}
	default:
		c = g.Any()
	}
	return lineOf(c, gen.Script(t))
}

// leftDiv tells whether the product chain from the node's left has a division.
func leftDiv(n *model.Node) bool {
	for n.K == model.KBin {
		if n.Op[0] == '/' {
			return true
		}
		if n.Op != "*" {
			return false
		}
		n = n.L
	}
	return false
}

// knownShape tells whether the command has the known finding.
func knownShape(c *model.Cmd) bool {
	found := false
	for _, e := range c.Exprs() {
		e.Walk(func(n *model.Node) {
			if n.K == model.KBin && n.Op == "*" && leftDiv(n.R) {
				found = true
			}
		})
	}
	return found
}

// normal writes a tree with the chains of + and * flattened.
func normal(b *strings.Builder, n *model.Node) {
	switch {
	case n == nil:
		b.WriteString("nil")
	case n.K == model.KBin && (n.Op == "+" || n.Op == "-"):
		b.WriteString("(sum")
		var walk func(n *model.Node)
		walk = func(n *model.Node) {
			if n.K == model.KBin && (n.Op == "+" || n.Op == "-") {
				walk(n.L)
				b.WriteString(" " + n.Op)
				if n.Op == "+" {
					walk(n.R)
				} else {
					normal(b, n.R)
				}
				return
			}
			b.WriteString(" ")
			normal(b, n)
		}
		walk(n)
		b.WriteString(")")
	case n.K == model.KBin && n.Op == "*":
		b.WriteString("(product")
		var walk func(n *model.Node)
		walk = func(n *model.Node) {
			if n.K == model.KBin && n.Op == "*" {
				walk(n.L)
				walk(n.R)
				return
			}
			b.WriteString(" ")
			normal(b, n)
		}
		walk(n)
		b.WriteString(")")
	case n.K == model.KInt:
		b.WriteString(n.V.String())
	case n.K == model.KNeg:
		b.WriteString("(neg ")
		normal(b, n.R)
		b.WriteString(")")
	default:
		b.WriteString("(" + string(rune('A'+int(n.K))) + n.Op + " ")
		normal(b, n.L)
		b.WriteString(" ")
		normal(b, n.R)
		b.WriteString(")")
	}
}

// meaning is a text that is equal for commands of the same meaning.
func meaning(c *model.Cmd) string {
	var b strings.Builder
	b.WriteString(c.T + " ")
	one := func(n *model.Node) {
		normal(&b, n)
		b.WriteString(" ")
	}
	one(c.E)
	for _, r := range c.Rolls {
		one(r)
	}
	one(c.Th)
	// the modifier as a sum starting from zero
	if len(c.Bonus) > 0 {
		op, n := model.BonusTree(c.Bonus)
		n = model.Bin(op, model.IntOf(0), n)
		one(n)
	}
	b.WriteString(c.Op + " ")
	one(c.Target)
	b.WriteString(strings.Join(c.Items, ","))
	return b.String()
}

// bare strips parentheses, unary plus signs, leading zeros and letter case.
func bare(s string) string {
	s = strings.ToUpper(s)
	var b strings.Builder
	prev := byte('(')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch == '+' && strings.IndexByte("(+-*/[=<>", prev) >= 0 {
			continue // unary: prev stays an operator
		}
		if ch == '.' {
			prev = '('
			b.WriteByte(ch)
			continue
		}
		if ch == '(' || ch == ')' {
			prev = ch
			continue
		}
		if ch == '0' && (prev < '0' || prev > '9') && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' {
			continue
		}
		prev = ch
		b.WriteByte(ch)
	}
	return b.String()
}

func render(text string) (string, error) {
	n, err := parser.Parse("input", []byte(text))
	if err != nil {
		return "", errf("%q is rejected: %v", text, err)
	}
	return notation.InfixNotation(n.(ast.Node), true)
}

func runC14(l *Line, m *fw.Meta) error {
	c := model.Parse(l.Cmd)
	if c == nil {
		panic("harness: not a command: " + l.Cmd)
	}
	if l.Script == nil {
		l.Script = &scriptT{Seed: 1}
	}
	known := knownShape(c)
	s1, err := render(l.Cmd)
	if err != nil {
		return errf("%q: %v", l.Cmd, err)
	}
	s2, err := render(s1)
	if err != nil {
		return errf("%q is displayed as %q: %v", l.Cmd, s1, err)
	}
	if s1 != s2 {
		return errf("%q is displayed as %q, and that as %q", l.Cmd, s1, s2)
	}
	c1 := model.Parse(s1)
	if c1 == nil {
		return errf("%q is displayed as %q, which is not a command", l.Cmd, s1)
	}
	if c.T != model.Choice {
		want := l.Cmd
		got := bare(s1)
		if len(c.Bonus) > 1 && c.Bonus[0].Sign == "-" {
			// a leading minus of several terms is displayed as + and a signed number
			k := *c
			k.Bonus = append([]model.Term{{Sign: "+", N: model.Neg(c.Bonus[0].N)}}, c.Bonus[1:]...)
			want = k.Notation()
		}
		if bare(want) != got {
			return errf("%q is displayed as %q: other operators, numbers or letters", l.Cmd, s1)
		}
	}
	if known {
		if w := c.Notation(); s1 != w {
			return errf("%q is displayed as %q, want %q", l.Cmd, s1, w)
		}
		if meaning(c) != meaning(c1) {
			m.Known = knownC14
		}
	} else {
		if a, b := meaning(c), meaning(c1); a != b {
			return errf("%q is displayed as %q, which has another meaning:\n%s\n%s", l.Cmd, s1, a, b)
		}
		w := model.Exec(c, &scriptSource{s: l.Script}, model.MaxRerolls)
		if !w.Overflow {
			g1, err := sut.Exec(l.Cmd, l.Script)
			if err != nil {
				return err
			}
			g2, err := sut.Exec(s1, l.Script)
			if err != nil {
				return err
			}
			if g1.Err != g2.Err || g1.Msg != g2.Msg || !sut.SameDice(g1.Drawn, g2.Drawn) || g1.Success != g2.Success {
				return errf("%q answers %q %s, its display %q answers %q %s", l.Cmd, g1.Msg, g1.ErrText, s1, g2.Msg, g2.ErrText)
			}
		}
	}
	// every pair of parentheses is needed, or holds a signed number that is not leftmost
	pairs := 0
	if c.T != model.Choice {
		var stack []int
		for i := 0; i < len(s1); i++ {
			switch s1[i] {
			case '(':
				stack = append(stack, i)
			case ')':
				o := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if c.T == model.Calc && o == 1 {
					continue
				}
				pairs++
				without := s1[:o] + s1[o+1:i] + s1[i+1:]
				cw := model.Parse(without)
				if cw == nil || meaning(cw) != meaning(c1) {
					continue
				}
				if s1[o+1] == '-' && o > 0 && strings.IndexByte("([=<>", s1[o-1]) < 0 {
					// the operand in the parentheses is a signed number
					if strings.IndexFunc(s1[o+2:i], func(r rune) bool { return strings.ContainsRune("+-*/", r) }) < 0 || signedNest(s1[o+1:i]) {
						continue
					}
				}
				return errf("%q is displayed as %q with needless parentheses: %q means the same", l.Cmd, s1, without)
			}
		}
	}
	ops := 0
	for _, n := range opsOf(c) {
		ops += n
	}
	m.NonTrivial = ops >= 2 || l.Cmd != s1
	m.Class(ops >= 2, "two operators or more")
	m.Class(ops >= 8, "eight operators or more")
	m.Class(pairs > 0, "parentheses displayed")
	m.Class(pairs >= 3, "three pairs displayed or more")
	m.Class(l.Cmd != s1, "display differs from the text")
	m.Class(known, "known finding's shape")
	m.Class(true, "type "+c.T)
	return nil
}

// signedNest tells whether the text is a sign and one operand (a number, a roll or parentheses).
func signedNest(s string) bool {
	c := model.Parse("C(" + s + ")")
	if c == nil {
		c = model.Parse(s)
	}
	return c != nil && c.E != nil && c.E.K == model.KNeg
}
