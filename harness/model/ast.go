// Package model is the reference model of the command language: syntax trees,
// a parser, S-expressions, infix notation and evaluation with exact integers.
// It is written from the documented behaviour and imports nothing of GoBCDice.
package model

import (
	"math/big"
	"strconv"
	"strings"
)

// Kind is the kind of an expression node.
type Kind int

const (
	KInt  Kind = iota
	KNeg       // -R
	KBin       // L Op R
	KRoll      // L Op R with Op in D B R U
	KRand      // [L...R]
	KSum       // a sum roll with its dice
)

// Die is a die with its value.
type Die struct {
	Value int `json:"v"`
	Sides int `json:"s"`
}

// Node is an expression.
type Node struct {
	K    Kind
	V    *big.Int
	Op   string
	L, R *Node
	Dice []Die
}

// Int makes an integer node.
func Int(v *big.Int) *Node { return &Node{K: KInt, V: v} }

// IntOf makes an integer node.
func IntOf(v int64) *Node { return Int(big.NewInt(v)) }

// Neg makes a sign inversion.
func Neg(r *Node) *Node { return &Node{K: KNeg, R: r} }

// Bin makes a binary operation.
func Bin(op string, l, r *Node) *Node { return &Node{K: KBin, Op: op, L: l, R: r} }

// Roll makes a roll.
func Roll(op string, l, r *Node) *Node { return &Node{K: KRoll, Op: op, L: l, R: r} }

// Rand makes a random number.
func Rand(l, r *Node) *Node { return &Node{K: KRand, L: l, R: r} }

// Clone copies a node deeply.
func (n *Node) Clone() *Node {
	if n == nil {
		return nil
	}
	c := *n
	c.L, c.R = n.L.Clone(), n.R.Clone()
	return &c
}

// Walk visits the node and its descendants.
func (n *Node) Walk(f func(*Node)) {
	if n == nil {
		return
	}
	f(n)
	n.L.Walk(f)
	n.R.Walk(f)
}

// Count counts the nodes of the kind.
func (n *Node) Count(k Kind) int {
	c := 0
	n.Walk(func(x *Node) {
		if x.K == k {
			c++
		}
	})
	return c
}

// Depth is the height of the tree.
func (n *Node) Depth() int {
	if n == nil {
		return 0
	}
	l, r := n.L.Depth(), n.R.Depth()
	if r > l {
		l = r
	}
	return l + 1
}

// Term is a signed term of a modifier.
type Term struct {
	Sign string // "+" or "-"
	N    *Node
}

// Cmd types.
const (
	Calc   = "Calc"
	Choice = "Choice"
	DExpr  = "DRollExpr"
	DComp  = "DRollComp"
	BList  = "BRollList"
	BComp  = "BRollComp"
	RList  = "RRollList"
	RComp  = "RRollComp"
	UExpr  = "URollExpr"
	UComp  = "URollComp"
)

// Cmd is a command.
type Cmd struct {
	T      string
	E      *Node   // Calc, DExpr, DComp
	Rolls  []*Node // lists
	Th     *Node   // threshold or nil
	Bonus  []Term
	Op     string // comparison
	Target *Node
	Items  []string
}

// IsComp tells whether the command has a comparison.
func (c *Cmd) IsComp() bool {
	return c.T == DComp || c.T == BComp || c.T == RComp || c.T == UComp
}

// BonusTree gives the operator before, and the tree of, the modifier.
func BonusTree(b []Term) (string, *Node) {
	if len(b) == 1 && b[0].Sign == "-" {
		return "-", b[0].N
	}
	n := b[0].N
	if b[0].Sign == "-" {
		n = Neg(n)
	}
	for _, t := range b[1:] {
		n = Bin(t.Sign, n, t.N)
	}
	return "+", n
}

// SExp is the S-expression of an expression.
func (n *Node) SExp() string {
	var b strings.Builder
	n.sexp(&b)
	return b.String()
}

func (n *Node) sexp(b *strings.Builder) {
	two := func(name string) {
		b.WriteString("(" + name + " ")
		n.L.sexp(b)
		b.WriteString(" ")
		n.R.sexp(b)
		b.WriteString(")")
	}
	switch n.K {
	case KInt:
		b.WriteString(n.V.String())
	case KNeg:
		b.WriteString("(- ")
		n.R.sexp(b)
		b.WriteString(")")
	case KBin:
		two(n.Op)
	case KRoll:
		two(n.Op + "Roll")
	case KRand:
		two("RandomNumber")
	default:
		var s []string
		for _, d := range n.Dice {
			s = append(s, "(Die "+strconv.Itoa(d.Value)+" "+strconv.Itoa(d.Sides)+")")
		}
		b.WriteString("(SumRollResult " + strings.Join(s, " ") + ")")
	}
}

func (c *Cmd) listSExp() string {
	var b strings.Builder
	if c.T == BList || c.T == BComp {
		b.WriteString("(BRollList")
	} else {
		b.WriteString("(RRollList ")
		if c.Th == nil {
			b.WriteString("nil")
		} else {
			b.WriteString(c.Th.SExp())
		}
	}
	for _, r := range c.Rolls {
		b.WriteString(" ")
		b.WriteString(r.SExp())
	}
	b.WriteString(")")
	return b.String()
}

func (c *Cmd) uexprSExp() string {
	s := c.listSExp()
	if len(c.Bonus) > 0 {
		op, n := BonusTree(c.Bonus)
		s = "(" + op + " " + s + " " + n.SExp() + ")"
	}
	return "(URollExpr " + s + ")"
}

// SExp is the S-expression of a command.
func (c *Cmd) SExp() string {
	var left string
	switch c.T {
	case Calc, DExpr:
		return "(" + c.T + " " + c.E.SExp() + ")"
	case Choice:
		s := "(Choice"
		for _, i := range c.Items {
			s += " " + strconv.Quote(i)
		}
		return s + ")"
	case BList, RList:
		return c.listSExp()
	case UExpr:
		return c.uexprSExp()
	case DComp:
		left = c.E.SExp()
	case BComp, RComp:
		left = c.listSExp()
	case UComp:
		left = c.uexprSExp()
	}
	return "(" + c.T + " (" + c.Op + " " + left + " " + c.Target.SExp() + "))"
}

func prec(n *Node) int {
	switch n.K {
	case KBin:
		if n.Op == "+" || n.Op == "-" {
			return 2
		}
		return 3
	case KRoll:
		return 4
	case KRand:
		return 5
	}
	return 9
}

// Infix is the infix notation; walk tells whether the node is leftmost.
func Infix(n *Node, walk bool) string {
	var b strings.Builder
	infix(&b, n, walk)
	return b.String()
}

func infix(b *strings.Builder, n *Node, walk bool) {
	switch n.K {
	case KInt:
		b.WriteString(n.V.String())
	case KNeg:
		if n.R.K == KNeg || n.R.K == KBin {
			b.WriteString("-(")
			infix(b, n.R, true)
			b.WriteString(")")
			return
		}
		b.WriteString("-")
		infix(b, n.R, walk)
	case KBin:
		if n.L.K == KNeg && walk {
			infix(b, n.L, walk)
		} else {
			child(b, prec(n), true, n.L, walk)
		}
		b.WriteString(n.Op[:1])
		child(b, prec(n), n.Op == "+" || n.Op == "*", n.R, false)
		b.WriteString(n.Op[1:])
	case KRoll:
		child(b, 4, false, n.L, walk)
		b.WriteString(n.Op)
		child(b, 4, false, n.R, false)
	case KRand:
		b.WriteString("[")
		child(b, 5, false, n.L, true)
		b.WriteString("...")
		child(b, 5, false, n.R, false)
		b.WriteString("]")
	case KSum:
		sum := 0
		for _, d := range n.Dice {
			sum += d.Value
		}
		b.WriteString(strconv.Itoa(sum))
		b.WriteString("[")
		for i, d := range n.Dice {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(strconv.Itoa(d.Value))
		}
		b.WriteString("]")
	}
}

func child(b *strings.Builder, pp int, assoc bool, c *Node, walk bool) {
	if c.K == KNeg {
		b.WriteString("(")
		infix(b, c, walk)
		b.WriteString(")")
		return
	}
	if c.K == KBin || c.K == KRoll || c.K == KRand {
		if p := prec(c); p < pp || p == pp && !assoc {
			b.WriteString("(")
			infix(b, c, true)
			b.WriteString(")")
			return
		}
	}
	infix(b, c, walk)
}

func (c *Cmd) listNotation() string {
	var s []string
	for _, r := range c.Rolls {
		s = append(s, Infix(r, true))
	}
	out := strings.Join(s, "+")
	if c.Th != nil {
		out += "[" + Infix(c.Th, true) + "]"
	}
	return out
}

func (c *Cmd) uexprNotation() string {
	s := c.listNotation()
	if len(c.Bonus) == 0 {
		return s
	}
	op, n := BonusTree(c.Bonus)
	var b strings.Builder
	b.WriteString(s + op)
	child(&b, 2, op == "+", n, false)
	return b.String()
}

// Notation is the infix notation of the command.
func (c *Cmd) Notation() string {
	var left string
	switch c.T {
	case Calc:
		return "C(" + Infix(c.E, true) + ")"
	case Choice:
		return "CHOICE[" + strings.Join(c.Items, ",") + "]"
	case DExpr, DComp:
		left = Infix(c.E, true)
	case BList, BComp, RList, RComp:
		left = c.listNotation()
	case UExpr, UComp:
		left = c.uexprNotation()
	}
	if !c.IsComp() {
		return left
	}
	return left + c.Op + Infix(c.Target, true)
}

// Exprs lists the expressions of the command.
func (c *Cmd) Exprs() []*Node {
	var out []*Node
	add := func(n *Node) {
		if n != nil {
			out = append(out, n)
		}
	}
	add(c.E)
	for _, r := range c.Rolls {
		add(r)
	}
	add(c.Th)
	for _, t := range c.Bonus {
		add(t.N)
	}
	add(c.Target)
	return out
}

// Count counts nodes of the kind in the whole command.
func (c *Cmd) Count(k Kind) int {
	n := 0
	for _, e := range c.Exprs() {
		n += e.Count(k)
	}
	return n
}
