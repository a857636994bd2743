// Package gen generates commands by derivation from the command grammar: the
// text together with the syntax tree it must have.
package gen

import (
	"math/big"
	"strconv"
	"strings"
	"unicode"

	"pgregory.net/rapid"

	"verif/fw"
	"verif/model"
	"verif/sut"
)

// E is an expression: its text and its tree.
type E struct {
	S string
	N *model.Node
}

// G is a generator with its knobs.
type G struct {
	T *rapid.T
	// Big allows large literals.
	Big bool
	// RandArgs is the percentage of roll arguments with random numbers.
	RandArgs int
	// Wild is the percentage of roll arguments that may have any value.
	Wild int
	// Dice left for the command.
	Dice int
	// Redundant is the percentage of redundant parentheses and plus signs.
	Redundant int
	// Long allows long chains.
	Long bool
	// Upper: only upper-case letters.
	Upper bool
	// NoDiv avoids divisions, Plain avoids expressions in arguments
	NoDiv, Plain bool
	// MaxSides
	MaxSides int
	// Repeat is the percentage of parts that repeat an earlier part.
	Repeat int
	// Deep is how many deep or long structures an expression may still get.
	Deep  int
	rolls map[string][]E
	rands []E
	exprs map[int][]E
}

// New makes a generator with the usual knobs.
func New(t *rapid.T) *G {
	return &G{T: t, Big: fw.Coin(t, 10), RandArgs: fw.OneOf(t, 0, 15, 40), Wild: fw.OneOf(t, 0, 0, 3, 10),
		Dice: 60, Redundant: fw.OneOf(t, 0, 10, 30), Upper: fw.Coin(t, 50), Repeat: fw.OneOf(t, 0, 0, 15, 40),
		Deep: fw.Weighted(t, 48, 2)}
}

// Letters writes command letters in random case.
func (g *G) Letters(s string) string {
	if g.Upper {
		return s
	}
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' && fw.Coin(g.T, 50) {
			b[i] += 'a' - 'A'
		}
	}
	return string(b)
}

var bigLits = []string{"9223372036854775807", "9223372036854775806", "4611686018427387904", "4611686018427387903",
	"3037000499", "3037000500", "9007199254740993", "9007199254740992", "4503599627370497", "2147483648", "2147483647", "4294967296",
	"1000000007", "6148914691236517205", "18014398509481985", "999999999999999999", "92233720368547758"}

// Lit makes an integer literal.
func (g *G) Lit() E {
	t := g.T
	var v int64
	if g.Big && fw.Coin(t, 40) {
		s := fw.OneOf(t, bigLits...)
		if fw.Coin(t, 40) {
			v = rapid.Int64Range(0, 1<<63-1).Draw(t, "big")
			s = strconv.FormatInt(v, 10)
		}
		n, _ := new(big.Int).SetString(s, 10)
		return E{g.zeros() + s, model.Int(n)}
	}
	switch fw.Weighted(t, 10, 5, 2, 1) {
	case 0:
		v = int64(fw.IntIn(t, 0, 12))
	case 1:
		v = int64(fw.IntIn(t, 0, 100))
	case 2:
		v = int64(fw.IntIn(t, 0, 3000))
	case 3:
		v = int64(fw.IntIn(t, 0, 2000000))
	}
	return E{g.zeros() + strconv.FormatInt(v, 10), model.IntOf(v)}
}

func (g *G) zeros() string {
	if fw.Coin(g.T, 3) {
		return strings.Repeat("0", fw.IntIn(g.T, 1, 3))
	}
	return ""
}

// IntLit makes a literal of the value.
func (g *G) IntLit(v int) E {
	return E{g.zeros() + strconv.Itoa(v), model.IntOf(int64(v))}
}

// contexts
const (
	CInt = iota
	CRand
	CD
)

// Expr makes an additive expression; size bounds the number of operands.
func (g *G) Expr(ctx, size int) E {
	if size <= 1 {
		return g.Multi(ctx, 1)
	}
	n := fw.IntIn(g.T, 1, min(size, 4))
	if g.Long && fw.Coin(g.T, 15) {
		n = fw.IntIn(g.T, 1, size)
	}
	e := g.Multi(ctx, max(1, size/n))
	for i := 1; i < n; i++ {
		op := fw.OneOf(g.T, "+", "-")
		r := g.Multi(ctx, max(1, size/n))
		e = E{e.S + op + r.S, model.Bin(op, e.N, r.N)}
	}
	return e
}

// Multi makes a multiplicative expression.
func (g *G) Multi(ctx, size int) E {
	if ctx == CInt {
		if e, ok := g.again(g.exprs[ctx]); ok {
			return e
		}
	}
	e := g.multi(ctx, size)
	if ctx == CInt {
		if g.exprs == nil {
			g.exprs = map[int][]E{}
		}
		g.exprs[ctx] = append(g.exprs[ctx], e)
	}
	return e
}

func (g *G) multi(ctx, size int) E {
	n := 1
	if size > 1 {
		n = fw.IntIn(g.T, 1, min(size, 3))
	}
	e := g.Primary(ctx, max(1, size/n))
	for i := 1; i < n; i++ {
		op := "*"
		if !g.NoDiv {
			op = fw.OneOf(g.T, "*", "/", "/U", "/R")
		}
		r := g.Primary(ctx, max(1, size/n))
		s := e.S + op[:1] + r.S
		if len(op) > 1 {
			s += g.Letters(op[1:])
		}
		e = E{s, model.Bin(op, e.N, r.N)}
	}
	return e
}

// deep makes an operand with a deep or long structure.
func (g *G) deep(ctx int) E {
	t := g.T
	n := fw.OneOf(t, 20, 33, 50, 65, 100)
	e := g.Primary(ctx, 1)
	small := func() E { return g.IntLit(fw.IntIn(t, 0, 9)) }
	switch fw.Pick(t, 5) {
	case 0: // parentheses only
		return E{strings.Repeat("(", n) + e.S + strings.Repeat(")", n), e.N}
	case 1: // signs
		for i := 0; i < n; i++ {
			if fw.Coin(t, 50) {
				e.S = "+" + e.S
			} else {
				e = E{"-" + e.S, model.Neg(e.N)}
			}
		}
		return e
	case 2: // a chain
		for i := 0; i < n; i++ {
			r, op := small(), fw.OneOf(t, "+", "-")
			e = E{e.S + op + r.S, model.Bin(op, e.N, r.N)}
		}
	case 3: // nested to the left
		for i := 0; i < n/2; i++ {
			r, op := small(), fw.OneOf(t, "+", "-")
			e = E{"(" + e.S + ")" + op + r.S, model.Bin(op, e.N, r.N)}
		}
	case 4: // nested to the right
		for i := 0; i < n/2; i++ {
			r, op := small(), fw.OneOf(t, "+", "-")
			e = E{r.S + op + "(" + e.S + ")", model.Bin(op, r.N, e.N)}
		}
	}
	return E{"(" + e.S + ")", e.N}
}

// Primary makes an operand.
func (g *G) Primary(ctx, size int) E {
	t := g.T
	if g.Deep > 0 && fw.Coin(t, 40) {
		g.Deep--
		return g.deep(ctx)
	}
	if g.Redundant > 0 && fw.Coin(t, g.Redundant/2) {
		e := g.Primary(ctx, size)
		return E{"+" + e.S, e.N}
	}
	if g.Redundant > 0 && fw.Coin(t, g.Redundant) {
		e := g.Primary(ctx, size)
		return E{"(" + e.S + ")", e.N}
	}
	if fw.Coin(t, 12) {
		e := g.Primary(ctx, size)
		return E{"-" + e.S, model.Neg(e.N)}
	}
	if size > 1 {
		e := g.Expr(ctx, size)
		return E{"(" + e.S + ")", e.N}
	}
	switch ctx {
	case CD:
		if g.Dice > 0 && fw.Coin(t, 55) {
			return g.Roll("D")
		}
	case CRand:
		if fw.Coin(t, 30) {
			return g.Rand()
		}
	}
	return g.Lit()
}

// again draws one of the earlier parts, mostly the last one.
func (g *G) again(es []E) (E, bool) {
	if g.Repeat == 0 || len(es) == 0 || !fw.Coin(g.T, g.Repeat) {
		return E{}, false
	}
	if fw.Coin(g.T, 60) {
		return es[len(es)-1], true
	}
	return es[fw.Pick(g.T, len(es))], true
}

// Rand makes a random number.
func (g *G) Rand() E {
	if e, ok := g.again(g.rands); ok {
		return e
	}
	e := g.rand()
	g.rands = append(g.rands, e)
	return e
}

func (g *G) rand() E {
	t := g.T
	lo := fw.OneOf(t, 1, 1, 2, 3, 5)
	hi := lo + fw.OneOf(t, 1, 2, 3, 5, 9, 20)
	if g.Wild > 0 && fw.Coin(t, g.Wild) {
		lo = fw.IntIn(t, 0, 6)
		hi = fw.IntIn(t, 0, 6)
	}
	a, b := g.bound(lo), g.bound(hi)
	return E{"[" + a.S + "..." + b.S + "]", model.Rand(a.N, b.N)}
}

// bound makes an integer operand of a random number with the value v.
func (g *G) bound(v int) E {
	t := g.T
	if fw.Coin(t, 75) || g.Plain {
		return g.IntLit(v)
	}
	k := fw.IntIn(t, 0, 9)
	switch fw.Pick(t, 4) {
	case 0:
		a, b := g.IntLit(v+k), g.IntLit(k)
		return E{"(" + a.S + "-" + b.S + ")", model.Bin("-", a.N, b.N)}
	case 1:
		a, b := g.IntLit(k), g.IntLit(v+k)
		return E{"(-" + a.S + "+" + b.S + ")", model.Bin("+", model.Neg(a.N), b.N)}
	case 2:
		e := g.IntLit(v)
		return E{"(" + e.S + ")", e.N}
	}
	if g.Wild > 0 && fw.Coin(t, 30) {
		e := g.Expr(CInt, fw.IntIn(t, 1, 4))
		return E{"(" + e.S + ")", e.N}
	}
	a, b := g.IntLit(v), g.IntLit(1)
	return E{"(" + a.S + "*" + b.S + ")", model.Bin("*", a.N, b.N)}
}

// Operand makes a roll argument whose value is v (exactly, unless random or wild).
func (g *G) Operand(v int) E {
	t := g.T
	if g.Plain {
		return g.IntLit(v)
	}
	if g.RandArgs > 0 && fw.Coin(t, g.RandArgs) {
		if fw.Coin(t, 60) {
			return g.Rand()
		}
		// a parenthesised expression with random numbers
		n := fw.IntIn(t, 1, 3)
		e := g.Rand()
		for i := 0; i < n; i++ {
			var o E
			if fw.Coin(t, 40) {
				o = g.Rand()
			} else {
				o = g.IntLit(fw.IntIn(t, 1, 4))
			}
			op := fw.OneOf(t, "+", "+", "*")
			if fw.Coin(t, 50) {
				if op == "*" && e.N.K == model.KBin && e.N.Op == "+" {
					op = "+"
				}
				e = E{e.S + op + o.S, model.Bin(op, e.N, o.N)}
			} else {
				if op == "*" && e.N.K == model.KBin && e.N.Op == "+" || e.N.K == model.KBin {
					e = E{"(" + e.S + ")", e.N}
				}
				e = E{o.S + op + e.S, model.Bin(op, o.N, e.N)}
			}
		}
		return E{"(" + e.S + ")", e.N}
	}
	if g.Wild > 0 && fw.Coin(t, g.Wild) {
		e := g.Expr(CRand, fw.IntIn(t, 1, 4))
		return E{"(" + e.S + ")", e.N}
	}
	if fw.Coin(t, 85) {
		return g.IntLit(v)
	}
	// an integer expression, corrected so that its value is v
	e := g.Expr(CInt, fw.IntIn(t, 1, 4))
	ev := IntValue(e.N)
	if ev == nil {
		return g.IntLit(v)
	}
	d := new(big.Int).Sub(big.NewInt(int64(v)), ev)
	if !d.IsInt64() || d.CmpAbs(big.NewInt(1<<40)) > 0 {
		return g.IntLit(v)
	}
	x := d.Int64()
	if x >= 0 {
		return E{"(" + e.S + "+" + strconv.FormatInt(x, 10) + ")", model.Bin("+", e.N, model.IntOf(x))}
	}
	return E{"(" + e.S + "-" + strconv.FormatInt(-x, 10) + ")", model.Bin("-", e.N, model.IntOf(-x))}
}

// IntValue is the value of an integer expression, nil if it has none.
func IntValue(n *model.Node) *big.Int {
	o := model.Exec(&model.Cmd{T: model.Calc, E: n}, nil, 0)
	if o.Err {
		return nil
	}
	return o.Value
}

// Sides draws a number of sides.
func (g *G) Sides() int {
	t := g.T
	s := fw.OneOf(t, 6, 6, 10, 100, 20, 4, 2, 1, 3, 8, 12, 0)
	if s == 0 {
		s = fw.IntIn(t, 1, 1000)
	}
	if g.Big && fw.Coin(t, 20) {
		s = fw.OneOf(t, 1000000, 1<<31, 1<<40, 1<<53+1)
	}
	if g.MaxSides > 0 && s > g.MaxSides {
		s = fw.IntIn(t, 1, g.MaxSides)
	}
	return s
}

// Roll makes a roll.
func (g *G) Roll(op string) E {
	if g.Dice > 0 {
		if e, ok := g.again(g.rolls[op]); ok {
			n := 3
			if e.N.L.K == model.KInt && e.N.L.V.IsInt64() && e.N.L.V.Int64() > 3 {
				n = int(min(e.N.L.V.Int64(), 1000))
			}
			g.Dice -= n
			return e
		}
	}
	e := g.roll(op)
	if g.rolls == nil {
		g.rolls = map[string][]E{}
	}
	g.rolls[op] = append(g.rolls[op], e)
	return e
}

func (g *G) roll(op string) E {
	t := g.T
	n := fw.OneOf(t, 1, 2, 3, 1, 2, 5, 0)
	if n == 0 {
		n = fw.IntIn(t, 1, 20)
	}
	if n > g.Dice {
		n = max(1, g.Dice)
	}
	g.Dice -= n
	a := g.Operand(n)
	b := g.Operand(g.Sides())
	return E{a.S + g.Letters(op) + b.S, model.Roll(op, a.N, b.N)}
}

// Ops are the comparison operators.
var Ops = []string{"=", "<>", "<", "<=", ">", ">="}

// ExprOf makes an integer expression with the value v, sometimes a plain literal.
func (g *G) ExprOf(v int) E {
	t := g.T
	lit := func(v int) E {
		if v >= 0 {
			return g.IntLit(v)
		}
		e := g.IntLit(-v)
		return E{"-" + e.S, model.Neg(e.N)}
	}
	if fw.Coin(t, 60) || g.Plain {
		return lit(v)
	}
	e := g.Expr(CInt, fw.IntIn(t, 1, 4))
	ev := IntValue(e.N)
	if ev == nil || ev.CmpAbs(big.NewInt(1<<40)) > 0 {
		return lit(v)
	}
	d := v - int(ev.Int64())
	if d >= 0 {
		return E{e.S + "+" + strconv.Itoa(d), model.Bin("+", e.N, model.IntOf(int64(d)))}
	}
	return E{e.S + "-" + strconv.Itoa(-d), model.Bin("-", e.N, model.IntOf(int64(-d)))}
}

// C is a command with its text.
type C struct {
	S   string
	Cmd *model.Cmd
}

// Calc makes a calculation command.
func (g *G) Calc(size int) C {
	e := g.Expr(CInt, size)
	return C{g.Letters("C") + "(" + e.S + ")", &model.Cmd{T: model.Calc, E: e.N}}
}

// HasRoll tells whether the expression has a roll.
func hasRoll(n *model.Node) bool { return n.Count(model.KRoll) > 0 }

// DExpr makes a sum-roll command.
func (g *G) DExpr(size int) C {
	e := g.Expr(CD, size)
	if !hasRoll(e.N) {
		r := g.Roll("D")
		op := fw.OneOf(g.T, "+", "-")
		if fw.Coin(g.T, 50) {
			e = E{e.S + op + r.S, model.Bin(op, e.N, r.N)}
		} else if fw.Coin(g.T, 50) {
			e = E{r.S + op + "(" + e.S + ")", model.Bin(op, r.N, e.N)}
		} else {
			e = r
		}
	}
	return C{e.S, &model.Cmd{T: model.DExpr, E: e.N}}
}

// Comp adds a comparison with the target v.
func (g *G) Comp(c C, v int) C {
	op := fw.OneOf(g.T, Ops...)
	x := g.ExprOf(v)
	k := *c.Cmd
	k.Op, k.Target = op, x.N
	switch c.Cmd.T {
	case model.DExpr:
		k.T = model.DComp
	case model.BList:
		k.T = model.BComp
	case model.RList:
		k.T = model.RComp
	case model.UExpr:
		k.T = model.UComp
	}
	return C{c.S + op + x.S, &k}
}

// List makes the list of rolls of a B, R or U command.
func (g *G) List(op string) ([]*model.Node, string) {
	n := fw.OneOf(g.T, 1, 1, 2, 3, 5)
	if g.Long && fw.Coin(g.T, 5) {
		n = fw.IntIn(g.T, 1, 60)
	}
	var ns []*model.Node
	var ss []string
	for i := 0; i < n; i++ {
		r := g.Roll(op)
		ns = append(ns, r.N)
		ss = append(ss, r.S)
	}
	return ns, strings.Join(ss, "+")
}

// BList makes a basic-roll command.
func (g *G) BList() C {
	ns, s := g.List("B")
	return C{s, &model.Cmd{T: model.BList, Rolls: ns}}
}

// anySides gives the largest number of sides of literal rolls, else 6.
func anySides(ns []*model.Node) int {
	m := 1
	for _, n := range ns {
		if n.R.K == model.KInt && n.R.V.IsInt64() && int(n.R.V.Int64()) > m && n.R.V.Int64() < 1<<40 {
			m = int(n.R.V.Int64())
		}
	}
	if m == 1 {
		m = 6
	}
	return m
}

func (g *G) threshold(ns []*model.Node) (E, bool) {
	t := g.T
	m := anySides(ns)
	switch fw.Weighted(t, 12, 2, 2) {
	case 0:
		v := fw.OneOf(t, m, m-1, m-2, (m+1)/2, m/2, 2, 3, m+1, 5)
		if v < 2 {
			v = 2
		}
		return g.ExprOf(v), true
	case 1:
		return g.ExprOf(fw.OneOf(t, 2, 1, 0, -1, 2, 3)), true
	}
	return E{}, false
}

// RList makes an exploding-roll command.
func (g *G) RList() C {
	ns, s := g.List("R")
	c := &model.Cmd{T: model.RList, Rolls: ns}
	if th, ok := g.threshold(ns); ok {
		c.Th = th.N
		s += "[" + th.S + "]"
	}
	return C{s, c}
}

// UExpr makes a compounding-roll command.
func (g *G) UExpr() C {
	t := g.T
	ns, s := g.List("U")
	c := &model.Cmd{T: model.UExpr, Rolls: ns}
	if th, ok := g.threshold(ns); ok {
		c.Th = th.N
		s += "[" + th.S + "]"
	}
	if fw.Coin(t, 60) {
		n := fw.OneOf(t, 1, 1, 2, 3)
		for i := 0; i < n; i++ {
			sign := fw.OneOf(t, "+", "-")
			e := g.Multi(CInt, fw.OneOf(t, 1, 1, 2, 4))
			s += sign + e.S
			c.Bonus = append(c.Bonus, model.Term{Sign: sign, N: e.N})
		}
	}
	return C{s, c}
}

// Target draws a comparison target for a command: near plausible values.
func (g *G) Target(c C) int {
	t := g.T
	m := 6
	if len(c.Cmd.Rolls) > 0 {
		m = anySides(c.Cmd.Rolls)
	} else {
		return fw.OneOf(t, fw.IntIn(t, 0, 20), fw.IntIn(t, -20, 40), fw.IntIn(t, 0, 200), 0, -1)
	}
	switch fw.Weighted(t, 6, 2, 2, 1) {
	case 0:
		return fw.IntIn(t, 1, min(m, 4000))
	case 1:
		return fw.OneOf(t, m, m+1, m-1, (m+1)/2)
	case 2:
		return fw.OneOf(t, 0, 1, 2, -1)
	}
	return fw.IntIn(t, -10, 2*min(m, 4000))
}

// item characters
var itemPool = []string{"a", "b", "Z", "0", "7", "+", "-", "(", ")", "[", ".", "り", "ん", "ご", "漢", "é", "🎲", "\"", "\\", "'", "/", "#", "<", ">", "=", "&", "%", "$", "|", "~", "`", ";", ":", "?", "!", "*", "{", "}", "^", "_", "@", "\u0301", "ß", "Ω", "א"}
var itemWords = []string{"apple", "りんご", "みかん", "2D6", "C(1)", "CHOICE[a", "S", "yes", "no", "1", "2", "3", "＞", "'quoted'", "成功", "DiceBot : x", "%d", "%s", "\\n", "...", "[1...6"}

// Item makes a choice item without surrounding white space.
func (g *G) Item() string {
	t := g.T
	if fw.Coin(t, 30) {
		return fw.OneOf(t, itemWords...)
	}
	n := fw.OneOf(t, 1, 2, 3, 5)
	if fw.Coin(t, 3) {
		n = fw.IntIn(t, 1, 80)
	}
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 && i < n-1 && fw.Coin(t, 8) {
			s += fw.OneOf(t, " ", "  ", "\t", "\u3000", "\n")
		} else if fw.Coin(t, 4) {
			if r := rapid.Rune().Draw(t, "r"); r != ',' && r != ']' {
				s += strings.TrimSpace(string(r))
			}
		} else {
			s += fw.OneOf(t, itemPool...)
		}
	}
	s = strings.TrimSpace(s)
	if s == "" || strings.ContainsAny(s, ",]") || strings.ContainsRune(s, '\uFFFD') || leadZ(s) {
		return "x"
	}
	return s
}

// Choice makes a choice command; Items of the tree are the items as written.
func (g *G) Choice() C {
	t := g.T
	n := fw.OneOf(t, 1, 2, 3, 4, 5, 8)
	if fw.Coin(t, 4) {
		n = fw.IntIn(t, 1, 150)
	}
	var items []string
	s := g.Letters("CHOICE") + "["
	for i := 0; i < n; i++ {
		it := g.Item()
		if fw.Coin(t, 5) && i > 0 {
			it = items[fw.Pick(t, len(items))]
		}
		items = append(items, it)
		if i > 0 {
			s += ","
		}
		// Spaces around an item are not part of it.
		s += g.spaces() + it
		if fw.Coin(t, 8) {
			s += fw.OneOf(t, " ", "\t", "\n", "\r", "\u3000", "\u00a0", "  ")
		}
	}
	if fw.Coin(t, 20) {
		s += ","
		s += g.spaces()
	}
	s += "]"
	return C{s, &model.Cmd{T: model.Choice, Items: items}}
}

func (g *G) spaces() string {
	t := g.T
	if !fw.Coin(t, 20) {
		return ""
	}
	return fw.OneOf(t, " ", "  ", "\u3000", "\u00a0", " \u2003")
}

// Any makes any command.
func (g *G) Any() C {
	t := g.T
	switch fw.Weighted(t, 2, 2, 4, 3, 3, 3, 3) {
	case 0:
		return g.Calc(fw.IntIn(t, 1, 10))
	case 1:
		return g.Choice()
	}
	return g.AnyRoll()
}

// AnyRoll makes any roll command (D, B, R or U, with or without a comparison).
func (g *G) AnyRoll() C {
	t := g.T
	var c C
	switch fw.Pick(t, 4) {
	case 0:
		c = g.DExpr(fw.IntIn(t, 1, 6))
	case 1:
		c = g.BList()
	case 2:
		c = g.RList()
	default:
		c = g.UExpr()
	}
	if fw.Coin(t, 40) {
		c = g.Comp(c, g.Target(c))
	}
	return c
}

// Script makes a die script.
func Script(t *rapid.T) *sut.Script {
	s := &sut.Script{Seed: uint64(fw.Bits(t, 24)), Mode: fw.Weighted(t, 6, 2, 1, 1)}
	if fw.Coin(t, 20) {
		n := fw.IntIn(t, 1, 6)
		for i := 0; i < n; i++ {
			s.Vals = append(s.Vals, fw.IntIn(t, 1, 20))
		}
	}
	if fw.Coin(t, 3) {
		s.Off = fw.OneOf(t, 1, 1, 2, 3)
	}
	return s
}

// Fair makes a script whose dice show their faces, as those in test data and
// in the queue of the REPL do.
func Fair(t *rapid.T) *sut.Script {
	s := Script(t)
	s.Off = 0
	return s
}

// leadZ tells whether the text starts with a character of category Z.
func leadZ(s string) bool {
	for _, r := range s {
		return unicode.Is(unicode.Z, r)
	}
	return false
}
