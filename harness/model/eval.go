package model

import (
	"errors"
	"math/big"
	"strconv"
	"strings"
)

// Limits of the implementation that are part of its documented behaviour.
const (
	MaxDice    = 100000
	MaxRerolls = 10000
)

// Source supplies dice.
type Source interface {
	Next(sides int) (Die, error)
}

// Outcome is what executing a command gives.
type Outcome struct {
	Err      bool
	Why      string
	Overflow bool // an intermediate result does not fit in 64 bits: out of the domain
	Parts    []string
	Dice     []Die
	Success  int // 0 unspecified, 1 success, 2 failure
	Value    *big.Int
	// facts for the distribution report
	Groups, Successes int
	Limited           bool
	LastCompare       *big.Int
	Target            *big.Int
}

// Message is the answer of the command.
func (o *Outcome) Message(game string) string {
	return game + " : " + strings.Join(o.Parts, " ＞ ")
}

type evaluator struct {
	src        Source
	dice       []Die
	maxRerolls int

	leastModifier bool
}

// LeastModifier: a modifier may be the least integer, though its magnitude does
// not fit in 64 bits.
var LeastModifier bool

var errOverflow = errors.New("overflow")

func fits(v *big.Int) (*big.Int, error) {
	if !v.IsInt64() {
		return nil, errOverflow
	}
	return v, nil
}

// Divide divides with a rounding mark: "" truncates, "U" rounds up, "R" rounds half away from zero.
func Divide(a, b *big.Int, mark string) (*big.Int, error) {
	if b.Sign() == 0 {
		return nil, errors.New("division by zero")
	}
	q := new(big.Int)
	switch mark {
	case "":
		q.Quo(a, b)
	case "U": // ceil(a/b) = -floor(-a/b)
		n, d := new(big.Int).Neg(a), new(big.Int).Set(b)
		if d.Sign() < 0 {
			n.Neg(n)
			d.Neg(d)
		}
		q.Div(n, d) // Euclidean with positive divisor is floor
		q.Neg(q)
	case "R": // sign * floor((2|a|+|b|) / (2|b|))
		n := new(big.Int).Abs(a)
		d := new(big.Int).Abs(b)
		n.Lsh(n, 1).Add(n, d)
		q.Quo(n, new(big.Int).Lsh(d, 1))
		if a.Sign()*b.Sign() < 0 {
			q.Neg(q)
		}
	}
	return fits(q)
}

// Arith applies a binary operator.
func Arith(op string, l, r *big.Int) (*big.Int, error) {
	switch op {
	case "+":
		return fits(new(big.Int).Add(l, r))
	case "-":
		return fits(new(big.Int).Sub(l, r))
	case "*":
		return fits(new(big.Int).Mul(l, r))
	}
	return Divide(l, r, op[1:])
}

// Compare applies a comparison operator.
func Compare(op string, l, r *big.Int) bool {
	c := l.Cmp(r)
	switch op {
	case "=":
		return c == 0
	case "<>":
		return c != 0
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	}
	return c >= 0
}

func (e *evaluator) roll(num, sides *big.Int) ([]Die, error) {
	if num.Sign() <= 0 || sides.Sign() <= 0 {
		return nil, errors.New("too few dice or sides")
	}
	if num.Cmp(big.NewInt(int64(MaxDice-len(e.dice)))) > 0 {
		return nil, errors.New("too many dice")
	}
	n, s := int(num.Int64()), int(sides.Int64())
	out := make([]Die, 0, n)
	for i := 0; i < n; i++ {
		d, err := e.src.Next(s)
		if err != nil {
			return nil, err
		}
		if d.Sides != s {
			return nil, errors.New("wrong sides")
		}
		out = append(out, d)
	}
	e.dice = append(e.dice, out...)
	return out, nil
}

// value evaluates an expression of integers, random numbers and rolled sums.
func (e *evaluator) value(n *Node) (*big.Int, error) {
	switch n.K {
	case KInt:
		return fits(n.V)
	case KNeg:
		v, err := e.value(n.R)
		if err != nil {
			return nil, err
		}
		return fits(new(big.Int).Neg(v))
	case KBin, KRand:
		l, err := e.value(n.L)
		if err != nil {
			return nil, err
		}
		r, err := e.value(n.R)
		if err != nil {
			return nil, err
		}
		if n.K == KBin {
			return Arith(n.Op, l, r)
		}
		if l.Cmp(r) >= 0 {
			return nil, errors.New("empty range")
		}
		sides := new(big.Int).Sub(r, l)
		sides.Add(sides, big.NewInt(1))
		if !sides.IsInt64() {
			return nil, errors.New("range too wide")
		}
		d, err := e.roll(big.NewInt(1), sides)
		if err != nil {
			return nil, err
		}
		v := new(big.Int).Add(l, big.NewInt(int64(d[0].Value)))
		return fits(v.Sub(v, big.NewInt(1)))
	case KSum:
		sum := new(big.Int)
		for _, d := range n.Dice {
			sum.Add(sum, big.NewInt(int64(d.Value)))
		}
		return fits(sum)
	}
	return nil, errors.New("not a value")
}

// args evaluates the arguments of every roll, left to right, in place.
func (e *evaluator) args(n *Node) error {
	switch n.K {
	case KNeg:
		return e.args(n.R)
	case KBin:
		if err := e.args(n.L); err != nil {
			return err
		}
		return e.args(n.R)
	case KRoll:
		l, err := e.value(n.L)
		if err != nil {
			return err
		}
		r, err := e.value(n.R)
		if err != nil {
			return err
		}
		n.L, n.R = Int(l), Int(r)
	case KRand:
		return errors.New("a random number outside a roll is not implemented")
	}
	return nil
}

// determine rolls the sum rolls, left to right, in place.
func (e *evaluator) determine(n *Node) error {
	switch n.K {
	case KNeg:
		return e.determine(n.R)
	case KBin:
		if err := e.determine(n.L); err != nil {
			return err
		}
		return e.determine(n.R)
	case KRoll:
		d, err := e.roll(n.L.V, n.R.V)
		if err != nil {
			return err
		}
		*n = Node{K: KSum, Dice: d}
	}
	return nil
}

func joinDice(ds []Die, sep string) string {
	var b strings.Builder
	for i, d := range ds {
		if i > 0 {
			b.WriteString(sep)
		}
		b.WriteString(strconv.Itoa(d.Value))
	}
	return b.String()
}

func successMark(k int) string { return "成功数" + strconv.Itoa(k) }

// Messages about a missing or invalid threshold.
const (
	MsgNoThresholdR = "2R6>=5 あるいは 2R6[5] のように振り足し目標値を指定してください"
	MsgNoThresholdU = "2U6[5] のように振り足し目標値を指定してください"
	MsgLowThreshold = "振り足し目標値として2以上の整数を指定してください"
)

// Exec executes a command with dice from src.
func Exec(cmd *Cmd, src Source, maxRerolls int) *Outcome {
	e := &evaluator{src: src, maxRerolls: maxRerolls, leastModifier: LeastModifier}
	o := &Outcome{}
	err := e.exec(cmd, o)
	o.Dice = e.dice
	if err == errOverflow {
		o.Overflow, o.Err, o.Why = true, true, "overflow"
	} else if err != nil {
		o.Err, o.Why = true, err.Error()
	}
	return o
}

func (e *evaluator) exec(orig *Cmd, o *Outcome) error {
	c := *orig
	c.E = orig.E.Clone()
	c.Rolls = nil
	for _, r := range orig.Rolls {
		c.Rolls = append(c.Rolls, r.Clone())
	}
	part := func(s string) { o.Parts = append(o.Parts, s) }
	paren := func() { part("(" + c.Notation() + ")") }

	switch c.T {
	case Calc:
		v, err := e.value(c.E)
		if err != nil {
			return err
		}
		o.Value = v
		part(c.Notation())
		part("計算結果")
		part(v.String())
		return nil
	case Choice:
		d, err := e.roll(big.NewInt(1), big.NewInt(int64(len(c.Items))))
		if err != nil {
			return err
		}
		if d[0].Value < 1 || d[0].Value > len(c.Items) {
			return errors.New("no such item")
		}
		part("(" + c.Notation() + ")")
		part(c.Items[d[0].Value-1])
		return nil
	case DExpr, DComp:
		if err := e.args(c.E); err != nil {
			return err
		}
		if c.T == DComp {
			t, err := e.value(c.Target)
			if err != nil {
				return err
			}
			c.Target = Int(t)
			o.Target = t
		}
		paren()
		if err := e.determine(c.E); err != nil {
			return err
		}
		part(Infix(c.E, true))
		v, err := e.value(c.E)
		if err != nil {
			return err
		}
		o.Value = v
		part(v.String())
		if c.T == DComp {
			o.LastCompare = v
			if Compare(c.Op, v, c.Target.V) {
				part("成功")
				o.Success = 1
			} else {
				part("失敗")
				o.Success = 2
			}
		}
		return nil
	}

	// roll lists
	if c.Th != nil {
		v, err := e.value(c.Th)
		if err != nil {
			return err
		}
		c.Th = Int(v)
	}
	for _, r := range c.Rolls {
		if err := e.args(r); err != nil {
			return err
		}
	}
	modifier := new(big.Int)
	if len(c.Bonus) > 0 {
		op, n := BonusTree(c.Bonus)
		v, err := e.value(Bin(op, IntOf(0), n))
		if err != nil {
			return err
		}
		modifier = v
		c.Bonus = nil
		if v.Sign() > 0 {
			c.Bonus = []Term{{"+", Int(v)}}
		} else if v.Sign() < 0 {
			m, err := fits(new(big.Int).Neg(v))
			if err != nil && !e.leastModifier {
				return err
			}
			m = new(big.Int).Neg(v)
			c.Bonus = []Term{{"-", Int(m)}}
		}
	}
	if c.IsComp() {
		t, err := e.value(c.Target)
		if err != nil {
			return err
		}
		c.Target = Int(t)
		o.Target = t
	}

	switch c.T {
	case BList, BComp:
		paren()
		var all []Die
		for _, r := range c.Rolls {
			d, err := e.roll(r.L.V, r.R.V)
			if err != nil {
				return err
			}
			all = append(all, d...)
		}
		part(joinDice(all, ","))
		if c.T == BComp {
			part(successMark(e.count(&c, o, all)))
		}
		o.Groups = len(c.Rolls)
		return nil

	case RList, RComp:
		if c.T == RComp && c.Th == nil {
			c.Th = c.Target
		}
		paren()
		if c.Th == nil {
			part(MsgNoThresholdR)
			return nil
		}
		if c.Th.V.Cmp(big.NewInt(2)) < 0 {
			part(MsgLowThreshold)
			return nil
		}
		type item struct{ num, sides *big.Int }
		var queue []item
		for _, r := range c.Rolls {
			queue = append(queue, item{r.L.V, r.R.V})
		}
		var groups []string
		var all []Die
		th := c.Th.V
		thInt := int64(-1)
		if th.IsInt64() {
			thInt = th.Int64()
		}
		for len(queue) > 0 {
			if len(groups) >= e.maxRerolls {
				o.Limited = true
				break
			}
			it := queue[0]
			queue = queue[1:]
			d, err := e.roll(it.num, it.sides)
			if err != nil {
				return err
			}
			groups = append(groups, joinDice(d, ","))
			all = append(all, d...)
			m := 0
			for _, x := range d {
				if int64(x.Value) >= thInt {
					m++
				}
			}
			if m > 0 {
				queue = append(queue, item{big.NewInt(int64(m)), it.sides})
			}
		}
		o.Groups = len(groups) - len(c.Rolls)
		part(strings.Join(groups, " + "))
		if c.T == RComp {
			part(successMark(e.count(&c, o, all)))
		}
		return nil

	case UExpr, UComp:
		paren()
		if c.Th == nil {
			part(MsgNoThresholdU)
			return nil
		}
		if c.Th.V.Cmp(big.NewInt(2)) < 0 {
			part(MsgLowThreshold)
			return nil
		}
		th := c.Th.V.Int64()
		var shown []string
		var sums []*big.Int
		for _, r := range c.Rolls {
			num, sides := r.L.V, r.R.V
			if num.Sign() <= 0 || sides.Sign() <= 0 {
				return errors.New("too few dice or sides")
			}
			for i := int64(0); i < num.Int64(); i++ {
				var vals []Die
				for len(vals) < e.maxRerolls {
					d, err := e.roll(big.NewInt(1), sides)
					if err != nil {
						return err
					}
					vals = append(vals, d[0])
					if int64(d[0].Value) < th {
						break
					}
				}
				if len(vals) == e.maxRerolls && int64(vals[len(vals)-1].Value) >= th {
					o.Limited = true
				}
				sum, err := e.value(&Node{K: KSum, Dice: vals})
				if err != nil {
					return err
				}
				s := sum.String()
				if len(vals) > 1 {
					o.Groups++
					s += "[" + joinDice(vals, ",") + "]"
				}
				shown = append(shown, s)
				sums = append(sums, sum)
			}
		}
		s := strings.Join(shown, ",")
		if modifier.Sign() > 0 {
			s += "+"
		}
		if modifier.Sign() != 0 {
			s += modifier.String()
		}
		part(s)
		if c.T == UComp {
			k := 0
			for _, v := range sums {
				x, err := fits(new(big.Int).Add(v, modifier))
				if err != nil {
					return err
				}
				o.LastCompare = x
				if Compare(c.Op, x, c.Target.V) {
					k++
				}
			}
			o.Successes = k
			part(successMark(k))
			return nil
		}
		max, total := new(big.Int).Set(sums[0]), new(big.Int)
		for _, v := range sums {
			if v.Cmp(max) > 0 {
				max = v
			}
			total.Add(total, v)
			if _, err := fits(total); err != nil {
				return err
			}
		}
		max2, err := fits(new(big.Int).Add(max, modifier))
		if err != nil {
			return err
		}
		tot2, err := fits(new(big.Int).Add(total, modifier))
		if err != nil {
			return err
		}
		part(max2.String() + "/" + tot2.String() + " (最大/合計)")
		return nil
	}
	return errors.New("unknown command")
}

func (e *evaluator) count(c *Cmd, o *Outcome, all []Die) int {
	k := 0
	for _, d := range all {
		if Compare(c.Op, big.NewInt(int64(d.Value)), c.Target.V) {
			k++
		}
	}
	o.Successes = k
	return k
}
