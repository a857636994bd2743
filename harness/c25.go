//go:build c25 || all

package main

import (
	"math"
	"strconv"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/core/object"
	"pgregory.net/rapid"

	"verif/fw"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C25", Quick: 200000, Thorough: 8000000,
		Rule: "an array of two or more elements with a non-positive integer or an element that is no integer, or a compounding-roll result asked at least three times",
		Assumptions: []string{
			"sums fit in an int",
		},
	}, genC25, runC25, fixedC25()...)
	fw.Sweep("C25", "arrays of up to 5 integers from -2 to 2 (thorough: 7), all questions", func(deep bool, yield func(*Aggregate) bool) {
		for k := 0; k <= upTo(deep, 5, 7); k++ {
			more := true
			tuples(k, 5, func(v []int) {
				a := &Val{K: "arr"}
				for _, x := range v {
					a.A = append(a.A, &Val{K: "int", N: x - 3})
				}
				more = more && yield(&Aggregate{V: a, Q: []string{"max", "sum", "inspect", "nospace", "join", "joinnospace", "len", "at", "type", "sum", "max"}})
			})
		}
	})
}

// Val is a value: an integer, text, truth value, array, or a roll result of
// an array of integer arrays and a modifier.
type Val struct {
	K string `json:"k"` // int, str, bool, arr, u, bcomp, rcomp, ucomp
	N int    `json:"n,omitempty"`
	S string `json:"s,omitempty"`
	A []*Val `json:"a,omitempty"`
}

// Aggregate is a value and the queries put to it.
type Aggregate struct {
	V *Val     `json:"v"`
	Q []string `json:"q"`
	// Move: arrays are built from slices that are handed over.
	Move bool `json:"move"`
}

func genVal(t *rapid.T, depth int, pure bool) *Val {
	k := 0
	if !pure {
		k = fw.Weighted(t, 12, 2, 2, 4, 1)
	}
	if depth == 0 && k >= 3 {
		k = 0
	}
	switch k {
	case 1:
		return &Val{K: "str", S: fw.OneOf(t, "", "a", "りんご", "a b", "\"", "\\", "\n", ", ", "[1, 2]", "1", "\u3000", "\x00", "😀")}
	case 2:
		return &Val{K: "bool", N: fw.Pick(t, 2)}
	case 3:
		return genArr(t, depth-1, pure)
	case 4:
		return genResult(t)
	}
	return &Val{K: "int", N: genInt(t)}
}

func genInt(t *rapid.T) int {
	switch fw.Weighted(t, 5, 3, 1, 1) {
	case 0:
		return fw.IntIn(t, 0, 10)
	case 1:
		return fw.IntIn(t, -10, 10)
	case 2:
		return fw.IntIn(t, -1<<40, 1<<40)
	}
	return fw.OneOf(t, 1<<31, -1<<31, 1<<53+1, -1<<53-1, 0, -1, math.MinInt32, math.MinInt, math.MaxInt, math.MinInt+1, 1<<62, -1<<62)
}

func genArr(t *rapid.T, depth int, pure bool) *Val {
	n := fw.OneOf(t, 0, 1, 1, 2, 3, 4, 6, 20)
	v := &Val{K: "arr"}
	if fw.Coin(t, 1) { // long
		n = fw.OneOf(t, 33, 64, 65, 100, 101, 128, 129, 200, 255, 256, 257, 500, 513, 1000, 1001, 1025)
		depth, pure = min(depth, 1), pure || fw.Coin(t, 80)
	}
	if fw.Coin(t, 40) {
		pure = true
	}
	for i := 0; i < n; i++ {
		v.A = append(v.A, genVal(t, depth, pure))
	}
	if pure && n > 1 && fw.Coin(t, 20) { // all below zero
		for _, x := range v.A {
			if x.N > 0 {
				x.N = -x.N
			}
		}
	}
	if pure && n > 1 && fw.Coin(t, 30) { // the greatest in a particular place
		top := v.A[0].N
		for _, x := range v.A {
			top = max(top, x.N)
		}
		v.A[fw.OneOf(t, 0, n-1, n-1, n-2, n/2, fw.Pick(t, n))].N = top + min(1, math.MaxInt-top)
	}
	if pure && n > 0 && fw.Coin(t, 20) { // one that is no integer, anywhere
		v.A[fw.Pick(t, n)] = &Val{K: fw.OneOf(t, "str", "bool", "arr")}
	}
	return v
}

func genResult(t *rapid.T) *Val {
	groups := &Val{K: "arr"}
	n := fw.OneOf(t, 0, 1, 1, 2, 3, 5)
	neg := fw.Coin(t, 30)
	for i := 0; i < n; i++ {
		g := &Val{K: "arr"}
		for j, k := 0, fw.OneOf(t, 0, 1, 1, 2, 4); j < k; j++ {
			x := fw.IntIn(t, 1, 20)
			if neg {
				x = genInt(t)
			}
			g.A = append(g.A, &Val{K: "int", N: x})
		}
		groups.A = append(groups.A, g)
	}
	u := &Val{K: "u", A: []*Val{groups, {K: "int", N: fw.IntIn(t, -30, 30)}}}
	succ := &Val{K: "int", N: fw.IntIn(t, 0, 9)}
	switch fw.Weighted(t, 6, 1, 1, 2) {
	case 1:
		return &Val{K: "bcomp", A: []*Val{genArr(t, 0, true), succ}}
	case 2:
		return &Val{K: "rcomp", A: []*Val{groups, succ}}
	case 3:
		return &Val{K: "ucomp", A: []*Val{u, succ}}
	}
	return u
}

func genC25(t *rapid.T) *Aggregate {
	c := &Aggregate{Move: fw.Coin(t, 30)}
	if fw.Coin(t, 60) {
		c.V = genArr(t, 3, false)
	} else {
		c.V = genResult(t)
	}
	n := fw.IntIn(t, 1, 10)
	for i := 0; i < n; i++ {
		c.Q = append(c.Q, fw.OneOf(t, "max", "sum", "inspect", "nospace", "join", "joinnospace", "len", "at", "groups", "mod", "sumgroups", "maxvalue", "sumvalues", "add", "type"))
	}
	return c
}

// text is the expected text of a value.
func (v *Val) text(noSpace bool) string {
	switch v.K {
	case "int":
		return strconv.Itoa(v.N)
	case "bool":
		return strconv.FormatBool(v.N != 0)
	case "str":
		return strconv.Quote(v.S)
	case "arr":
		sep := ", "
		if noSpace {
			sep = ","
		}
		return "[" + v.joined(sep, noSpace) + "]"
	case "u":
		return "<URollExprResult ValueGroups=" + v.A[0].text(false) + ", Modifier=" + v.A[1].text(false) + ">"
	case "bcomp":
		return "<BRollCompResult Values=" + v.A[0].text(false) + ", NumOfSuccesses=" + v.A[1].text(false) + ">"
	case "rcomp":
		return "<RRollCompResult ValueGroups=" + v.A[0].text(false) + ", NumOfSuccesses=" + v.A[1].text(false) + ">"
	}
	return "<URollCompResult RollResult=" + v.A[0].text(false) + ", NumOfSuccesses=" + v.A[1].text(false) + ">"
}

func (v *Val) joined(sep string, noSpace bool) string {
	var l []string
	for _, x := range v.A {
		l = append(l, x.text(noSpace && x.K == "arr"))
	}
	return strings.Join(l, sep)
}

// stats: maximum and sum of the integers, false if there is another element.
func (v *Val) stats() (max, sum int, ok bool) {
	ok = true
	for i, x := range v.A {
		if x.K != "int" {
			return 0, 0, false
		}
		if i == 0 || x.N > max {
			max = x.N
		}
		sum += x.N
	}
	return
}

// wide tells if the sum of the magnitudes does not fit in an int.
func (v *Val) wide() bool {
	t := 0.0
	for _, x := range v.A {
		t += math.Abs(float64(x.N))
	}
	return t >= 1<<62
}

// objs remembers the object of every value and the slices given.
type objs struct {
	move   bool
	of     map[*Val]object.Object
	order  []*Val
	slices [][]object.Object
}

func (b *objs) arr(v *Val) *object.Array { return b.of[v].(*object.Array) }

func (b *objs) build(v *Val) object.Object {
	var kids []object.Object
	for _, x := range v.A {
		kids = append(kids, b.build(x))
	}
	var o object.Object
	switch v.K {
	case "int":
		o = object.NewInteger(v.N)
	case "bool":
		o = object.NewBoolean(v.N != 0)
	case "str":
		o = object.NewString(v.S)
	case "arr":
		if b.move {
			o = object.NewArrayByMove(kids)
		} else {
			o = object.NewArray(kids...)
			b.slices = append(b.slices, kids)
		}
	case "u":
		o = object.NewURollExprResult(kids[0].(*object.Array), kids[1].(*object.Integer))
	case "bcomp":
		o = object.NewBRollCompResult(kids[0].(*object.Array), kids[1].(*object.Integer))
	case "rcomp":
		o = object.NewRRollCompResult(kids[0].(*object.Array), kids[1].(*object.Integer))
	default:
		o = object.NewURollCompResult(kids[0].(*object.URollExprResult), kids[1].(*object.Integer))
	}
	b.of[v] = o
	b.order = append(b.order, v)
	return o
}

var typeNames = map[string]object.ObjectType{"int": object.INTEGER_OBJ, "bool": object.BOOLEAN_OBJ, "str": object.STRING_OBJ, "arr": object.ARRAY_OBJ, "u": object.U_ROLL_EXPR_RESULT_OBJ, "bcomp": object.B_ROLL_COMP_RESULT_OBJ, "rcomp": object.R_ROLL_COMP_RESULT_OBJ, "ucomp": object.U_ROLL_COMP_RESULT_OBJ}

// extremeArrays are arrays of every length up to 300 whose greatest or
// non-integer element is in one place or another.
func extremeArrays() []*Aggregate {
	var out []*Aggregate
	for n := 2; n <= 300; n++ {
		for _, p := range []int{0, n / 2, n - 2, n - 1} {
			for _, k := range []string{"int", "str"} {
				a := &Val{K: "arr"}
				for i := 0; i < n; i++ {
					a.A = append(a.A, &Val{K: "int", N: -2 - i%7})
				}
				a.A[p] = &Val{K: k, N: -1, S: "x"}
				out = append(out, &Aggregate{V: a, Q: []string{"max", "sum", "len"}})
			}
		}
	}
	return out
}

func runC25(c *Aggregate, m *fw.Meta) error {
	b := &objs{move: c.Move, of: map[*Val]object.Object{}}
	b.build(c.V)
	for _, s := range b.slices { // the array has its own elements
		for i := range s {
			s[i] = object.NewString("scribbled")
		}
	}
	asked := 0
	for qi, q := range c.Q {
		for _, v := range b.order {
			fail := func(f string, a ...any) error {
				return errf("query %d (%s) of %s: "+f, append([]any{qi + 1, q, v.text(false)}, a...)...)
			}
			o := b.of[v]
			if q == "type" && (o.Type() != typeNames[v.K] || o.Type().String() == "ILLEGAL") {
				return fail("the type is %s", o.Type())
			}
			switch v.K {
			case "int":
				if q == "add" && max(v.N, -v.N) >= 0 && max(v.N, -v.N) < 1<<61 {
					i := o.(*object.Integer)
					r := i.Add(i)
					r2 := i.Add(object.NewInteger(-3))
					if r.Value != 2*v.N || r2.Value != v.N-3 || r == i || r2 == i {
						return fail("twice it is %d, less 3 %d", r.Value, r2.Value)
					}
					r.Value, r2.Value = 12345, 54321
				}
			case "arr":
				a := o.(*object.Array)
				max, sum, ok := v.stats()
				switch q {
				case "max", "sum":
					x, got := a.MaxInteger()
					want := max
					if q == "sum" {
						x, got = a.SumOfIntegers()
						want = sum
						if x != nil && ok && v.wide() {
							x.Value = sum // the sum, or the way to it, does not fit
							m.Class(true, "sum too wide")
						}
					}
					if got != ok || ok && (x == nil || x.Value != want) || !ok && x != nil {
						return fail("it is %v, %v, want %d, %v", x, got, want, ok)
					}
					if q == "sum" && ok {
						x.Value = 999999 // a new object
					}
				case "nospace":
					if g, w := a.InspectWithoutSpaces(), v.text(true); g != w {
						return fail("%q, want %q", g, w)
					}
				case "join":
					for _, sep := range []string{"", ",", " + ", "＞"} {
						if g, w := a.JoinedElements(sep), v.joined(sep, false); g != w {
							return fail("%q, want %q", g, w)
						}
					}
				case "joinnospace":
					for _, sep := range []string{"", ",", " + "} {
						if g, w := a.JoinedElementsWithoutSpaces(sep), v.joined(sep, true); g != w {
							return fail("%q, want %q", g, w)
						}
					}
				case "len":
					if a.Length() != len(v.A) || len(a.Elements) != len(v.A) {
						return fail("the length is %d", a.Length())
					}
				case "at":
					for i, x := range v.A {
						if a.At(i) != b.of[x] || a.Elements[i] != b.of[x] {
							return fail("element %d is %s", i, a.At(i).Inspect())
						}
					}
				}
			case "u":
				u := o.(*object.URollExprResult)
				var sums []string
				total, max := 0, 0
				for i, g := range v.A[0].A {
					_, s, _ := g.stats()
					sums = append(sums, itoa(s))
					total += s
					if i == 0 || s > max {
						max = s
					}
				}
				mod := v.A[1].N
				switch q {
				case "groups":
					if u.ValueGroups() != b.of[v.A[0]] {
						return fail("%s", u.ValueGroups().Inspect())
					}
				case "mod":
					if u.Modifier().Value != mod {
						return fail("%d", u.Modifier().Value)
					}
				case "sumgroups":
					asked++
					if g, w := u.SumOfGroups().Inspect(), "["+strings.Join(sums, ", ")+"]"; g != w {
						return fail("%s, want %s", g, w)
					}
				case "maxvalue":
					asked++
					x := u.MaxValue()
					if x.Value != max+mod {
						return fail("%d, want %d", x.Value, max+mod)
					}
					x.Value = 4444 // a new object
				case "sumvalues":
					asked++
					x := u.SumOfValues()
					if x.Value != total+mod {
						return fail("%d, want %d", x.Value, total+mod)
					}
					x.Value = 5555
				}
			}
		}
		// nothing has changed
		for _, v := range b.order {
			if g, w := b.of[v].Inspect(), v.text(false); g != w {
				return errf("after query %d (%s): %q, want %q", qi+1, q, g, w)
			}
		}
	}
	odd := false
	for _, v := range b.order {
		if v.K == "arr" && len(v.A) > 1 {
			for _, x := range v.A {
				odd = odd || x.K != "int" || x.N <= 0
			}
		}
	}
	m.NonTrivial = odd || asked >= 3
	m.Class(odd, "non-positive or mixed elements")
	m.Class(asked >= 3, "asked three times or more")
	_, _, ok := c.V.stats()
	m.Class(c.V.K == "arr" && len(c.V.A) > 1 && ok, "array of integers")
	m.Class(c.V.K == "arr" && len(c.V.A) > 1 && !ok, "array with other elements")
	m.Class(c.V.K != "arr", "roll result")
	m.Class(len(b.order) > 20, "more than 20 values")
	return nil
}

func fixedC25() []*Aggregate {
	all := []string{"type", "max", "sum", "inspect", "nospace", "join", "joinnospace", "len", "at", "groups", "mod", "sumgroups", "maxvalue", "sumvalues", "add", "sumvalues", "maxvalue", "max", "sum"}
	i := func(n int) *Val { return &Val{K: "int", N: n} }
	arr := func(a ...*Val) *Val { return &Val{K: "arr", A: a} }
	out := extremeArrays()
	for _, v := range []*Val{
		arr(), arr(i(0)), arr(i(-3), i(-1), i(-2)), arr(i(1), &Val{K: "str", S: "1"}), arr(&Val{K: "bool"}, i(1)), arr(arr(i(1), arr(i(2), i(3))), arr()),
		{K: "u", A: []*Val{arr(), i(3)}}, {K: "u", A: []*Val{arr(arr(i(6), i(1)), arr(i(3))), i(-9)}}, {K: "u", A: []*Val{arr(arr(i(-6)), arr(i(-3))), i(1)}},
	} {
		out = append(out, &Aggregate{v, all, false}, &Aggregate{v, all, true})
	}
	q := []string{"max", "sum", "inspect", "nospace", "join", "joinnospace", "len", "at", "sum", "max"}
	for _, n := range []int{50, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4097, 10001, 70000} {
		a, b, u := arr(), arr(), arr()
		for k := 0; k < n; k++ {
			a.A = append(a.A, i((k*7919)%23-5))
			b.A = append(b.A, i(-1-k))
			if n < 5000 {
				u.A = append(u.A, arr(i(k%6+1), i(k%5)))
			}
		}
		out = append(out, &Aggregate{a, q, n%2 == 0}, &Aggregate{b, q, n%2 != 0})
		if n < 5000 {
			out = append(out, &Aggregate{&Val{K: "u", A: []*Val{u, i(2)}}, []string{"groups", "mod", "sumgroups", "maxvalue", "sumvalues", "maxvalue"}, false}, &Aggregate{u, q, false})
		}
	}
	return out
}
