package main

import (
	"strings"

	"verif/model"
	"verif/sut"
)

// The small scopes that are tried completely, before the random cases.

// stop ends a sweep.
type stop struct{}

// lines gives a function that takes one case of a sweep and ends the sweep
// when no more are wanted.
func lines(yield func(*Line) bool) func(cmd string, vals ...int) {
	return func(cmd string, vals ...int) {
		if !yield(&Line{Cmd: cmd, Script: &sut.Script{Vals: vals}}) {
			panic(stop{})
		}
	}
}

func stopped() {
	if r := recover(); r != nil {
		if _, ok := r.(stop); !ok {
			panic(r)
		}
	}
}

var (
	calcOps = []string{"+", "-", "*", "/", "/U", "/R"}
	cmpOps  = []string{"=", "<>", "<", "<=", ">", ">="}
)

// apply writes a op b.
func apply(op, a, b string) string { return a + op[:1] + b + op[1:] }

// tuples calls f with all k-tuples of 1..n.
func tuples(k, n int, f func(v []int)) {
	v := make([]int, k)
	for i := range v {
		v[i] = 1
	}
	for {
		f(append([]int(nil), v...))
		i := k - 1
		for i >= 0 && v[i] == n {
			v[i] = 1
			i--
		}
		if i < 0 {
			return
		}
		v[i]++
	}
}

func upTo(deep bool, quick, thorough int) int {
	if deep {
		return thorough
	}
	return quick
}

const scopeC01 = "C(n) for all n to 2100 (thorough 60000), around powers of 2 and 10; C(a op b) for a and b in -13..40 (-150..300) and among the numbers around 0, ±2^31, ±2^32, ±2^53, ±2^62 and the greatest and least; C(a op b op c) for 0..4 (0..9) without and with parentheses either way" + "; " + scopeSlots

func sweepC01(deep bool, yield func(*Line) bool) {
	defer stopped()
	do := lines(yield)
	slotLines(func(cmd string, vals ...int) {
		if strings.HasPrefix(cmd, "C(") {
			do(cmd)
		}
	})
	for n := 0; n <= upTo(deep, 2100, 60000); n++ {
		do("C(" + itoa(n) + ")")
	}
	for _, base := range []int{2, 10} {
		for p := base; p > 0 && p < 1<<62; p *= base {
			for d := -2; d <= 2; d++ {
				for _, op := range calcOps {
					do(apply(op, "C("+itoa(p+d), itoa(base)) + ")")
					do(apply(op, "C(-"+itoa(max(p+d, 0)), itoa(base+1)) + ")")
				}
			}
			if p > 1<<62/base {
				break
			}
		}
	}
	for a := upTo(deep, -13, -150); a <= upTo(deep, 40, 300); a++ {
		for b := upTo(deep, -13, -150); b <= upTo(deep, 40, 300); b++ {
			for _, op := range calcOps {
				do("C(" + apply(op, itoa(a), itoa(b)) + ")")
			}
		}
	}
	edges := edgeInts()
	for _, a := range edges {
		for _, b := range edges {
			for _, op := range calcOps {
				do("C(" + apply(op, a, b) + ")")
			}
		}
		do("C(-" + a + ")")
		do("C(-(-" + a + "))")
	}
	n := upTo(deep, 4, 9)
	for _, o1 := range calcOps {
		for _, o2 := range calcOps {
			for a := 0; a <= n; a++ {
				for b := 0; b <= n; b++ {
					for c := 0; c <= n; c++ {
						x, y, z := itoa(a), itoa(b), itoa(c)
						do("C(" + apply(o2, apply(o1, x, y), z) + ")")
						do("C(" + apply(o2, "("+apply(o1, x, y)+")", z) + ")")
						do("C(" + apply(o1, x, "("+apply(o2, y, z)+")") + ")")
					}
				}
			}
		}
	}
}

// edgeInts writes numbers at the edges of the widths of integers and floats.
func edgeInts() []string {
	out := []string{"(-9223372036854775807-1)", "(-9223372036854775806-1)", "(-9223372036854775807)", "9223372036854775807", "9223372036854775806", "(2147483648*4294967295)"}
	for _, p := range []uint{0, 1, 31, 32, 53, 62} {
		for d := -1; d <= 1; d++ {
			n := 1<<p + d
			out = append(out, itoa(n))
			if n > 0 {
				out = append(out, "(-"+itoa(n)+")")
			}
		}
	}
	return out
}

const scopeC03 = "xDn for x to 20 and n to 200 (thorough 60, 3000); all outcomes of 2D6, 3D6, 2D10, 1D20, 1D100 alone, with +3 and *2-1; 1D6 op k and k op 1D6 for all values and k to 20" + "; " + scopeSlots

func sweepC03(deep bool, yield func(*Line) bool) {
	defer stopped()
	do := lines(yield)
	slotLines(do)
	for x := 1; x <= upTo(deep, 20, 60); x++ {
		for n := 1; n <= upTo(deep, 200, 3000); n++ {
			v := make([]int, x)
			for i := range v {
				v[i] = 1 + (i*7+x*3+n*5)%n
			}
			do(itoa(x)+"D"+itoa(n), v...)
		}
	}
	outcomes(func(x, n int, v []int) {
		for _, s := range []string{"", "+3", "*2-1"} {
			do(itoa(x)+"D"+itoa(n)+s, v...)
		}
	})
	for v := 1; v <= 6; v++ {
		for k := 0; k <= 20; k++ {
			for _, op := range calcOps {
				do(apply(op, "1D6", itoa(k)), v)
				do(apply(op, itoa(k), "1D6"), v)
			}
		}
	}
}

// outcomes are all outcomes of the usual rolls.
func outcomes(f func(x, n int, v []int)) {
	for _, r := range [][2]int{{2, 6}, {3, 6}, {2, 10}, {1, 20}, {1, 100}} {
		tuples(r[0], r[1], func(v []int) { f(r[0], r[1], v) })
	}
}

const scopeC04 = "2D6 op t for all outcomes and t in -1..14; 1D20 op t and 1D6 op t for all outcomes and targets; 1D100 op t for all outcomes and t in 0..5, 45..55, 90..101 (thorough 0..101); 3D6 op t for all outcomes and t in 9..12 (2..19); xDn>=t for x to 12, n to 100 at the total and next to it; values and targets around 0, 2^62 and 2^63 of either sign, each with each" + "; " + scopeSlots

func sweepC04(deep bool, yield func(*Line) bool) {
	defer stopped()
	do := lines(yield)
	slotLines(do)
	for _, op := range cmpOps {
		for _, r := range [][4]int{{2, 6, -1, 14}, {1, 20, -1, 22}, {1, 6, -1, 8}, {3, 6, upTo(deep, 9, 2), upTo(deep, 12, 19)}, {1, 100, 0, 101}} {
			tuples(r[0], r[1], func(v []int) {
				for t := r[2]; t <= r[3]; t++ {
					if r[1] == 100 && !deep && (t > 5 && t < 45 || t > 55 && t < 90) {
						continue
					}
					do(itoa(r[0])+"D"+itoa(r[1])+op+itoa(t), v...)
				}
			})
		}
	}
	for x := 1; x <= 12; x++ {
		for n := 1; n <= upTo(deep, 100, 1000); n++ {
			v := make([]int, x)
			sum := 0
			for i := range v {
				v[i] = 1 + (i*11+x+n*3)%n
				sum += v[i]
			}
			for d := -1; d <= 1; d++ {
				do(itoa(x)+"D"+itoa(n)+cmpOps[(x+n+d+1)%6]+itoa(sum+d), v...)
			}
		}
	}
	ends := []string{"0", "1", "-1", "4611686018427387903", "4611686018427387904", "-4611686018427387904", "-4611686018427387905", "9223372036854775806", "9223372036854775807", "-9223372036854775806", "-9223372036854775807", "-9223372036854775807-1"}
	for _, op := range cmpOps {
		for _, v := range ends {
			for _, t := range ends {
				do("1D1-1+"+v+op+t, 1)
				do(v+"-1D1"+op+t, 1)
				do("1D6*0+"+v+op+"("+t+")", 3)
			}
		}
	}
}

const scopeC05 = "xBn for x to 20 and n to 200 (thorough 60, 3000); 2B6 op t for all outcomes and t in -1..8; 1B100 op t for all outcomes and t in 1..5, 48..52, 95..101" + "; " + scopeSlots

func sweepC05(deep bool, yield func(*Line) bool) {
	defer stopped()
	do := lines(yield)
	slotLines(do)
	for x := 1; x <= upTo(deep, 20, 60); x++ {
		for n := 1; n <= upTo(deep, 200, 3000); n++ {
			v := make([]int, x)
			for i := range v {
				v[i] = 1 + (i*7+x*3+n*5)%n
			}
			if n%2 == 0 {
				do(itoa(x)+"B"+itoa(n)+cmpOps[x%6]+itoa(v[0]), v...)
			} else {
				do(itoa(x)+"B"+itoa(n), v...)
			}
		}
	}
	for _, op := range cmpOps {
		tuples(2, 6, func(v []int) {
			for t := -1; t <= 8; t++ {
				do("2B6"+op+itoa(t), v...)
				do("1B6+1B6"+op+itoa(t), v...)
			}
		})
		for v := 1; v <= 100; v++ {
			for t := 1; t <= 101; t++ {
				if t <= 5 || t >= 48 && t <= 52 || t >= 95 || deep {
					do("1B100"+op+itoa(t), v)
				}
			}
		}
	}
}

const scopeC06 = "2R6[t], 1R6+1R6[t] and 2R6 op t for all first four dice and t in 1..7 (comparisons: t of 2, 5 and 6; thorough all); 1R3[t], 2R3[t] and 3R3[t] for all first six dice; xRn[n] for x to 12 and n to 150 with one maximum" + "; " + scopeSlots

func sweepC06(deep bool, yield func(*Line) bool) {
	defer stopped()
	do := lines(yield)
	slotLines(do)
	tuples(4, 6, func(v []int) {
		for t := 1; t <= 7; t++ {
			do("2R6["+itoa(t)+"]", v...)
			do("1R6+1R6["+itoa(t)+"]", v...)
			if deep || t == 2 || t == 5 || t == 6 {
				for _, op := range cmpOps {
					do("2R6"+op+itoa(t), v...)
				}
			}
		}
	})
	tuples(6, 3, func(v []int) {
		for x := 1; x <= 3; x++ {
			for t := 2; t <= 4; t++ {
				do(itoa(x)+"R3["+itoa(t)+"]", v...)
			}
		}
	})
	explodingSizes("R", deep, do)
}

func explodingSizes(op string, deep bool, do func(string, ...int)) {
	for x := 1; x <= 12; x++ {
		for n := 2; n <= upTo(deep, 150, 1500); n++ {
			v := make([]int, x)
			for i := range v {
				v[i] = 1 + (i*5+x+n)%(n-1)
			}
			v[(x+n)%x] = n
			do(itoa(x)+op+itoa(n)+"["+itoa(n)+"]", v...)
		}
	}
}

const scopeC07 = "2U6[t] for all first four dice and t in 1..7, with modifiers -1 and +2 or a comparison in turn; 1U6[6], 2U6[4]>=t and 3U6[5] with modifiers -20..20; xUn[n] for x to 12 and n to 150 with one maximum" + "; " + scopeSlots

func sweepC07(deep bool, yield func(*Line) bool) {
	defer stopped()
	do := lines(yield)
	slotLines(do)
	i := 0
	tuples(4, 6, func(v []int) {
		for t := 1; t <= 7; t++ {
			c := "2U6[" + itoa(t) + "]"
			do(c, v...)
			do(c+"-1", v...)
			do(c+"+2", v...)
			i++
			do(c+cmpOps[i%6]+itoa(i%13), v...)
		}
		do("1U6+1U6"+cmpOps[i%6]+itoa(2+i%5), v...)
	})
	for k := -20; k <= 20; k++ {
		m := itoa(k)
		if k >= 0 {
			m = "+" + m
		}
		for v := 1; v <= 6; v++ {
			do("1U6[6]"+m, v, 3)
			do("3U6[5]"+m, v, 2, 4, 6, 1, 3)
			for t := -5; t <= 12; t++ {
				do("2U6[4]"+m+cmpOps[(v+t+5)%6]+itoa(t), v, 5, 2, 1)
			}
		}
	}
	explodingSizes("U", deep, do)
}

const scopeC09 = "[a...b] as number and as sides of each kind of roll, for a and b to 12 and all values (thorough 40); (a op b) as number and sides for a and b to 9" + "; " + scopeSlots

func sweepC09(deep bool, yield func(*Line) bool) {
	defer stopped()
	do := lines(yield)
	slotLines(do)
	n := upTo(deep, 12, 40)
	tail := map[string]string{"D": "", "B": "", "R": "[4]", "U": "[5]"}
	for _, op := range []string{"D", "B", "R", "U"} {
		for a := 0; a <= n; a++ {
			for b := 0; b <= n; b++ {
				x := "[" + itoa(a) + "..." + itoa(b) + "]"
				for v := 1; v <= max(1, b-a+1); v++ {
					do(x+op+"6"+tail[op], v, 3, 2, 1)
					do("2"+op+x+tail[op], v, 1, 2, 3)
				}
			}
		}
		for a := 0; a <= 9; a++ {
			for b := 0; b <= 9; b++ {
				for _, o := range calcOps {
					x := "(" + apply(o, itoa(a), itoa(b)) + ")"
					do(x+op+"6"+tail[op], 3, 2, 1)
					do("2"+op+x+tail[op], 1, 2, 3)
				}
			}
		}
	}
}

const scopeC14 = "all trees of up to two operators over 2, -2 and 1D6 with and without signs and parentheses, and pairs of such trees of one operator (thorough: up to three operators)" + "; " + scopeSlots

func sweepC14(deep bool, yield func(*Line) bool) {
	defer stopped()
	do := lines(yield)
	slotLines(func(cmd string, vals ...int) {
		if model.Parse(cmd) != nil && (cmd[0] == 'C' && cmd[1] == 'H' || !strings.ContainsAny(cmd, " xあ")) {
			do(cmd, vals...)
		}
	})
	leaf := []string{"2", "(-2)", "1D6"}
	sub := func(xs []string) []string {
		var out []string
		for _, x := range xs {
			out = append(out, "("+x+")", "(-("+x+"))")
		}
		return out
	}
	join := func(as, bs []string) []string {
		var out []string
		for _, a := range as {
			for _, b := range bs {
				for _, op := range calcOps {
					out = append(out, apply(op, a, b))
				}
			}
		}
		return out
	}
	show := func(xs []string) {
		for _, x := range xs {
			if !strings.Contains(x, "1D6") {
				x = "C(" + x + ")"
			}
			do(x, 3, 5, 2, 4)
		}
	}
	e1 := join(leaf, leaf)
	show(e1)
	var bare []string
	for _, x := range e1 {
		bare = append(bare, "-"+x)
	}
	show(bare)
	s1 := sub(e1)
	e2 := append(join(s1, leaf), join(leaf, s1)...)
	show(e2)
	// without parentheses
	show(join(e1, leaf))
	for _, a := range leaf {
		for _, b := range e1 {
			for _, op := range calcOps[:4] {
				show([]string{a + op + b})
			}
		}
	}
	if deep {
		show(join(s1, s1))
		s2 := sub(e2)
		show(append(join(s2, leaf), join(leaf, s2)...))
	} else {
		i := 0
		for _, a := range s1 {
			for _, b := range s1 {
				if i++; i%7 == 0 {
					show([]string{apply(calcOps[i/7%6], a, b)})
				}
			}
		}
	}
}

const scopeC02 = "all sequences of up to four of 24 tokens (thorough: five); ten texts with each character of some blocks (thorough: all characters) in place of a part"

var smallTokens = []string{"1", "0", "D", "B", "R", "U", "+", "-", "*", "/", "(", ")", "[", "]", "...", "=", "<", ">", "C", "CHOICE", ",", " ", "S", "2D6"}

// sweepTexts gives all sequences of up to n tokens.
func sweepTexts(tokens []string, n int, f func(string) bool) bool {
	var rec func(s string, k int) bool
	rec = func(s string, k int) bool {
		if !f(s) {
			return false
		}
		if k == 0 {
			return true
		}
		for _, t := range tokens {
			if !rec(s+t, k-1) {
				return false
			}
		}
		return true
	}
	return rec("", n)
}

// someRunes are the characters of the scripts most likely to be handled specially (deep: all).
func someRunes(deep bool, f func(r rune) bool) {
	blocks := [][2]rune{{0, 0x24ff}, {0x3000, 0x30ff}, {0xfe00, 0xffff}, {0x1d7c0, 0x1d7ff}, {0x1f600, 0x1f64f}}
	if deep {
		blocks = [][2]rune{{0, 0xd7ff}, {0xe000, 0x10ffff}}
	}
	for _, b := range blocks {
		for r := b[0]; r <= b[1]; r++ {
			if !f(r) {
				return
			}
		}
	}
}

// slots are the places of a command where an expression can stand (#).
var slots = []string{
	"C(#)", "C(5-#)", "C(5+#)", "C(5*#)", "C(5/#)", "C(5/#U)", "C(5/#R)", "C(#-5)", "C(#*5)", "C(#/5)", "C(#/5U)", "C(-#)",
	"#D6", "2D#", "#D#", "[#...3]D6", "[1...#]D6", "2D[#...6]", "2D6>=#", "2D6=#", "2D6<#", "2D6+#", "2D6-#", "2D6*#", "2D6/#", "2D6/#R", "#-2D6", "#*2D6", "#/2D6", "#/2D6U", "-#D6", "2D6+#>=7", "#D6<>3", "1D6+#D6-1",
	"#B6", "2B#", "1B6+#B6", "2B6>=#", "2B6<#", "#B6=3", "2B#=3",
	"#R6[4]", "2R#[4]", "2R6[#]", "1R6+#R6[5]", "1R6+1R#[5]", "2R6[#]>=4", "2R6>=#", "2R6=#", "2R6[4]>=#", "#R6[4]<3", "2R#[4]<3", "2R6[#]<>#",
	"#U6[4]", "2U#[4]", "2U6[#]", "1U6+#U6[5]", "1U6+1U#[5]", "2U6[#]>=4", "2U6>=#", "2U6=#", "2U6[4]>=#", "#U6[4]<3", "2U#[4]<3", "2U6[5]+#", "2U6[5]-#", "2U6[5]-1-#", "2U6[5]-#+2", "2U6[#]+1>=3", "2U6[5]+#>=3", "2U6[5]-#>=3", "2U6[5]+1>=#", "2U6+#>=5", "2U6-#>=5", "2U6[#]-#=#",
}

// odd are the expressions to put there.
var odd = []string{
	"3", "0", "007", "-1", "-3", "+2", "--2", "-+2", "+-3", "-(-2)", "(-2)", "((4))", "(+3)", "-(2)", "-(1-3)",
	"1/0", "0/0", "1/0U", "1/0R", "5/(1-1)", "-1/0", "(1/0)*0", "2-1/0R",
	"7/2", "7/2U", "7/2R", "5/2R", "-7/2", "-7/2U", "-5/2R", "7/-2", "7/-2U", "5/-2R", "-1/2R", "-(1/2U)",
	"2*3", "2*-3", "-2*3", "-(2*3)", "2*(-3)", "(-2)*3", "-2*-3", "1+2", "-1+2", "-1-2", "1-2", "1+-2", "1--2", "1-(-2)", "5-2-1", "5-(2-1)", "5-(2+1)", "(5-2)+1", "2*(1+1)", "(1+1)*2", "-(1+2)", "-(1+2)*2", "(-1)", "(-1+4)", "12/(2*3)", "12/(6/3)", "12/6*2", "2*6/4", "2*(6/4)", "(12/6)/2U", "12/(6/2U)R",
	"9223372036854775807", "9223372036854775808", "-9223372036854775807", "-9223372036854775808", "(-9223372036854775807-1)", "99999999999999999999", "9223372036854775807+1", "4611686018427387904*2", "-(-9223372036854775807-1)", "(-9223372036854775807-1)/-1", "100000", "100001",
	"[1...3]", "[2...2]", "[3...1]", "[0...0]", "[1...3]+1", "([1...2]*2)", "1D3", "(2D3)", "1D6-1", "2B6", "x", "", "( 2)", "2 ", "2u", "1/2UR",
}

// longs are commands with a part (#) that is repeated many times; the part is
// in braces.
var longs = []string{
	"C(1{+1})", "C(9{-1})", "C(1{*1})", "C(7{/1})", "C(1{-1+2})", "C({0}7)", "C({0})", "C(1{0}/3)", "C({-}1)", "C(2*3{+2*3})", "C(1{+(1-2)})", "C(1){x}", "C(1){ }x", "C(1)  {あ}",
	"{0}2D6", "2D{0}6", "2D6{+1}", "2D6{-1}", "2D6{*1}", "2D6{/1}", "2D6{+1D6}", "1D6{-2D4}", "(1{+1})D6", "1D(1{+1})", "2D6{+2*3}", "2D6+{0}1", "2D6{+1}>=7", "2D6>=1{+1}", "2D6>={0}7", "2D6>=0{-1}", "2D6{+1D6}=30", "2D6 {x}", "2D6{ }x", "2D6 {成功 }", "2D6>=7 {x}", "[1...{0}3]D6", "[1...1{+1}]D6",
	"1B6{+1B6}", "{0}2B6", "2B{0}6", "(1{+1})B6", "1B6{+2B4}>=3", "2B6>=1{+1}", "2B6>={0}3", "2B6 {x}",
	"1R6{+1R6}", "1R6{+1R6}[5]", "{0}2R6[4]", "2R{0}6[4]", "2R6[{0}4]", "2R6[2{+1}]", "1R6{+1R6}>=5", "2R6[4]>={0}4", "(1{+1})R6[6]", "2R6[4]>=1{+1}", "2R6[4] {x}",
	"1U6{+1U6}[5]", "{0}2U6[4]", "2U{0}6[4]", "2U6[{0}4]", "2U6[2{+1}]", "2U6[5]{+1}", "2U6[5]{-1}", "2U6[5]+1{*1}", "1U6{+1U6}[5]+1>=5", "2U6[5]+{0}1", "2U6[4]>={0}4", "(1{+1})U6[6]", "2U6[4]>=1{+1}", "2U6[4] {x}",
	"CHOICE[{a}]", "CHOICE[a{b},c]", "CHOICE[a,{あ}]", "CHOICE[a{,b}]", "CHOICE[a,{ }b]", "CHOICE[a{ },b]", "CHOICE[a,b,{ }]", "CHOICE[a{ b},c]", "CHOICE[{  }a]", "CHOICE[a,b]{x}",
}

// sizes are the numbers of repetitions.
var sizes = []int{10, 17, 33, 65, 101, 129, 257, 513, 1025, 2049}

const scopeSlots = "74 places of commands where an expression can stand, each with 90 odd expressions with and without parentheses; 80 commands with a part repeated up to 2049 times"

// sweepLongs gives the long commands.
func sweepLongs(f func(cmd string) bool) bool {
	for i, l := range longs {
		a, rest, _ := strings.Cut(l, "{")
		b, c, _ := strings.Cut(rest, "}")
		for j, n := range sizes {
			if !f(a + strings.Repeat(b, n+(i+j)%2) + c) {
				return false
			}
		}
	}
	return true
}

// sweepSlots gives the commands with odd expressions in their slots (deep:
// pairs of different ones where there are several slots).
func sweepSlots(f func(cmd string) bool) bool {
	for _, s := range slots {
		for _, e := range odd {
			if !f(strings.ReplaceAll(s, "#", e)) || !f(strings.ReplaceAll(s, "#", "("+e+")")) {
				return false
			}
		}
	}
	return sweepLongs(f)
}

// slotDice suits the commands of sweepSlots.
func slotDice() []int { return []int{3, 2, 4, 1, 5, 1, 2} }

// slotLines gives them as lines.
func slotLines(do func(cmd string, vals ...int)) {
	sweepSlots(func(cmd string) bool {
		do(cmd, slotDice()...)
		return true
	})
}
