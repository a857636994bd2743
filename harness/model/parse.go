package model

import (
	"math/big"
	"strings"
	"unicode"
	"unicode/utf8"
)

type parser struct {
	s   []rune
	p   int
	big bool // an integer literal does not fit
}

func (p *parser) peek() rune {
	if p.p < len(p.s) {
		return p.s[p.p]
	}
	return -1
}

func (p *parser) eat(r rune) bool {
	if p.peek() == r {
		p.p++
		return true
	}
	return false
}

func (p *parser) eatFold(lower rune) bool {
	if p.p < len(p.s) && unicode.ToLower(p.s[p.p]) == lower {
		p.p++
		return true
	}
	return false
}

func (p *parser) eatStr(s string) bool {
	save := p.p
	for _, r := range s {
		if !p.eat(r) {
			p.p = save
			return false
		}
	}
	return true
}

var maxInt = new(big.Int).SetUint64(1<<63 - 1)

func (p *parser) integer() *Node {
	start := p.p
	for p.peek() >= '0' && p.peek() <= '9' {
		p.p++
	}
	if p.p == start {
		return nil
	}
	v, _ := new(big.Int).SetString(string(p.s[start:p.p]), 10)
	if v.Cmp(maxInt) > 0 {
		p.big = true
	}
	return Int(v)
}

// contexts of expressions
const (
	cInt  = iota // integers only
	cRand        // integers and random numbers
	cD           // sum rolls, random numbers and integers
)

func (p *parser) additive(ctx int) *Node {
	n := p.multitive(ctx)
	if n == nil {
		return nil
	}
	for {
		save := p.p
		op := ""
		if p.eat('+') {
			op = "+"
		} else if p.eat('-') {
			op = "-"
		} else {
			return n
		}
		r := p.multitive(ctx)
		if r == nil {
			p.p = save
			return n
		}
		n = Bin(op, n, r)
	}
}

func (p *parser) multitive(ctx int) *Node {
	n := p.primary(ctx)
	if n == nil {
		return nil
	}
	for {
		save := p.p
		if p.eat('*') {
			r := p.primary(ctx)
			if r == nil {
				p.p = save
				return n
			}
			n = Bin("*", n, r)
		} else if p.eat('/') {
			r := p.primary(ctx)
			if r == nil {
				p.p = save
				return n
			}
			op := "/"
			if p.eatFold('u') {
				op = "/U"
			} else if p.eatFold('r') {
				op = "/R"
			}
			n = Bin(op, n, r)
		} else {
			return n
		}
	}
}

func (p *parser) primary(ctx int) *Node {
	save := p.p
	if ctx == cD {
		if r := p.roll('d', "D"); r != nil {
			return r
		}
		p.p = save
	}
	if ctx != cInt {
		if r := p.random(); r != nil {
			return r
		}
		p.p = save
	}
	if n := p.integer(); n != nil {
		return n
	}
	switch {
	case p.eat('+'):
		if n := p.primary(ctx); n != nil {
			return n
		}
	case p.eat('-'):
		if n := p.primary(ctx); n != nil {
			return Neg(n)
		}
	case p.eat('('):
		if n := p.additive(ctx); n != nil && p.eat(')') {
			return n
		}
	}
	p.p = save
	return nil
}

func (p *parser) random() *Node {
	save := p.p
	if p.eat('[') {
		if a := p.randOperand(); a != nil && p.eatStr("...") {
			if b := p.randOperand(); b != nil && p.eat(']') {
				return Rand(a, b)
			}
		}
	}
	p.p = save
	return nil
}

func (p *parser) randOperand() *Node {
	if n := p.integer(); n != nil {
		return n
	}
	return p.paren(cInt)
}

func (p *parser) paren(ctx int) *Node {
	save := p.p
	if p.eat('(') {
		if n := p.additive(ctx); n != nil && p.eat(')') {
			return n
		}
	}
	p.p = save
	return nil
}

func (p *parser) rollOperand() *Node {
	if n := p.integer(); n != nil {
		return n
	}
	if n := p.random(); n != nil {
		return n
	}
	return p.paren(cRand)
}

func (p *parser) roll(letter rune, op string) *Node {
	save := p.p
	if a := p.rollOperand(); a != nil && p.eatFold(letter) {
		if b := p.rollOperand(); b != nil {
			return Roll(op, a, b)
		}
	}
	p.p = save
	return nil
}

func (p *parser) compareOp() string {
	for _, op := range []string{"=", "<>", "<=", "<", ">=", ">"} {
		if p.eatStr(op) {
			return op
		}
	}
	return ""
}

func (p *parser) list(letter rune, op string) []*Node {
	r := p.roll(letter, op)
	if r == nil {
		return nil
	}
	out := []*Node{r}
	for {
		save := p.p
		if !p.eat('+') {
			return out
		}
		r := p.roll(letter, op)
		if r == nil {
			p.p = save
			return out
		}
		out = append(out, r)
	}
}

func (p *parser) threshold() *Node {
	save := p.p
	if p.eat('[') {
		if n := p.additive(cInt); n != nil && p.eat(']') {
			return n
		}
	}
	p.p = save
	return nil
}

// tail parses an optional comparison and requires the end of the text.
func (p *parser) tail(c *Cmd, plain, comp string) *Cmd {
	c.T = plain
	save := p.p
	if op := p.compareOp(); op != "" {
		if n := p.additive(cInt); n != nil {
			c.Op, c.Target, c.T = op, n, comp
		} else {
			p.p = save
		}
	}
	if p.p != len(p.s) {
		return nil
	}
	return c
}

func (p *parser) choice() *Cmd {
	for _, r := range "choice" {
		if !p.eatFold(r) {
			return nil
		}
	}
	if !p.eat('[') {
		return nil
	}
	item := func() (string, bool) {
		save := p.p
		for p.p < len(p.s) && unicode.Is(unicode.Z, p.s[p.p]) {
			p.p++
		}
		start := p.p
		for p.p < len(p.s) && p.s[p.p] != ']' && p.s[p.p] != ',' {
			p.p++
		}
		if p.p == start {
			p.p = save
			return "", false
		}
		return strings.TrimSpace(string(p.s[start:p.p])), true
	}
	c := &Cmd{T: Choice}
	it, ok := item()
	if !ok {
		return nil
	}
	c.Items = append(c.Items, it)
	for {
		save := p.p
		if !p.eat(',') {
			break
		}
		it, ok := item()
		if !ok {
			p.p = save
			break
		}
		c.Items = append(c.Items, it)
	}
	if p.eat(',') {
		for p.p < len(p.s) && unicode.Is(unicode.Z, p.s[p.p]) {
			p.p++
		}
	}
	if !p.eat(']') {
		return nil
	}
	return c
}

// Parse parses a command; nil means that the text is not a command. A text
// with a byte that is no UTF-8 is none, unless that byte comes after the end
// of a command that may be followed by anything (see Unclear).
func Parse(s string) *Cmd {
	c := parse(s)
	if c != nil && !utf8.ValidString(s) && !Unclear(s) {
		return nil
	}
	return c
}

// Unclear reports that the text has a byte that is no UTF-8 after a complete
// command that may be followed by anything: whether it is read is left open.
func Unclear(s string) bool {
	for i, r := range s {
		if r == utf8.RuneError {
			if _, n := utf8.DecodeRuneInString(s[i:]); n == 1 {
				return parse(s[:i]) != nil && parse(s[:i]+" ") != nil
			}
		}
	}
	return false
}

func parse(s string) *Cmd {
	p := &parser{s: []rune(s)}
	try := func(f func() *Cmd) *Cmd {
		p.p, p.big = 0, false
		c := f()
		if c == nil || p.big {
			return nil
		}
		return c
	}
	if c := try(p.choice); c != nil {
		return c
	}
	if c := try(func() *Cmd {
		if p.eatFold('c') && p.eat('(') {
			if n := p.additive(cInt); n != nil && p.eat(')') {
				return &Cmd{T: Calc, E: n}
			}
		}
		return nil
	}); c != nil {
		return c
	}
	for _, x := range []struct {
		letter           rune
		op, plain, compT string
	}{{'b', "B", BList, BComp}, {'r', "R", RList, RComp}, {'u', "U", UExpr, UComp}} {
		x := x
		if c := try(func() *Cmd {
			l := p.list(x.letter, x.op)
			if l == nil {
				return nil
			}
			c := &Cmd{Rolls: l}
			if x.op != "B" {
				c.Th = p.threshold()
			}
			if x.op == "U" {
				for {
					save := p.p
					sign := ""
					if p.eat('+') {
						sign = "+"
					} else if p.eat('-') {
						sign = "-"
					} else {
						break
					}
					n := p.multitive(cInt)
					if n == nil {
						p.p = save
						break
					}
					c.Bonus = append(c.Bonus, Term{sign, n})
				}
			}
			return p.tail(c, x.plain, x.compT)
		}); c != nil {
			return c
		}
	}
	return try(func() *Cmd {
		n := p.additive(cD)
		if n == nil {
			return nil
		}
		if n.Count(KRoll)+n.Count(KRand) == 0 {
			return nil
		}
		return p.tail(&Cmd{E: n}, DExpr, DComp)
	})
}

// SplitSecret removes one leading secret marker.
func SplitSecret(s string) (string, bool) {
	if strings.HasPrefix(s, "S") || strings.HasPrefix(s, "s") {
		return s[1:], true
	}
	return s, false
}

// FirstPart is the text up to the first ASCII white space.
func FirstPart(s string) string {
	if i := strings.IndexAny(s, "\t\n\f\r "); i >= 0 {
		return s[:i]
	}
	return s
}

// ParseLine parses a command line: the secret marker, the command and an optional comment.
func ParseLine(s string) (*Cmd, bool) {
	rest, secret := SplitSecret(s)
	c := Parse(rest)
	if c == nil {
		c = Parse(FirstPart(rest))
	}
	return c, secret
}
