//go:build c17 || all

package main

import (
	"bytes"
	"regexp"
	"runtime/metrics"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
	"verif/sut"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C17", Quick: 70000, Thorough: 3000000,
		Rule: "the input is longer than 3 bytes and looks like part of a command: it contains a digit, bracket or command letter",
		Assumptions: []string{
			"parser steps are the grammar expressions it evaluates (parser.Statistics); the bound is 3000 + 300 n + 80 n^2 for n input bytes, about 2.5 times what the worst known nesting takes, and repeating a nesting four times as often may take at most 18 times the steps",
			"a command starting with k nested parentheses takes about k^2 steps, so nestings are generated up to a few hundred levels, and inputs of tens of kilobytes are flat or nested in the places where the parser is linear",
			"a case hangs when it takes more than 40 s of processor time; the memory a command may allocate is 256 MB and 20 kB per step of the parser, some ten times what the most expensive known ones take",
		},
	}, genC17, runC17, fixedC17()...)
	fw.Sweep("C17", "all inputs of up to two bytes, all sequences of up to three of 24 tokens, with an empty or a working source; "+scopeSlots+", with working sources of each kind", func(deep bool, yield func(*BytesCase) bool) {
		i := 0
		if !sweepSlots(func(s string) bool {
			i++
			return yield(&BytesCase{Data: []byte(s), Script: scriptT{Vals: slotDice()}}) &&
				yield(&BytesCase{Data: []byte(s), Script: scriptT{Seed: uint64(i)}, Source: 1 + i%2, Queue: i % 9})
		}) {
			return
		}
		do := func(s string) bool {
			return yield(&BytesCase{Data: []byte(s), Source: 1}) && yield(&BytesCase{Data: []byte(s), Script: scriptT{Seed: 1}})
		}
		for a := 0; a < 256; a++ {
			if !do(string([]byte{byte(a)})) {
				return
			}
			for b := 0; b < 256; b++ {
				if !yield(&BytesCase{Data: []byte{byte(a), byte(b)}, Source: 1 - b%2}) {
					return
				}
			}
		}
		sweepTexts(smallTokens, upTo(deep, 3, 4), do)
	})
}

// BytesCase is any input, with a die source.
type BytesCase struct {
	Data   []byte  `json:"data,omitempty"`
	Pre    string  `json:"pre,omitempty"` // repeated K times before Core
	Core   string  `json:"core,omitempty"`
	Post   string  `json:"post,omitempty"`
	Head   string  `json:"head,omitempty"`
	K      int     `json:"k,omitempty"`
	Source int     `json:"source"` // 0 script, 1 queue, 2 MT19937
	Queue  int     `json:"queue,omitempty"`
	Script scriptT `json:"dice"`
}

func (c *BytesCase) text(k int) string {
	if c.K == 0 {
		return string(c.Data)
	}
	return c.Head + strings.Repeat(c.Pre, k) + c.Core + strings.Repeat(c.Post, k) + string(c.Data)
}

var byteTokens = []string{"\xff", "\xe3\x81", "\xc3\x28", "\x00", "\x80", "\xf0\x9f", "\xed\xa0\x80", "\xef\xbb\xbf", "\x7f", "\x1b[", "İ", "ı", "K", "ſ", "0x1", "1e9", "1_0", "٣", "-9223372036854775808", "(0-9223372036854775807-1)", "4611686018427387904*2", "9223372036854775807", "1D9223372036854775807", "100000D6", "100001D6", "99999B1", "100000R6[2]", "100000U2[2]", "1R1[2]", "5000R2[2]", "0D6", "1D0", "[1...9223372036854775807]", "/0", "CHOICE[", ",,,", "]]"}

func genC17(t *rapid.T) *BytesCase {
	g := gen.New(t)
	g.Wild = fw.OneOf(t, 0, 10, 30)
	c := &BytesCase{Script: *gen.Script(t)}
	c.Source = fw.OneOf(t, 0, 0, 0, 1, 2)
	c.Queue = fw.OneOf(t, 0, 1, 5, 100)
	if fw.Coin(t, 25) {
		switch fw.Pick(t, 3) {
		case 0:
			c.Script.FailAt = fw.OneOf(t, 1, 2, 3, 10)
		case 1:
			c.Script.BadAt, c.Script.BadKind = fw.OneOf(t, 1, 2, 5), fw.Pick(t, 3)
		case 2: // everything explodes
			c.Script.ExpAt, c.Script.Exp = 1, 200000
		}
	}
	var b []byte
	switch fw.Weighted(t, 8, 12, 40, 10, 14, 6, 10, 5) {
	case 0: // any bytes
		n := fw.IntIn(t, 0, 24)
		for i := 0; i < n; i++ {
			b = append(b, byte(fw.Bits(t, 8)))
		}
	case 1: // tokens
		n := fw.IntIn(t, 1, 10)
		for i := 0; i < n; i++ {
			if fw.Coin(t, 30) {
				b = append(b, fw.OneOf(t, byteTokens...)...)
			} else {
				b = append(b, fw.OneOf(t, tokens...)...)
			}
		}
	case 2: // an edited command
		b = []byte(g.Any().S)
		if fw.Coin(t, 20) {
			b = append([]byte{fw.OneOf(t, byte('S'), 's')}, b...)
		}
		if fw.Coin(t, 15) {
			b = append(append(b, ' '), g.Any().S...)
		}
		b = mutateBytes(t, b)
	case 3: // two commands spliced
		x, y := []byte(g.Any().S), []byte(g.Any().S)
		b = append(append([]byte{}, x[:fw.IntIn(t, 0, len(x))]...), y[fw.IntIn(t, 0, len(y)):]...)
	case 4: // nested: the same text around a core many times
		c.K = fw.OneOf(t, 1, 2, 4, 8, 16, 24, 32, 40)
		n := fw.IntIn(t, 1, 3)
		for i := 0; i < n; i++ {
			c.Pre += fw.OneOf(t, "(", "(", "(", "1+(", "2*(", "1/(", "(1+", "-", "+", "-(", "((", "[1...", "2D(", "(2D", "1/2", "*", "1D6+", "2B6+", "C(", "1/1R/(", "1-", "[(", "1B(", "1R(", "1U(", ",")
		}
		n = fw.IntIn(t, 0, 3)
		for i := 0; i < n; i++ {
			c.Post += fw.OneOf(t, ")", ")", ")", ")/2", ")/2U", ")/(3)", "]", "+1", ")D6", ")D(6)", ")B6", ")R6", ")U6", "*2", "-1", ">=1", "[5]", ")-1D6", "/1R")
		}
		c.Core = fw.OneOf(t, "1", "1D6", "2", "", "1B6", "1R6[5]", "1U6[5]", "[1...2]", "x", "9", "1/2", "1D6/2R")
		c.Head = fw.OneOf(t, "", "", "", "", "C(", "1D6>=", "1D6+", "2B6>=", "2R6[", "2U6[5]+", "S", "CHOICE[", "1D6/", "1D", "1B")
		if fw.Coin(t, 40) {
			b = []byte(fw.OneOf(t, ")", "]", ">=1", "+1D6", "D6", "x", " x"))
		}
	case 5: // long and flat
		x := fw.OneOf(t, "1D6+", "1+", "9", "a", "あ", "1B6+", "1R6+", "1U6+", "a,", ",", " ", "\xff", "C(1)", "2D6\n", "*2", "1*1-", "1D1/1U+", "-", "+", "[1...2]D6+", "(1)D6+", "S", "\n", "1D6>", "1D6[", "3/")
		n := fw.OneOf(t, 100, 1000, 5000, 20000) / len(x)
		head, tail := fw.OneOf(t, "", "", "C(", "CHOICE[", "1D6>=", "2R6[", "1U6[5]+", "1B6>=", "S"), fw.OneOf(t, "", "1", "1D6", "1B6", "1R6[6]", "1U6[6]", "]", ")", "1)", "a]", "0", "x")
		b = []byte(head + strings.Repeat(x, n) + tail)
	case 6: // big work
		g.Big, g.Long = true, true
		b = []byte(g.Any().S)
		if fw.Coin(t, 30) { // a number of many millions
			r := numberRe.FindAllIndex(b, -1)
			if len(r) > 0 {
				p := r[fw.Pick(t, len(r))]
				x := fw.OneOf(t, "30000000", "99999999", "200000000", "268435455", "268435456", "999999999", "2147483647", "2147483648", "4294967296", "30000000000")
				b = append(append(append([]byte{}, b[:p[0]]...), x...), b[p[1]:]...)
			}
		}
		if fw.Coin(t, 30) {
			b = mutateBytes(t, b)
		}
	case 7: // next to nothing: a letter or none, and white space
		b = []byte(fw.OneOf(t, "", "S", "s", "SS", "C", "C(", "1", "D", "S1", "SC(", "choice", "CHOICE[", "S[", "]", "\u3000", "S\u3000", "Ｓ"))
		for n := fw.IntIn(t, 0, 4); n > 0; n-- {
			b = append(b, fw.OneOf(t, " ", " ", "\t", "\n", "\r", "\v", "\f", "\u3000", "\u00a0", "\u0085", "\x00")...)
		}
		if fw.Coin(t, 30) {
			b = append(b, fw.OneOf(t, "S", "2D6", "x", "1", "(", "C(1)")...)
		}
	}
	c.Data = b
	return c
}

var numberRe = regexp.MustCompile(`[0-9]+`)

func mutateBytes(t *rapid.T, b []byte) []byte {
	n := fw.OneOf(t, 0, 1, 1, 1, 2, 4)
	for i := 0; i < n; i++ {
		p := fw.IntIn(t, 0, len(b))
		switch fw.Pick(t, 7) {
		case 0:
			x := []byte(fw.OneOf(t, tokens...))
			b = append(append(append([]byte{}, b[:p]...), x...), b[p:]...)
		case 1:
			x := []byte(fw.OneOf(t, byteTokens...))
			b = append(append(append([]byte{}, b[:p]...), x...), b[p:]...)
		case 2:
			b = append([]byte{}, b[:p]...)
		case 3:
			if p < len(b) {
				b = append([]byte{}, b...)
				b[p] ^= 1 << fw.Pick(t, 8)
			}
		case 4:
			if p < len(b) {
				q := min(len(b), p+fw.IntIn(t, 1, 5))
				b = append(append([]byte{}, b[:p]...), b[q:]...)
			}
		case 5:
			if p < len(b) {
				q := min(len(b), p+fw.IntIn(t, 1, 8))
				b = append(append(append([]byte{}, b[:q]...), b[p:q]...), b[q:]...)
			}
		case 6:
			if p < len(b) {
				b = append([]byte{}, b...)
				b[p] = byte(fw.Bits(t, 8))
			}
		}
	}
	return b
}

func stepBound(n int) uint64 { return 3000 + 300*uint64(n) + 80*uint64(n)*uint64(n) }

// steps counts the parser's steps; it fails when they exceed the bound.
func steps(text string) (uint64, error) {
	st := &parser.Stats{}
	lim := stepBound(len(text))
	parser.Parse("input", []byte(text), parser.Statistics(st, "no match"), parser.MaxExpressions(lim+10))
	if st.ExprCnt > lim {
		return st.ExprCnt, errf("parsing %q (%d bytes) takes more than %d steps", clip(text), len(text), lim)
	}
	return st.ExprCnt, nil
}

var allocMetric = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// allocated is the memory this process (which executes one command at a time) has allocated.
func allocated() uint64 {
	metrics.Read(allocMetric)
	return allocMetric[0].Value.Uint64()
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func runC17(c *BytesCase, m *fw.Meta) error {
	text := c.text(c.K)
	small := len(text)
	if c.K > 0 && c.K <= 64 { // growth: the same nesting 1, 2 and 4 times as often
		var cnt [3]uint64
		for i, k := range []int{c.K, 2 * c.K, 4 * c.K} {
			s := c.text(k)
			if len(s) > 350 {
				break
			}
			n, err := steps(s)
			if err != nil {
				return err
			}
			cnt[i] = n
		}
		if cnt[2] > 18*cnt[0]+20000 {
			return errf("%q %q %q: nested %d times %d steps, %d times %d steps", c.Pre, c.Core, c.Post, c.K, cnt[0], 4*c.K, cnt[2])
		}
		m.Class(cnt[2] > 0, "growth measured")
	}
	nsteps, err := steps(text)
	if err != nil {
		return err
	}
	if f := model.FirstPart(text); f != text {
		n, err := steps(f)
		if err != nil {
			return err
		}
		nsteps = max(nsteps, n)
	}
	if len(text) > 0 && (text[0] == 's' || text[0] == 'S') { // without the marker it may be a command
		n, err := steps(text[1:])
		if err != nil {
			return err
		}
		nsteps = max(nsteps, n)
		if f := model.FirstPart(text[1:]); f != text[1:] {
			if n, err = steps(f); err != nil {
				return err
			}
			nsteps = max(nsteps, n)
		}
	}
	var g *sut.Got
	before := allocated()
	switch c.Source {
	case 0:
		s := c.Script
		f := &sut.Feeder{S: &s, Max: 100000}
		g, err = sut.ExecOn(bcdice.New(f), f, text)
	case 1:
		s := c.Script
		s.FailAt, s.BadAt = 0, 0
		q := feeder.NewEmptyQueue()
		// dice that fit the command as far as the model can tell, then six-sided ones
		w := sut.Model(text, &s)
		for i := 0; i < c.Queue; i++ {
			sides := 6
			if i < len(w.Reqs) {
				sides = w.Reqs[i]
			}
			d, _ := s.Die(i+1, sides)
			q.Push(sut.ToDice([]model.Die{d})[0])
		}
		r, e := bcdice.New(q).ExecuteCommand(text)
		g, err = sut.FromResult(r, e)
	case 2:
		r, e := bcdice.New(feeder.NewMT19937(int64(c.Script.Seed))).ExecuteCommand(text)
		g, err = sut.FromResult(r, e)
	}
	used := allocated() - before
	if lim := 256<<20 + 20000*nsteps; used > lim {
		return errf("%q: executing it allocates %d bytes of memory, after %d steps of parsing", clip(text), used, nsteps)
	}
	if err != nil {
		return errf("%q: %v", clip(text), err)
	}
	if g.Err && g.ErrText == "" {
		return errf("%q: an error without text", clip(text))
	}
	if len(g.Dice) > 100000 {
		return errf("%q: %d dice drawn", clip(text), len(g.Dice))
	}
	m.NonTrivial = small > 3 && bytes.ContainsAny([]byte(text), "0123456789()[]DBRUCdbruc")
	m.Class(!g.Err, "answered")
	m.Class(g.Err, "error")
	m.Class(!g.Err && len(g.Dice) > 1000, "more than 1000 dice")
	m.Class(small > 2000, "longer than 2000 bytes")
	m.Class(!validUTF8(text), "not UTF-8")
	m.Class(c.K > 0, "nested")
	m.Class(c.Source == 1, "queue source")
	m.Class(c.Source == 2, "random source")
	m.Class(c.Script.FailAt > 0 || c.Script.BadAt > 0, "faulty source")
	return nil
}

func fixedC17() []*BytesCase {
	var out []*BytesCase
	for _, s := range []string{"", "S", "s", "SS", " ", "\n", "S ", "s  ", "S\t", "S\n", "S \n", " S", "SS ", "\u3000", "S\u3000", "  ", "1 ", "C( ", "CHOICE[ ", "\x00", "\xff", "S\xff", "S\xe3", "C(", "C()", "[", "CHOICE[", "CHOICE[a", "2D", "D6", "2D6>=", "2R6[", "2R6[]", "[1...", "1D6/", "1D6/0", "(0-9223372036854775807-1)D6", "C((0-9223372036854775807-1)/(0-1))", "C((0-9223372036854775807-1)/(0-1)R)", "C((0-9223372036854775807-1)/(0-1)U)", "C((0-9223372036854775807-1)*(0-1))", "C(-(0-9223372036854775807-1))", "[(0-9223372036854775807-1)...9223372036854775807]D6", "[0...9223372036854775807]D6", "1U6[5]+9223372036854775807", "1U6[5]-9223372036854775807-9", "1D9223372036854775807+1D9223372036854775807", "100000D6", "100001D6", "99999999999D6", "9223372036854775807D6", "100000B6>=3", "100000R6[2]", "10000U1[2]", "1R1[1]", "1U1[0]", "9999R2[2]>=1", "1D6/(1D6-1D6)", "100000D1+1D1", "1D[1...200000000]", "[1...200000000]D6", "[100000000...300000000]B6", "2D200000000", "2D6>=200000000", "2B200000000>=100000000", "2R200000000[199999999]", "2U200000000[199999999]", "2D6+200000000", "2D6*200000000", "C(200000000)", "C(200000000/200000000)", "200000000D6", "[1...[1...200000000]]D6", "2U6[200000000]", "2R6[200000000]", "100000D1*100000D1",
		strings.Repeat("(", 150), strings.Repeat("-", 10000) + "1D6", "C(" + strings.Repeat("-", 20000) + "1)", "C(" + strings.Repeat("(", 8000) + "1" + strings.Repeat(")", 8001), strings.Repeat("1D6+", 9999) + "1D6", strings.Repeat("9", 30000), "CHOICE[" + strings.Repeat("a,", 20000) + "b]", strings.Repeat("\xff", 20000), strings.Repeat(" ", 30000), "2D6" + strings.Repeat("\n", 30000), strings.Repeat("1R6+", 12000) + "1R6[7]", strings.Repeat("1U6+", 12000) + "1U6[7]", strings.Repeat("1B6+", 12000) + "1B6"} {
		for src := 0; src < 3; src++ {
			out = append(out, &BytesCase{Data: []byte(s), Source: src, Script: scriptT{Seed: 7}, Queue: 5})
		}
		out = append(out, &BytesCase{Data: []byte(s), Script: scriptT{ExpAt: 1, Exp: 200000}}, &BytesCase{Data: []byte(s), Script: scriptT{FailAt: 1}}, &BytesCase{Data: []byte(s), Script: scriptT{BadAt: 1, BadKind: 2}})
	}
	return out
}
