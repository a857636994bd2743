//go:build c22 || all

package main

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"github.com/raa0121/GoBCDice/pkg/core/dice"
	dbtest "github.com/raa0121/GoBCDice/pkg/dicebot/testing"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
	"verif/sut"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C22", Quick: 60000, Thorough: 2000000,
		Rule: "two or more test cases with dice among them, or a dice list of two dice or more, or a list that is not a dice list",
		Assumptions: []string{
			"lines of a test case do not start with output: or rand: and are not the separator line (the format could not tell them apart), there is some input, and the output does not start with an empty line",
			"values and sides of dice are not negative; those that do not fit in an int are an error",
		},
	}, genC22, runC22, fixedC22()...)
	fw.Sweep("C22", "as dice lists, all sequences of up to 5 of the tokens 1 / 6 , blank - 10 a tab (thorough: 6); lists of n dice for n to 300", func(deep bool, yield func(*TDFiles) bool) {
		sweepTexts([]string{"1", "/", "6", ",", " ", "-", "10", "a", "\t"}, upTo(deep, 5, 6), func(s string) bool { return yield(&TDFiles{Game: "G", List: s}) })
		for n := 1; n <= 300; n++ {
			var l []string
			for i := 1; i <= n; i++ {
				l = append(l, itoa(i)+"/"+itoa(i*(n+i)%997+1))
			}
			if !yield(&TDFiles{Game: "G", List: strings.Join(l, []string{",", ", "}[n%2])}) {
				return
			}
		}
	})
}

// TDCase is one test case.
type TDCase struct {
	Input  []string    `json:"input"`
	Output string      `json:"output"`
	Dice   []model.Die `json:"dice"`
	// DiceText is how the dice are written.
	DiceText string `json:"dice_text"`
	NLs      int    `json:"nls"` // line ends between "output:" and the output
	// Break says how the written case is spoiled ("": it is well formed).
	Break string `json:"break,omitempty"`
}

// TDFiles is a set of test-data files, and a dice list text.
type TDFiles struct {
	Game  string     `json:"game"`
	Index int        `json:"index"`
	Files [][]TDCase `json:"files"`
	Tail  []int      `json:"tail"`  // line ends at the end of each file
	Order []int      `json:"order"` // the files parsed, by number; -1: one that does not exist
	List  string     `json:"list"`  // a text for ParseDice
}

const tdSeparator = "\n============================\n"

func genTDLine(t *rapid.T, g *gen.G) string {
	switch fw.Weighted(t, 5, 2, 3, 1) {
	case 0:
		return g.AnyRoll().S
	case 1:
		return mutate(t, g.AnyRoll().S)
	case 2:
		return fw.OneOf(t, "", " ", "input:", " output:", " rand:", "=", strings.Repeat("=", 27), strings.Repeat("=", 29), "============================ ", " ============================", "DiceBot : (2D6) ＞ 5[4,1] ＞ 5###secret dice###", "Output:x", "rand", "output", "1/6,2/6", "\t2D6", "２Ｄ６", "2d6 ", "comment : x", "a\rb", "\r", "outputs:", "%s%d", `\n`, "\"x\"")
	}
	return strings.Repeat(fw.OneOf(t, "あ", "x", "1+"), fw.OneOf(t, 3, 50, 3000))
}

func tdLineOK(s string) bool {
	return !strings.Contains(s, "\n") && !strings.HasPrefix(s, "output:") && !strings.HasPrefix(s, "rand:") && s != strings.Repeat("=", 28) && validUTF8(s)
}

func genSomeDice(t *rapid.T) []model.Die {
	n := fw.OneOf(t, 0, 1, 1, 2, 3, 5, 8, 30)
	if fw.Coin(t, 5) {
		n = fw.OneOf(t, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257, 300, 1000, 1025)
	}
	var ds []model.Die
	for i := 0; i < n; i++ {
		s := fw.OneOf(t, 6, 6, 6, 6, 10, 100, 1, 20, 0, 127, 128, 255, 256, 257, 1000, 32768, 65535, 65536, 1000000, 2147483647, 2147483648, 4294967296, 9223372036854775807)
		v := fw.IntIn(t, 0, 12)
		if s > 12 && fw.Coin(t, 30) {
			v = s - fw.IntIn(t, 0, 3)
		}
		ds = append(ds, model.Die{Value: v, Sides: s})
	}
	return ds
}

// writeDice writes a dice list, in the plain forms or with odd spacing and zeros.
func writeDice(t *rapid.T, ds []model.Die, newlines bool) string {
	switch fw.Pick(t, 3) {
	case 0:
		return dice.FormatDice(sut.ToDice(ds))
	case 1:
		return dice.FormatDiceWithoutSpaces(sut.ToDice(ds))
	}
	sp := func() string {
		if !fw.Coin(t, 25) {
			return ""
		}
		s := fw.OneOf(t, " ", "  ", "\t", " \t", "\r")
		if newlines && fw.Coin(t, 20) {
			s = "\n"
		}
		return s
	}
	var l []string
	for _, d := range ds {
		z := func() string {
			if fw.Coin(t, 8) {
				return fw.OneOf(t, "0", "00")
			}
			return ""
		}
		l = append(l, sp()+z()+strconv.Itoa(d.Value)+"/"+z()+strconv.Itoa(d.Sides)+sp())
	}
	return strings.Join(l, ",")
}

var badDice = []string{"x", "1/6,", ",1/6", "1/6 2/6", "1-6", "-1/6", "1/-6", "1/6/6", "1 / 6", "1/ 6", " ", "1/6,,2/6", "１/６", "a/6", "1/b", "1/6;2/6", "/", "1/", "/6", "1/6,x", "1/6.0", "+1/6", "0x1/6", "1_0/6", "rand:1/6", "1/6\u3000", "1/6\u00a0,2/6", "9223372036854775808/6", "1/9223372036854775808", "1/6,99999999999999999999999/6"}

func genC22(t *rapid.T) *TDFiles {
	g := gen.New(t)
	g.Dice = 6
	c := &TDFiles{Game: fw.OneOf(t, "DiceBot", "Cthulhu", "", "クトゥルフ", "a#b", "%d"), Index: fw.OneOf(t, 1, 2, 7, 0, -3, 1000)}
	nf := fw.OneOf(t, 0, 1, 1, 1, 2, 3)
	broken := false
	for i := 0; i < nf; i++ {
		var f []TDCase
		nc := fw.OneOf(t, 1, 1, 2, 3, 5, 12)
		for j := 0; j < nc; j++ {
			k := TDCase{NLs: fw.OneOf(t, 1, 1, 1, 1, 0, 2), Dice: genSomeDice(t)}
			k.DiceText = writeDice(t, k.Dice, j < nc-1 || len(k.Dice) == 0)
			for l, n := 0, fw.OneOf(t, 1, 1, 1, 2, 3, 6); l < n; l++ {
				x := genTDLine(t, g)
				if !tdLineOK(x) {
					x = "2D6"
				}
				k.Input = append(k.Input, x)
			}
			if len(k.Input) == 1 && k.Input[0] == "" {
				k.Input[0] = "2D6"
			}
			var out []string
			for l, n := 0, fw.OneOf(t, 0, 1, 1, 1, 1, 2, 4); l < n; l++ {
				x := genTDLine(t, g)
				if !tdLineOK(x) || l == 0 && x == "" {
					x = "DiceBot : (2D6) ＞ 5[4,1] ＞ 5"
				}
				out = append(out, x)
			}
			k.Output = strings.Join(out, "\n")
			if fw.Coin(t, 2) && !broken {
				broken = true
				k.Break = fw.OneOf(t, "noinput", "inputword", "nooutput", "norand", "dice", "empty", "lead", "bom", "space", "case")
				if k.Break == "dice" {
					k.DiceText = fw.OneOf(t, badDice[:len(badDice)-3]...) // not those with numbers out of range
				}
			}
			f = append(f, k)
		}
		c.Files = append(c.Files, f)
		c.Tail = append(c.Tail, fw.OneOf(t, 0, 1, 1, 1, 2, 5))
		c.Order = append(c.Order, i)
	}
	if nf > 0 && fw.Coin(t, 20) {
		c.Order = append(c.Order, fw.Pick(t, nf)) // a file twice
	}
	if fw.Coin(t, 2) {
		p := fw.IntIn(t, 0, len(c.Order))
		c.Order = append(c.Order[:p:p], append([]int{-1}, c.Order[p:]...)...)
	}
	switch fw.Weighted(t, 6, 2, 3) {
	case 0:
		c.List = writeDice(t, genSomeDice(t), true)
	case 1:
		c.List = fw.OneOf(t, badDice...)
	case 2:
		c.List = mutate(t, writeDice(t, genSomeDice(t), true))
	}
	return c
}

// source writes a case.
func (k *TDCase) source() string {
	in, out, rnd := "input:\n", "\noutput:", "\nrand:"
	switch k.Break {
	case "noinput":
		in = "Input:\n"
	case "inputword":
		in = "input :\n"
	case "nooutput":
		out = "\n"
	case "norand":
		rnd = "\n"
	case "empty":
		return ""
	case "lead":
		in = "\n" + in
	case "bom":
		in = "\ufeff" + in
	case "space":
		in = " " + in
	case "case":
		in = strings.ToUpper(in)
	}
	return in + strings.Join(k.Input, "\n") + out + strings.Repeat("\n", k.NLs) + k.Output + rnd + k.DiceText
}

// diceList decides what a dice list text means. big: it is one but for
// numbers beyond the range of integers (given as the largest integer).
func diceList(s string) (ds []model.Die, ok, big bool) {
	if s == "" {
		return nil, true, false
	}
	num := func(x string) (int, bool) {
		if x == "" {
			return 0, false
		}
		for _, r := range x {
			if r < '0' || r > '9' {
				return 0, false
			}
		}
		n, err := strconv.Atoi(x)
		big = big || err != nil // no die has a number beyond the range
		return n, true
	}
	ok = true
	for _, p := range strings.Split(s, ",") {
		a, b, found := strings.Cut(strings.Trim(p, " \t\n\r\f"), "/")
		v, ok1 := num(a)
		n, ok2 := num(b)
		if !found || !ok1 || !ok2 {
			ok = false
			continue
		}
		ds = append(ds, model.Die{Value: v, Sides: n})
	}
	return ds, ok && !big, ok && big
}

// knownBigDice: such a number is read as the largest integer instead of being an error.
const knownBigDice = "a number beyond the integer range in a list of dice"

func (k *TDCase) check(got *dbtest.DiceBotTestCase, game string, index int) error {
	switch {
	case got == nil:
		return errf("no test case, and no error")
	case got.GameID != game || got.Index != index:
		return errf("the test case is %s#%d, want %s#%d", got.GameID, got.Index, game, index)
	case got.Output != k.Output:
		return errf("output %q, want %q", got.Output, k.Output)
	case len(got.Input) != len(k.Input):
		return errf("input %q, want %q", got.Input, k.Input)
	case !sut.SameDice(sut.FromDice(got.Dice), k.Dice):
		return errf("dice %s, want %s", sut.ShowDice(sut.FromDice(got.Dice)), sut.ShowDice(k.Dice))
	}
	for i := range k.Input {
		if got.Input[i] != k.Input[i] {
			return errf("input %q, want %q", got.Input, k.Input)
		}
	}
	return nil
}

var (
	tdOnce sync.Once
	tdDir  string
)

func tdPath(n int) string {
	tdOnce.Do(func() {
		d, err := os.MkdirTemp(os.Getenv("VH_TMP"), "testdata-")
		if err != nil {
			panic("harness: " + err.Error())
		}
		tdDir = d
	})
	return filepath.Join(tdDir, "f"+itoa(n)+".txt")
}

func runC22(c *TDFiles, m *fw.Meta) error {
	// single cases
	total, dicey, anyBroken := 0, 0, false
	for _, f := range c.Files {
		for i := range f {
			k := &f[i]
			total++
			if len(k.Dice) > 0 {
				dicey++
			}
			src := k.source()
			got, err := dbtest.Parse(src, c.Game, c.Index)
			if k.Break != "" {
				anyBroken = true
				m.Class(true, "malformed case")
				if _, _, big := diceList(k.DiceText); k.Break == "dice" && big {
					panic("harness: the list of the malformed case is " + k.DiceText)
				}
				if err == nil || got != nil {
					return errf("Parse(%q) accepts a malformed case (%s): %+v", src, k.Break, got)
				}
				continue
			}
			if err != nil {
				return errf("Parse(%q): %v", src, err)
			}
			if err := k.check(got, c.Game, c.Index); err != nil {
				return errf("Parse(%q): %v", src, err)
			}
		}
	}
	// files
	for i, f := range c.Files {
		var src []string
		for j := range f {
			src = append(src, f[j].source())
		}
		if err := os.WriteFile(tdPath(i), []byte(strings.Join(src, tdSeparator)+strings.Repeat("\n", c.Tail[i])), 0o644); err != nil {
			panic("harness: " + err.Error())
		}
	}
	var paths []string
	var want []*TDCase
	var wantErr bool
	for _, o := range c.Order {
		if o < 0 || o >= len(c.Files) {
			paths = append(paths, tdPath(9999))
			wantErr = true
			continue
		}
		paths = append(paths, tdPath(o))
		for j := range c.Files[o] {
			want = append(want, &c.Files[o][j])
			wantErr = wantErr || c.Files[o][j].Break != ""
		}
	}
	check := func(what string, got []*dbtest.DiceBotTestCase, want []*TDCase) error {
		if len(got) != len(want) {
			return errf("%s returns %d cases of %d", what, len(got), len(want))
		}
		for i, k := range want {
			if err := k.check(got[i], c.Game, i+1); err != nil {
				return errf("%s, case %d: %v", what, i+1, err)
			}
			for j := 0; j < i; j++ {
				if got[j] == got[i] {
					return errf("%s returns the same object as case %d and %d", what, j+1, i+1)
				}
			}
		}
		return nil
	}
	got, err := dbtest.ParseFiles(paths, c.Game)
	if wantErr {
		if err == nil || len(got) != 0 {
			return errf("ParseFiles returns %d cases and the error %v, an error was due", len(got), err)
		}
	} else {
		if err != nil {
			return errf("ParseFiles: %v", err)
		}
		if err := check("ParseFiles", got, want); err != nil {
			return err
		}
	}
	for i, f := range c.Files {
		var want []*TDCase
		bad := false
		for j := range f {
			want = append(want, &f[j])
			bad = bad || f[j].Break != ""
		}
		got, err := dbtest.ParseFile(tdPath(i), c.Game)
		if bad {
			if err == nil || len(got) != 0 {
				return errf("ParseFile returns %d cases and the error %v, an error was due", len(got), err)
			}
			continue
		}
		if err != nil {
			return errf("ParseFile: %v", err)
		}
		if err := check("ParseFile", got, want); err != nil {
			return err
		}
	}
	// a dice list text
	ds, ok, big := diceList(c.List)
	{
		got, err := dbtest.ParseDice(c.List)
		if big && err == nil {
			if !sut.SameDice(sut.FromDice(got), ds) {
				return errf("ParseDice(%q) = %v, an error was due", c.List, got)
			}
			m.Known = knownBigDice
		} else if ok != (err == nil) {
			return errf("ParseDice(%q) = %v, %v; a dice list: %v", c.List, got, err, ok)
		}
		if m.Known != "" {
		} else if ok {
			if !sut.SameDice(sut.FromDice(got), ds) {
				return errf("ParseDice(%q) = %v, want %s", c.List, got, sut.ShowDice(ds))
			}
			real := sut.ToDice(ds)
			var l []string
			for _, d := range ds {
				l = append(l, itoa(d.Value)+"/"+itoa(d.Sides))
			}
			for _, x := range []struct{ got, sep string }{{dice.FormatDice(real), ", "}, {dice.FormatDiceWithoutSpaces(real), ","}} {
				if w := strings.Join(l, x.sep); x.got != w {
					return errf("the dice %s are formatted as %q, want %q", sut.ShowDice(ds), x.got, w)
				}
				back, err := dbtest.ParseDice(x.got)
				if err != nil || !sut.SameDice(sut.FromDice(back), ds) {
					return errf("the formatted dice %q parse as %v, %v", x.got, back, err)
				}
			}
			if !sut.SameDice(sut.FromDice(real), ds) {
				return errf("formatting changed the dice")
			}
		} else if len(got) != 0 {
			return errf("ParseDice(%q) returns dice and an error", c.List)
		}
	}
	m.NonTrivial = total >= 2 && dicey > 0 || len(ds) >= 2 || !ok
	m.Class(!ok, "not a dice list")
	m.Class(ok && len(ds) > 1, "dice list")
	m.Class(len(c.Order) > 1, "several files")
	m.Class(anyBroken, "malformed file")
	m.Class(len(c.Order) > len(c.Files), "a file repeated or missing")
	return nil
}

func fixedC22() []*TDFiles {
	k := func(in ...string) TDCase { return TDCase{Input: in, NLs: 1} }
	var out []*TDFiles
	for i, l := range append([]string{"", "1/6", "0/0", "1/6,\n2/6\n", "\t1/6 , 06/06\r"}, badDice...) {
		a, b := k("2D6"), k("1D6", "", "x")
		a.Output, a.Dice, a.DiceText = "x", []model.Die{{Value: 3, Sides: 6}, {Value: 6, Sides: 6}}, "3/6,6/6"
		out = append(out, &TDFiles{Game: "DiceBot", Index: i, Files: [][]TDCase{{a, b}, {b}}, Tail: []int{1, 0}, Order: []int{0, 1, 0}, List: l})
	}
	for _, br := range []string{"noinput", "inputword", "nooutput", "norand", "empty", "lead", "bom", "space", "case"} {
		a, b := k("2D6"), k("2D6")
		a.Break = br
		out = append(out, &TDFiles{Game: "DiceBot", Files: [][]TDCase{{b}, {b, a, b}}, Tail: []int{1, 1}, Order: []int{0, 1}})
		out = append(out, &TDFiles{Game: "DiceBot", Files: [][]TDCase{{b}, {a, b}}, Tail: []int{1, 1}, Order: []int{0, 1}}, &TDFiles{Game: "DiceBot", Files: [][]TDCase{{a, b}, {b}}, Tail: []int{1, 1}, Order: []int{0, 1}})
	}
	return out
}
