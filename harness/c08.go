//go:build c08 || all

package main

import (
	"strings"
	"unicode"

	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
)

// ChoiceCase is a choice with its items and the die's value.
type ChoiceCase struct {
	Cmd   string   `json:"cmd"`
	Items []string `json:"items"`
	Value int      `json:"value"` // 0: every value in turn
}

func init() {
	fw.Register(fw.Prop{
		ID: "C08", Quick: 200000, Thorough: 6000000,
		Rule: "at least two items",
		Assumptions: []string{
			"an item does not itself start with white space, and no blank item stands first or last; in the middle an item of tabs or line ends is an empty item",
			"for up to 12 items every die value is tried, above that one drawn value and the last",
		},
	}, genC08, runC08, fixedC08()...)
	fw.Sweep("C08", "CHOICE of n items for n to 150 (thorough 400), every die value; items of four kinds of text of growing length to 5000 repetitions (thorough 200000); items with each character of some blocks (thorough: all characters)", func(deep bool, yield func(*ChoiceCase) bool) {
		someRunes(deep, func(r rune) bool {
			if r == ',' || r == ']' {
				return true
			}
			x := "x" + string(r) + "y"
			if !yield(&ChoiceCase{Cmd: "CHOICE[" + x + ",z]", Items: []string{x, "z"}}) {
				return false
			}
			if unicode.IsSpace(r) {
				return true
			}
			x, y := "x"+string(r), string(r)+"y"
			return yield(&ChoiceCase{Cmd: "CHOICE[" + x + "," + y + "," + string(r) + "]", Items: []string{x, y, string(r)}})
		})
		for n := 10; n <= upTo(deep, 5000, 200000); n = n*5/4 + 1 {
			for i, r := range []string{"x", "あ", "a ", "x\t"} {
				l := strings.Repeat(r, n) + "z"
				items := []string{"a", l, l[:len(l)-1] + "y"}
				if i%2 == 0 {
					items = []string{l, "b"}
				}
				if !yield(&ChoiceCase{Cmd: "CHOICE[" + strings.Join(items, ",") + "]", Items: items}) {
					return
				}
			}
		}
		var items []string
		for n := 1; n <= upTo(deep, 150, 400); n++ {
			items = append(items, "i"+itoa(n))
			c := &ChoiceCase{Cmd: "CHOICE[" + strings.Join(items, ",") + "]", Items: append([]string(nil), items...)}
			if !yield(c) {
				return
			}
		}
	})
}

func genC08(t *rapid.T) *ChoiceCase {
	g := gen.New(t)
	c := g.Choice()
	s := c.S
	if i := strings.IndexByte(s, '['); fw.Coin(t, 5) {
		// an item of white space other than spaces, which is an empty item
		items := strings.Split(s[i+1:len(s)-1], ",")
		if n := len(c.Cmd.Items); n > 1 {
			k := fw.IntIn(t, 1, n-1)
			items[k] = fw.OneOf(t, "", " ", "\u3000") + fw.OneOf(t, "\t", "\n", "\r", "\v", "\f", "\t\t", "\t ", "\u0085")
			c.Cmd.Items[k] = ""
			if k == n-1 {
				items = append(items[:n], "end")
				c.Cmd.Items = append(c.Cmd.Items, "end")
			}
			s = s[:i+1] + strings.Join(items, ",") + "]"
		}
	}
	if i := strings.IndexByte(s, '['); fw.Coin(t, 3) { // a long item
		items := strings.Split(s[i+1:len(s)-1], ",")
		if k := fw.Pick(t, len(c.Cmd.Items)); k < len(items) && c.Cmd.Items[k] != "" {
			l := "l" + strings.Repeat(fw.OneOf(t, "x", "あ", "x ", "😀", "長い"), fw.OneOf(t, 17, 33, 50, 65, 101, 129, 257, 1025, 5000)) + "z"
			items[k], c.Cmd.Items[k] = l, l
			s = s[:i+1] + strings.Join(items, ",") + "]"
		}
	}
	if fw.Coin(t, 15) { // any text may follow
		s += fw.OneOf(t, " comment", "x", "]", ",b]", "[c]", "+1", "CHOICE[z]")
	}
	v := 0
	if n := len(c.Cmd.Items); n > 12 {
		v = fw.IntIn(t, 1, n)
	}
	return &ChoiceCase{s, c.Cmd.Items, v}
}

func runC08(c *ChoiceCase, m *fw.Meta) error {
	n := len(c.Items)
	vals := []int{c.Value, n}
	if c.Value == 0 {
		vals = nil
		for i := 1; i <= n; i++ {
			vals = append(vals, i)
		}
	}
	for _, v := range vals {
		s := &scriptT{Vals: []int{v}, Seed: 1}
		l := &Line{Cmd: c.Cmd, Script: s}
		g, w, err := runLine(l)
		if w.Cmd == nil || w.Cmd.T != model.Choice || len(w.Cmd.Items) != n {
			panic("harness: the model parses the choice differently: " + c.Cmd)
		}
		for i := range w.Cmd.Items {
			if w.Cmd.Items[i] != c.Items[i] {
				panic("harness: the model parses the items differently: " + c.Cmd)
			}
		}
		if err != nil {
			return err
		}
		if len(g.Reqs) != 1 || g.Reqs[0] != n {
			return errf("%q: dice requested with sides %v, want one with %d", c.Cmd, g.Reqs, n)
		}
		want := []string{"(CHOICE[" + strings.Join(c.Items, ",") + "])", c.Items[v-1]}
		if len(g.Parts) != 2 || g.Parts[0] != want[0] || g.Parts[1] != want[1] {
			return errf("%q with die %d: got %q, want %q", c.Cmd, v, g.Parts, want)
		}
	}
	m.NonTrivial = n >= 2
	m.Class(n == 1, "one item")
	m.Class(n > 12, "more than 12 items")
	seen := map[string]bool{}
	dup := false
	for _, i := range c.Items {
		dup = dup || seen[i]
		seen[i] = true
		m.Class(strings.ContainsAny(i, " \t\n\u3000"), "item with inner white space")
		m.Class(len(i) > 100, "long item")
		m.Class(i == "", "blank item")
	}
	m.Class(dup, "repeated item")
	m.Class(contains(c.Cmd, ", ]", ",]"), "trailing comma")
	for _, r := range c.Cmd {
		if r > 127 {
			m.Class(true, "non-ASCII text")
			break
		}
	}
	return nil
}

func fixedC08() []*ChoiceCase {
	return []*ChoiceCase{
		{"CHOICE[a]", []string{"a"}, 0}, {"choice[ a , b ]", []string{"a", "b"}, 0}, {"Choice[a,b,]", []string{"a", "b"}, 0}, {"CHOICE[a,b,  ]", []string{"a", "b"}, 0},
		{"CHOICE[りんご　みかん,　ぶどう　]", []string{"りんご　みかん", "ぶどう"}, 0}, {"CHOICE[a\tb,c\nd]", []string{"a\tb", "c\nd"}, 0}, {"CHOICE[\"q\",\\n]", []string{"\"q\"", "\\n"}, 0},
		{"CHOICE[1,2,3] 2D6", []string{"1", "2", "3"}, 0}, {"CHOICE[[,(]", []string{"[", "("}, 0},
		{"CHOICE[a,\t,b]", []string{"a", "", "b"}, 0}, {"CHOICE[a, \n,\r,b]", []string{"a", "", "", "b"}, 0}, {"CHOICE[\ta\t,\u3000\vb]", []string{"a", "b"}, 0},
	}
}
