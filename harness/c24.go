//go:build c24 || all

package main

import (
	"sort"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	dicebotlist "github.com/raa0121/GoBCDice/pkg/dicebot/list"
	"pgregory.net/rapid"

	"verif/fw"
)

// overlaySystems is set by the build when game systems were added to the
// list (the repository itself has none but the basic one).
var overlaySystems string

var addedSystems = []string{"SwordWorld", "Cthulhu", "cthulhu", "dicebot", "DiceBot2", "Zzz", "クトゥルフ", "!bang", "Arianrhod", "sw 2.0", "AceKillerGene"}

func init() {
	fw.Register(fw.Prop{
		ID: "C24", Quick: 100000, Thorough: 4000000,
		Rule: "a history with a selection that must fail after one that must succeed, and a command executed after it",
		Assumptions: []string{
			"the list of the repository holds no system but the basic one; the check is built with eleven more in the list when its source allows it",
		},
	}, genC24, runC24, fixedC24()...)
}

// SelOp is one step.
type SelOp struct {
	Op string `json:"op"` // set, exec, ids, infos, scribble, new
	B  int    `json:"b"`
	ID string `json:"id,omitempty"`
	In bool   `json:"in,omitempty"` // include the basic system
}

// Selections is a history.
type Selections struct {
	Ops []SelOp `json:"ops"`
	// Repeat: the steps are taken so many times more.
	Repeat int `json:"repeat,omitempty"`
}

func genID(t *rapid.T) string {
	all := append([]string{"DiceBot"}, addedSystems...)
	switch fw.Weighted(t, 30, 20, 25, 15, 10) {
	case 0:
		return "DiceBot"
	case 1:
		return fw.OneOf(t, all...)
	case 2: // a near miss
		s := fw.OneOf(t, all...)
		switch fw.Pick(t, 7) {
		case 0:
			return strings.ToLower(s)
		case 1:
			return strings.ToUpper(s)
		case 2:
			return s + fw.OneOf(t, " ", "\n", "\x00", "2", "_", "\u3000")
		case 3:
			return fw.OneOf(t, " ", "\t", "#") + s
		case 4:
			return s[:len(s)-1]
		case 5:
			return s + s
		}
		return mutate(t, s)
	case 3:
		return fw.OneOf(t, "", " ", "*", "?", "Basic", "basic", "../DiceBot", "ＤｉｃｅＢｏｔ", "ダイスボット (指定無し)", "*たいすほつと", "\xff", "DiceBot\xff", "nil", "null", "%s")
	}
	n := fw.IntIn(t, 1, 12)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(rune(fw.IntIn(t, 'A', 'z')))
	}
	return b.String()
}

func genC24(t *rapid.T) *Selections {
	c := &Selections{}
	n := fw.OneOf(t, 3, 6, 10, 20)
	for i := 0; i < n; i++ {
		o := SelOp{B: fw.Weighted(t, 3, 1)}
		switch fw.Weighted(t, 40, 30, 8, 8, 6, 3) {
		case 0:
			o.Op, o.ID = "set", genID(t)
		case 1:
			o.Op = "exec"
		case 2:
			o.Op, o.In = "ids", fw.Coin(t, 60)
		case 3:
			o.Op, o.In = "infos", fw.Coin(t, 60)
		case 4:
			o.Op = "scribble"
		case 5:
			o.Op = "new"
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runC24(c *Selections, m *fw.Meta) error {
	type held struct {
		ids   []string
		infos []dicebotlist.SystemInfo
	}
	var lists []held
	var ids [2][]string
	getIDs := func(in bool) error {
		l := dicebotlist.AvailableGameIDs(in)
		k := 0
		rest := l
		if in {
			k = 1
			if len(l) == 0 || l[0] != "DiceBot" {
				return errf("the list with the basic system does not start with it: %q", l)
			}
			rest = l[1:]
		}
		for i, x := range rest {
			if x == "DiceBot" {
				return errf("the basic system is listed among the others: %q", l)
			}
			if i > 0 && rest[i-1] >= x {
				return errf("the systems are not sorted and unique: %q", l)
			}
		}
		if overlaySystems != "" {
			w := append([]string{}, addedSystems...)
			sort.Strings(w)
			if strings.Join(w, ",") != strings.Join(rest, ",") {
				return errf("the systems are %q, want %q", rest, w)
			}
		}
		if ids[k] != nil && strings.Join(ids[k], "\x00") != strings.Join(l, "\x00") {
			return errf("the list of systems is now %q, it was %q", l, ids[k])
		}
		ids[k] = append([]string{}, l...)
		lists = append(lists, held{ids: l})
		return nil
	}
	// the lists of all histories must be the same: take them before anything happens
	for _, in := range []bool{true, false} {
		if err := getIDs(in); err != nil {
			return err
		}
	}
	if strings.Join(ids[1][1:], "\x00") != strings.Join(ids[0], "\x00") {
		return errf("the lists with and without the basic system are %q and %q", ids[1], ids[0])
	}
	available := map[string]bool{}
	for _, x := range ids[1] {
		available[x] = true
	}
	getInfos := func(in bool) error {
		l := dicebotlist.AvailableGameInfos(in).Name
		lists = append(lists, held{infos: l})
		want := ids[0]
		rest := l
		if in {
			want = ids[1]
			if len(l) == 0 || l[0].System != "DiceBot" {
				return errf("the records with the basic system do not start with it: %v", l)
			}
			rest = l[1:]
		}
		var got []string
		for _, x := range l {
			got = append(got, x.System)
			ctor, err := dicebotlist.Find(x.System)
			if err != nil {
				return errf("the listed system %q is not found: %v", x.System, err)
			}
			d := ctor()
			if d.GameID() != x.System || d.GameName() != x.Name || d.SortKey() != x.SortKey || x.Name == "" || x.SortKey == "" || d.Usage() == "" {
				return errf("the record is %q, the system is %q, %q, %q", x, d.GameID(), d.GameName(), d.SortKey())
			}
		}
		for i := 1; i < len(rest); i++ {
			if rest[i-1].SortKey > rest[i].SortKey {
				return errf("the records are not in the order of their sort keys: %q", l)
			}
		}
		sort.Strings(got)
		w := append([]string{}, want...)
		sort.Strings(w)
		if strings.Join(got, "\x00") != strings.Join(w, "\x00") {
			return errf("the records are of %q, the identifiers are %q", got, w)
		}
		return nil
	}
	var bs [2]*bcdice.BCDice
	var cur [2]string
	for i := range bs {
		bs[i], cur[i] = bcdice.New(feeder.NewMT19937(int64(i))), "DiceBot"
	}
	okOnce, failed, execAfter, lastFailed := false, false, false, false
	for i := 0; i < len(c.Ops)*(1+max(c.Repeat, 0)); i++ {
		o := c.Ops[i%len(c.Ops)]
		b := bs[o.B&1]
		id := &cur[o.B&1]
		var err error
		switch o.Op {
		case "set":
			e := b.SetDiceBotByGameID(o.ID)
			ctor, fe := dicebotlist.Find(o.ID)
			want := available[o.ID]
			if (e == nil) != want || (fe == nil) != want || (ctor != nil) != want {
				err = errf("selecting %q: %v; finding it: %v; it is listed: %v", o.ID, e, fe, want)
				break
			}
			if want {
				*id = o.ID
				okOnce = true
				lastFailed = false
			} else {
				failed = failed || okOnce
				lastFailed = true
			}
		case "exec":
			r, e := b.ExecuteCommand("2D6+1")
			if e != nil {
				err = errf("2D6+1: %v", e)
			} else if r.GameID != *id || !strings.HasPrefix(r.Message(), *id+" : (2D6+1) ＞ ") {
				err = errf("the answer is of %q: %q; selected is %q", r.GameID, r.Message(), *id)
			}
			execAfter = execAfter || lastFailed && failed
		case "ids":
			err = getIDs(o.In)
		case "infos":
			err = getInfos(o.In)
		case "scribble":
			for _, l := range lists {
				for j := range l.ids {
					l.ids[j] = "scribbled"
				}
				for j := range l.infos {
					l.infos[j] = dicebotlist.SystemInfo{System: "scribbled", Name: "scribbled", SortKey: "scribbled"}
				}
				_ = append(l.ids[:0:cap(l.ids)], make([]string, cap(l.ids))...)
			}
			for _, in := range []bool{true, false} {
				if err == nil {
					err = getIDs(in)
				}
				if err == nil {
					err = getInfos(in)
				}
			}
		case "new":
			bs[o.B&1], *id = bcdice.New(feeder.NewMT19937(int64(i))), "DiceBot"
		}
		if err == nil {
			for k := range bs {
				if g := bs[k].DiceBot.GameID(); g != cur[k] {
					err = errf("instance %d uses %q, selected is %q", k, g, cur[k])
				}
			}
		}
		if err != nil {
			return errf("operation %d (%s): %v", i+1, o.Op, err)
		}
	}
	m.NonTrivial = execAfter
	m.Class(execAfter, "executes after a failed selection")
	m.Class(failed, "fails after a success")
	m.Class(cur[0] != "DiceBot" || cur[1] != "DiceBot", "another system is in use at the end")
	m.Class(overlaySystems != "", "with added systems")
	return nil
}

func fixedC24() []*Selections {
	var out []*Selections
	for _, id := range []string{"DiceBot", "dicebot", "Cthulhu", "cthulhu", "", "DiceBot ", "クトゥルフ", "Unknown"} {
		out = append(out, &Selections{Ops: []SelOp{{Op: "exec"}, {Op: "set", ID: "SwordWorld"}, {Op: "exec"}, {Op: "set", ID: "DiceBot"}, {Op: "set", ID: id}, {Op: "exec"}, {Op: "ids", In: true}, {Op: "infos", In: true}, {Op: "ids"}, {Op: "infos"}, {Op: "scribble"}, {Op: "set", ID: id, B: 1}, {Op: "exec", B: 1}, {Op: "exec"}, {Op: "infos"}}})
	}
	for _, ops := range [][]SelOp{
		{{Op: "set", ID: "none"}, {Op: "set", ID: "DiceBot"}, {Op: "exec"}},
		{{Op: "set", ID: "DiceBot"}, {Op: "exec"}},
		{{Op: "set", ID: "SwordWorld"}, {Op: "exec"}, {Op: "set", ID: "none"}, {Op: "exec"}},
		{{Op: "new"}, {Op: "set", ID: "DiceBot"}, {Op: "exec"}, {Op: "exec", B: 1}},
		{{Op: "exec"}},
	} {
		out = append(out, &Selections{Ops: ops, Repeat: 3000})
	}
	for _, id := range []string{"none", "Cthulhu"} { // many of one kind before another
		var ops []SelOp
		for i := 0; i < 3000; i++ {
			ops = append(ops, SelOp{Op: "set", ID: id})
		}
		out = append(out, &Selections{Ops: append(ops, SelOp{Op: "exec"}, SelOp{Op: "set", ID: "SwordWorld"}, SelOp{Op: "exec"}, SelOp{Op: "set", ID: "DiceBot"}, SelOp{Op: "exec"})})
	}
	return append(out, &Selections{Ops: []SelOp{{Op: "ids", In: true}, {Op: "infos"}}, Repeat: 100})
}
