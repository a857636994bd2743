//go:build c13 || all

package main

import (
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/model"
	"verif/sut"
)

// RollOp is a request to the roller or an operation on the record of dice.
type RollOp struct {
	Op    string      `json:"op"` // roll, evroll, push, appendrec, clear, scribble
	Num   int         `json:"num,omitempty"`
	Sides int         `json:"sides,omitempty"`
	Dice  []model.Die `json:"dice,omitempty"`
}

// times is the operation n times.
func (o RollOp) times(n int) []RollOp {
	var out []RollOp
	for ; n > 0; n-- {
		out = append(out, o)
	}
	return out
}

// RollCase is a history of rolls with one source.
type RollCase struct {
	Script scriptT  `json:"dice"`
	Ops    []RollOp `json:"ops"`
	// Both: a failing draw delivers a die together with the error.
	Both bool `json:"both,omitempty"`
	// OddAt: this draw shows the value Odd, which may lie outside 1..sides.
	OddAt int `json:"odd_at,omitempty"`
	Odd   int `json:"odd,omitempty"`
	// Queue uses the library's queue with this many dice; MT its random source.
	Kind  string `json:"kind"`
	Queue int    `json:"queue,omitempty"`
}

func init() {
	huge := []int{1 << 62, 1<<63 - 1, -1 << 63, 100001, 100000, 1 << 31, 1 << 32, 1<<32 + 1, -1 << 31}
	var fixed []*RollCase
	for _, n := range huge {
		fixed = append(fixed, &RollCase{Kind: "script", Ops: []RollOp{{Op: "roll", Num: n, Sides: 6}, {Op: "evroll", Num: n, Sides: 6}, {Op: "evroll", Num: 1, Sides: n}, {Op: "roll", Num: 1, Sides: n}, {Op: "roll", Num: n, Sides: n}}})
	}
	fixed = append(fixed,
		&RollCase{Kind: "script", Ops: []RollOp{{Op: "evroll", Num: 60000, Sides: 6}, {Op: "evroll", Num: 40001, Sides: 6}, {Op: "evroll", Num: 40000, Sides: 6}, {Op: "evroll", Num: 1, Sides: 6}, {Op: "clear"}, {Op: "evroll", Num: 1, Sides: 6}}},
		&RollCase{Kind: "script", Ops: []RollOp{{Op: "roll", Num: 60000, Sides: 6}, {Op: "roll", Num: 60000, Sides: 6}}})
	// rollers and evaluators that live long
	one := RollOp{Op: "roll", Num: 1, Sides: 6}
	for _, kind := range []string{"script", "mt"} {
		fixed = append(fixed,
			&RollCase{Kind: kind, Ops: RollOp{Op: "roll", Num: 100000, Sides: 6}.times(22)},
			&RollCase{Kind: kind, Ops: append(append(RollOp{Op: "roll", Num: 3, Sides: 100}.times(20000), one), RollOp{Op: "roll", Num: 0, Sides: 6}, one)},
			&RollCase{Kind: kind, Ops: append(RollOp{Op: "roll", Num: 0, Sides: 6}.times(5000), one, RollOp{Op: "roll", Num: 1, Sides: 0}, one)})
	}
	var cleared []RollOp
	for i := 0; i < 22; i++ {
		cleared = append(cleared, RollOp{Op: "evroll", Num: 99999, Sides: 6}, RollOp{Op: "evroll", Num: 2, Sides: 6}, RollOp{Op: "evroll", Num: 1, Sides: 6}, RollOp{Op: "clear"})
	}
	fixed = append(fixed, &RollCase{Kind: "script", Ops: cleared})
	// long rolls whose source fails, gives out or delivers other sides late
	for _, k := range []int{2, 65, 129, 257, 1001, 1025, 4097, 10001, 65537, 99999, 100000} {
		for _, op := range []string{"roll", "evroll"} {
			after := RollOp{Op: "evroll", Num: 2, Sides: 6}
			ops := []RollOp{{Op: "evroll", Num: 1, Sides: 6}, {Op: op, Num: min(k+50, 99998), Sides: 6}, after, after}
			fixed = append(fixed,
				&RollCase{Kind: "script", Script: scriptT{FailAt: k}, Ops: ops},
				&RollCase{Kind: "script", Script: scriptT{FailAt: k}, Both: true, Ops: ops},
				&RollCase{Kind: "script", Script: scriptT{BadAt: k}, Ops: ops},
				&RollCase{Kind: "queue6", Queue: k, Ops: ops})
		}
	}
	fw.Register(fw.Prop{
		ID: "C13", Quick: 600000, Thorough: 8000000,
		Rule: "a history in which a roll of at least two dice succeeds, or a fault hits a roll after its first die, or a request is out of range",
		Assumptions: []string{
			"the evaluator's record of dice is only observed through RolledDice and NumOfRolledDice",
			"after a failed roll the number of dice taken is not pinned beyond the failing draw",
		},
	}, genC13, runC13, fixed...)
	fw.Sweep("C13", "rolls of -2 to 130 dice of -2 to 130 sides, by the roller and by an evaluator's environment (thorough to 400)", func(deep bool, yield func(*RollCase) bool) {
		top := upTo(deep, 130, 400)
		for n := -2; n <= top; n++ {
			for s := -2; s <= top; s++ {
				if !yield(&RollCase{Kind: "script", Script: sut.Script{Seed: uint64(n + 1000*s + 5000)}, Ops: []RollOp{{Op: "roll", Num: n, Sides: s}, {Op: "evroll", Num: n, Sides: s}}}) {
					return
				}
			}
		}
	})
}

func genC13(t *rapid.T) *RollCase {
	c := &RollCase{Kind: fw.OneOf(t, "script", "script", "queue", "queue6", "mt"), Both: fw.Coin(t, 30)}
	c.Script = sut.Script{Seed: uint64(fw.Bits(t, 20)), BadKind: fw.Pick(t, 3)}
	n := fw.OneOf(t, 1, 2, 4, 8)
	for i := 0; i < n; i++ {
		o := RollOp{Op: "roll"}
		switch fw.Weighted(t, 6, 8, 1, 1, 1, 2) {
		case 1:
			o.Op = "evroll"
		case 2:
			o.Op = "push"
		case 3:
			o.Op = "appendrec"
		case 4:
			o.Op = "clear"
		case 5:
			o.Op = "scribble"
		}
		switch o.Op {
		case "roll", "evroll":
			o.Num = fw.OneOf(t, 1, 2, 3, 5, 20)
			o.Sides = fw.OneOf(t, 6, 10, 1, 2, 100)
			if fw.Coin(t, 20) {
				o.Num = fw.IntIn(t, 1, 300)
			}
			if fw.Coin(t, 20) {
				o.Sides = fw.OneOf(t, fw.IntIn(t, 1, 300), fw.IntIn(t, 1, 70000), 1<<31, 1<<32+5, 1<<62)
			}
			if fw.Coin(t, 10) {
				o.Num = fw.OneOf(t, 0, -1, 100001, 1<<40, -1<<63, 1<<63-1, 0)
			}
			if fw.Coin(t, 10) {
				o.Sides = fw.OneOf(t, 0, -1, -6, -1<<63, 0)
			}
			if fw.Coin(t, 1) {
				o.Num = fw.OneOf(t, 5000, 50000, 99999, 100000)
			}
		case "push":
			o.Dice = []model.Die{{Value: fw.IntIn(t, 1, 6), Sides: 6}}
		case "appendrec":
			k := fw.IntIn(t, 0, 3)
			for j := 0; j < k; j++ {
				o.Dice = append(o.Dice, model.Die{Value: fw.IntIn(t, 1, 6), Sides: 6})
			}
		}
		c.Ops = append(c.Ops, o)
	}
	if fw.Coin(t, 25) {
		c.OddAt, c.Odd = fw.IntIn(t, 1, 12), fw.OneOf(t, 0, -1, 7, 101, 1000000, -1<<63, 1<<63-1)
	}
	long := 1 // a roll of the history takes this many dice
	for _, o := range c.Ops {
		if o.Op == "roll" || o.Op == "evroll" {
			long = max(long, min(o.Num, model.MaxDice))
		}
	}
	switch c.Kind {
	case "script":
		if fw.Coin(t, 35) {
			c.Script.FailAt = fw.OneOf(t, fw.IntIn(t, 1, 15), fw.IntIn(t, 1, long+2))
		} else if fw.Coin(t, 50) {
			c.Script.BadAt = fw.OneOf(t, fw.IntIn(t, 1, 15), fw.IntIn(t, 1, long+2))
		}
	case "queue", "queue6":
		c.Queue = fw.OneOf(t, 0, 1, 5, 20, 100)
	}
	return c
}

// logFeeder records what is asked of another source.
type logFeeder struct {
	f          feeder.DieFeeder
	both       bool
	oddAt, odd int
	log        []dice.Die // delivered
	reqs       []int
	bad        []bool // draw i failed or had other sides
}

func (l *logFeeder) Next(sides int) (dice.Die, error) {
	l.reqs = append(l.reqs, sides)
	if len(l.reqs) > 4000000 {
		panic("more than 4000000 dice were requested")
	}
	if sides < 1 {
		panic(errf("a die with %d sides was requested", sides))
	}
	d, err := l.f.Next(sides)
	if err == nil && len(l.reqs) == l.oddAt {
		d.Value = l.odd
	}
	l.bad = append(l.bad, err != nil || d.Sides != sides)
	l.log = append(l.log, d)
	if err != nil && l.both {
		return dice.Die{Value: 1, Sides: sides}, err
	}
	return d, err
}

func (l *logFeeder) CanSpecifyDie() bool { return l.f.CanSpecifyDie() }

func runC13(c *RollCase, m *fw.Meta) error {
	var src feeder.DieFeeder
	switch c.Kind {
	case "script":
		src = &sut.Feeder{S: &c.Script, Max: 5000000}
	case "queue", "queue6": // the latter has dice with six sides only
		var ds []dice.Die
		for i := 0; i < c.Queue; i++ {
			sides := []int{6, 6, 10}[i%3]
			if c.Kind == "queue6" {
				sides = 6
			}
			d, _ := c.Script.Die(i+1, sides)
			ds = append(ds, dice.Die{Value: d.Value, Sides: d.Sides})
		}
		src = feeder.NewQueue(ds)
	default:
		src = feeder.NewMT19937(int64(c.Script.Seed))
	}
	lf := &logFeeder{f: src, both: c.Both, oddAt: c.OddAt, odd: c.Odd}
	r := roller.New(lf)
	if r.DieFeeder() != feeder.DieFeeder(lf) {
		return errf("DieFeeder is not the source the roller was made with")
	}
	env := evaluator.NewEnvironment()
	ev := evaluator.NewEvaluator(r, env)
	rec := []model.Die{}
	ok2, midFault, outOfRange, totalLimit, oddOK := false, false, false, false, false
	type held struct{ s, copy []dice.Die }
	var slices []held
	hold := func(s []dice.Die) { slices = append(slices, held{s, append([]dice.Die{}, s...)}) }
	for i, o := range c.Ops {
		where := func(f string, a ...any) error {
			return errf("operation %d %s(%d, %d): "+f, append([]any{i + 1, o.Op, o.Num, o.Sides}, a...)...)
		}
		switch o.Op {
		case "roll", "evroll":
			from := len(lf.reqs)
			var got []dice.Die
			var err error
			if o.Op == "roll" {
				got, err = r.RollDice(o.Num, o.Sides)
			} else {
				got, err = ev.RollDice(o.Num, o.Sides)
			}
			reqs := lf.reqs[from:]
			for _, s := range reqs {
				if s != o.Sides {
					return where("a die with %d sides was requested", s)
				}
			}
			bad := false
			for _, b := range lf.bad[from:] {
				bad = bad || b
			}
			wrong := o.Num < 1 || o.Sides < 1 || o.Num > model.MaxDice
			over := !wrong && o.Op == "evroll" && o.Num > model.MaxDice-len(rec)
			totalLimit = totalLimit || over
			switch {
			case wrong || over:
				outOfRange = true
				if err == nil {
					return where("must be an error, got %d dice", len(got))
				}
				if len(reqs) != 0 {
					return where("out of range, but %d dice were taken", len(reqs))
				}
			case bad:
				if err == nil {
					return where("the source failed or delivered other sides, but the roll succeeded with %v", got)
				}
				if !lf.bad[len(lf.bad)-1] {
					return where("dice were taken after the failing one")
				}
				midFault = midFault || len(reqs) > 1
			default:
				if err != nil {
					return where("unexpected error: %v", err)
				}
				if len(got) != o.Num || len(reqs) != o.Num {
					return where("%d dice returned for %d requests, want %d", len(got), len(reqs), o.Num)
				}
				for j := range got {
					if got[j] != lf.log[from+j] {
						return where("die %d is %v, the source delivered %v", j+1, got[j], lf.log[from+j])
					}
				}
				ok2 = ok2 || o.Num >= 2
				oddOK = oddOK || c.OddAt > from && c.OddAt <= from+o.Num
				hold(got)
				if o.Op == "evroll" {
					rec = append(rec, sut.FromDice(got)...)
				}
			}
			if err != nil && len(got) != 0 {
				return where("an error and %d dice", len(got))
			}
		case "push":
			env.PushRolledDie(sut.ToDice(o.Dice)[0])
			rec = append(rec, o.Dice...)
		case "appendrec":
			s := sut.ToDice(o.Dice)
			env.AppendRolledDice(s)
			hold(s)
			rec = append(rec, o.Dice...)
		case "clear":
			env.ClearRolledDice()
			rec = []model.Die{}
		case "scribble":
			for k := range slices {
				for j := range slices[k].s {
					slices[k].s[j] = dice.Die{Value: 4000 + k, Sides: j}
					slices[k].copy[j] = slices[k].s[j]
				}
			}
		}
		if len(rec) < 2000 || i == len(c.Ops)-1 {
			a := ev.RolledDice()
			if !sut.SameDice(sut.FromDice(a), rec) {
				return where("recorded dice %s, want %s", sut.ShowDice(sut.FromDice(a)), sut.ShowDice(rec))
			}
			hold(a)
			if b := env.RolledDice(); !sut.SameDice(sut.FromDice(b), rec) {
				return where("the environment has the dice %s, want %s", sut.ShowDice(sut.FromDice(b)), sut.ShowDice(rec))
			}
			if len(slices) > 500 && i%500 != 0 && i < len(c.Ops)-1 {
				continue
			}
			for k, h := range slices {
				for j := range h.s {
					if h.s[j] != h.copy[j] {
						return where("changed the slice %d handed in or out earlier", k)
					}
				}
			}
		}
	}
	m.NonTrivial = ok2 || midFault || outOfRange
	m.Class(ok2, "a roll of two dice or more")
	m.Class(midFault, "a fault after the first die of a roll")
	m.Class(outOfRange, "a request out of range")
	m.Class(totalLimit, "the total would exceed the limit")
	m.Class(oddOK, "a die of a value outside its sides delivered")
	m.Class(c.Both, "source returns a die with its error")
	m.Class(true, "source "+c.Kind)
	return nil
}
