//go:build c10 || all

package main

import (
	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
	"verif/sut"
)

// DiceCase is a command with faulty dice.
type DiceCase struct {
	Cmd    string  `json:"cmd"`
	Script scriptT `json:"dice"`
	// Queue: run with the library's queue source holding this many of the dice (-1: no queue run).
	Queue int `json:"queue"`
	// FaultPct places a fault at this per mille of the draws of the run without fault.
	FaultPct int    `json:"fault_pct,omitempty"`
	Fault    string `json:"fault,omitempty"` // "", "fail", "bad"
	// Record is a history of a record of dice, run besides the command.
	Record []RecordOp `json:"record,omitempty"`
}

// RecordOp is an operation on an evaluation environment's record of dice.
type RecordOp struct {
	Op   string      `json:"op"` // push, append, clear, read, count, spoil (change what an earlier read gave)
	Dice []model.Die `json:"dice,omitempty"`
	K    int         `json:"k,omitempty"`
}

func init() {
	fw.Register(fw.Prop{
		ID: "C10", Quick: 120000, Thorough: 4000000,
		Rule: "at least two dice are drawn, or a fault hits a draw, or the command fails after drawing a die",
		Assumptions: []string{
			"when a command fails, the dice drawn are only required to be a prefix of those a single evaluation draws",
		},
	}, genC10, runC10, fixedC10()...)
	fw.Sweep("C10", "25 commands of all kinds with every kind of fault at each of the first 12 draws, and with queues of one to three dice too few to two too many; "+scopeSlots, func(deep bool, yield func(*DiceCase) bool) {
		if !sweepSlots(func(s string) bool {
			return model.Parse(s) == nil || yield(&DiceCase{Cmd: s, Script: scriptT{Vals: slotDice()}, Queue: -1})
		}) {
			return
		}
		for _, c := range []string{"1D6", "2D6", "3D10+2D6-1D4", "2D6*1D6", "8/1D6", "(2D6)>=7", "2D6>=1+2*3", "[1...3]D[4...6]", "([1...2]+[1...2])D6", "2B6", "2B6+3B10", "3B6>=4", "[1...3]B6=2", "2R6[4]", "2R6+1R10[5]", "3R6>=5", "[1...3]R[4...6][3]", "2U6[4]", "2U6+1U10[5]+2", "3U6[5]>=7", "[1...3]U[4...6][3]-1", "CHOICE[a,b,c]", "C(1+2)", "1D6/(1D1-1)", "S2D6 x"} {
			for seed := uint64(1); seed <= uint64(upTo(deep, 4, 200)); seed++ {
				for i := 1; i <= 12; i++ {
					for kind := -1; kind <= 2; kind++ {
						x := &DiceCase{Cmd: c, Script: scriptT{Seed: seed, Mode: int(seed % 4)}, Queue: -1}
						if x.Script.FailAt = i; kind >= 0 {
							x.Script.FailAt, x.Script.BadAt, x.Script.BadKind = 0, i, kind
						}
						if !yield(x) {
							return
						}
					}
				}
				for q := 0; q <= 3; q++ {
					if !yield(&DiceCase{Cmd: c, Script: scriptT{Seed: seed, Mode: int(seed % 4)}, Queue: q}) {
						return
					}
				}
			}
		}
	})
}

func genC10(t *rapid.T) *DiceCase {
	g := gen.New(t)
	g.Dice = 15
	g.Wild = fw.OneOf(t, 0, 5, 15)
	c := &DiceCase{Script: *gen.Script(t), Queue: -1}
	x := g.Any()
	c.Cmd = x.S
	if x.Cmd.T == model.Calc && fw.Coin(t, 80) {
		c.Cmd = g.AnyRoll().S
	}
	if fw.Coin(t, 10) {
		c.Cmd = "S" + c.Cmd
	}
	if fw.Coin(t, 15) {
		c.Cmd += fw.OneOf(t, " comment", " 2D6", "\t1", " ")
	}
	if fw.Coin(t, 8) { // fails after drawing
		c.Cmd = g.DExpr(2).S + "/(1D1-1)"
	}
	if fw.Coin(t, 40) {
		c.Fault = fw.OneOf(t, "fail", "bad")
		c.FaultPct = fw.IntIn(t, 0, 1000)
		c.Script.BadKind = fw.Pick(t, 3)
	} else if fw.Coin(t, 40) {
		c.Queue = fw.IntIn(t, 0, 3) // dice missing (0: exact, 3: two extra)
	}
	if fw.Coin(t, 15) {
		c.Record = genRecord(t)
	}
	return c
}

func genRecord(t *rapid.T) []RecordOp {
	var ops []RecordOp
	for n := fw.IntIn(t, 1, fw.OneOf(t, 5, 12, 40)); n > 0; n-- {
		o := RecordOp{Op: fw.OneOf(t, "push", "push", "push", "append", "append", "clear", "read", "read", "count", "spoil")}
		k := 0
		switch o.Op {
		case "push":
			k = 1
		case "append":
			k = fw.OneOf(t, 0, 1, 2, 2, 3, 7, 40, 300)
		case "spoil":
			o.K = fw.Pick(t, 8)
		}
		for ; k > 0; k-- {
			s := fw.OneOf(t, 1, 2, 6, 6, 10, 100)
			o.Dice = append(o.Dice, model.Die{Value: fw.IntIn(t, 1, s), Sides: s})
		}
		ops = append(ops, o)
	}
	return ops
}

// runRecord runs a history against a slice.
func runRecord(ops []RecordOp) error {
	env := evaluator.NewEnvironment()
	other := evaluator.NewEnvironment()
	var want []model.Die
	type read struct {
		got  []dice.Die
		want []model.Die
	}
	var reads []read
	check := func(i int) error {
		if n := env.NumOfRolledDice(); n != len(want) {
			return errf("record, operation %d of %v: %d dice counted, want %d", i+1, ops, n, len(want))
		}
		got := env.RolledDice()
		if !sut.SameDice(sut.FromDice(got), want) {
			return errf("record, operation %d of %v: the dice are %s, want %s", i+1, ops, sut.ShowDice(sut.FromDice(got)), sut.ShowDice(want))
		}
		reads = append(reads, read{got, append([]model.Die{}, want...)})
		return nil
	}
	for i, o := range ops {
		switch o.Op {
		case "push":
			env.PushRolledDie(sut.ToDice(o.Dice)[0])
			want = append(want, o.Dice[0])
		case "append":
			in := sut.ToDice(o.Dice)
			env.AppendRolledDice(in)
			want = append(want, o.Dice...)
			for j := range in {
				in[j] = dice.Die{Value: -7, Sides: 3} // the caller's slice is its own
			}
		case "clear":
			env.ClearRolledDice()
			want = nil
		case "count":
			if n := env.NumOfRolledDice(); n != len(want) {
				return errf("record, operation %d of %v: %d dice counted, want %d", i+1, ops, n, len(want))
			}
		case "read":
			if err := check(i); err != nil {
				return err
			}
		case "spoil":
			if o.K < len(reads) {
				r := &reads[o.K]
				for j := range r.got {
					r.got[j] = dice.Die{Value: -9, Sides: 2}
				}
				r.want = sut.FromDice(r.got)
			}
		}
	}
	if err := check(len(ops) - 1); err != nil {
		return err
	}
	for i, r := range reads {
		if !sut.SameDice(sut.FromDice(r.got), r.want) {
			return errf("record %v: what read %d gave changed later", ops, i+1)
		}
	}
	if other.NumOfRolledDice() != 0 || len(other.RolledDice()) != 0 {
		return errf("record %v: another record has dice now", ops)
	}
	return nil
}

func runC10(c *DiceCase, m *fw.Meta) error {
	if len(c.Record) > 0 {
		if err := runRecord(c.Record); err != nil {
			return err
		}
		m.Class(true, "record history")
	}
	clean := c.Script
	clean.FailAt, clean.BadAt = 0, 0
	w0 := sut.Model(c.Cmd, &clean)
	s := clean
	if c.Fault != "" {
		n := len(w0.Reqs)
		if n == 0 {
			return nil
		}
		k := 1 + (n-1)*c.FaultPct/1000
		if c.Fault == "fail" {
			s.FailAt = k
		} else {
			s.BadAt = k
		}
	}
	w := sut.Model(c.Cmd, &s)
	if w.Cmd == nil {
		panic("harness: not a command: " + c.Cmd)
	}
	if c.Fault != "" && !w.Err && !w.Overflow {
		panic("harness: the fault does not fail the command")
	}
	g, err := sut.Exec(c.Cmd, &s)
	if err != nil {
		return err
	}
	if err := sut.Compare(c.Cmd, g, w); err != nil {
		return err
	}
	if !g.Err && !w.Overflow {
		// exactly the requests, in order
		if len(g.Reqs) != len(w.Reqs) {
			return errf("%q: %d dice requested, want %d", c.Cmd, len(g.Reqs), len(w.Reqs))
		}
		for i := range g.Reqs {
			if g.Reqs[i] != w.Reqs[i] {
				return errf("%q: die %d requested with %d sides, want %d", c.Cmd, i+1, g.Reqs[i], w.Reqs[i])
			}
		}
		if (len(g.Dice) == 0) != (len(g.Drawn) == 0) {
			return errf("%q: %d dice drawn, %d reported", c.Cmd, len(g.Drawn), len(g.Dice))
		}
	}
	if c.Queue >= 0 && !w.Overflow {
		// the library's own queue: too short, exact, or longer
		var all []model.Die
		for i, sides := range w0.Reqs {
			d, _ := clean.Die(i+1, sides)
			all = append(all, d)
		}
		extra := []model.Die{{Value: 3, Sides: 7}, {Value: 1, Sides: 6}}
		missing := c.Queue
		in := all
		if c.Queue == 3 {
			missing = 0
			in = append(append([]model.Die{}, all...), extra...)
		} else if missing <= len(all) {
			in = all[:len(all)-missing]
		} else {
			missing = 0
		}
		q := feeder.NewQueue(sut.ToDice(in))
		b := bcdice.New(q)
		r, rerr := b.ExecuteCommand(c.Cmd)
		gq, e := sut.FromResult(r, rerr)
		if e != nil {
			return errf("%q with a queue: %v", c.Cmd, e)
		}
		left := q.Remaining()
		if w0.Err || missing > 0 {
			if !gq.Err {
				return errf("%q with %d dice in the queue must fail, got %q", c.Cmd, len(in), gq.Msg)
			}
			if len(in)-left > len(all) {
				return errf("%q fails but took %d dice from the queue, want at most %d", c.Cmd, len(in)-left, len(all))
			}
		} else {
			if gq.Err {
				return errf("%q with %s in the queue fails: %s", c.Cmd, sut.ShowDice(in), gq.ErrText)
			}
			if gq.Msg != w0.Message("DiceBot") || !sut.SameDice(gq.Dice, all) {
				return errf("%q with a queue: got %q dice %s, want %q dice %s", c.Cmd, gq.Msg, sut.ShowDice(gq.Dice), w0.Message("DiceBot"), sut.ShowDice(all))
			}
			if left != len(in)-len(all) {
				return errf("%q took %d dice from the queue, want %d", c.Cmd, len(in)-left, len(all))
			}
		}
		m.Class(missing > 0, "queue runs out")
		m.Class(missing == 0, "queue suffices")
	}
	n := len(w.Reqs)
	m.NonTrivial = !w.Overflow && (n >= 2 || c.Fault != "" || w.Err && n > 0)
	m.Class(c.Fault == "fail", "source fails")
	m.Class(c.Fault == "bad", "die with other sides")
	m.Class(c.Fault != "" && n > 1, "fault after the first draw")
	m.Class(c.Fault == "" && w.Err && n > 0, "fails after drawing")
	m.Class(!w.Err && n == 0, "no dice")
	m.Class(!w.Err && n > 0, "dice reported")
	return nil
}

func fixedC10() []*DiceCase {
	var out []*DiceCase
	for _, s := range []string{"2D6/(1D1-1)", "2D6/(1D1-1) comment", "[1...3]R6", "[1...3]U6[1]+1", "2R6", "C(1)", "C(1/0)", "CHOICE[a,b]", "2D6+[1...3]", "(1-[1...2])D6", "1D6+0D6", "2B6>=1/0", "[1...2]B6>=2", "1D6/0", "2D6+1D6/(1D6-1D6)"} {
		for _, f := range []string{"", "fail", "bad"} {
			out = append(out, &DiceCase{Cmd: s, Queue: -1, Fault: f, FaultPct: 500})
		}
		for q := 0; q < 4; q++ {
			out = append(out, &DiceCase{Cmd: s, Queue: q})
		}
	}
	d := func(v ...int) (l []model.Die) {
		for _, x := range v {
			l = append(l, model.Die{Value: x, Sides: 6})
		}
		return
	}
	for _, r := range [][]RecordOp{
		{{Op: "read"}, {Op: "push", Dice: d(1)}, {Op: "read"}, {Op: "clear"}, {Op: "read"}, {Op: "push", Dice: d(2)}, {Op: "read"}},
		{{Op: "append", Dice: d(1, 2)}, {Op: "read"}, {Op: "spoil"}, {Op: "read"}, {Op: "clear"}, {Op: "append", Dice: d(3, 4)}, {Op: "count"}},
		{{Op: "append"}, {Op: "clear"}, {Op: "clear"}, {Op: "append", Dice: d(1, 2, 3)}, {Op: "read"}, {Op: "push", Dice: d(4)}, {Op: "spoil"}, {Op: "push", Dice: d(5)}},
	} {
		out = append(out, &DiceCase{Cmd: "2D6", Queue: -1, Record: r})
	}
	return out
}
