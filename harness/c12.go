//go:build c12 || all

package main

import (
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/model"
	"verif/sut"
)

// QOp is an operation on one of the queues.
type QOp struct {
	Op   string      `json:"op"`
	Q    int         `json:"q"`
	Dice []model.Die `json:"dice,omitempty"`
	N    int         `json:"n,omitempty"`
	// Fill is a number of further dice, valued 1, 2, 3 and so on.
	Fill int `json:"fill,omitempty"`
}

func (o QOp) dice() []model.Die {
	ds := append([]model.Die{}, o.Dice...)
	for i := 1; i <= o.Fill; i++ {
		ds = append(ds, model.Die{Value: i, Sides: 1000})
	}
	return ds
}

// QCase is a history.
type QCase struct {
	Ops []QOp `json:"ops"`
}

func init() {
	fw.Register(fw.Prop{
		ID: "C12", Quick: 800000, Thorough: 6000000,
		Rule: "a history of at least five operations that takes a die and adds dice after a die was taken, or changes a slice handed in or out",
	}, genC12, runC12,
		&QCase{[]QOp{{"next", 0, nil, 6, 0}, {"append", 0, []model.Die{{1, 6}, {2, 6}}, 0, 0}, {"next", 0, nil, 10, 0}, {"push", 0, []model.Die{{3, 6}}, 0, 0}, {"next", 0, nil, 6, 0}, {"next", 0, nil, 6, 0}, {"next", 0, nil, 6, 0}, {"push", 0, []model.Die{{9, 9}}, 0, 0}, {"next", 0, nil, 6, 0}}},
		&QCase{[]QOp{{"set", 0, nil, 0, 1500}, {"drain", 0, nil, 700, 0}, {"append", 0, nil, 0, 600}, {"drain", 0, nil, 1300, 0}, {"append", 0, nil, 0, 3}, {"drain", 0, nil, 200, 0}}},
		// queues with more dice than 16 bits count, filled in every way
		&QCase{[]QOp{{"push", 0, nil, 0, 70000}, {"append", 0, nil, 0, 70000}, {"next", 0, nil, 6, 0}, {"push", 0, nil, 0, 3}, {"drain", 0, nil, 139000, 0}, {"set", 1, nil, 0, 140000}, {"new", 2, nil, 0, 140000}, {"appendother", 1, nil, 2, 0}, {"push", 1, nil, 0, 70000}, {"drain", 1, nil, 340000, 0}}})
	fw.Sweep("C12", "a queue of n dice, m taken, k appended, all but one taken, 9 pushed and the rest taken, for n, m and k to 18 (thorough 60)", func(deep bool, yield func(*QCase) bool) {
		top := upTo(deep, 18, 60)
		for n := 0; n <= top; n++ {
			for k := 0; k <= n+1; k++ {
				for j := 0; j <= top; j++ {
					ops := []QOp{{Op: "set", Fill: n}, {Op: "drain", N: k}, {Op: "append", Fill: j}, {Op: "drain", N: max(1, n-k+j-1)}}
					for i := 1; i <= 9; i++ {
						ops = append(ops, QOp{Op: "push", Dice: []model.Die{{Value: 100 + i, Sides: 1000}}})
					}
					if !yield(&QCase{Ops: append(ops, QOp{Op: "drain", N: 12})}) {
						return
					}
				}
			}
		}
	})
}

func genDice(t *rapid.T, maxN int) []model.Die {
	n := fw.IntIn(t, 0, maxN)
	out := []model.Die{}
	for i := 0; i < n; i++ {
		s := fw.OneOf(t, 6, 10, 20, 100, 2, 0, -1)
		if fw.Coin(t, 4) {
			out = append(out, model.Die{Value: fw.OneOf(t, 1<<31, 1<<32+1, -1<<40, 1<<63-1, -1<<63, 70000, 300), Sides: fw.OneOf(t, 6, 1<<31, 1<<32+6, 1<<62, -1<<63, 65536)})
			continue
		}
		out = append(out, model.Die{Value: fw.IntIn(t, -1, 20), Sides: s})
	}
	return out
}

func genC12(t *rapid.T) *QCase {
	c := &QCase{}
	n := fw.OneOf(t, 3, 6, 10, 20, 40)
	qs := fw.OneOf(t, 1, 1, 2, 3)
	large := fw.Coin(t, 4) // histories with many dice
	for i := 0; i < n; i++ {
		o := QOp{Q: fw.Pick(t, qs)}
		switch fw.Weighted(t, 12, 4, 4, 3, 1, 1, 1, 3, 4, 2, 1, 1) {
		case 0:
			o.Op, o.N = "next", fw.OneOf(t, 6, 6, 1, 100, 0, -1)
		case 1:
			o.Op, o.Dice = "push", []model.Die{{Value: fw.IntIn(t, 1, 20), Sides: fw.OneOf(t, 6, 20)}}
			if fw.Coin(t, 10) {
				o.Fill = fw.OneOf(t, 1, 3, 17, 40)
			}
		case 2:
			o.Op, o.Dice = "append", genDice(t, 5)
		case 3:
			o.Op, o.Dice = "set", genDice(t, 6)
		case 4:
			o.Op = "clear"
		case 5:
			o.Op, o.Dice = "new", genDice(t, 6)
		case 6:
			o.Op = "newempty"
		case 7:
			o.Op = "dice" // keep what is handed out
		case 8:
			o.Op, o.N = "scribble", fw.IntIn(t, 0, 40) // change a slice handed in or out earlier
		case 9:
			o.Op, o.N = "drain", fw.IntIn(t, 1, 6)
		case 10:
			o.Op, o.N = "appendother", fw.Pick(t, qs)
		case 11:
			o.Op, o.N = "setother", fw.Pick(t, qs)
		}
		if large {
			switch o.Op {
			case "append", "set", "new", "push":
				o.Fill = fw.OneOf(t, 0, 30, 70, 140, 300)
			case "drain":
				o.N = fw.OneOf(t, 10, 31, 64, 100, 130, 257)
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runC12(c *QCase, m *fw.Meta) error {
	const nq = 3
	real := [nq]*feeder.Queue{}
	want := [nq][]model.Die{}
	for i := range real {
		real[i] = feeder.NewEmptyQueue()
	}
	type held struct {
		s, copy []dice.Die
	}
	var slices []*held // slices handed in or out
	hold := func(s []dice.Die) {
		slices = append(slices, &held{s, append([]dice.Die{}, s...)})
	}
	// handIn makes a slice with spare capacity behind it.
	handIn := func(ds []model.Die) []dice.Die {
		s := make([]dice.Die, 0, len(ds)+8)
		s = append(s, sut.ToDice(ds)...)
		spare := s[len(s):cap(s)]
		for i := range spare {
			spare[i] = dice.Die{Value: 77, Sides: 77}
		}
		hold(s)
		hold(spare)
		return s
	}
	took, addedAfter, scribbled := 0, false, false
	for i, o := range c.Ops {
		q := real[o.Q]
		where := func(f string, a ...any) error {
			return errf("operation %d (%s on queue %d): "+f, append([]any{i + 1, o.Op, o.Q}, a...)...)
		}
		next := func(sides int) error {
			d, err := q.Next(sides)
			if len(want[o.Q]) == 0 {
				if err == nil {
					return where("the queue is empty but delivered %v", d)
				}
				return nil
			}
			if err != nil {
				return where("error %v with %d dice queued", err, len(want[o.Q]))
			}
			x := want[o.Q][0]
			if d.Value != x.Value || d.Sides != x.Sides {
				return where("delivered %d/%d, want %d/%d", d.Value, d.Sides, x.Value, x.Sides)
			}
			want[o.Q] = want[o.Q][1:] // add copies, so sharing is safe
			took++
			return nil
		}
		add := func(ds []model.Die) {
			if took > 0 && len(ds) > 0 {
				addedAfter = true
			}
			want[o.Q] = append(append([]model.Die{}, want[o.Q]...), ds...)
		}
		switch o.Op {
		case "next":
			if err := next(o.N); err != nil {
				return err
			}
		case "drain":
			for j := 0; j < o.N; j++ {
				if err := next(6); err != nil {
					return err
				}
			}
		case "push":
			for _, d := range sut.ToDice(o.dice()) {
				q.Push(d)
			}
			add(o.dice())
		case "append":
			q.Append(handIn(o.dice()))
			add(o.dice())
		case "set":
			q.Set(handIn(o.dice()))
			want[o.Q] = nil
			add(o.dice())
		case "clear":
			q.Clear()
			want[o.Q] = nil
		case "new":
			real[o.Q] = feeder.NewQueue(handIn(o.dice()))
			want[o.Q] = nil
			add(o.dice())
		case "newempty":
			real[o.Q] = feeder.NewEmptyQueue()
			want[o.Q] = nil
		case "dice":
			hold(q.Dice())
		case "appendother":
			s := real[o.N].Dice()
			hold(s)
			q.Append(s)
			add(want[o.N])
		case "setother":
			s := real[o.N].Dice()
			hold(s)
			q.Set(s)
			w := want[o.N]
			want[o.Q] = nil
			add(w)
		case "scribble":
			if len(slices) > 0 {
				h := slices[o.N%len(slices)]
				for j := range h.s {
					h.s[j] = dice.Die{Value: 1000 + i, Sides: 1000 + j}
				}
				// appending to it must not reach the queue either
				if full := h.s[:cap(h.s)]; len(full) > len(h.s) && h.copy != nil && len(h.s) > 0 {
					_ = append(h.s, dice.Die{Value: 55, Sides: 55})
					for k := range slices {
						if slices[k] != h && len(slices[k].s) > 0 && &slices[k].s[0] == &full[len(h.s)] {
							slices[k].copy[0] = dice.Die{Value: 55, Sides: 55}
						}
					}
				}
				copy(h.copy, h.s)
				scribbled = scribbled || len(h.s) > 0
			}
		}
		// every queue and every slice must be as expected after every operation
		for k := range real {
			if real[k].Remaining() != len(want[k]) {
				return where("queue %d: Remaining %d, want %d", k, real[k].Remaining(), len(want[k]))
			}
			if real[k].IsEmpty() != (len(want[k]) == 0) {
				return where("queue %d: IsEmpty %v with %d dice", k, real[k].IsEmpty(), len(want[k]))
			}
			if got := sut.FromDice(real[k].Dice()); !sut.SameDice(got, want[k]) {
				return where("queue %d: Dice %s, want %s", k, sut.ShowDice(got), sut.ShowDice(want[k]))
			}
			if !real[k].CanSpecifyDie() {
				return where("queue %d: its dice cannot be specified", k)
			}
		}
		for k, h := range slices {
			for j := range h.s {
				if h.s[j] != h.copy[j] {
					return where("changed the slice %d handed in or out earlier: %v, was %v", k, h.s[j], h.copy[j])
				}
			}
		}
	}
	m.NonTrivial = len(c.Ops) >= 5 && (took > 0 && addedAfter || scribbled)
	m.Class(took > 0, "takes dice")
	m.Class(took >= 10, "takes ten dice or more")
	m.Class(took >= 100, "takes a hundred dice or more")
	m.Class(addedAfter, "adds after taking")
	m.Class(scribbled, "changes a shared slice")
	m.Class(len(c.Ops) >= 20, "20 operations or more")
	return nil
}
