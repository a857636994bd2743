//go:build c18 || all

package main

import (
	"encoding/json"
	"strings"
	"unicode"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/sut"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C18", Quick: 25000, Thorough: 1000000,
		Rule: "at least three commands are executed on the instance and at least one of them is answered with dice",
		Assumptions: []string{
			"the fresh instance gets a twin of the die source in the same state: a copy of the queue, a random source of the same seed in step, or the same script at the same position",
		},
	}, genC18, runC18, fixedC18()...)
	fw.RegisterSub("c18", apartC18)
}

// HistOp is one step of a history.
type HistOp struct {
	Op     string  `json:"op"` // exec, basic, bot, mt, queue, push, script, game
	Text   string  `json:"text,omitempty"`
	Seed   int64   `json:"seed,omitempty"`
	N      int     `json:"n,omitempty"`
	Script scriptT `json:"dice,omitempty"`
	// (exec) N: how many more times it is executed, the results not being kept.
	// Scribble: overwrite the returned result at once (it belongs to the caller).
	Scribble bool `json:"scribble,omitempty"`
}

// History is a sequence of steps on one instance.
type History struct {
	Seed int64    `json:"seed"`
	Ops  []HistOp `json:"ops"`
	// Apart: the commands are executed in a process of their own, too, in the reverse order.
	Apart bool `json:"apart,omitempty"`
}

// neighbour makes a text that is nearly s.
func neighbour(t *rapid.T, s string) string {
	switch fw.Pick(t, 6) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return s + fw.OneOf(t, " ", " x", "\t", "0", "+1", "a")
	case 3:
		return fw.OneOf(t, "S", "s") + s
	}
	r := []rune(s)
	if len(r) == 0 {
		return "1D6"
	}
	i := fw.Pick(t, len(r))
	switch c := r[i]; {
	case c >= '0' && c <= '9':
		r[i] = '0' + (c-'0'+1+rune(fw.Pick(t, 8)))%10
	case unicode.IsUpper(c):
		r[i] = unicode.ToLower(c)
	case unicode.IsLower(c):
		r[i] = unicode.ToUpper(c)
	case c == '+':
		r[i] = '-'
	default:
		r[i] = fw.OneOf(t, '+', '1', 'a', ' ', c+1)
	}
	return string(r)
}

// drawC18 is a die that was drawn, or the error of the source.
type drawC18 struct {
	Value int    `json:"v,omitempty"`
	Sides int    `json:"s"` // asked for
	Got   int    `json:"g,omitempty"`
	Err   string `json:"e,omitempty"`
}

// recorder keeps what its source delivers.
type recorder struct {
	src   feeder.DieFeeder
	draws []drawC18
}

func (r *recorder) Next(sides int) (dice.Die, error) {
	d, err := r.src.Next(sides)
	w := drawC18{Value: d.Value, Got: d.Sides, Sides: sides}
	if err != nil {
		w.Err = "x" + err.Error()
	}
	r.draws = append(r.draws, w)
	return d, err
}
func (r *recorder) CanSpecifyDie() bool { return r.src.CanSpecifyDie() }

// player delivers the same again.
type player struct {
	draws []drawC18
	k     int
	bad   string
}

func (p *player) Next(sides int) (dice.Die, error) {
	p.k++
	if p.k > len(p.draws) || p.draws[p.k-1].Sides != sides {
		p.bad = "die " + itoa(p.k) + " of " + itoa(len(p.draws)) + " is asked for with " + itoa(sides) + " sides"
		return dice.Die{}, errf("%s", p.bad)
	}
	w := p.draws[p.k-1]
	if w.Err != "" {
		return dice.Die{Value: w.Value, Sides: w.Got}, errf("%s", w.Err[1:])
	}
	return dice.Die{Value: w.Value, Sides: w.Got}, nil
}
func (p *player) CanSpecifyDie() bool { return true }

// execute executes the command the way the step says.
func (o *HistOp) execute(b *bcdice.BCDice) (*command.Result, error) {
	switch o.Op {
	case "basic":
		return b.ExecuteBasicCommand(o.Text)
	case "bot":
		return b.ExecuteDiceBotCommand(o.Text)
	}
	return b.ExecuteCommand(o.Text)
}

// doneC18 is a command with its dice and its outcome.
type doneC18 struct {
	Op      string    `json:"op"`
	Text    []byte    `json:"text"`
	Draws   []drawC18 `json:"draws,omitempty"`
	Outcome []byte    `json:"outcome"`
}

func traceOf(g *sut.Got) string {
	if g.Secret && !g.Err {
		return outcome(g) + " secret"
	}
	return outcome(g)
}

// apartC18 executes commands, each on an instance of its own with the dice of before.
func apartC18(in []byte) error {
	var done []doneC18
	if err := json.Unmarshal(in, &done); err != nil {
		panic("harness: " + err.Error())
	}
	for i := range done {
		d := &done[i]
		p := &player{draws: d.Draws}
		g, err := sut.FromResult((&HistOp{Op: d.Op, Text: string(d.Text)}).execute(bcdice.New(p)))
		if err != nil {
			return errf("%q: %v", d.Text, err)
		}
		if p.bad != "" {
			return errf("%q: %s", d.Text, p.bad)
		}
		if t := traceOf(g); t != string(d.Outcome) || p.k != len(d.Draws) {
			return errf("%q in a process of its own gives %s after %d dice; within the history it gave %s after %d", d.Text, t, p.k, d.Outcome, len(d.Draws))
		}
	}
	return nil
}

func genC18(t *rapid.T) *History {
	g := gen.New(t)
	g.Dice = 10
	h := &History{Seed: int64(fw.Bits(t, 12))}
	n := fw.IntIn(t, 2, 14)
	h.Apart = fw.Coin(t, 9)
	var used []string
	for i := 0; i < n; i++ {
		var o HistOp
		switch fw.Weighted(t, 70, 5, 8, 5, 6, 6) {
		case 0:
			o.Op = "exec"
			switch fw.Weighted(t, 42, 21, 10, 14, 13) {
			case 0:
				o.Text = g.Any().S
			case 1:
				if len(used) > 0 {
					o.Text = fw.OneOf(t, used...)
				} else {
					o.Text = "2D6"
				}
			case 2:
				o.Text = fw.OneOf(t, "S", "s") + g.Any().S
			case 3: // fails before, during or after rolling
				o.Text = fw.OneOf(t, mutate(t, g.Any().S), g.DExpr(2).S+"/(1D1-1)", "", "2R6[1]", "1/0D6", "[2...1]D6", "100001D6", "1D6+100000D6", g.Any().S+" x", "3R6", "C(1/0)")
			case 4:
				o.Text = neighbour(t, fw.OneOf(t, append([]string{"choice[Sword,shield]", "2D6"}, used...)...))
			}
			if fw.Coin(t, 2) {
				o.N = fw.OneOf(t, 2, 5, 60)
			}
			if fw.Coin(t, 10) { // without the rest of the instance
				o.Op = fw.OneOf(t, "basic", "basic", "bot")
			}
			used = append(used, o.Text)
			o.Scribble = fw.Coin(t, 20)
		case 1:
			o.Op, o.Seed = "mt", int64(fw.Bits(t, 10))
		case 2:
			o.Op, o.N, o.Seed = "queue", fw.OneOf(t, 0, 2, 10, 60), int64(fw.Bits(t, 10))
		case 3:
			o.Op, o.N, o.Seed = "push", fw.IntIn(t, 1, 20), int64(fw.Bits(t, 10))
		case 4:
			o.Op = "script"
			o.Script = *gen.Script(t)
			if fw.Coin(t, 30) {
				o.Script.FailAt = fw.IntIn(t, 1, 12)
			}
		case 5:
			o.Op, o.Text = "game", fw.OneOf(t, "DiceBot", "DiceBot", "dicebot", "", "Unknown", "DiceBot ", "Cthulhu")
		}
		h.Ops = append(h.Ops, o)
	}
	return h
}

// pair is a die source and its twin.
type pair struct {
	real, twin feeder.DieFeeder
	queues     [2]*feeder.Queue
}

func mtPair(seed int64) *pair {
	return &pair{real: feeder.NewMT19937(seed), twin: feeder.NewMT19937(seed)}
}

func queuePair(n int, seed int64) *pair {
	ds := someDice(n, seed)
	p := &pair{queues: [2]*feeder.Queue{feeder.NewQueue(ds), feeder.NewQueue(ds)}}
	p.real, p.twin = p.queues[0], p.queues[1]
	return p
}

// byValue is a source whose values can not be compared.
type byValue struct{ src []*posFeeder }

func (f byValue) Next(sides int) (dice.Die, error) { return f.src[0].Next(sides) }
func (f byValue) CanSpecifyDie() bool              { return false }

func sameSource(a, b feeder.DieFeeder) bool {
	x, ok1 := a.(byValue)
	y, ok2 := b.(byValue)
	if ok1 || ok2 {
		return ok1 && ok2 && x.src[0] == y.src[0]
	}
	return a == b
}

type posFeeder struct {
	s *scriptT
	k int
}

func (f *posFeeder) Next(sides int) (dice.Die, error) {
	f.k++
	d, err := f.s.Die(f.k, sides)
	return dice.Die{Value: d.Value, Sides: d.Sides}, err
}
func (f *posFeeder) CanSpecifyDie() bool { return true }

type kept struct {
	r    *command.Result
	copy command.Result
	cmd  string
}

func deepCopy(r *command.Result) command.Result {
	c := *r
	c.MessageParts = append([]string{}, r.MessageParts...)
	c.RolledDice = append([]dice.Die{}, r.RolledDice...)
	return c
}

func sameResult(a, b *command.Result) bool {
	if a.GameID != b.GameID || a.SuccessCheckResult != b.SuccessCheckResult || a.IsSecret != b.IsSecret || len(a.MessageParts) != len(b.MessageParts) || len(a.RolledDice) != len(b.RolledDice) {
		return false
	}
	for i := range a.MessageParts {
		if a.MessageParts[i] != b.MessageParts[i] {
			return false
		}
	}
	for i := range a.RolledDice {
		if a.RolledDice[i] != b.RolledDice[i] {
			return false
		}
	}
	return true
}

type histStats struct {
	execs, answered, diced, failed, games int
	done                                  []doneC18
}

// play runs the history and returns the trace of answers.
func (h *History) play(st *histStats) ([]string, error) {
	p := mtPair(h.Seed)
	b := bcdice.New(p.real)
	var keep []kept
	var trace []string
	game := "DiceBot"
	for i, o := range h.Ops {
		switch o.Op {
		case "exec", "basic", "bot":
			r, err := o.execute(b)
			g, e := sut.FromResult(r, err)
			if e != nil {
				return nil, errf("step %d, %q: %v", i+1, o.Text, e)
			}
			rec := &recorder{src: p.twin}
			fresh := bcdice.New(rec)
			fr, ferr := o.execute(fresh)
			fg, e := sut.FromResult(fr, ferr)
			if e != nil {
				return nil, errf("step %d, %q on a fresh instance: %v", i+1, o.Text, e)
			}
			if !sameOutcome(fg, g) || !g.Err && g.Secret != fg.Secret {
				return nil, errf("step %d: %q gives %s (secret %v), a fresh instance with the same dice gives %s (secret %v)", i+1, o.Text, outcome(g), g.Secret, outcome(fg), fg.Secret)
			}
			if !g.Err && g.GameID != game {
				return nil, errf("step %d: %q is answered as %s, %s is selected", i+1, o.Text, g.GameID, game)
			}
			trace = append(trace, traceOf(g))
			if h.Apart {
				st.done = append(st.done, doneC18{o.Op, []byte(o.Text), rec.draws, []byte(traceOf(g))})
			}
			st.execs++
			for k := 0; k < o.N; k++ {
				a, aerr := o.execute(b)
				f, ferr := o.execute(bcdice.New(p.twin))
				if aerr != nil || ferr != nil {
					if (aerr == nil) != (ferr == nil) {
						return nil, errf("step %d: %q executed %d times gives %v, a fresh instance with the same dice %v", i+1, o.Text, k+2, aerr, ferr)
					}
				} else if !sameResult(a, f) {
					return nil, errf("step %d: %q executed %d times gives %+v, a fresh instance with the same dice %+v", i+1, o.Text, k+2, *a, *f)
				}
			}
			if g.Err {
				st.failed++
				break
			}
			st.answered++
			if len(g.Dice) > 0 {
				st.diced++
			}
			if o.Scribble {
				for j := range r.RolledDice {
					r.RolledDice[j] = dice.Die{Value: -7, Sides: -7}
				}
				for j := range r.MessageParts {
					r.MessageParts[j] = "scribbled"
				}
				_ = append(r.RolledDice, dice.Die{Value: -8, Sides: -8})
				r.AppendMessagePart("scribbled")
			} else {
				keep = append(keep, kept{r, deepCopy(r), o.Text})
			}
		case "mt":
			p = mtPair(o.Seed)
			b.SetDieFeeder(p.real)
		case "queue":
			p = queuePair(o.N, o.Seed)
			b.SetDieFeeder(p.real)
		case "push":
			if p.queues[0] != nil {
				for _, q := range p.queues {
					q.Append(someDice(o.N, o.Seed))
				}
			}
		case "script":
			s := o.Script
			p = &pair{real: byValue{[]*posFeeder{{s: &s}}}, twin: &posFeeder{s: &s}}
			b.SetDieFeeder(p.real)
		case "game":
			err := b.SetDiceBotByGameID(o.Text)
			if (err == nil) != (o.Text == "DiceBot") {
				return nil, errf("step %d: selecting %q: %v", i+1, o.Text, err)
			}
			st.games++
		}
		if !sameSource(b.DieFeeder(), p.real) {
			return nil, errf("step %d (%s): the die source is not the one that was set", i+1, o.Op)
		}
		if p.queues[0] != nil && p.queues[0].Remaining() != p.queues[1].Remaining() {
			return nil, errf("step %d (%s %q): %d dice are left in the queue, a fresh instance leaves %d", i+1, o.Op, o.Text, p.queues[0].Remaining(), p.queues[1].Remaining())
		}
		for _, k := range keep {
			if !sameResult(k.r, &k.copy) {
				return nil, errf("step %d (%s %q) changed the result of %q returned earlier: %+v, was %+v", i+1, o.Op, o.Text, k.cmd, *k.r, k.copy)
			}
			if k.r.Message() != k.copy.Message() {
				return nil, errf("the message of an earlier result changed")
			}
		}
	}
	return trace, nil
}

func runC18(h *History, m *fw.Meta) error {
	st := &histStats{}
	t1, err := h.play(st)
	if err != nil {
		return err
	}
	if h.Apart {
		var rev []doneC18
		for i := len(st.done) - 1; i >= 0; i-- {
			rev = append(rev, st.done[i])
		}
		if err := fw.Alone("c18", rev); err != nil {
			return err
		}
	}
	t2, err := h.play(&histStats{})
	if err != nil {
		return errf("played again: %v", err)
	}
	for i := range t1 {
		if i >= len(t2) || t1[i] != t2[i] {
			return errf("played again from the same seeds, command %d gives %s, at first it gave %s", i+1, t2[i], t1[i])
		}
	}
	m.NonTrivial = st.execs >= 3 && st.diced >= 1
	m.Class(st.failed > 0, "with failures")
	m.Class(h.Apart, "also in a process of its own")
	m.Class(st.games > 0, "with game selections")
	m.Class(st.execs >= 8, "eight commands or more")
	for _, o := range h.Ops {
		m.Class(o.Op == "queue", "queue source")
		m.Class(o.Op == "basic" || o.Op == "bot", "a basic or dice bot command executed on its own")
		m.Class(o.Scribble, "returned result overwritten")
	}
	return nil
}

func fixedC18() []*History {
	var ops []HistOp
	for _, s := range []string{"2D6", "S2D6", "2D6", "s3B6>=3", "3B6>=3", "2R6[2]", "2U6[2]+1", "CHOICE[a,b]", "C(1)", "2D6>=7", "C(1)", "xx", "2D6/(1D1-1)", "2D6", "[1...3]D6", "2R6", "2D6 x"} {
		ops = append(ops, HistOp{Op: "exec", Text: s})
	}
	out := []*History{{Seed: 1, Ops: ops, Apart: true}, {Seed: 2, Ops: append([]HistOp{{Op: "queue", N: 60, Seed: 1}}, ops...), Apart: true}}
	ex := func(s string, n int) HistOp { return HistOp{Op: "exec", Text: s, N: n} }
	// a long life
	out = append(out, &History{Seed: 3, Ops: []HistOp{ex("100000D6", 14), ex("2D6", 0), ex("50000B6>=3", 10), ex("2R6[3]", 9)}})
	out = append(out, &History{Seed: 4, Ops: []HistOp{ex("2D6>=7", 70000), ex("S1D6", 300), ex("xx", 300), ex("choice[a,b]", 300), ex("C(1+2)", 2000), ex("1U6[5]", 300), ex("2D6/(1D1-1)", 2000), ex("2D6", 0)}})
	// many failures of one kind, then a success
	for i, bad := range []string{"xx", "C(1/0)", "2D6/(1D1-1)", "100001D6", ""} {
		for j, good := range []string{"C(1)", "2D6>=7", "choice[a,b]"} {
			for _, ops := range [][2]string{{"exec", "exec"}, {"basic", "basic"}, {"bot", "exec"}, {"exec", "basic"}} {
				h := &History{Seed: int64(40 + 3*i + j)}
				for k := 0; k < 72; k++ {
					h.Ops = append(h.Ops, HistOp{Op: ops[0], Text: bad, N: k % 24}, HistOp{Op: ops[1], Text: good, Scribble: true})
				}
				out = append(out, h)
			}
		}
	}
	// nearly the same
	for i, p := range [][]string{
		{"choice[Sword,SHIELD]", "choice[sword,shield]", "CHOICE[Sword,shield]", "choice[Sword,Shield ]", "schoice[Sword,SHIELD]"},
		{"2D6+1", "2d6+1", "2D6+10", "2D6-1", "2D61", "2D6+1 ", "s2D6+1"}, {"C(1+2)", "c(1+2)", "C(1-2)", "C(1+2) x"},
		{"3B6>=3", "3b6>=3", "3B6>3", "3B6<=3", "3R6>=3", "3B6=>3", "3B63"}, {"1U6[6]", "1u6[6]", "1U6[5]", "1U6[6]+1", "1R6[6]"},
		{"[1...3]D6", "[1...3]d6", "[1...4]D6"}, {"2D6/2", "2D6/2U", "2D6/2R", "2D6/2u", "2D6*2"},
	} {
		for k := range p { // in every rotation
			h := &History{Seed: int64(10 + i), Apart: true}
			for j := range p {
				h.Ops = append(h.Ops, ex(p[(k+j)%len(p)], 0))
			}
			out = append(out, h)
		}
	}
	return out
}
