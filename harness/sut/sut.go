// Package sut drives the code under test with scripted dice and compares it
// with the reference model.
package sut

import (
	"errors"
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/pkg/core/parser"

	"verif/model"
)

// Script determines the dice: the k-th die (from 1) for given sides.
type Script struct {
	Seed  uint64 `json:"seed,omitempty"`
	Mode  int    `json:"mode,omitempty"` // 0 uniform, 1 mostly high, 2 mostly low, 3 the edges
	Vals  []int  `json:"vals,omitempty"` // the first dice (0: not fixed); wrapped into range
	ExpAt int    `json:"exp_at,omitempty"`
	Exp   int    `json:"exp,omitempty"` // Exp dice from number ExpAt show their maximum
	// Off: every Off-th die shows a value that is none of its faces.
	Off int `json:"off,omitempty"`
	// FailAt and BadAt are the draws at which the source fails or delivers other sides.
	FailAt int `json:"fail_at,omitempty"`
	BadAt  int `json:"bad_at,omitempty"`
	// BadKind: 0 more sides, 1 fewer sides, 2 zero sides.
	BadKind int `json:"bad_kind,omitempty"`
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// ErrSource is the failure of a scripted source.
var ErrSource = errors.New("scripted failure of the die source")

// Die gives the k-th die.
func (s *Script) Die(k, sides int) (model.Die, error) {
	if k == s.FailAt {
		return model.Die{}, ErrSource
	}
	d := model.Die{Value: 1, Sides: sides}
	if sides < 1 {
		return d, nil
	}
	n := uint64(sides)
	h := mix(s.Seed ^ mix(uint64(k)))
	switch {
	case k >= s.ExpAt && k < s.ExpAt+s.Exp:
		d.Value = sides
	case k <= len(s.Vals) && s.Vals[k-1] > 0:
		d.Value = (s.Vals[k-1]-1)%sides + 1
	case s.Seed == 0:
		d.Value = 1
	case s.Mode == 1 && h>>60 < 10:
		d.Value = sides - int((h>>20)%3%n)
	case s.Mode == 2 && h>>60 < 10:
		d.Value = 1 + int((h>>20)%3%n)
	case s.Mode == 3 && h>>60 < 8:
		d.Value = sides
	case s.Mode == 3:
		d.Value = 1
	default:
		d.Value = 1 + int((h>>1)%n)
	}
	if s.Off > 0 && k%s.Off == 0 && !(k >= s.ExpAt && k < s.ExpAt+s.Exp) {
		switch (h >> 3) % 8 {
		case 0:
			d.Value = 0
		case 1:
			d.Value = -1
		case 2:
			d.Value = -d.Value
		case 3:
			d.Value = -12345678901
		case 4:
			d.Value = 5000000000
		case 5:
			if sides < 1<<40 {
				d.Value += sides
			}
		default:
			d.Value = int((h>>10)%41) - 20
		}
	}
	if k == s.BadAt {
		switch s.BadKind {
		case 0:
			d.Sides++
		case 1:
			d.Sides--
		default:
			d.Sides = 0
		}
	}
	return d, nil
}

// Feeder is a scripted die source of the code under test.
type Feeder struct {
	S    *Script
	Reqs []int // requested sides
	Dice []model.Die
	Max  int
}

// Next delivers the next die.
func (f *Feeder) Next(sides int) (dice.Die, error) {
	f.Reqs = append(f.Reqs, sides)
	max := f.Max
	if max == 0 {
		max = 1000000
	}
	if len(f.Reqs) > max {
		panic(fmt.Sprintf("more than %d dice were requested for one command", max))
	}
	d, err := f.S.Die(len(f.Reqs), sides)
	if err != nil {
		return dice.Die{}, err
	}
	f.Dice = append(f.Dice, d)
	return dice.Die{Value: d.Value, Sides: d.Sides}, nil
}

// CanSpecifyDie is part of the interface.
func (f *Feeder) CanSpecifyDie() bool { return true }

// Source is a scripted die source of the model.
type Source struct {
	S    *Script
	Reqs []int
}

// Next delivers the next die.
func (f *Source) Next(sides int) (model.Die, error) {
	f.Reqs = append(f.Reqs, sides)
	return f.S.Die(len(f.Reqs), sides)
}

// Got is what the code under test answered.
type Got struct {
	Err     bool
	ErrText string
	Msg     string
	GameID  string
	Parts   []string
	Dice    []model.Die
	NilDice bool
	Success int
	Secret  bool
	Reqs    []int
	Drawn   []model.Die
}

// FromDice converts dice.
func FromDice(ds []dice.Die) []model.Die {
	out := make([]model.Die, 0, len(ds))
	for _, d := range ds {
		out = append(out, model.Die{Value: d.Value, Sides: d.Sides})
	}
	return out
}

// ToDice converts dice.
func ToDice(ds []model.Die) []dice.Die {
	out := make([]dice.Die, 0, len(ds))
	for _, d := range ds {
		out = append(out, dice.Die{Value: d.Value, Sides: d.Sides})
	}
	return out
}

// FromResult converts a result; it is an error when neither or both of result and error are given.
func FromResult(r *command.Result, err error) (*Got, error) {
	g, e := FromSystem(r, err)
	if e == nil && !g.Err && (g.Msg == "" || len(g.Parts) == 0) {
		return nil, errors.New("an empty message")
	}
	return g, e
}

// FromSystem is FromResult for a result that may have no text.
func FromSystem(r *command.Result, err error) (*Got, error) {
	g := &Got{}
	if err != nil {
		g.Err, g.ErrText = true, err.Error()
		if r != nil {
			return nil, fmt.Errorf("both a result and an error: %v", err)
		}
		return g, nil
	}
	if r == nil {
		return nil, errors.New("neither a result nor an error")
	}
	g.Msg, g.GameID, g.Parts = r.Message(), r.GameID, append([]string{}, r.MessageParts...)
	g.Dice, g.NilDice = FromDice(r.RolledDice), r.RolledDice == nil
	g.Secret = r.IsSecret
	switch r.SuccessCheckResult {
	case command.SUCCESS_CHECK_SUCCESS:
		g.Success = 1
	case command.SUCCESS_CHECK_FAILURE:
		g.Success = 2
	case command.SUCCESS_CHECK_UNSPECIFIED:
	default:
		return nil, fmt.Errorf("undefined success check result %d", int(r.SuccessCheckResult))
	}
	return g, nil
}

// before are commands that an instance may have executed before ("": the line
// itself).
var before = []string{"", "", "30D6", "2D6>=7", "2B6>=3", "20B10+20B6", "2R6[2]", "1R6+3R10>=4", "3U6[2]+1", "2U6[3]>=5", "CHOICE[a,b,c]", "C(2+3*4)", "S2D6", "S3R6", "2D6/(1D1-1)", "[1...3]D[4...6]+1", "2D6 x", "2R6[1]"}

// Exec executes a line with scripted dice on a fresh instance, or on one that
// has executed another command or the same one (which, is fixed by the line
// and the script).
func Exec(line string, s *Script) (*Got, error) {
	f := &Feeder{S: s}
	b := bcdice.New(f)
	h := fnv.New64a()
	h.Write([]byte(line))
	x := mix(h.Sum64() ^ s.Seed)
	if n := int(x % 48); n < len(before) && len(line) < 3000 {
		f.S = &Script{Seed: x, Vals: []int{2, 5, 1, 6, 3}}
		l := before[n]
		if l == "" {
			l = line
		}
		if _, err := b.ExecuteCommand(l); err == nil && x&(1<<40) != 0 {
			b.ExecuteCommand(l)
		}
		f.S = s
	}
	return ExecOn(b, f, line)
}

// ExecOn executes a line on the instance whose source is f.
func ExecOn(b *bcdice.BCDice, f *Feeder, line string) (*Got, error) {
	f.Reqs, f.Dice = nil, nil
	r, err := b.ExecuteCommand(line)
	g, e := FromResult(r, err)
	if e != nil {
		return nil, fmt.Errorf("%q: %v", short(line), e)
	}
	g.Reqs, g.Drawn = f.Reqs, f.Dice
	return g, nil
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// ShowDice formats dice.
func ShowDice(ds []model.Die) string {
	var b strings.Builder
	for i, d := range ds {
		if i == 40 {
			b.WriteString(" ...")
			break
		}
		fmt.Fprintf(&b, " %d/%d", d.Value, d.Sides)
	}
	return "[" + strings.TrimSpace(b.String()) + "]"
}

// SameDice compares dice.
func SameDice(a, b []model.Die) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Want is what the model answers.
type Want struct {
	Cmd    *model.Cmd
	Secret bool
	*model.Outcome
	Reqs []int
}

// Model executes a line in the model.
func Model(line string, s *Script) *Want { return ModelLimit(line, s, model.MaxRerolls) }

// ModelLimit executes a line in the model with a limit of rerolls.
func ModelLimit(line string, s *Script, limit int) *Want {
	c, secret := model.ParseLine(line)
	w := &Want{Cmd: c, Secret: secret}
	if c == nil {
		w.Outcome = &model.Outcome{Err: true, Why: "not a command"}
		return w
	}
	src := &Source{S: s}
	w.Outcome = model.Exec(c, src, limit)
	w.Reqs = src.Reqs
	return w
}

// Compare compares the answer of the code under test with the model's.
func Compare(line string, g *Got, w *Want) error {
	fail := func(f string, a ...any) error {
		return fmt.Errorf("command %q: "+f, append([]any{short(line)}, a...)...)
	}
	for _, r := range g.Reqs {
		if r < 1 {
			return fail("a die with %d sides was requested", r)
		}
	}
	if w.Overflow {
		return nil
	}
	if w.Err {
		if !g.Err {
			return fail("must be an error (%s), got the answer %q", w.Why, short(g.Msg))
		}
		if len(g.Reqs) > len(w.Reqs) {
			return fail("fails (%s) but %d dice were requested, a single evaluation needs at most %d", w.Why, len(g.Reqs), len(w.Reqs))
		}
		for i := range g.Reqs {
			if g.Reqs[i] != w.Reqs[i] {
				return fail("die %d was requested with %d sides, want %d", i+1, g.Reqs[i], w.Reqs[i])
			}
		}
		return nil
	}
	if g.Err {
		return fail("must answer %q, got the error %q", short(w.Message("DiceBot")), short(g.ErrText))
	}
	if want := w.Message("DiceBot"); g.Msg != want {
		return fail("dice %s\n got  %q\n want %q", ShowDice(g.Drawn), short(g.Msg), short(want))
	}
	if g.GameID != "DiceBot" {
		return fail("game identifier %q", g.GameID)
	}
	if !SameDice(g.Drawn, w.Dice) {
		return fail("dice drawn %s, want %s", ShowDice(g.Drawn), ShowDice(w.Dice))
	}
	if !SameDice(g.Dice, w.Dice) {
		return fail("dice reported %s, want %s", ShowDice(g.Dice), ShowDice(w.Dice))
	}
	if g.Success != w.Success {
		return fail("success check result %d, want %d", g.Success, w.Success)
	}
	if g.Secret != w.Secret {
		return fail("secret %v, want %v", g.Secret, w.Secret)
	}
	return nil
}

// Diff executes a line in both and compares.
func Diff(line string, s *Script) (*Got, *Want, error) {
	w := Model(line, s)
	g, err := Exec(line, s)
	if err != nil {
		return nil, w, err
	}
	return g, w, Compare(line, g, w)
}

// DiffLimit is Diff with a limit of rerolls set on the evaluator (0: the usual way, through an instance).
func DiffLimit(line string, s *Script, limit int) (*Got, *Want, error) {
	if limit == 0 {
		return Diff(line, s)
	}
	w := ModelLimit(line, s, limit)
	g, err := ExecLimit(line, s, limit)
	if err != nil {
		return nil, w, err
	}
	return g, w, Compare(line, g, w)
}

// ExecLimit executes a basic command with a limit of rerolls.
func ExecLimit(line string, s *Script, limit int) (*Got, error) {
	f := &Feeder{S: s}
	node, err := parser.Parse("input", []byte(line))
	if err != nil {
		return &Got{Err: true, ErrText: err.Error()}, nil
	}
	ev := evaluator.NewEvaluator(roller.New(f), evaluator.NewEnvironment())
	ev.MaxRerolls = limit
	g, err := FromResult(command.Execute(node.(ast.Node), "DiceBot", ev))
	if err != nil {
		return nil, fmt.Errorf("%q: %v", short(line), err)
	}
	g.Reqs, g.Drawn = f.Reqs, f.Dice
	return g, nil
}
