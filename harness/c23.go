//go:build c23 || all

package main

import (
	"strings"

	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/pkg/core/object"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
	"verif/sut"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C23", Quick: 100000, Thorough: 4000000,
		Rule: "a command with a roll that is evaluated without error, or with an argument that is not a plain integer",
		Assumptions: []string{
			"the direct evaluation starts from the same tree with integer arguments (a second parse, put through EvalVarArgs with the same dice), since rolls with unevaluated arguments cannot be evaluated directly",
			"re-rolls are limited to 300 in both evaluations",
		},
	}, genC23, runC23, fixedC23()...)
	fw.Sweep("C23", scopeC14, func(deep bool, yield func(*Staged) bool) {
		sweepC14(deep, func(l *Line) bool { return yield(&Staged{*l, false}) && yield(&Staged{*l, true}) })
	})
}

// Staged is a command to be evaluated in stages and at once.
type Staged struct {
	Line
	// Inner: the stages get the expression in the command, not the command.
	Inner bool `json:"inner,omitempty"`
}

func genC23(t *rapid.T) *Staged {
	g := gen.New(t)
	g.Dice = 20
	var c gen.C
	switch fw.Weighted(t, 90, 6, 4) {
	case 0:
		c = g.AnyRoll()
	case 1:
		g.Long = true
		c = g.DExpr(fw.OneOf(t, 10, 40))
	case 2:
		c = g.Calc(fw.IntIn(t, 1, 8))
	}
	s := gen.Script(t)
	if fw.Coin(t, 5) {
		s.FailAt = fw.IntIn(t, 1, 8)
	}
	return &Staged{Line{Cmd: c.S, Script: s}, fw.Coin(t, 40)}
}

// walkAST visits a tree of the code under test.
func walkAST(n ast.Node, f func(ast.Node)) {
	if n == nil || n.IsNil() {
		return
	}
	f(n)
	switch x := n.(type) {
	case *ast.Command:
		walkAST(x.Expression, f)
	case *ast.BRollList:
		for _, r := range x.BRolls {
			walkAST(r, f)
		}
	case *ast.RRollList:
		walkAST(x.Threshold, f)
		for _, r := range x.RRolls {
			walkAST(r, f)
		}
	case *ast.URollExpr:
		walkAST(x.URollList, f)
		if x.Bonus != nil {
			walkAST(x.Bonus.Right(), f)
		}
	case ast.PrefixExpression:
		walkAST(x.Right(), f)
	case ast.InfixExpression:
		walkAST(x.Left(), f)
		walkAST(x.Right(), f)
	}
}

func isIntNode(n ast.Node) bool {
	_, ok := n.(*ast.Int)
	return ok
}

// stageRun is one evaluator with its own dice.
type stageRun struct {
	f  *sut.Feeder
	ev *evaluator.Evaluator
}

func newStageRun(s *scriptT) *stageRun {
	f := &sut.Feeder{S: s}
	ev := evaluator.NewEvaluator(roller.New(f), evaluator.NewEnvironment())
	ev.MaxRerolls = 300
	return &stageRun{f, ev}
}

func runC23(c *Staged, m *fw.Meta) error {
	if c.Script == nil {
		c.Script = &scriptT{}
	}
	cmd := model.Parse(c.Cmd)
	if cmd == nil || cmd.T == model.Choice {
		return nil
	}
	parse := func() (ast.Node, ast.Node, error) {
		x, err := parser.Parse("input", []byte(c.Cmd))
		if err != nil {
			return nil, nil, errf("%q is not parsed: %v", c.Cmd, err)
		}
		n, ok := x.(ast.Node)
		if !ok {
			return nil, nil, errf("%q is parsed as a %T", c.Cmd, x)
		}
		top := n
		if k, ok := n.(*ast.Command); ok && c.Inner && !k.Expression.IsPrimaryExpression() {
			n = k.Expression
		}
		return n, top, nil
	}
	// prepared returns the tree with integer arguments, evaluated with the same dice each time.
	type prep struct {
		n, top ast.Node
		r      *stageRun
		err    error
	}
	prepared := func() (*prep, error) {
		n, top, err := parse()
		if err != nil {
			return nil, err
		}
		r := newStageRun(c.Script)
		p := &prep{n: n, top: top, r: r}
		if p.err = r.ev.EvalVarArgs(n); p.err != nil {
			return p, nil
		}
		if k, ok := top.(*ast.Command); ok && k.Type() == ast.R_ROLL_COMP_NODE {
			p.err = r.ev.SetRerollThreshold(k)
		}
		return p, nil
	}
	a, err := prepared()
	if err != nil {
		return err
	}
	b, err := prepared()
	if err != nil {
		return err
	}
	plain := true // the arguments were integers from the start
	for _, e := range cmd.Exprs() {
		e.Walk(func(n *model.Node) {
			if n.K == model.KRand || n.K == model.KRoll && (n.L.K != model.KInt || n.R.K != model.KInt) {
				plain = false
			}
		})
	}
	m.Class(plain, "integer arguments from the start")
	m.Class(!plain, "arguments to evaluate")
	m.Class(true, "command "+string(cmd.T))
	if (a.err == nil) != (b.err == nil) {
		return errf("%q: evaluating the arguments gives %v, then %v, with the same dice", c.Cmd, a.err, b.err)
	}
	if a.err != nil {
		m.Class(true, "argument error")
		m.NonTrivial = !plain
		if plain {
			// nothing but targets, thresholds and bonuses can fail; the direct evaluation must fail too
			n, _, err := parse()
			if err != nil {
				return err
			}
			if o, derr := newStageRun(c.Script).ev.Eval(n); derr == nil {
				return errf("%q: the arguments cannot be evaluated (%v) but the direct evaluation gives %s", c.Cmd, a.err, o.Inspect())
			}
		}
		return nil
	}
	if a.n.SExp() != b.n.SExp() {
		return errf("%q: evaluating the arguments gives %s, then %s, with the same dice", c.Cmd, a.n.SExp(), b.n.SExp())
	}
	// every roll has plain integer arguments
	var bad error
	rolls := 0
	walkAST(a.top, func(n ast.Node) {
		switch n.Type() {
		case ast.D_ROLL_NODE, ast.B_ROLL_NODE, ast.R_ROLL_NODE, ast.U_ROLL_NODE:
			rolls++
			x := n.(ast.InfixExpression)
			if !isIntNode(x.Left()) || !isIntNode(x.Right()) {
				bad = errf("%q: after its arguments are evaluated a roll is still %s", c.Cmd, n.SExp())
			}
		case ast.RANDOM_NUMBER_NODE:
			bad = errf("%q: after the arguments are evaluated there is still %s", c.Cmd, n.SExp())
		case ast.R_ROLL_LIST_NODE:
			if x := n.(*ast.RRollList); !x.Threshold.IsNil() && !isIntNode(x.Threshold) {
				bad = errf("%q: after the arguments are evaluated the threshold is still %s", c.Cmd, x.Threshold.SExp())
			}
		}
	})
	if bad != nil {
		return bad
	}
	if plain && len(a.r.f.Reqs) > 0 {
		return errf("%q: %d dice are drawn for integer arguments", c.Cmd, len(a.r.f.Reqs))
	}
	// evaluating the arguments again changes nothing
	sexp, draws := a.n.SExp(), len(a.r.f.Reqs)
	if err := a.r.ev.EvalVarArgs(a.n); err != nil || a.n.SExp() != sexp || len(a.r.f.Reqs) != draws {
		return errf("%q: evaluating the arguments twice gives %s, then %s (%v), drawing %d dice", c.Cmd, sexp, a.n.SExp(), err, len(a.r.f.Reqs)-draws)
	}
	// at once
	want, wantErr := b.r.ev.Eval(b.n)
	// in stages
	sum := cmd.T == model.DExpr || cmd.T == model.DComp || cmd.T == model.Calc
	var got object.Object
	var gotErr error
	if sum {
		gotErr = a.r.ev.DetermineValues(a.n)
	}
	determined := len(a.r.f.Reqs)
	if gotErr == nil {
		if sum {
			walkAST(a.top, func(n ast.Node) {
				if n.IsVariable() {
					bad = errf("%q: after the rolls are determined %s is still variable", c.Cmd, n.SExp())
				}
			})
			if bad != nil {
				return bad
			}
		}
		got, gotErr = a.r.ev.Eval(a.n)
	}
	if (gotErr == nil) != (wantErr == nil) {
		return errf("%q: evaluated in stages: error %v, at once: error %v", c.Cmd, gotErr, wantErr)
	}
	if gotErr != nil {
		m.Class(true, "evaluation error")
		m.NonTrivial = !plain
		return nil
	}
	if got.Type() != want.Type() || got.Inspect() != want.Inspect() {
		return errf("%q: evaluated in stages %s, at once %s", c.Cmd, got.Inspect(), want.Inspect())
	}
	da, db := sut.FromDice(a.r.ev.RolledDice()), sut.FromDice(b.r.ev.RolledDice())
	if !sut.SameDice(da, db) || !sut.SameDice(a.r.f.Dice, b.r.f.Dice) {
		return errf("%q: in stages the dice are %s (drawn %s), at once %s (drawn %s)", c.Cmd, sut.ShowDice(da), sut.ShowDice(a.r.f.Dice), sut.ShowDice(db), sut.ShowDice(b.r.f.Dice))
	}
	if sum {
		if len(a.r.f.Reqs) != determined {
			return errf("%q: evaluating after the rolls are determined draws dice", c.Cmd)
		}
		for i := 0; i < 2; i++ {
			again, err := a.r.ev.Eval(a.n)
			if err != nil || again.Inspect() != got.Inspect() || len(a.r.f.Reqs) != determined {
				return errf("%q: evaluated again it gives %v (error %v), before %s", c.Cmd, again, err, got.Inspect())
			}
		}
		sexp := a.n.SExp()
		if err := a.r.ev.DetermineValues(a.n); err != nil || a.n.SExp() != sexp || len(a.r.f.Reqs) != determined {
			return errf("%q: determining the rolls again gives %s (error %v), before %s", c.Cmd, a.n.SExp(), err, sexp)
		}
	}
	if plain {
		// the tree as parsed, evaluated at once
		n, top, err := parse()
		if err != nil {
			return err
		}
		r := newStageRun(c.Script)
		if k, ok := top.(*ast.Command); ok && k.Type() == ast.R_ROLL_COMP_NODE {
			if err := r.ev.SetRerollThreshold(k); err != nil {
				return errf("%q: %v", c.Cmd, err)
			}
		}
		o, err := r.ev.Eval(n)
		if err != nil {
			return errf("%q: evaluated at once as parsed: %v, in stages %s", c.Cmd, err, got.Inspect())
		}
		if o.Inspect() != got.Inspect() || !sut.SameDice(sut.FromDice(r.ev.RolledDice()), da) {
			return errf("%q: evaluated at once as parsed %s, in stages %s", c.Cmd, o.Inspect(), got.Inspect())
		}
		m.Class(true, "evaluated at once as parsed")
	}
	m.NonTrivial = rolls > 0
	m.Class(rolls > 2, "three rolls or more")
	m.Class(sum && rolls > 0, "rolls determined")
	return nil
}

func fixedC23() []*Staged {
	var out []*Staged
	for i, s := range []string{"2D6", "2D6>=7", "-2D6", "(2D6)", "1-2D6*3D4/2R", "(1+1)D(2*3)-1D4", "[1...3]D[4...6]>[1...2]+1", "C(1+2*3)", "C(-1)", "C(1)", "2B6", "2B6+3B10>=3", "(1+1)B6", "2R6[5]", "2R6[4+1]>=5", "2R6>=5", "2R6", "[1...2]R6[3]", "2U6[5]", "2U6[5]+1-2", "2U6[4+1]-3>=6", "2U6", "1D6/0", "2D6>=1/0", "0D6", "-(1D6-[1...3]D6)", "1D6-1D6<>0"} {
		out = append(out, &Staged{Line{Cmd: s, Script: &scriptT{Seed: uint64(i)}}, false}, &Staged{Line{Cmd: s, Script: &scriptT{Seed: uint64(i)}}, true})
	}
	// long lists and sums whose last parts have arguments to evaluate
	for i, s := range []string{"1B6", "1U6", "1D6", "(1+1)B6", "(2-1)D(3*2)", "[1...2]U6", "1-1D6*0+1D6"} {
		for _, n := range []int{130, 1030, 5000} {
			op := strings.Replace(s[len(s)-2:], "2)", "D6", 1)
			if n > 2000 && op == "D6" { // quadratic
				continue
			}
			l := strings.Repeat(s+"+", n) + "(1+1)" + op + "+[1...2]" + op
			if op == "U6" {
				l += "[7-1]"
			}
			out = append(out, &Staged{Line{Cmd: l, Script: &scriptT{Seed: uint64(i)}}, i%2 == 0})
		}
	}
	return out
}
