//go:build c28 || all

package main

import (
	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/pkg/core/notation"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
	"verif/sut"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C28", Quick: 60000, Thorough: 3000000,
		Rule: "a tree with an operation or a roll list whose parts were replaced at least once (or where equal parts are one node), and that is then executed or rendered",
		Assumptions: []string{
			"trees are those that some text denotes (integers of 0 or more), or such trees with sum rolls replaced by their dice; one node object stands in several places only where it is without dice or a roll of two literal integers, and then the tree is not changed part by part",
			"a tree is executed at the end of its history, since executing a tree changes it",
		},
	}, genC28, runC28, fixedC28()...)
}

// Edit replaces a part of the tree.
type Edit struct {
	Slot int    `json:"slot"`
	With string `json:"with,omitempty"`
	// Dice replaces the part by a sum roll with these dice (where a roll may be).
	Dice []model.Die `json:"dice,omitempty"`
}

// Built is a tree, its history of changes and the dice for executing it.
type Built struct {
	Line
	Edits []*Edit `json:"edits,omitempty"`
	// Parsed: the tree comes from the parser, otherwise it is put together from nodes.
	Parsed bool `json:"parsed,omitempty"`
	// Share: equal parts are one node, where that cannot be told apart (only without Edits).
	Share bool `json:"share,omitempty"`
}

func genC28(t *rapid.T) *Built {
	g := gen.New(t)
	g.Dice = 30
	c := g.Any()
	b := &Built{Line: Line{Cmd: c.S, SExp: c.Cmd.SExp(), Script: gen.Script(t)}, Parsed: fw.Coin(t, 30)}
	if !b.Parsed && fw.Coin(t, 12) {
		b.Share = true
		if len(c.Cmd.Rolls) > 0 && fw.Coin(t, 60) { // rolls several times
			b.Cmd, b.SExp = repeatRolls(t, c), ""
		}
		return b
	}
	for n := fw.Weighted(t, 10, 30, 25, 15, 10, 5, 3, 2); n > 0; n-- {
		e := &Edit{Slot: fw.IntIn(t, 0, 40)}
		g.Dice = max(g.Dice, 10)
		if fw.Coin(t, 15) {
			s := gen.Script(t)
			sides := fw.OneOf(t, 1, 2, 6, 10, 100)
			for k := fw.IntIn(t, 1, 5); k > 0; k-- {
				d, _ := (&scriptT{Seed: s.Seed, Mode: s.Mode}).Die(k, sides)
				e.Dice = append(e.Dice, d)
			}
		}
		switch fw.Weighted(t, 4, 2, 2, 4) {
		case 0:
			e.With = g.Expr(gen.CInt, fw.OneOf(t, 1, 1, 3, 6)).S
		case 1:
			e.With = g.Expr(gen.CRand, fw.OneOf(t, 1, 3, 6)).S
		case 2:
			e.With = g.Roll(fw.OneOf(t, "D", "D", "B", "R", "U")).S
		case 3:
			e.With = g.Expr(gen.CD, fw.OneOf(t, 1, 3, 8)).S
		}
		b.Edits = append(b.Edits, e)
	}
	return b
}

// repeatRolls makes a list with rolls that are equal.
func repeatRolls(t *rapid.T, c gen.C) string {
	var rolls []string
	for i := fw.IntIn(t, 1, 3); i > 0; i-- {
		rolls = append(rolls, itoa(fw.IntIn(t, 1, 3))+c.Cmd.Rolls[0].Op[:1]+fw.OneOf(t, "6", "10"))
	}
	s := rolls[0]
	for i := fw.IntIn(t, 1, 5); i > 0; i-- {
		s += "+" + fw.OneOf(t, rolls...)
	}
	if c.Cmd.Rolls[0].Op[0] != 'B' {
		s += "[" + fw.OneOf(t, "6", "10", "5+1", "3*2") + "]"
	}
	if c.Cmd.Rolls[0].Op[0] == 'U' && fw.Coin(t, 40) {
		s += fw.OneOf(t, "+1", "-2", "+5+1", "-3*2")
	}
	if fw.Coin(t, 40) {
		s += fw.OneOf(t, ">=6", ">=5+1", "<3*2", "=5")
	}
	return s
}

// maker puts trees together.
type maker struct {
	// one: the nodes made, by S-expression, to be used again.
	one map[string]ast.Node
}

// shared returns the node for equal parts, if they may be one.
func (k *maker) shared(n *model.Node, make func() ast.Node) ast.Node {
	free := n.K != model.KSum && !variable(n)
	lit := n.K == model.KRoll && n.L.K == model.KInt && n.R.K == model.KInt
	if k.one == nil || !free && !lit {
		return make()
	}
	s := n.SExp()
	if k.one[s] == nil {
		k.one[s] = make()
	}
	return k.one[s]
}

func buildNode(n *model.Node) ast.Node { return (&maker{}).node(n) }

// node puts the tree of an expression together.
func (k *maker) node(n *model.Node) ast.Node {
	return k.shared(n, func() ast.Node { return k.fresh(n) })
}

func (k *maker) fresh(n *model.Node) ast.Node {
	switch n.K {
	case model.KInt:
		return ast.NewInt(int(n.V.Int64()))
	case model.KNeg:
		return ast.NewUnaryMinus(k.node(n.R))
	case model.KSum:
		ds := sut.ToDice(n.Dice)
		r := ast.NewSumRollResult(ds)
		if len(ds) > 0 && ds[0].Value%3 == 0 { // its dice are replaced
			r = ast.NewSumRollResult(ds[:len(ds)/2])
			r.Value()
			r.SExp()
			r.Dice = append([]dice.Die{}, ds...)
		}
		for i := range ds { // the node has its own dice
			ds[i].Value, ds[i].Sides = -1, -1
		}
		return r
	case model.KRoll:
		return k.newRoll(n)
	}
	l, r := k.node(n.L), k.node(n.R)
	if n.K == model.KRand {
		return ast.NewRandomNumber(l, r)
	}
	return buildBin(n.Op, l, r)
}

func buildBin(op string, l, r ast.Node) ast.Node {
	switch op {
	case "+":
		return ast.NewAdd(l, r)
	case "-":
		return ast.NewSubtract(l, r)
	case "*":
		return ast.NewMultiply(l, r)
	case "/":
		return ast.NewDivideWithRoundingDown(l, r)
	case "/U":
		return ast.NewDivideWithRoundingUp(l, r)
	case "/R":
		return ast.NewDivideWithRounding(l, r)
	}
	panic("harness: operator " + op)
}

func (k *maker) roll(n *model.Node) *ast.VariableInfixExpression {
	return k.node(n).(*ast.VariableInfixExpression)
}

func (k *maker) newRoll(n *model.Node) *ast.VariableInfixExpression {
	l, r := k.node(n.L), k.node(n.R)
	switch n.Op {
	case "D":
		return ast.NewDRoll(l, r)
	case "B":
		return ast.NewBRoll(l, r)
	case "R":
		return ast.NewRRoll(l, r)
	}
	return ast.NewURoll(l, r)
}

// tree is a tree with the handles needed to change it.
type tree struct {
	cmd     *model.Cmd
	root    ast.Node
	expr    *ast.Command // of E
	comp    ast.InfixExpression
	bList   *ast.BRollList
	rList   *ast.RRollList
	uExpr   *ast.URollExpr
	variant bool
}

func buildTree(c *model.Cmd, k *maker) *tree {
	t := &tree{cmd: c}
	var left ast.Node
	switch c.T {
	case model.Calc:
		t.expr = ast.NewCalc(k.node(c.E))
		t.root = t.expr
		return t
	case model.Choice:
		x := ast.NewChoice(ast.NewString(c.Items[0]))
		for _, i := range c.Items[1:] {
			x.Append(ast.NewString(i))
		}
		t.root = x
		return t
	case model.DExpr:
		t.expr = ast.NewDRollExpr(k.node(c.E))
		t.root = t.expr
		return t
	case model.DComp:
		left = k.node(c.E)
	case model.BList, model.BComp:
		t.bList = ast.NewBRollList(k.roll(c.Rolls[0]))
		for _, r := range c.Rolls[1:] {
			t.bList.Append(k.roll(r))
		}
		left = t.bList
	default:
		var th ast.Node = ast.NilInstance()
		if c.Th != nil {
			th = k.node(c.Th)
		}
		t.rList = ast.NewRRollList(k.roll(c.Rolls[0]), th)
		for _, r := range c.Rolls[1:] {
			t.rList.Append(k.roll(r))
		}
		left = t.rList
		if c.T == model.UExpr || c.T == model.UComp {
			t.uExpr = ast.NewURollExpr(t.rList, nil)
			if len(c.Bonus) > 0 {
				op, n := model.BonusTree(c.Bonus)
				t.uExpr.Bonus = buildBin(op, ast.NewInt(0), k.node(n)).(ast.InfixExpression)
			}
			left = t.uExpr
		}
	}
	if !c.IsComp() {
		t.root = left
		return t
	}
	t.comp = ast.NewCompare(left, c.Op, k.node(c.Target))
	switch c.T {
	case model.DComp:
		t.root = ast.NewDRollComp(t.comp)
	case model.BComp:
		t.root = ast.NewBRollComp(t.comp)
	case model.RComp:
		t.root = ast.NewRRollComp(t.comp)
	case model.UComp:
		t.root = ast.NewURollComp(t.comp)
	}
	return t
}

// parseTree takes the tree from the parser.
func parseTree(text string, c *model.Cmd) (*tree, error) {
	x, err := parser.Parse("input", []byte(text))
	if err != nil {
		return nil, errf("%q is not parsed: %v", text, err)
	}
	n, ok := x.(ast.Node)
	if !ok {
		return nil, errf("%q is parsed as a %T", text, x)
	}
	t := &tree{cmd: c, root: n}
	left := n
	if k, ok := n.(*ast.Command); ok {
		if c.IsComp() {
			if t.comp, ok = k.Expression.(ast.InfixExpression); !ok {
				return nil, errf("%q is parsed as %s", text, n.SExp())
			}
			left = t.comp.Left()
		} else {
			t.expr = k
			return t, nil
		}
	}
	switch l := left.(type) {
	case *ast.BRollList:
		t.bList = l
	case *ast.RRollList:
		t.rList = l
	case *ast.URollExpr:
		t.uExpr, t.rList = l, l.URollList
	}
	return t, nil
}

// slot is a part of the tree that can be replaced.
type slot struct {
	ctx byte // i integer, b bound of a random number (an integer), a roll argument, d sum, B R U: that roll
	old *model.Node
	get func() ast.Node
	set func(*model.Node, ast.Node)
}

func (t *tree) slots() []*slot {
	var out []*slot
	var inside func(n *model.Node, get func() ast.Node, ctx byte)
	left := func(n *model.Node, get func() ast.Node, ctx byte) {
		g := func() ast.Node { return get().(ast.InfixExpression).Left() }
		out = append(out, &slot{ctx, n.L, g, func(m *model.Node, a ast.Node) { n.L = m; get().(ast.InfixExpression).SetLeft(a) }})
		inside(n.L, g, ctx)
	}
	right := func(n *model.Node, get func() ast.Node, ctx byte) {
		g := func() ast.Node { return get().(ast.InfixExpression).Right() }
		out = append(out, &slot{ctx, n.R, g, func(m *model.Node, a ast.Node) { n.R = m; get().(ast.InfixExpression).SetRight(a) }})
		inside(n.R, g, ctx)
	}
	inside = func(n *model.Node, get func() ast.Node, ctx byte) {
		switch n.K {
		case model.KNeg:
			g := func() ast.Node { return get().(ast.PrefixExpression).Right() }
			out = append(out, &slot{ctx, n.R, g, func(m *model.Node, a ast.Node) { n.R = m; get().(ast.PrefixExpression).SetRight(a) }})
			inside(n.R, g, ctx)
		case model.KBin:
			left(n, get, ctx)
			right(n, get, ctx)
		case model.KRoll:
			left(n, get, 'a')
			right(n, get, 'a')
		case model.KRand:
			left(n, get, 'i')
			right(n, get, 'i')
		}
	}
	top := func(n *model.Node, ctx byte, get func() ast.Node, set func(*model.Node, ast.Node)) {
		out = append(out, &slot{ctx, n, get, set})
		inside(n, get, ctx)
	}
	c := t.cmd
	ectx := byte('d')
	if c.T == model.Calc {
		ectx = 'i'
	}
	if t.expr != nil {
		top(c.E, ectx, func() ast.Node { return t.expr.Expression }, func(m *model.Node, a ast.Node) { c.E = m; t.expr.Expression = a })
	} else if c.T == model.DComp {
		top(c.E, ectx, func() ast.Node { return t.comp.Left() }, func(m *model.Node, a ast.Node) { c.E = m; t.comp.SetLeft(a) })
	}
	for i := range c.Rolls {
		p := func() **ast.VariableInfixExpression {
			if t.bList != nil {
				return &t.bList.BRolls[i]
			}
			return &t.rList.RRolls[i]
		}
		top(c.Rolls[i], c.Rolls[i].Op[0], func() ast.Node { return *p() }, func(m *model.Node, a ast.Node) { c.Rolls[i] = m; *p() = a.(*ast.VariableInfixExpression) })
	}
	if c.Th != nil {
		top(c.Th, 'i', func() ast.Node { return t.rList.Threshold }, func(m *model.Node, a ast.Node) { c.Th = m; t.rList.Threshold = a })
	}
	if len(c.Bonus) > 0 {
		// the terms are one tree here
		op, n := model.BonusTree(c.Bonus)
		c.Bonus = []model.Term{{Sign: op, N: n}}
		top(n, 'i', func() ast.Node { return t.uExpr.Bonus.Right() }, func(m *model.Node, a ast.Node) { c.Bonus[0].N = m; t.uExpr.Bonus.SetRight(a) })
	}
	if c.Target != nil {
		top(c.Target, 'i', func() ast.Node { return t.comp.Right() }, func(m *model.Node, a ast.Node) { c.Target = m; t.comp.SetRight(a) })
	}
	return out
}

// replacement reads the edit's text for the context.
func (e *Edit) replacement(ctx byte) *model.Node {
	if ctx == 'd' && len(e.Dice) > 0 {
		for _, d := range e.Dice {
			if d.Value < 1 || d.Sides < d.Value {
				return nil
			}
		}
		return &model.Node{K: model.KSum, Dice: e.Dice}
	}
	switch ctx {
	case 'i':
		if c := model.Parse("C(" + e.With + ")"); c != nil && c.T == model.Calc {
			return c.E
		}
	case 'a':
		if c := model.Parse("(" + e.With + ")D1"); c != nil && c.T == model.DExpr && c.E.K == model.KRoll {
			return c.E.L
		}
	case 'd':
		if c := model.Parse("(" + e.With + ")+1D1"); c != nil && c.T == model.DExpr && c.E.K == model.KBin && c.E.Op == "+" && c.E.R.K == model.KRoll {
			return c.E.L
		}
	default:
		if c := model.Parse(e.With); c != nil && len(c.Rolls) == 1 && c.Rolls[0].Op[0] == ctx && !c.IsComp() && c.Th == nil && len(c.Bonus) == 0 {
			return c.Rolls[0]
		}
	}
	return nil
}

func variable(n *model.Node) bool {
	switch n.K {
	case model.KNeg:
		return variable(n.R)
	case model.KBin:
		return variable(n.L) || variable(n.R)
	case model.KRoll, model.KRand:
		return true
	}
	return false
}

// same compares a node of the code under test with the model's.
func same(n *model.Node, a ast.Node) error {
	if a == nil {
		return errf("a part is missing where %s must be", n.SExp())
	}
	if a.IsNil() {
		return errf("%s is called nil", n.SExp())
	}
	if a.IsVariable() != variable(n) {
		return errf("variable: %v is reported of %s", a.IsVariable(), n.SExp())
	}
	if want := n.K != model.KNeg && n.K != model.KBin; a.IsPrimaryExpression() != want {
		return errf("primary expression: %v is reported of %s", !want, n.SExp())
	}
	switch n.K {
	case model.KInt:
		if x, ok := a.(*ast.Int); !ok || x.Value != int(n.V.Int64()) {
			return errf("%s where %s must be", a.SExp(), n.SExp())
		}
	case model.KSum:
		x, ok := a.(*ast.SumRollResult)
		if !ok || !sut.SameDice(sut.FromDice(x.Dice), n.Dice) {
			return errf("%s where %s must be", a.SExp(), n.SExp())
		}
		sum := 0
		for _, d := range n.Dice {
			sum += d.Value
		}
		if x.Value() != sum {
			return errf("the total of %s is given as %d", a.SExp(), x.Value())
		}
	case model.KNeg:
		x, ok := a.(ast.PrefixExpression)
		if !ok || x.Operator() != "-" {
			return errf("%s where %s must be", a.SExp(), n.SExp())
		}
		return same(n.R, x.Right())
	default:
		x, ok := a.(ast.InfixExpression)
		op := n.Op
		if n.K == model.KRand {
			op = "..."
		}
		if !ok || x.Operator() != op {
			return errf("%s where %s must be", a.SExp(), n.SExp())
		}
		if err := same(n.L, x.Left()); err != nil {
			return err
		}
		return same(n.R, x.Right())
	}
	return nil
}

// check compares the whole tree.
func (t *tree) check(when string) error {
	c := t.cmd
	name := c.T
	if got := t.root.Type().String(); got != name {
		return errf("%s: the tree %s is of type %q", when, c.SExp(), got)
	}
	for i := 0; i < 2; i++ {
		if got, want := t.root.SExp(), c.SExp(); got != want {
			return errf("%s: the S-expression is %s, want %s", when, got, want)
		}
		got, err := notation.InfixNotation(t.root, true)
		if want := c.Notation(); err != nil || got != want {
			return errf("%s: the notation of %s is %q (error %v), want %q", when, c.SExp(), got, err, want)
		}
		want := true
		if t.expr != nil {
			want = variable(c.E)
		} else if c.T == model.DComp {
			want = variable(c.E) || variable(c.Target)
		}
		if got := t.root.IsVariable(); got != want {
			return errf("%s: variable: %v is reported of %s", when, got, c.SExp())
		}
		for _, s := range t.slots() {
			if err := same(s.old, s.get()); err != nil {
				return errf("%s: in %s: %v", when, c.SExp(), err)
			}
		}
	}
	return nil
}

func runC28(c *Built, m *fw.Meta) error {
	if c.Script == nil {
		c.Script = &scriptT{}
	}
	cmd := model.Parse(c.Cmd)
	if cmd == nil {
		return nil
	}
	if c.SExp != "" && cmd.SExp() != c.SExp {
		panic("harness: the model parses " + c.Cmd + " differently from its derivation")
	}
	var t *tree
	if c.Parsed {
		var err error
		if t, err = parseTree(c.Cmd, cmd); err != nil {
			return err
		}
	} else {
		k := &maker{}
		if c.Share && len(c.Edits) == 0 {
			k.one = map[string]ast.Node{}
			m.Class(true, "equal parts are one node")
		}
		t = buildTree(cmd, k)
	}
	when := errf("%q (parsed: %v)", c.Cmd, c.Parsed).Error()
	if err := t.check(when); err != nil {
		return err
	}
	type detached struct {
		n    *model.Node
		a    ast.Node
		sexp string
	}
	var gone []detached
	for _, e := range c.Edits {
		slots := t.slots()
		if len(slots) == 0 || e.Slot < 0 {
			continue
		}
		// the next slot that takes the replacement
		for i := range slots {
			s := slots[(e.Slot+i)%len(slots)]
			n := e.replacement(s.ctx)
			if n == nil {
				continue
			}
			a := s.get()
			gone = append(gone, detached{s.old, a, s.old.SExp()})
			m.Class(true, "replaced in context "+string(s.ctx))
			m.Class(n.K == model.KSum, "sum roll replaced by dice")
			s.set(n, buildNode(n))
			when += errf(", %s replaced by %s", s.old.SExp(), n.SExp()).Error()
			break
		}
		if err := t.check(when); err != nil {
			return err
		}
	}
	for _, d := range gone {
		if got := d.a.SExp(); got != d.sexp {
			return errf("%s: the replaced part changed from %s to %s", when, d.sexp, got)
		}
		if err := same(d.n, d.a); err != nil {
			return errf("%s: a replaced part: %v", when, err)
		}
	}
	m.NonTrivial = len(gone) > 0 || c.Share && cmd.Count(model.KRoll) > 1
	m.Class(len(gone) > 1, "several replacements")
	m.Class(c.Parsed, "parsed")
	m.Class(true, "command "+cmd.T)
	// execution
	src := &sut.Source{S: c.Script}
	w := &sut.Want{Cmd: cmd, Outcome: model.Exec(cmd, src, model.MaxRerolls)}
	w.Reqs = src.Reqs
	f := &sut.Feeder{S: c.Script}
	g, err := sut.FromResult(command.Execute(t.root, "DiceBot", evaluator.NewEvaluator(roller.New(f), evaluator.NewEnvironment())))
	if err != nil {
		return errf("%s: %v", when, err)
	}
	g.Reqs, g.Drawn = f.Reqs, f.Dice
	m.Class(!w.Err && len(w.Reqs) > 0, "executed with dice")
	m.Class(w.Err, "execution fails")
	if err := sut.Compare(when, g, w); err != nil {
		return err
	}
	for _, d := range gone {
		if got := d.a.SExp(); got != d.sexp {
			return errf("%s: execution changed the replaced part %s to %s", when, d.sexp, got)
		}
	}
	return nil
}

func fixedC28() []*Built {
	var out []*Built
	for i, s := range []string{"2B6+2B6", "2B6+2B6+1B6+2B6>=5", "2R6+2R6[5]", "2R6+2R6+2R10[6]>=6", "1U6+1U6[6]+6", "1U6+1U6+1U6[5]-5>=5", "2D6+2D6", "2D6*(2D6-2D6)>=7", "C((1+2)*(1+2))", "(1+2)D(1+2)+(1+2)D6"} {
		out = append(out, &Built{Line: Line{Cmd: s, Script: &scriptT{Seed: uint64(i)}}, Share: true})
	}
	for i, s := range []string{"C(1+2*3)", "C(-(1/2U))", "2D6", "2D6+1>=7", "-(1D6-2)*3", "(1+1)D([1...3]*2)", "2B6+3B10", "2B6>=3", "2R6[5]", "2R6+1R10[5]>=4", "2R6>=5", "2U6[5]", "2U6[5]+1", "2U6[5]-1-2>=3", "2U6[5]-(1-2)", "choice[a,b,c]"} {
		for _, p := range []bool{false, true} {
			for k := 0; k < 6; k++ {
				b := &Built{Line: Line{Cmd: s, Script: &scriptT{Seed: uint64(i)}}, Parsed: p}
				for j := 0; j < k; j++ {
					b.Edits = append(b.Edits, &Edit{Slot: k + j, With: []string{"3", "2D4-1", "1-2", "4D6*2", "2R8", "-1"}[(k+2*j)%6]})
				}
				if k == 4 {
					b.Edits = append(b.Edits, &Edit{Slot: 1, With: "1", Dice: []model.Die{{Value: 2, Sides: 6}, {Value: 5, Sides: 6}}})
				}
				out = append(out, b)
			}
		}
	}
	return out
}
