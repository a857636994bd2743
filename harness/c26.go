//go:build c26 || all

package main

import (
	"errors"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/pkg/dicebot"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
	"verif/sut"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C26", Quick: 150000, Thorough: 6000000,
		Rule: "the game system answers a text that is also a basic command, or declines (after rolling dice or not) one that is",
		Assumptions: []string{
			"the repository has no game system with commands of its own; the check provides one, set on the instance like any other",
		},
	}, genC26, runC26, fixedC26()...)
	fw.Sweep("C26", "each character of some blocks (thorough: all) before, in and after the first part of a line, answered or declined", func(deep bool, yield func(*SystemCase) bool) {
		sc := &scriptT{Seed: 3}
		i := 0
		someRunes(deep, func(r rune) bool {
			i++
			c := &SystemCase{Game: "Foo", Script: sc}
			for k, s := range []string{"#", "#ET", "ET#", "E#T", "ET# x", "S#ET", "2D6#", "#2D6 x", "表#"} {
				c.Lines = append(c.Lines, &SysLine{Cmd: strings.ReplaceAll(s, "#", string(r)), Via: "execute", Answer: (i+k)%2 == 0, Num: (i + k) % 3, Sides: 6, Parts: 2})
			}
			return yield(c)
		})
	})
}

// SystemCase is a history of lines given to an instance with a game system.
type SystemCase struct {
	Game   string     `json:"game"`
	Script *scriptT   `json:"script"`
	Lines  []*SysLine `json:"lines"`
	// Repeat: the lines are given so many times more.
	Repeat int `json:"repeat,omitempty"`
}

// SysLine is one line and what the game system does with it.
type SysLine struct {
	Cmd string `json:"cmd"`
	// Bad are bytes put in that are no UTF-8.
	Bad    []*BadByte `json:"bad,omitempty"`
	Via    string     `json:"via"` // execute, basic, dicebot
	Answer bool       `json:"answer"`
	// Roll is what the system rolls before it answers or declines.
	Num     int  `json:"num"`
	Sides   int  `json:"sides"`
	Success int  `json:"success"`
	Secret  bool `json:"secret"`            // what it says itself
	Parts   int  `json:"parts"`             // of its message
	NoDice  bool `json:"no_dice,omitempty"` // it does not list the dice it rolled
	Other   bool `json:"other,omitempty"`   // it answers under another identifier
}

func genC26(t *rapid.T) *SystemCase {
	c := &SystemCase{Game: fw.OneOf(t, "DiceBot", "Foo", "クトゥルフ", "")}
	n := fw.OneOf(t, 1, 1, 1, 2, 3, 5)
	for i := 0; i < n; i++ {
		l := genSysLine(t)
		if i > 0 && fw.Coin(t, 25) { // an earlier line again
			e := c.Lines[fw.Pick(t, i)]
			l.Cmd, l.Bad = e.Cmd, e.Bad
		}
		c.Lines = append(c.Lines, l)
	}
	c.Script = gen.Script(t)
	if fw.Coin(t, 6) {
		c.Script.FailAt = fw.IntIn(t, 1, 10)
	}
	return c
}

func genSysLine(t *rapid.T) *SysLine {
	g := gen.New(t)
	g.Dice = 10
	c := &SysLine{Via: fw.OneOf(t, "execute", "execute", "execute", "execute", "basic", "dicebot"),
		Answer: fw.Coin(t, 50), Num: fw.OneOf(t, 0, 0, 1, 2, 5), Sides: fw.OneOf(t, 6, 6, 10, 100), Success: fw.Pick(t, 3), Secret: fw.Coin(t, 30), Parts: fw.OneOf(t, 2, 2, 2, 0, 1, 3), NoDice: fw.Coin(t, 15), Other: fw.Coin(t, 15)}
	switch fw.Weighted(t, 50, 15, 15, 15) {
	case 0:
		c.Cmd = g.Any().S
	case 1:
		c.Cmd = g.Any().S + fw.OneOf(t, " ", "\t", "\n", "  ", "\u3000", "\v", "\u00a0") + fw.OneOf(t, "", "x", "comment 2D6", "コメント", "S")
	case 2:
		c.Cmd = mutate(t, g.Any().S)
	case 3:
		c.Cmd = fw.OneOf(t, "", " ", "ET", "RES(1-2)", "SAN", "S", "s", "SS", " 2D6", "\n", "CC<=50", "K20", "あ い", "ss2d6", "choice[a, b]", "C(1) x", "S\tx")
	}
	if fw.Coin(t, 35) {
		c.Cmd = fw.OneOf(t, "S", "s") + c.Cmd
	}
	if fw.Coin(t, 5) {
		c.Bad = genBad(t, c.Cmd)
	}
	return c
}

// line is the text given.
func (l *SysLine) line() string { return spoil(l.Cmd, l.Bad) }

// parts are the parts of the system's answer.
func (l *SysLine) parts(text string) []string {
	return []string{"(" + text + ")", "own answer", "more"}[:l.Parts]
}

// game is the identifier the system answers under.
func (l *SysLine) game(id string) string {
	if l.Other {
		return id + "2"
	}
	return id
}

// ownSystem is a game system with a command of its own.
type ownSystem struct {
	dicebot.DiceBotImpl
	c     *SysLine
	seen  []string
	given *command.Result
}

func (s *ownSystem) ExecuteCommand(text string, ev *evaluator.Evaluator) (*command.Result, error) {
	s.seen = append(s.seen, text)
	if s.c.Num > 0 {
		if _, err := ev.RollDice(s.c.Num, s.c.Sides); err != nil {
			return nil, err
		}
	}
	if !s.c.Answer {
		return nil, errors.New("not one of my commands")
	}
	r := &command.Result{GameID: s.c.game(s.GameID()), RolledDice: ev.RolledDice(), IsSecret: s.c.Secret, SuccessCheckResult: command.SuccessCheckResultType(s.c.Success)}
	if s.c.NoDice {
		r.RolledDice = nil
	}
	for _, p := range s.c.parts(text) {
		r.AppendMessagePart(p)
	}
	s.given = r
	return r, nil
}

func runC26(c *SystemCase, m *fw.Meta) error {
	if c.Script == nil {
		c.Script = &scriptT{}
	}
	f := &sut.Feeder{S: c.Script}
	b := bcdice.New(f)
	sys := &ownSystem{DiceBotImpl: dicebot.DiceBotImpl{BasicInfo: &dicebot.DiceBotBasicInfo{GameID: c.Game, GameName: "own", Usage: "own", SortKey: "own"}}}
	b.DiceBot = sys
	declined := false
	for i := 0; i < len(c.Lines)*(1+max(c.Repeat, 0)); i++ {
		l := c.Lines[i%len(c.Lines)]
		sys.c = l
		done, err := l.round(c, b, f, sys, m)
		if err != nil {
			return errf("line %d, %s of %q: %v", i+1, l.Via, l.line(), err)
		}
		if !done {
			break
		}
		m.Class(declined && sys.given != nil, "an answer after dice of a declined line")
		declined = declined || sys.given == nil && l.Num > 0 && l.Via != "basic"
	}
	if b.DiceBot != dicebot.DiceBot(sys) {
		return errf("the game system was replaced")
	}
	return nil
}

func (c *SysLine) round(all *SystemCase, b *bcdice.BCDice, f *sut.Feeder, sys *ownSystem, m *fw.Meta) (bool, error) {
	sys.seen, sys.given = nil, nil
	before, reqs := len(f.Dice), len(f.Reqs)
	line := c.line()
	text, secret := line, false
	if rest, _ := model.SplitSecret(line); model.Unclear(line) || model.Unclear(rest) || model.Unclear(model.FirstPart(rest)) {
		return false, nil
	}
	m.Class(!validUTF8(line), "bytes that are no UTF-8")
	var r *command.Result
	var err error
	var cmd *model.Cmd
	wantSeen := []string{}
	switch c.Via {
	case "basic":
		cmd = model.Parse(text)
		r, err = b.ExecuteBasicCommand(line)
	case "dicebot":
		wantSeen = []string{text}
		r, err = b.ExecuteDiceBotCommand(line)
	default:
		text, secret = model.SplitSecret(text)
		cmd, _ = model.ParseLine(line)
		wantSeen = []string{model.FirstPart(text)}
		r, err = b.ExecuteCommand(line)
	}
	if len(sys.seen) != len(wantSeen) || len(wantSeen) == 1 && sys.seen[0] != wantSeen[0] {
		return false, errf("the game system was given %q, want %q", sys.seen, wantSeen)
	}
	from := sut.FromResult
	if sys.given != nil {
		from = sut.FromSystem
	}
	g, e := from(r, err)
	if e != nil {
		return false, e
	}
	drawn := sut.FromDice(sut.ToDice(f.Dice[before:]))
	if sys.given != nil { // its answer
		m.Class(true, "the system answers")
		m.NonTrivial = m.NonTrivial || cmd != nil
		if g.Err {
			return false, errf("the game system answers, the result is the error %s", g.ErrText)
		}
		wantSecret := secret
		if c.Via == "dicebot" {
			wantSecret = c.Secret
		}
		game := c.game(all.Game)
		want := game + " : " + strings.Join(c.parts(wantSeen[0]), " ＞ ")
		m.Class(c.Parts == 0, "an answer without text")
		wantDice := drawn
		if c.NoDice {
			wantDice = nil
		}
		if g.Msg != want || g.GameID != game || g.Success != c.Success || g.Secret != wantSecret || len(drawn) != c.Num || !sut.SameDice(g.Dice, wantDice) {
			return false, errf("the answer is %q, game %q, success %d, secret %v, dice %s, drawn %s; want %q, %d, %v, %d dice", g.Msg, g.GameID, g.Success, g.Secret, sut.ShowDice(g.Dice), sut.ShowDice(drawn), want, c.Success, wantSecret, c.Num)
		}
		return true, nil
	}
	own, ownDice := 0, 0 // dice the system asked for and got
	if len(wantSeen) == 1 {
		own, ownDice = c.Num, c.Num
		if all.Script.FailAt > reqs && all.Script.FailAt <= reqs+own {
			own = all.Script.FailAt - reqs
			ownDice = own - 1
		}
	}
	if c.Via == "dicebot" {
		if !g.Err || len(f.Reqs) != reqs+own {
			return false, errf("the game system declines, the result is %s", outcome(g))
		}
		return true, nil
	}
	m.Class(c.Via == "execute" && own > 0, "the system rolls and declines")
	m.Class(c.Via == "execute" && own == 0, "the system declines")
	m.Class(c.Via == "basic", "basic command asked for")
	if cmd == nil {
		if !g.Err || len(f.Reqs) != reqs+own {
			return false, errf("not a basic command, but the result is %s", outcome(g))
		}
		return true, nil
	}
	m.NonTrivial = true
	src := &sut.Source{S: all.Script, Reqs: make([]int, reqs+own)}
	w := model.Exec(cmd, src, model.MaxRerolls)
	if w.Overflow {
		return false, nil
	}
	if w.Err {
		if !g.Err {
			return false, errf("must be an error (%s), got %s", w.Why, outcome(g))
		}
		return false, nil // how many dice an error consumes is left open
	}
	if g.Err {
		return false, errf("must answer %q, got the error %s", w.Message(all.Game), g.ErrText)
	}
	if len(drawn) < ownDice {
		return false, errf("only %d dice drawn", len(drawn))
	}
	if g.Msg != w.Message(all.Game) || g.GameID != all.Game || g.Success != w.Success || g.Secret != secret || !sut.SameDice(g.Dice, w.Dice) || !sut.SameDice(drawn[ownDice:], w.Dice) {
		return false, errf("the answer is %s (game %q, secret %v, drawn %s), want %q, success %d, secret %v, dice %s", outcome(g), g.GameID, g.Secret, sut.ShowDice(drawn), w.Message(all.Game), w.Success, secret, sut.ShowDice(w.Dice))
	}
	return true, nil
}

func fixedC26() []*SystemCase {
	var out []*SystemCase
	for i, s := range []string{"2D6", "S2D6>=7", "s2d6 x", "", "S", "SS2D6", " 2D6", "ET", "choice[a, b]", "Schoice[a, b] c", "1D6/0", "C(1+2) x", "3B6>=4", "2R6[6]", "2U6[6]+1"} {
		for _, via := range []string{"execute", "basic", "dicebot"} {
			for _, a := range []bool{true, false} {
				l := &SysLine{Cmd: s, Via: via, Answer: a, Num: i % 3, Sides: 6, Secret: i%2 == 0, Parts: 2 - i%4%3}
				out = append(out, &SystemCase{Game: "Foo", Script: &scriptT{Seed: uint64(i + 1)}, Lines: []*SysLine{l, l}})
			}
		}
	}
	// long histories of one kind
	for i, s := range []string{"2D6", "S2D6>=7", "ET", "choice[a, b]", "2D6 x"} {
		for _, a := range []bool{true, false} {
			for _, via := range []string{"execute", "dicebot"} {
				l := &SysLine{Cmd: s, Via: via, Answer: a, Num: i % 2, Sides: 6, Parts: 2}
				out = append(out, &SystemCase{Game: "Foo", Script: &scriptT{Seed: uint64(i + 1)}, Lines: []*SysLine{l}, Repeat: 1500},
					&SystemCase{Game: "Foo", Script: &scriptT{Seed: uint64(i + 1)}, Lines: append(many(l, 700), &SysLine{Cmd: s, Via: via, Answer: !a, Num: 1, Sides: 6, Parts: 1}), Repeat: 1})
			}
		}
	}
	return out
}

// many is the line n times.
func many(l *SysLine, n int) []*SysLine {
	var out []*SysLine
	for ; n > 0; n-- {
		out = append(out, l)
	}
	return out
}
