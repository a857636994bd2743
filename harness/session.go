//go:build c21 || c32 || all

package main

import (
	"errors"
	"regexp"
	"strconv"
	"strings"
	"sync"

	dicebotlist "github.com/raa0121/GoBCDice/pkg/dicebot/list"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
)

// Session is the text typed into one REPL process.
type Session struct {
	Lines []string `json:"lines"`
	// NoNL: the last line is not terminated.
	NoNL bool `json:"no_nl,omitempty"`
}

// qdie is a die in the generator's idea of the queue.
func diceText(t *rapid.T, ds []model.Die) string {
	sep := fw.OneOf(t, ",", ", ", " , ", ",  ")
	var l []string
	for _, d := range ds {
		s := itoa(d.Value) + "/" + itoa(d.Sides)
		if fw.Coin(t, 5) {
			s = "0" + s
		} else if fw.Coin(t, 5) {
			s = itoa(d.Value) + "/" + fw.OneOf(t, "0", "00") + itoa(d.Sides)
		}
		l = append(l, s)
	}
	return strings.Join(l, sep)
}

func genSession(t *rapid.T) *Session {
	g := gen.New(t)
	g.Dice = 8
	s := &Session{}
	n := fw.IntIn(t, 1, 16)
	queue := false
	add := func(l string) {
		if fw.Coin(t, 6) {
			l = " " + l
		}
		if fw.Coin(t, 6) {
			l += fw.OneOf(t, " ", "  ", "\u3000")
		}
		s.Lines = append(s.Lines, l)
	}
	if fw.Coin(t, 75) {
		add(".set-die-feeder queue")
		queue = true
	}
	pre := func(l string) string {
		if fw.Coin(t, 30) {
			return ".eval " + l
		}
		return l
	}
	for i := 0; i < n; i++ {
		switch fw.Weighted(t, 34, 12, 10, 10, 10, 6, 4, 3, 5, 3) {
		case 0: // a command with the dice it needs in the queue
			var x string
			if queue {
				x = g.Any().S
			} else {
				x = mtCommand(t, g)
			}
			if !replable(x) {
				x = "2D6"
			}
			most := 60
			if queue && fw.Coin(t, 2) {
				x = itoa(fw.OneOf(t, 61, 70, 100, 130, 260, 513)) + fw.OneOf(t, "D6", "B6", "R6[6]", "D100>=1", "U6[5]")
				most = 600
			}
			if queue && (most > 60 || fw.Coin(t, 70)) {
				c, _ := model.ParseLine(x)
				src := &scriptSource{s: gen.Fair(t)}
				src.s.FailAt, src.s.BadAt = 0, 0
				if c != nil {
					rec := &recSource{src: src}
					model.Exec(c, rec, most)
					ds := rec.dice
					if len(ds) > most {
						ds = ds[:most]
					}
					switch fw.Weighted(t, 70, 10, 10, 10, 6) {
					case 4: // a value the die has not
						if len(ds) > 0 {
							d := &ds[fw.Pick(t, len(ds))]
							d.Value = fw.OneOf(t, 0, d.Sides+1, d.Sides*2, 1000, 1<<40)
						}
					case 1:
						if len(ds) > 0 {
							ds = ds[:len(ds)-1]
						}
					case 2:
						ds = append(ds, model.Die{Value: 2, Sides: 6})
					case 3:
						if len(ds) > 0 {
							ds[fw.Pick(t, len(ds))].Sides++
						}
					}
					add(".set-dice-queue " + diceText(t, ds))
				}
			}
			if fw.Coin(t, 15) {
				x = fw.OneOf(t, "S", "s") + x
			}
			if fw.Coin(t, 10) {
				x += " " + fw.OneOf(t, "comment", "攻撃", "2D6", ".q")
			}
			add(pre(x))
			if fw.Coin(t, 30) {
				add(pre(x)) // the same dice again
			}
		case 1: // a bad command
			x := mutate(t, g.Any().S)
			if !queue {
				if c, _ := model.ParseLine(x); c != nil {
					x = fw.OneOf(t, "x", "2D", "1D6>", "C(1/0)", "2D6>=2D6", "0D6", "100001D6", "S", "2R6", "[2...1]D6")
				}
			}
			if !replable(x) {
				x = "2D"
			}
			add(pre(x))
		case 2: // .ast
			x := g.Any().S
			if fw.Coin(t, 30) {
				x = mutate(t, x)
			}
			if fw.Coin(t, 20) {
				x = "S" + x
			}
			if !replable(x) {
				x = ""
			}
			add(".ast " + x)
		case 3: // .roll
			num, sides := fw.OneOf(t, 1, 1, 2, 3, 4, 5, 6, 10, 12), fw.OneOf(t, 6, 6, 10, 1, 100, 8, 20)
			if queue && fw.Coin(t, 60) {
				var ds []model.Die
				sc := gen.Fair(t)
				sc.FailAt, sc.BadAt = 0, 0
				k := num + fw.OneOf(t, 0, 0, 1, -1)
				for j := 1; j <= k; j++ {
					d, _ := sc.Die(j, sides)
					ds = append(ds, d)
				}
				add(".set-dice-queue " + diceText(t, ds))
			}
			zero := func() string {
				if fw.Coin(t, 12) {
					return fw.OneOf(t, "0", "00", "000")
				}
				return ""
			}
			if fw.Coin(t, 4) && !queue {
				num = fw.OneOf(t, 13, 20, 33, 50, 65, 100, 101, 128, 200, 250, 257, 500, 1000, 1001, 3000)
			}
			l := ".roll " + zero() + itoa(num) + fw.OneOf(t, " ", "  ") + zero() + itoa(sides)
			if fw.Coin(t, 25) {
				l = fw.OneOf(t, ".roll", ".roll 2", ".roll a b", ".roll 2 6 7", ".roll -1 6", ".roll 0 6", ".roll 2 0", ".roll 100001 6", ".roll 2D6", ".roll 2,6", ".roll ２ 6", ".roll 02 06", ".roll 1 99999999999999999999", ".roll 9223372036854775808 6", ".roll 1 9223372036854775807", ".roll 00000000000000000000001 6")
			}
			add(l)
			if fw.Coin(t, 30) {
				add(l)
			}
		case 4: // .set-dice-queue
			switch fw.Pick(t, 4) {
			case 0:
				add(".set-dice-queue " + fw.OneOf(t, "1", "1/6,", "a/6", "1/6 2/6", "-1/6", "1/6,,2/6", "1 / 6", "1/6;2/6", ",", "1/6, x", "/6", "1/", "99999999999999999999/6", "1/9223372036854775808"))
			case 1:
				add(".set-dice-queue" + fw.OneOf(t, "", " "))
			default:
				var ds []model.Die
				for j, k := 0, fw.IntIn(t, 1, 8); j < k; j++ {
					sides := fw.OneOf(t, 6, 6, 6, 10, 4)
					d := model.Die{Value: fw.IntIn(t, 1, sides), Sides: sides}
					if fw.Coin(t, 3) {
						d.Value = fw.OneOf(t, 0, sides+1, sides*3, 1<<30)
					}
					ds = append(ds, d)
				}
				add(".set-dice-queue " + diceText(t, ds))
			}
		case 5: // .set-die-feeder
			x := fw.OneOf(t, "mt", "queue", "queue", "Queue", "MT", "QUEUE", "", "random", "que ue", "mt queue", "mt19937", "q")
			add(".set-die-feeder " + x)
			switch strings.ToLower(x) {
			case "mt":
				queue = false
			case "queue":
				queue = true
			}
		case 6: // .set-game
			add(".set-game" + fw.OneOf(t, "", " DiceBot", " dicebot", " Foo", " DiceBot x", " ", " クトゥルフ"))
		case 7:
			add(fw.OneOf(t, ".list-games", ".help", ".list-games x", ".help ast"))
		case 8: // empty, unknown
			if fw.Coin(t, 50) {
				add(nearName(t))
				continue
			}
			add(fw.OneOf(t, "", "", " ", ".", ".unknown", ".unknown 2D6", "..", ".Q", ".EVAL C(1)", ".ast", ".eval", ".roll", ".set-die-feeder", ".qq", ". q", ".quiet", ".Help", "-", ".-", ".ev C(1)"))
		case 9:
			if fw.Coin(t, 40) {
				add(fw.OneOf(t, ".q", ".quit", ".quit now", " .q"))
			}
		}
	}
	s.NoNL = fw.Coin(t, 10)
	return s
}

var replNames = []string{"ast", "eval", "roll", "set-die-feeder", "set-dice-queue", "set-game", "list-games", "help", "quit", "q"}

// nearName makes a line that starts almost like a command of the REPL.
func nearName(t *rapid.T) string {
	n := fw.OneOf(t, replNames...)
	p := fw.IntIn(t, 0, len(n)-1)
	dot := "."
	switch fw.Weighted(t, 8, 2, 2, 2, 2, 2, 1, 1) {
	case 0:
		n = n[:p]
	case 1:
		n += fw.OneOf(t, "s", "-", "x", "-dice", "-all", "er")
	case 2:
		n = strings.ToUpper(n[:1]) + n[1:]
	case 3:
		n = strings.ToUpper(n)
	case 4: // a letter left out
		n = n[:p] + n[p+1:]
	case 5: // swapped
		if p > 0 {
			n = n[:p-1] + n[p:p+1] + n[p-1:p] + n[p+1:]
		} else {
			n = n[1:]
		}
	case 6:
		n = strings.ReplaceAll(n, "-", fw.OneOf(t, "", "_", " ", "--"))
		if n == "q" || n == "quit" {
			n += "x"
		}
	case 7:
		dot = fw.OneOf(t, "", "..", "．", "/", ":", ". ", "-")
	}
	l := dot + n
	if fw.Coin(t, 60) {
		l += fw.OneOf(t, " ", "  ") + fw.OneOf(t, "2D6", "C(1)", "queue", "mt", "1/6, 2/6", "1 6", "DiceBot", "x")
	}
	return l
}

// mtCommand makes a command whose message shows all its dice.
func mtCommand(t *rapid.T, g *gen.G) string {
	for i := 0; i < 8; i++ {
		x := g.Any()
		switch x.Cmd.T {
		case model.DExpr, model.DComp, model.BList, model.BComp, model.Calc:
			if x.Cmd.Count(model.KRand) == 0 {
				return x.S
			}
		}
	}
	return "3D6+2"
}

type recSource struct {
	src  *scriptSource
	dice []model.Die
}

func (r *recSource) Next(sides int) (model.Die, error) {
	d, err := r.src.Next(sides)
	if err == nil {
		r.dice = append(r.dice, d)
	}
	return d, err
}

// queueSource delivers given dice.
type queueSource struct {
	ds []model.Die
	n  int
}

func (q *queueSource) Next(int) (model.Die, error) {
	if q.n >= len(q.ds) {
		return model.Die{}, errors.New("the queue is empty")
	}
	q.n++
	return q.ds[q.n-1], nil
}

// replModel is the state of a session.
type replModel struct {
	queue bool
	dice  []model.Die
	ended bool
}

var (
	replNameRe = regexp.MustCompile(`^\.([-a-z]+)(?:[\t\n\f\r ]|$)`)
	twoNumsRe  = regexp.MustCompile(`^([0-9]+)[\t\n\f\r ]+([0-9]+)$`)
	oneDieRe   = regexp.MustCompile(`^[\t\n\f\r ]*([0-9]+)/([0-9]+)[\t\n\f\r ]*$`)
	bracketsRe = regexp.MustCompile(`\[([0-9,]+)\]`)
	shownDie   = regexp.MustCompile(`^([0-9]+)/([0-9]+)$`)
)

// knownBigDie: such a number is read as the largest integer instead of being an error.
const knownBigDie = "a number beyond the integer range in a list of dice"

// parseDice reads a list of dice. big says that it has numbers beyond the
// range of integers (and is a list of dice otherwise); they are given as the
// largest integer.
func parseDice(s string) (ds []model.Die, ok, big bool) {
	if s == "" {
		return ds, true, false
	}
	for _, x := range strings.Split(s, ",") {
		m := oneDieRe.FindStringSubmatch(x)
		if m == nil {
			return nil, false, false
		}
		v, e1 := strconv.Atoi(m[1])
		n, e2 := strconv.Atoi(m[2])
		if e1 != nil || e2 != nil {
			big = true
		}
		ds = append(ds, model.Die{Value: v, Sides: n})
	}
	return ds, !big, big
}

// step reads the answer to one line and compares it with what the state demands.
func (r *replModel) step(line string, o *replOut, m *fw.Meta) error {
	l := strings.TrimSpace(line)
	if l == ".q" {
		r.ended = true
		return nil
	}
	name, arg := "", ""
	if mm := replNameRe.FindStringSubmatch(l); mm != nil {
		name = mm[1]
		arg = strings.Trim(l[1+len(name):], "\t\n\f\r ")
	}
	known := map[string]bool{"ast": true, "eval": true, "roll": true, "set-die-feeder": true, "set-dice-queue": true, "set-game": true, "list-games": true, "help": true, "quit": true}
	if !known[name] {
		name, arg = "eval", l
	}
	if name == "quit" {
		r.ended = true
		return nil
	}
	if name == "list-games" || name == "help" {
		return r.listing(name, l, o, m)
	}
	a, isErr, ok := o.answer()
	if !ok {
		return errf("no answer to %q; the output ends with %q", l, lastPart(a, 200))
	}
	wantErr := func(why string) error {
		if !isErr || strings.TrimSpace(a) == "" {
			return errf("%q must answer an error (%s), it answers %q", l, why, a)
		}
		return nil
	}
	want := func(s string) error {
		if isErr || a != s {
			return errf("%q answers %q, want %q (queue source %v, dice %v)", l, a, s, r.queue, r.dice)
		}
		return nil
	}
	usage := func() error {
		m.Class(true, "usage line")
		args, err := helpArgs(name)
		if err != nil {
			return err
		}
		if want := "使用法: ." + name + " " + args; isErr || a != want {
			return errf("%q must answer %q, it answers %q", l, want, a)
		}
		return nil
	}
	m.Class(true, "."+name)
	switch name {
	case "ast":
		if arg == "" {
			return usage()
		}
		text, secret := model.SplitSecret(arg)
		c := model.Parse(text)
		if c == nil {
			return wantErr("not a command")
		}
		w := resHeader
		if secret {
			w += secHeader
		}
		return want(w + c.SExp())
	case "eval":
		if arg == "" {
			return usage()
		}
		return r.eval(arg, a, isErr, wantErr, want, m)
	case "roll":
		mm := twoNumsRe.FindStringSubmatch(arg)
		if mm == nil {
			return usage()
		}
		num, e1 := strconv.Atoi(mm[1])
		sides, e2 := strconv.Atoi(mm[2])
		if e1 != nil || e2 != nil {
			return wantErr("a number out of range")
		}
		if num < 1 || sides < 1 || num > 100000 {
			return wantErr("number of dice or sides out of range")
		}
		if r.queue {
			var l []string
			for i := 0; i < num; i++ {
				if i >= len(r.dice) || r.dice[i].Sides != sides {
					return wantErr("the queue does not hold these dice")
				}
				l = append(l, itoa(r.dice[i].Value)+"/"+itoa(sides))
			}
			return want(resHeader + strings.Join(l, ", "))
		}
		if isErr || !strings.HasPrefix(a, resHeader) {
			return errf("%q answers %q", l, a)
		}
		ds := strings.Split(strings.TrimPrefix(a, resHeader), ", ")
		if len(ds) != num {
			return errf("%q answers %d dice: %q", l, len(ds), a)
		}
		for _, d := range ds {
			mm := shownDie.FindStringSubmatch(d)
			if mm == nil {
				return errf("%q answers %q", l, a)
			}
			v, _ := strconv.Atoi(mm[1])
			if mm[2] != itoa(sides) || v < 1 || v > sides {
				return errf("%q answers the die %s", l, d)
			}
		}
		return nil
	case "set-die-feeder":
		switch strings.ToLower(arg) {
		case "mt":
			r.queue, r.dice = false, nil
			return want(okLine)
		case "queue":
			r.queue, r.dice = true, nil
			return want(okLine)
		}
		return usage()
	case "set-dice-queue":
		if !r.queue {
			return wantErr("the source takes no dice")
		}
		ds, ok, big := parseDice(arg)
		if big && !isErr {
			m.Known = knownBigDie
			r.dice = ds
			return want(okLine)
		}
		if !ok {
			m.Class(len(r.dice) > 0, "rejected queue setting with dice in the queue")
			return wantErr("not a list of dice")
		}
		r.dice = ds
		return want(okLine)
	case "set-game":
		switch arg {
		case "":
			return want("DiceBot")
		case "DiceBot":
			return want(okLine)
		}
		return wantErr("unknown game system")
	}
	return nil
}

var helpText struct {
	once sync.Once
	s    string
	err  error
}

// helpArgs gives the arguments of a command as .help shows them.
func helpArgs(name string) (string, error) {
	h := &helpText
	h.once.Do(func() { h.s, h.err = replRun(".help\n.q\n") })
	if h.err != nil {
		return "", h.err
	}
	_, rest, _ := strings.Cut(h.s, "\x1b[1m."+name+escReset)
	args, _, _ := strings.Cut(rest, "\n")
	if args = strings.TrimSpace(args); args == "" {
		return "", errf(".help does not show the arguments of .%s: %q", name, h.s)
	}
	return args, nil
}

func (r *replModel) eval(arg, a string, isErr bool, wantErr func(string) error, want func(string) error, m *fw.Meta) error {
	c, secret := model.ParseLine(arg)
	if c == nil {
		return wantErr("not a command")
	}
	head := resHeader
	if secret {
		head += secHeader
		m.Class(true, "secret roll")
	}
	qs := &queueSource{ds: r.dice}
	if !r.queue {
		// the dice are those the message shows
		if c.Count(model.KRand) > 0 {
			return nil
		}
		switch c.T {
		case model.DExpr, model.DComp:
			for _, b := range bracketsRe.FindAllStringSubmatch(a, -1) {
				for _, v := range strings.Split(b[1], ",") {
					n, _ := strconv.Atoi(v)
					qs.ds = append(qs.ds, model.Die{Value: n})
				}
			}
		case model.BList, model.BComp:
			if p := strings.Split(a, " ＞ "); len(p) >= 2 {
				for _, v := range strings.Split(p[1], ",") {
					n, _ := strconv.Atoi(v)
					qs.ds = append(qs.ds, model.Die{Value: n})
				}
			}
		case model.Calc:
		default:
			return nil
		}
		if isErr { // the model must fail with any dice
			src := &scriptSource{s: &scriptT{Seed: 1}}
			if w := model.Exec(c, src, model.MaxRerolls); !w.Err && !w.Overflow && c.Count(model.KBin) == 0 {
				return errf("%q must be answered, it answers the error %q", arg, a)
			}
			return nil
		}
		w := model.Exec(c, &anySides{qs}, model.MaxRerolls)
		if w.Overflow {
			return nil
		}
		if w.Err {
			return errf("%q must answer an error (%s) or shows dice that were not rolled: %q", arg, w.Why, a)
		}
		for _, d := range w.Dice {
			if d.Value < 1 || d.Value > d.Sides {
				return errf("%q shows a die %d with %d sides: %q", arg, d.Value, d.Sides, a)
			}
		}
		m.Class(len(w.Dice) > 0, "random dice")
		return want(head + w.Message("DiceBot"))
	}
	w := model.Exec(c, qs, model.MaxRerolls)
	if w.Overflow {
		return nil
	}
	if w.Err {
		m.Class(len(r.dice) > 0, "evaluation fails with dice in the queue")
		return wantErr(w.Why)
	}
	m.Class(len(w.Dice) > 0, "queue dice")
	m.Class(len(r.dice) > len(w.Dice), "dice left in the queue")
	return want(head + w.Message("DiceBot"))
}

// anySides gives the dice the requested sides.
type anySides struct{ q *queueSource }

func (s *anySides) Next(sides int) (model.Die, error) {
	d, err := s.q.Next(sides)
	d.Sides = sides
	return d, err
}

const sentinel = "C(7654321+1)"

var sentinelAnswer = resHeader + "DiceBot : C(7654321+1) ＞ 計算結果 ＞ 7654322"

// listing reads the answer up to the sentinel that follows.
func (r *replModel) listing(name, l string, o *replOut, m *fw.Meta) error {
	i := strings.Index(o.s, sentinelAnswer+"\n")
	if i < 0 {
		return errf("after %q the line %q is not answered; the output goes on with %q", l, sentinel, lastPart(o.s, 300))
	}
	text := o.s[:i]
	o.s = o.s[i:]
	m.Class(true, "."+name)
	if name == "list-games" {
		if want := strings.Join(dicebotlist.AvailableGameIDs(true), "\n") + "\n"; text != want {
			return errf("%q answers %q, want %q", l, text, want)
		}
		return nil
	}
	for _, n := range []string{"ast", "eval", "roll", "set-die-feeder", "set-dice-queue", "set-game", "list-games", "help", "quit"} {
		if !strings.Contains(text, "\x1b[1m."+n+escReset) {
			return errf("%q does not mention .%s: %q", l, n, text)
		}
		_, rest, _ := strings.Cut(text, "\x1b[1m."+n+escReset)
		_, rest, _ = strings.Cut(rest, "\n")
		rest, _, _ = strings.Cut(rest, "\n")
		if strings.TrimSpace(rest) == "" || strings.HasPrefix(rest, "\x1b[1m.") {
			return errf("%q does not describe .%s: %q", l, n, text)
		}
	}
	return nil
}
