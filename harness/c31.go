//go:build c31 || all

package main

import (
	"net/http/httptest"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/labstack/echo"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/controllers"
	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/pkg/core/notation"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
	dicebotlist "github.com/raa0121/GoBCDice/pkg/dicebot/list"
	dbtest "github.com/raa0121/GoBCDice/pkg/dicebot/testing"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C31", Quick: 160, Thorough: 8000, Workers: 8, NoShrink: true,
		Rule: "a history of at least 4000 operations after the warm-up in which at least one operation executes a command or answers a request",
		Assumptions: []string{
			"memory in use is what the collector leaves; it may grow by at most 24 kB over the measured 4000 rounds (a loss of 16 bytes per round is 40 kB at least), and what grows must go on growing in a second measured part as long",
			"a cache that fills up within the warm-up of 2000 rounds is no growth",
		},
	}, genC31, runC31, fixedC31()...)
}

// LifeOp is a step repeated over and over; {i} stands for the number of the round.
type LifeOp struct {
	// N: (queue, roll) how many dice; (exec, basic) how many dice are missing in the queue.
	Op   string `json:"op"` // exec, basic, api, feeder, game, queue, roll, parse, list, testcase, file
	Text string `json:"text,omitempty"`
	N    int    `json:"n,omitempty"`
	// Method, Header and Body of a request.
	Method string   `json:"method,omitempty"`
	Header []string `json:"header,omitempty"`
	Body   string   `json:"body,omitempty"`
}

// Life is a long life of one instance and one server.
type Life struct {
	Ops   []LifeOp `json:"ops"`
	Queue bool     `json:"queue,omitempty"` // dice from a queue filled for each command
	Seed  int64    `json:"seed"`
}

var lifeTexts = []string{"C({i})", "2D6>={i}", "1D{i}", "S1D{i}+{i}", "2B{i}>=3", "2R{i}[{i}]+1R6[2]", "1U{i}[{i}]+{i}", "CHOICE[a{i},b{i}]", "x{i}", "2D6 no {i}", "C({i}/0)", "[1...{i}]D6", "2R{i}", "99999999999999999999{i}D6", "2D6+{i}*({i}-1)", "(1+{i})D(2*{i})",
	// many rerolls, many dice
	"3U6[3]", "3U6[2]+{i}", "2U10[4]>={i}", "3R6[3] {i}", "2R6[3]>={i}", "[1...6]U6[3]", "30D6 {i}", "30B6>={i}", "20U2[2]", "2R6[2]"}

func genC31(t *rapid.T) *Life {
	g := gen.New(t)
	g.Dice = 4
	c := &Life{Seed: int64(fw.Bits(t, 30)), Queue: fw.Coin(t, 30)}
	for n := fw.OneOf(t, 1, 1, 2, 3); n > 0; n-- {
		o := LifeOp{Op: fw.OneOf(t, "exec", "exec", "exec", "exec", "exec", "basic", "api", "api", "feeder", "game", "queue", "roll", "parse", "list", "testcase", "file")}
		switch o.Op {
		case "exec", "basic", "parse", "testcase", "file":
			if c.Queue && fw.Coin(t, 50) {
				o.N = fw.IntIn(t, 1, 3)
			}
			o.Text = fw.OneOf(t, lifeTexts...)
			if fw.Coin(t, 40) {
				if s := g.AnyRoll().S; len(s) < 30 {
					o.Text = s
					if fw.Coin(t, 30) {
						o.Text = mutate(t, s)
					}
					if fw.Coin(t, 70) {
						o.Text += fw.OneOf(t, " {i}", "+{i}", "{i}")
					}
				}
			}
		case "api":
			o.Text = fw.OneOf(t, "/", "/v1/version", "/v1/systems", "/v1/names", "/none", "/v1/{i}")
			if fw.Coin(t, 50) {
				o.Text += "?q={i}"
			}
			o.Method = fw.OneOf(t, "", "", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH")
			if fw.Coin(t, 30) {
				o.Header = []string{fw.OneOf(t, "X-Request-Id", "Cookie", "Authorization", "Accept", "User-Agent", "X-Forwarded-For", "Origin"), "a={i}"}
			}
			if fw.Coin(t, 30) {
				o.Body = fw.OneOf(t, "a={i}", "{\"a\":{i}}")
			}
		case "game":
			o.Text = fw.OneOf(t, "DiceBot", "none", "none{i}", "")
		case "queue", "roll":
			o.N = fw.IntIn(t, 1, 6)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runC31(c *Life, m *fw.Meta) error {
	var b *bcdice.BCDice
	q := feeder.NewEmptyQueue()
	mt := feeder.NewMT19937(c.Seed)
	if c.Queue {
		b = bcdice.New(q)
	} else {
		b = bcdice.New(mt)
	}
	e := echo.New()
	controllers.Setup(e)
	own := feeder.NewEmptyQueue()
	rl := roller.New(mt)
	none, ownRl := roller.New(feeder.NewEmptyQueue()), roller.New(own)
	fill := []dice.Die{{Value: 1, Sides: 6}, {Value: 2, Sides: 6}, {Value: 1, Sides: 6}}
	dir, err := os.MkdirTemp(os.Getenv("VH_TMP"), "life-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "text")
	round := func(i int) error {
		for _, o := range c.Ops {
			text := strings.ReplaceAll(o.Text, "{i}", itoa(i+1))
			switch o.Op {
			case "exec", "basic":
				if c.Queue {
					q.Set(fill[min(o.N, len(fill)):])
				}
				if o.Op == "exec" {
					b.ExecuteCommand(text)
				} else {
					b.ExecuteBasicCommand(text)
				}
				q.Clear()
			case "api":
				rec := httptest.NewRecorder()
				method := o.Method
				if method == "" {
					method = "GET"
				}
				n := itoa(i + 1)
				req := httptest.NewRequest(method, text, strings.NewReader(strings.ReplaceAll(o.Body, "{i}", n)))
				for k := 0; k+1 < len(o.Header); k += 2 {
					req.Header.Set(o.Header[k], strings.ReplaceAll(o.Header[k+1], "{i}", n))
				}
				req.RemoteAddr = "10." + itoa(i>>16&255) + "." + itoa(i>>8&255) + "." + itoa(i&255) + ":1234"
				e.ServeHTTP(rec, req)
			case "feeder":
				b.SetDieFeeder(b.DieFeeder())
			case "game":
				b.SetDiceBotByGameID(text)
			case "queue":
				for k := 0; k < o.N; k++ {
					own.Push(dice.Die{Value: 1, Sides: 6})
				}
				for k := 0; k < o.N; k++ {
					if _, err := own.Next(6); err != nil {
						return errf("a queue of %d dice has no die %d", o.N, k+1)
					}
				}
			case "roll":
				rl.RollDice(o.N, 6)
				rl.RollDice(0, 6)
				none.RollDice(o.N, 6) // nothing to draw
				own.Push(dice.Die{Value: 1, Sides: 6})
				ownRl.RollDice(1+o.N%2, 6+o.N%3/2)
				own.Clear()
			case "parse":
				if n, err := parser.Parse("input", []byte(text)); err == nil {
					notation.InfixNotation(n.(ast.Node), true)
				}
			case "file":
				if i == 0 || text != o.Text {
					if err := os.WriteFile(file, []byte(text), 0600); err != nil {
						panic("harness: " + err.Error())
					}
				}
				for _, f := range []string{file, file + "-none"} {
					parser.ParseFile(f)
				}
			case "list":
				dicebotlist.AvailableGameIDs(true)
				dicebotlist.AvailableGameInfos(true)
				dicebotlist.Find("DiceBot")
			case "testcase":
				dbtest.Parse("input:\n"+text+"\noutput:\nx\nrand:1/6,2/6", "DiceBot", i)
			}
		}
		return nil
	}
	// descriptors counts the open files after a few rounds without a collection.
	descriptors := func() int {
		l, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			panic("harness: " + err.Error())
		}
		return len(l)
	}
	for _, o := range c.Ops {
		if o.Op != "file" && o.Op != "testcase" {
			continue
		}
		old := debug.SetGCPercent(-1)
		before := descriptors()
		for i := 0; i < 60; i++ {
			round(i)
		}
		after := descriptors()
		debug.SetGCPercent(old)
		if after-before >= 40 {
			return errf("%d files stay open after 60 rounds of %v", after-before, c.Ops)
		}
		break
	}
	live := func() (int64, int) {
		var s runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&s)
		return int64(s.HeapAlloc), runtime.NumGoroutine()
	}
	const warm, part = 2000, 4000
	var mem [3]int64
	var gor [3]int
	for i := 0; i <= warm+2*part; i++ {
		if i >= warm && (i-warm)%part == 0 {
			k := (i - warm) / part
			mem[k], gor[k] = live()
			if k == 1 && mem[1]-mem[0] <= 24000 && gor[1]-gor[0] < 50 {
				break // no growth
			}
		}
		if err := round(i); err != nil {
			return err
		}
	}
	runtime.KeepAlive(b)
	runtime.KeepAlive(e)
	runtime.KeepAlive(own)
	runtime.KeepAlive(rl)
	runtime.KeepAlive(none)
	runtime.KeepAlive(ownRl)
	if mem[2] != 0 && mem[2]-mem[1] > 24000 {
		return errf("the memory in use grows with the history of %v: by %d bytes in %d rounds, by %d in another %d", c.Ops, mem[1]-mem[0], part, mem[2]-mem[1], part)
	}
	if mem[2] != 0 && gor[2]-gor[1] >= 50 {
		return errf("the goroutines grow with the history of %v: %d, %d, %d", c.Ops, gor[0], gor[1], gor[2])
	}
	for _, o := range c.Ops {
		m.NonTrivial = m.NonTrivial || contains(o.Op, "exec", "basic", "api")
		m.Class(true, "with "+o.Op)
	}
	m.Class(mem[2] != 0, "second part measured")
	m.Class(mem[1]-mem[0] > 4000, "more than 4 kB more in use")
	return nil
}

func fixedC31() []*Life {
	var out []*Life
	for i, s := range lifeTexts {
		out = append(out, &Life{Ops: []LifeOp{{Op: "exec", Text: s}}, Seed: int64(i), Queue: i%4 == 3 && i < 17})
	}
	for _, o := range []LifeOp{{Op: "api", Text: "/v1/names?q={i}"}, {Op: "api", Text: "/"}, {Op: "api", Text: "/v1/version"}, {Op: "api", Text: "/v1/systems"}, {Op: "api", Text: "/v1/{i}"}, {Op: "game", Text: "none{i}"}, {Op: "game", Text: "DiceBot"}, {Op: "feeder"}, {Op: "queue", N: 3}, {Op: "roll", N: 3}, {Op: "list"}, {Op: "testcase", Text: "{i}D6"}, {Op: "file", Text: "2D6"}, {Op: "file", Text: "{i}D6"}, {Op: "file", Text: "x y"}, {Op: "file"}} {
		out = append(out, &Life{Ops: []LifeOp{o}, Seed: 1})
	}
	for _, me := range []string{"POST", "PUT", "DELETE", "HEAD", "OPTIONS"} {
		for _, p := range []string{"/v1/version", "/", "/v1/{i}"} {
			out = append(out, &Life{Ops: []LifeOp{{Op: "api", Text: p, Method: me, Header: []string{"X-Request-Id", "{i}", "Cookie", "s={i}"}, Body: "a={i}"}}, Seed: 1})
		}
	}
	out = append(out, &Life{Ops: []LifeOp{{Op: "api", Text: "/v1/systems", Header: []string{"X-Request-Id", "{i}", "Cookie", "s={i}", "Authorization", "Bearer {i}", "X-Forwarded-For", "10.0.0.{i}", "User-Agent", "u{i}"}}}, Seed: 1})
	for i, s := range []string{"2D6", "2B6>=3", "3R6[2]", "1U6[2]", "CHOICE[a,b]", "[1...6]D6", "1D8+{i}"} {
		out = append(out, &Life{Ops: []LifeOp{{Op: []string{"exec", "basic"}[i%2], Text: s, N: 2 + i%2}}, Seed: 1, Queue: true})
	}
	return out
}
