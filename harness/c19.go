//go:build c19 || all

package main

import (
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/labstack/echo"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/controllers"
	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	dicebotlist "github.com/raa0121/GoBCDice/pkg/dicebot/list"
	dicebottesting "github.com/raa0121/GoBCDice/pkg/dicebot/testing"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/sut"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C19", Quick: 1200, Thorough: 50000, NoMemLimit: true,
		Rule: "at least two instances execute two commands or more each at the same time, at least one answering with dice",
		Assumptions: []string{
			"built with Go's race detector, which reports every pair of unordered accesses it observes",
			"schedules are those the Go scheduler produces in several rounds of each case, with random yields; they are not enumerated",
		},
	}, genC19, runC19, fixedC19()...)
	fw.RegisterSub("c19", firstC19)
}

// Plan is what one goroutine does on its own instance.
type Plan struct {
	Seed  int64    `json:"seed"`
	Queue bool     `json:"queue,omitempty"`
	Cmds  []string `json:"cmds"`
	// Extra: other calls between the commands (bit set).
	Extra uint8 `json:"extra,omitempty"`
}

// Concurrent is a set of plans, and the requests to one API server.
type Concurrent struct {
	Plans    []Plan     `json:"plans"`
	Requests [][]string `json:"requests,omitempty"`
	Rounds   int        `json:"rounds"`
	// Meet: so many instances (and as many requests) are all in the midst of
	// a command (of an answer) at one time.
	Meet int `json:"meet,omitempty"`
	// First: it is the first that happens in a process (of its own).
	First bool `json:"first,omitempty"`
}

// firstC19 does the work concurrently before anything else has happened in the process.
func firstC19(in []byte) error {
	var c Concurrent
	if err := json.Unmarshal(in, &c); err != nil {
		panic("harness: " + err.Error())
	}
	got, bodies, err := c.round()
	if err != nil {
		return err
	}
	want := map[string]string{}
	e := echo.New()
	controllers.Setup(e)
	for _, p := range apiPaths {
		want[p] = get(e, p)
	}
	for i := range c.Requests {
		for j, p := range c.Requests[i] {
			if bodies[i][j] != want[p] {
				return errf("GET %s answers %q among the first requests of a process, %q alone", p, bodies[i][j], want[p])
			}
		}
	}
	for i := range c.Plans {
		seq := c.Plans[i].run()
		if seq.err != nil {
			return seq.err
		}
		if err := sameRun(&seq, &got[i], i, c.Plans[i].Cmds); err != nil {
			return errf("at the start of a process: %v", err)
		}
	}
	return nil
}

// round does everything at the same time.
func (c *Concurrent) round() ([]run, [][]string, error) {
	var e *echo.Echo
	if len(c.Requests) > 0 {
		e = echo.New()
		controllers.Setup(e)
	}
	got := make([]run, len(c.Plans))
	bodies := make([][]string, len(c.Requests))
	bad := make([]error, len(c.Requests))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range c.Plans {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			got[i] = c.Plans[i].run()
		}(i)
	}
	for i := range c.Requests {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad[i] = errf("panic in a request: %v", r)
				}
			}()
			<-start
			for _, p := range c.Requests[i] {
				bodies[i] = append(bodies[i], get(e, p))
			}
		}(i)
	}
	close(start)
	wg.Wait()
	for i := range got {
		if got[i].err != nil {
			return nil, nil, errf("concurrently: %v", got[i].err)
		}
	}
	for _, err := range bad {
		if err != nil {
			return nil, nil, err
		}
	}
	return got, bodies, nil
}

// sameRun compares what an instance did among others with what it does alone.
func sameRun(seq, got *run, i int, cmds []string) error {
	for j := range seq.answers {
		if j >= len(got.answers) || got.answers[j] != seq.answers[j] {
			g := "nothing"
			if j < len(got.answers) {
				g = got.answers[j]
			}
			return errf("instance %d gives %s among other instances, alone it gives %s (commands %q)", i+1, g, seq.answers[j], cmds)
		}
	}
	return nil
}

// gate lets all go on when all are there.
type gate struct {
	mu   sync.Mutex
	left int
	open chan struct{}
	late int32
}

func newGate(n int) *gate { return &gate{left: n, open: make(chan struct{})} }

func (g *gate) arrive() {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.left--; g.left == 0 {
		close(g.open)
	}
}

// wait waits for the others; if they are kept from coming, not for long.
func (g *gate) wait() {
	select {
	case <-g.open:
	case <-time.After(2 * time.Second):
		atomic.AddInt32(&g.late, 1)
	}
}

// party is one of those who meet: a source of dice or a writer of an answer.
type party struct {
	g    *gate
	here bool
	feeder.DieFeeder
	*httptest.ResponseRecorder
}

func (p *party) come() {
	if !p.here {
		p.here = true
		p.g.arrive()
		p.g.wait()
	}
}

func (p *party) leave() {
	if !p.here {
		p.here = true
		p.g.arrive()
	}
}

func (p *party) Next(sides int) (dice.Die, error) {
	p.come()
	return p.DieFeeder.Next(sides)
}

func (p *party) Write(b []byte) (int, error) {
	p.come()
	return p.ResponseRecorder.Write(b)
}

// meet does the first command of each plan, and each path, many times at one time.
func (c *Concurrent) meet(m *fw.Meta) error {
	texts := []string{"2D6", "3B6>=3", "2R6[5]>=5", "2U6[5]+1", "CHOICE[a,b]", "S2D6+1>=7", "[1...3]D6", "2D6 x"}
	g := newGate(c.Meet)
	got := make([]string, c.Meet)
	all := func(f func(i int) string) error {
		var wg sync.WaitGroup
		for i := range got {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						got[i] = errf("panic: %v", r).Error()
					}
				}()
				got[i] = f(i)
			}(i)
		}
		wg.Wait()
		return nil
	}
	exec := func(i int, f feeder.DieFeeder) string {
		r, err := bcdice.New(f).ExecuteCommand(texts[i%len(texts)])
		o, e := sut.FromResult(r, err)
		if e != nil {
			return e.Error()
		}
		return outcome(o)
	}
	all(func(i int) string {
		p := &party{g: g, DieFeeder: feeder.NewMT19937(int64(i))}
		defer p.leave()
		return exec(i, p)
	})
	for i := range got {
		if w := exec(i, feeder.NewMT19937(int64(i))); got[i] != w {
			return errf("%q gives %s among %d commands that are executed at one time, alone it gives %s", texts[i%len(texts)], got[i], c.Meet, w)
		}
	}
	m.Class(g.late == 0, "commands meet")
	e := echo.New()
	controllers.Setup(e)
	g = newGate(c.Meet)
	all(func(i int) string {
		p := &party{g: g, ResponseRecorder: httptest.NewRecorder()}
		defer p.leave()
		req, _ := http.NewRequest("GET", apiPaths[i%len(apiPaths)], nil)
		e.ServeHTTP(p, req)
		return itoa(p.Code) + " " + p.Body.String()
	})
	for i := range got {
		if w := get(e, apiPaths[i%len(apiPaths)]); got[i] != w {
			return errf("GET %s answers %q among %d requests at one time, %q alone", apiPaths[i%len(apiPaths)], got[i], c.Meet, w)
		}
	}
	m.Class(g.late == 0, "requests meet")
	m.NonTrivial = true
	return nil
}

var apiPaths = []string{"/", "/v1/version", "/v1/systems", "/v1/names", "/v1/none", "/v1"}

func genC19(t *rapid.T) *Concurrent {
	g := gen.New(t)
	g.Dice = 8
	c := &Concurrent{Rounds: fw.OneOf(t, 1, 2, 4)}
	n := fw.IntIn(t, 2, 8)
	c.First = fw.Coin(t, 20)
	var used []string
	for i := 0; i < n; i++ {
		p := Plan{Seed: int64(fw.Bits(t, 10)), Queue: fw.Coin(t, 15), Extra: uint8(fw.Bits(t, 8))}
		if i > 0 && fw.Coin(t, 30) { // the same work as another goroutine
			p = c.Plans[fw.Pick(t, i)]
			p.Seed += int64(fw.Pick(t, 3))
			c.Plans = append(c.Plans, p)
			continue
		}
		k := fw.IntIn(t, 1, 10)
		for j := 0; j < k; j++ {
			var s string
			switch {
			case len(used) > 0 && fw.Coin(t, 35):
				s = fw.OneOf(t, used...)
			case fw.Coin(t, 12):
				s = mutate(t, g.Any().S)
			default:
				s = g.Any().S
			}
			if fw.Coin(t, 8) {
				s = "S" + s
			}
			if fw.Coin(t, 8) {
				s += " comment"
			}
			used = append(used, s)
			p.Cmds = append(p.Cmds, s)
		}
		c.Plans = append(c.Plans, p)
	}
	if fw.Coin(t, 50) {
		n := fw.IntIn(t, 2, 6)
		for i := 0; i < n; i++ {
			k := fw.IntIn(t, 1, 8)
			var r []string
			for j := 0; j < k; j++ {
				r = append(r, fw.OneOf(t, apiPaths...))
			}
			c.Requests = append(c.Requests, r)
		}
	}
	return c
}

type run struct {
	answers []string
	diced   int
	err     error
}

func (p *Plan) run() (out run) {
	defer func() {
		if r := recover(); r != nil {
			out.err = errf("panic: %v", r)
		}
	}()
	var f feeder.DieFeeder = feeder.NewMT19937(p.Seed)
	if p.Queue {
		f = feeder.NewQueue(someDice(200, p.Seed))
	}
	b := bcdice.New(f)
	for i, s := range p.Cmds {
		r, err := b.ExecuteCommand(s)
		g, e := sut.FromResult(r, err)
		if e != nil {
			out.err = errf("%q: %v", s, e)
			return
		}
		a := outcome(g)
		if g.Err {
			a = "an error (" + g.ErrText + ")"
		} else if g.Secret {
			a += " secret"
		}
		out.answers = append(out.answers, a)
		if len(g.Dice) > 0 {
			out.diced++
		}
		switch (int(p.Extra) + i) % 16 {
		case 0:
			runtime.Gosched()
		case 1:
			b.SetDiceBotByGameID("Unknown")
			b.SetDiceBotByGameID("DiceBot")
		case 2:
			for _, id := range dicebotlist.AvailableGameIDs(true) {
				out.answers = append(out.answers, id)
			}
		case 3:
			for _, x := range dicebotlist.AvailableGameInfos(true).Name {
				out.answers = append(out.answers, x.Name+x.SortKey)
			}
		case 4:
			ds, _ := dicebottesting.ParseDice("1/6, 2/6,3/10")
			out.answers = append(out.answers, dice.FormatDice(ds)+dice.FormatDiceWithoutSpaces(ds))
		case 5:
			b.SetDieFeeder(f)
		case 6:
			out.answers = append(out.answers, b.DiceBot.GameName()+b.DiceBot.SortKey()+b.DiceBot.Usage())
		case 7:
			feeder.NewMT19937WithSeedFromTime().Next(6)
		}
	}
	return
}

func get(e *echo.Echo, path string) string {
	req, _ := http.NewRequest("GET", path, nil)
	rec := httptest.NewRecorder()
	e.ServeHTTP(rec, req)
	return itoa(rec.Code) + " " + rec.Body.String()
}

func runC19(c *Concurrent, m *fw.Meta) error {
	if c.Meet > 0 {
		return c.meet(m)
	}
	seq := make([]run, len(c.Plans))
	diced, multi := 0, 0
	for i := range c.Plans {
		seq[i] = c.Plans[i].run()
		if seq[i].err != nil {
			return seq[i].err
		}
		diced += seq[i].diced
		if len(c.Plans[i].Cmds) >= 2 {
			multi++
		}
	}
	var e *echo.Echo
	want := map[string]string{}
	if len(c.Requests) > 0 {
		e = echo.New()
		controllers.Setup(e)
		for _, p := range apiPaths {
			want[p] = get(e, p)
		}
	}
	rounds := c.Rounds
	if m.Fresh { // a replay tries harder
		rounds = 60
	}
	if c.First {
		n := 1
		if m.Fresh {
			n = 40
		}
		for k := 0; k < n; k++ {
			if err := fw.Alone("c19", c); err != nil {
				return err
			}
		}
		m.Class(true, "first in a process")
	}
	for k := 0; k < rounds; k++ {
		got, bodies, err := c.round()
		if err != nil {
			return err
		}
		for i := range c.Plans {
			if err := sameRun(&seq[i], &got[i], i, c.Plans[i].Cmds); err != nil {
				return err
			}
		}
		for i := range c.Requests {
			for j, p := range c.Requests[i] {
				if bodies[i][j] != want[p] {
					return errf("GET %s answers %q among other requests, %q alone", p, bodies[i][j], want[p])
				}
			}
		}
	}
	m.NonTrivial = multi >= 2 && diced > 0
	m.Class(len(c.Requests) > 0, "with API requests")
	m.Class(len(c.Plans) >= 5, "five instances or more")
	return nil
}

func fixedC19() []*Concurrent {
	cmds := []string{"2D6", "S2D6+1>=7", "3B6>=3", "2R6[5]>=5", "2U6[5]+1", "CHOICE[a,b]", "C(1+2)", "[1...3]D6", "(1+1)D(2*3)/2U", "1/0D6", "x"}
	c := &Concurrent{Rounds: 20}
	for i := 0; i < 8; i++ {
		c.Plans = append(c.Plans, Plan{Seed: int64(i), Cmds: cmds, Extra: uint8(i)})
		c.Requests = append(c.Requests, apiPaths)
	}
	out := []*Concurrent{c, {Meet: 9}, {Meet: 33}, {Meet: 100}, {Meet: 300}, {Meet: 1100}}
	// one kind of command, first in a process
	kinds := append(append([]string{}, cmds...), "2D6=7", "2D6<>7", "2D6<=7", "2D6/2U", "2D6/2R", "2D6/2", "-(1D6)", "2R6", "1U6[6]", "choice[あ,い]", "2B6", "2D6 x", "1...2", "100001D6")
	for i, s := range kinds {
		f := &Concurrent{Rounds: 1, First: true}
		for j := 0; j < 8; j++ {
			f.Plans = append(f.Plans, Plan{Seed: int64(j), Cmds: []string{s, s}, Extra: 12})
		}
		if i%4 == 0 {
			f.Requests = [][]string{{"/v1/names"}, {"/v1/names"}, {"/v1/systems"}, {"/v1/systems"}, {"/v1/version"}, {"/v1/version"}, {"/"}, {"/"}}
		}
		out = append(out, f)
	}
	for x := 0; x < 8; x++ {
		f := &Concurrent{Rounds: 1, First: true}
		for j := 0; j < 8; j++ {
			f.Plans = append(f.Plans, Plan{Seed: int64(j), Cmds: []string{"2D6"}, Extra: uint8(x)})
		}
		out = append(out, f)
	}
	return out
}
