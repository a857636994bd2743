//go:build c27 || all

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/raa0121/GoBCDice/pkg/core/dice"
	dbtest "github.com/raa0121/GoBCDice/pkg/dicebot/testing"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
	"verif/sut"
)

func init() {
	if s := os.Getenv("VH_SUITE"); s != "" { // the process that runs the suites
		var suites [][]string
		if err := json.Unmarshal([]byte(s), &suites); err != nil {
			panic(err)
		}
		var ts []testing.InternalTest
		for i, files := range suites {
			files := files
			ts = append(ts, testing.InternalTest{Name: "Suite" + itoa(i), F: func(t *testing.T) { dbtest.Run("DiceBot", t, files...) }})
		}
		testing.Main(func(string, string) (bool, error) { return true, nil }, ts, nil, nil)
	}
	fw.Register(fw.Prop{
		ID: "C27", Quick: 6000, Thorough: 200000,
		Rule: "the suites hold at least three cases, one right and one wrong",
		Assumptions: []string{
			"the runner runs in a process of Go's test driver; a case's verdict is read from the verbose report",
			"the message of a case is what the reference model answers with the case's dice",
		},
	}, genC27, runC27, fixedC27()...)
}

// RunnerCase is a case of a suite.
type RunnerCase struct {
	Input  string      `json:"input"`
	Output string      `json:"output"`
	Dice   []model.Die `json:"dice"`
	// Wrong says how the case was spoiled (the verdict is worked out anew).
	Wrong string `json:"wrong,omitempty"`
}

// Suites are lists of files of cases.
type Suites struct {
	Suites [][][]RunnerCase `json:"suites"`
	// Broken: the last file of this suite is malformed (-1: none).
	Broken int `json:"broken"`
}

const secretSuffix = "###secret dice###"

func genC27(t *rapid.T) *Suites {
	g := gen.New(t)
	c := &Suites{Broken: -1}
	ns := fw.IntIn(t, 1, 5)
	for i := 0; i < ns; i++ {
		var suite [][]RunnerCase
		for j, nf := 0, fw.OneOf(t, 1, 1, 2); j < nf; j++ {
			var f []RunnerCase
			for k, nc := 0, fw.OneOf(t, 1, 2, 3, 5); k < nc; k++ {
				f = append(f, genRunnerCase(t, g))
			}
			suite = append(suite, f)
		}
		c.Suites = append(c.Suites, suite)
	}
	if fw.Coin(t, 8) {
		c.Broken = fw.Pick(t, ns)
	}
	return c
}

func genRunnerCase(t *rapid.T, g *gen.G) RunnerCase {
	g.Dice = 8
	var k RunnerCase
	for {
		k = RunnerCase{Input: g.Any().S}
		if fw.Coin(t, 20) {
			k.Input = fw.OneOf(t, "S", "s") + k.Input
		}
		if fw.Coin(t, 12) {
			k.Input = mutate(t, k.Input)
		}
		if tdOK(k.Input) {
			break
		}
	}
	w := sut.Model(k.Input, gen.Fair(t))
	if w.Overflow {
		k.Input = "C(1)"
		w = sut.Model(k.Input, &scriptT{})
	}
	k.Dice = w.Dice
	if len(k.Dice) > 3000 {
		k.Dice = k.Dice[:3000]
	}
	if !w.Err {
		k.Output = w.Message("DiceBot")
		if w.Secret {
			k.Output += secretSuffix
		}
		if !tdOK(k.Output) {
			k.Output = "x"
		}
	}
	if fw.Coin(t, 30) {
		k.Wrong = fw.OneOf(t, "edit", "nosecret", "addsecret", "left", "fewer", "empty", "value", "sides", "something")
		switch k.Wrong {
		case "edit":
			if x := mutate(t, k.Output); tdOK(x) && strings.TrimSpace(x) == x {
				k.Output = x
			}
		case "nosecret":
			k.Output = strings.TrimSuffix(k.Output, secretSuffix)
		case "addsecret":
			k.Output += secretSuffix
		case "left":
			k.Dice = append(append([]model.Die{}, k.Dice...), model.Die{Value: 3, Sides: 6})
		case "fewer":
			if len(k.Dice) > 0 {
				k.Dice = k.Dice[:len(k.Dice)-1]
			}
		case "empty":
			k.Output = ""
		case "value", "sides":
			if len(k.Dice) > 0 {
				k.Dice = append([]model.Die{}, k.Dice...)
				i := fw.Pick(t, len(k.Dice))
				if k.Wrong == "value" {
					k.Dice[i].Value = k.Dice[i].Value%max(k.Dice[i].Sides, 1) + 1
				} else {
					k.Dice[i].Sides++
				}
			}
		case "something":
			if k.Output == "" {
				k.Output = "DiceBot : "
			}
		}
	}
	return k
}

// tdOK: the text can be a line of a test-data file.
func tdOK(s string) bool {
	return !strings.ContainsAny(s, "\n\r\x00") && validUTF8(s) && s != "" && s != strings.Repeat("=", 28) && !strings.HasPrefix(s, "output:") && !strings.HasPrefix(s, "rand:")
}

// diceQueue delivers the dice of a case as the queue source does.
type diceQueue struct {
	ds []model.Die
	n  int
}

func (q *diceQueue) Next(sides int) (model.Die, error) {
	if q.n >= len(q.ds) {
		return model.Die{}, errf("the queue is empty")
	}
	q.n++
	return q.ds[q.n-1], nil
}

// right works out the verdict of a case.
func (k *RunnerCase) right() (ok, skip bool) {
	cmd, secret := model.ParseLine(k.Input)
	if cmd == nil {
		return k.Output == "", false
	}
	q := &diceQueue{ds: k.Dice}
	w := model.Exec(cmd, q, model.MaxRerolls)
	if w.Overflow {
		return false, true
	}
	if w.Err {
		return k.Output == "", false
	}
	want := w.Message("DiceBot")
	if secret {
		want += secretSuffix
	}
	return k.Output == want && q.n == len(k.Dice), false
}

var (
	suiteRe = regexp.MustCompile(`^--- (PASS|FAIL): Suite([0-9]+) `)
	caseRe  = regexp.MustCompile(`^    --- (PASS|FAIL|SKIP): Suite([0-9]+)/`)
)

func runC27(c *Suites, m *fw.Meta) error {
	dir, err := os.MkdirTemp(os.Getenv("VH_TMP"), "suites-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	var files [][]string
	for i, s := range c.Suites {
		var fs []string
		for j, f := range s {
			var src []string
			for _, k := range f {
				src = append(src, "input:\n"+k.Input+"\noutput:\n"+k.Output+"\nrand:"+dice.FormatDiceWithoutSpaces(sut.ToDice(k.Dice)))
			}
			text := strings.Join(src, "\n"+strings.Repeat("=", 28)+"\n") + "\n"
			if i == c.Broken && j == len(s)-1 {
				text += "1/6,\n"
			}
			p := filepath.Join(dir, itoa(i)+"-"+itoa(j)+".txt")
			if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
				panic("harness: " + err.Error())
			}
			fs = append(fs, p)
		}
		files = append(files, fs)
	}
	arg, _ := json.Marshal(files)
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "-test.v")
	cmd.Env = append(os.Environ(), "VH_SUITE="+string(arg))
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	runErr := cmd.Run()
	suites := map[int]bool{}
	cases := map[int][]bool{}
	for _, l := range strings.Split(out.String(), "\n") {
		if x := suiteRe.FindStringSubmatch(l); x != nil {
			suites[atoi(x[2])] = x[1] == "PASS"
		}
		if x := caseRe.FindStringSubmatch(l); x != nil {
			cases[atoi(x[2])] = append(cases[atoi(x[2])], x[1] == "PASS")
			if x[1] == "SKIP" {
				return errf("a case was skipped: %s", l)
			}
		}
	}
	rights, wrongs := 0, 0
	allOK := true
	for i, s := range c.Suites {
		pass, reported := suites[i]
		if !reported {
			return errf("suite %d is not reported (%v): %s", i+1, runErr, lastBit(out.String(), 1500))
		}
		want := true
		if i == c.Broken {
			want = false
			if len(cases[i]) > 0 {
				return errf("cases of the malformed suite %d are run", i+1)
			}
		} else {
			n := 0
			for _, f := range s {
				for _, k := range f {
					ok, skip := k.right()
					if n >= len(cases[i]) {
						return errf("suite %d: only %d cases are reported", i+1, len(cases[i]))
					}
					got := cases[i][n]
					n++
					if skip {
						want = want && got
						continue
					}
					want = want && ok
					if got != ok {
						return errf("suite %d, case %d (%q, output %q, dice %s): passes %v, should pass %v", i+1, n, k.Input, k.Output, sut.ShowDice(k.Dice), got, ok)
					}
					if ok {
						rights++
					} else {
						wrongs++
						m.Class(true, "wrong: "+k.Wrong)
					}
				}
			}
			if n != len(cases[i]) {
				return errf("suite %d has %d cases, %d are reported", i+1, n, len(cases[i]))
			}
		}
		if pass != want {
			return errf("suite %d passes %v, should pass %v", i+1, pass, want)
		}
		allOK = allOK && want
	}
	if (runErr == nil) != allOK {
		return errf("the test run ends with %v, all cases right: %v", runErr, allOK)
	}
	base := []string{"a.txt", "b/c.txt", ""}[:len(c.Suites)%4]
	for i, p := range dbtest.JoinWithTestData(base) {
		if p != filepath.Join("testdata", base[i]) {
			return errf("JoinWithTestData gives %q for %q", p, base[i])
		}
	}
	m.NonTrivial = rights+wrongs >= 3 && rights > 0 && wrongs > 0
	m.Class(c.Broken >= 0, "malformed suite")
	m.Class(allOK, "all right")
	return nil
}

func lastBit(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func atoi(s string) int {
	n := 0
	for _, r := range s {
		n = n*10 + int(r-'0')
	}
	return n
}

func fixedC27() []*Suites {
	d := func(v ...int) (o []model.Die) {
		for _, x := range v {
			o = append(o, model.Die{Value: x, Sides: 6})
		}
		return
	}
	ok := RunnerCase{Input: "2D6", Output: "DiceBot : (2D6) ＞ 5[4,1] ＞ 5", Dice: d(4, 1)}
	sec := RunnerCase{Input: "S2D6", Output: ok.Output + secretSuffix, Dice: d(4, 1)}
	var out []*Suites
	for _, k := range []RunnerCase{ok, sec, {Input: "S2D6", Output: ok.Output, Dice: d(4, 1)}, {Input: "2D6", Output: sec.Output, Dice: d(4, 1)}, {Input: "2D6", Output: ok.Output, Dice: d(4, 1, 1)}, {Input: "2D6", Output: ok.Output, Dice: d(4)},
		{Input: "2D6", Dice: d(4)}, {Input: "2D6", Dice: d(4, 1)}, {Input: "xyz"}, {Input: "xyz", Output: "DiceBot : "}, {Input: "xyz", Dice: d(1)}, {Input: "2D6", Output: "DiceBot : (2D6) ＞ 5[4,1] ＞ 6", Dice: d(4, 1)}} {
		out = append(out, &Suites{Suites: [][][]RunnerCase{{{ok, k}}, {{k}, {sec}}, {{k}}}, Broken: -1}, &Suites{Suites: [][][]RunnerCase{{{ok}, {k}}}, Broken: 0})
	}
	return out
}
