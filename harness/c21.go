//go:build c21 || all

package main

import (
	"strings"

	"verif/fw"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C21", Quick: 16000, Thorough: 500000,
		Rule: "at least four lines, one of which evaluates or rolls and another of which is a REPL command",
		Assumptions: []string{
			"the REPL program is run as a process with piped input; line editing and completion on a terminal are not exercised",
			"lines contain no control characters; error texts are only required to be non-empty",
			"with the random source only commands whose message shows every die are evaluated; the message must be the one those dice give",
		},
	}, genSession, runC21, fixedC21()...)
}

func runC21(s *Session, m *fw.Meta) error {
	var in strings.Builder
	var lines []string
	for i, l := range s.Lines {
		if strings.ContainsAny(l, "\n\r\t\x00\x1b") {
			return nil
		}
		lines = append(lines, l)
		x := strings.TrimSpace(l)
		if replNameRe.MatchString(x) && (strings.HasPrefix(x, ".help") || strings.HasPrefix(x, ".list-games")) {
			lines = append(lines, sentinel)
		}
		_ = i
	}
	for i, l := range lines {
		in.WriteString(l)
		if i < len(lines)-1 || !s.NoNL {
			in.WriteString("\n")
		}
	}
	out, err := replRun(in.String())
	if err != nil {
		return errf("%q: %v", s.Lines, err)
	}
	o := &replOut{out}
	if err := o.welcome(); err != nil {
		return err
	}
	r := &replModel{}
	evals, cmds := 0, 0
	for i, l := range lines {
		if i == len(lines)-1 && s.NoNL && l == "" {
			break
		}
		if err := r.step(l, o, m); err != nil {
			return errf("line %d: %v", i+1, err)
		}
		if r.ended {
			m.Class(i < len(lines)-1, "lines after the end")
			break
		}
		if x := strings.TrimSpace(l); strings.HasPrefix(x, ".") && !strings.HasPrefix(x, ".eval") && !strings.HasPrefix(x, ".roll") {
			cmds++
		} else {
			evals++
		}
	}
	rest := strings.TrimPrefix(o.s, promptStr)
	if strings.TrimSpace(rest) != "" {
		return errf("the session goes on after its end: %q", lastPart(rest, 300))
	}
	m.NonTrivial = evals+cmds >= 4 && evals > 0 && cmds > 0
	m.Class(!r.ended, "ended by the end of input")
	return nil
}

func fixedC21() []*Session {
	q := func(l ...string) *Session {
		return &Session{Lines: append([]string{".set-die-feeder queue", ".set-dice-queue 3/6, 4/6"}, l...)}
	}
	var near []*Session // almost the commands
	for _, n := range replNames {
		var a, b []string
		for k := 0; k < len(n); k++ {
			a = append(a, "."+n[:k], "."+n[:k]+n[k+1:], "."+n[:k]+n[k:k+1]+n[k:])
			if x := n[:k] + strings.ToUpper(n[k:]); x != n {
				b = append(b, "."+x[:k+1])
			}
		}
		a = append(a, "."+n+"s", "."+n+"-", "."+n+"-x", n, ".."+n, ". "+n, "-"+n, "/"+n)
		b = append(b, "."+strings.ToUpper(n[:1])+n[1:], "."+strings.ToUpper(n))
		for _, l := range append(a, b...) {
			x := strings.TrimPrefix(l, ".")
			skip := false
			for _, m := range replNames {
				skip = skip || x == m || strings.HasPrefix(x, m) && !replNameRe.MatchString(l)
			}
			if !skip {
				near = append(near, q(l, l+" C(1)", l+" 2 6", l+" queue"))
			}
		}
	}
	rep := func(n int, l ...string) []string {
		var out []string
		for i := 0; i < n; i++ {
			out = append(out, l[i%len(l)])
		}
		return out
	}
	near = append(near, // long sessions
		q(rep(2500, "2D6")...), q(append(rep(1200, "C(1)", "2D6", ".roll 2 6", ".ast 2D6", ".eval 1D6", "x y", "", ".none"), "2D6")...),
		q(append(rep(1200, ".set-die-feeder queue", "2D6", ".set-dice-queue 1/6, 6/6", "2D6", ".set-game DiceBot"), "2D6")...),
		&Session{Lines: append(rep(2500, "2D6"), ".roll 2 6", ".q")}, &Session{Lines: append(rep(1200, ".roll 2 6", "C(1)", ".help", ".list-games", "3B6>=3"), ".roll 2 6")})
	return append(near, []*Session{
		{}, {Lines: []string{".q"}}, {Lines: []string{".quit", "C(1)"}}, {Lines: []string{"C(1)"}, NoNL: true}, {Lines: []string{""}},
		{Lines: []string{".help", ".list-games", "", ".ast", ".eval", ".roll", ".set-die-feeder", ".set-game", ".set-dice-queue", ".set-dice-queue 1/6", ".unknown"}},
		q("2D6", "2D6", "s2D6>=7", "3D6", "2D6", "2D10", "2D6 x", "2D6/(1D1-1)", "2D6"),
		q(".roll 2 6", ".roll 2 6", ".roll 3 6", ".roll 1 6", ".roll 1 10", "2D6"),
		{Lines: []string{".roll 300 6", ".roll 1500 100", "2D6", ".roll 70 1"}},
		q(".set-dice-queue x", "2D6", ".set-dice-queue 1/6,", "2D6", ".set-die-feeder foo", "2D6", ".set-game foo", "2D6"),
		q(".set-dice-queue "+strings.Repeat("1/6,", 69)+"1/6", "70D6", ".roll 70 6", "69B6>=1", ".set-dice-queue "+strings.Repeat("3/6, ", 1023)+"2/6", "1024D6", ".roll 1024 6", "1025D6"),
		q(".set-die-feeder queue", "2D6", ".set-dice-queue 6/6,6/6", "2D6", ".set-dice-queue", "1D6", "C(1)"),
		q(".set-die-feeder mt", ".set-dice-queue 1/6", "2D6", "3B6>=3", ".roll 5 6", ".set-die-feeder queue", "2D6"),
		q(".ast S2D6", ".ast 2D6 x", ".eval S2D6", ".eval  2D6 ", "  2D6  ", ".ast 1/0", ".ast 9223372036854775808D6"),
		q("[1...6]D6", ".set-dice-queue 2/6,1/6,5/6", "[1...6]D6", "[1...6]D6", "CHOICE[a,b,c]", ".set-dice-queue 2/3", "CHOICE[a,b,c]", "choice[ x , y ,z]"),
	}...)
}
