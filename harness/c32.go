//go:build c32 || all

package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/fw"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C32", Quick: 6000, Thorough: 100000,
		Rule: "at least three lines are entered, one of them by more than typing it (editing, recalling or completing), or a line is abandoned",
		Assumptions: []string{
			"the terminal is 2000 columns wide, and the next line is typed when the REPL is ready for it",
			"of the keys of the line editor, those for moving, deleting, recalling, completing, interrupting and ending are pressed; Tab only where what it completes is the same for every candidate",
			"the answers to the lines entered are those of C21's model",
		},
	}, genC32, runC32, fixedC32()...)
}

// TermLine is what is typed up to the key that ends a line.
type TermLine struct {
	Keys []string `json:"keys"` // texts and names of keys
	End  string   `json:"end"`  // enter, ctrl-j, ctrl-c
}

// TermCase is one or two sessions on a terminal in one directory.
type TermCase struct {
	Lines  []TermLine `json:"lines"`
	Second []TermLine `json:"second,omitempty"`
	// NoFile: the history file cannot be opened.
	NoFile bool `json:"no_file,omitempty"`
	// Elsewhere: the second session is in another directory.
	Elsewhere bool `json:"elsewhere,omitempty"`
}

var termKeys = map[string]string{
	"<bs>": "\x7f", "<home>": "\x01", "<end>": "\x05", "<left>": "\x1b[D", "<right>": "\x1b[C", "<back>": "\x02", "<forward>": "\x06",
	"<del>": "\x04", "<delete>": "\x1b[3~", "<tab>": "\t", "<up>": "\x1b[A", "<down>": "\x1b[B", "<prev>": "\x10", "<next>": "\x0e", "<ctrl-z>": "\x1a", "<ctrl-u>": "\x15",
	"<ctrl-w>": "\x17", "<alt-bs>": "\x1b\x7f", "<ctrl-k>": "\x0b", "<ctrl-t>": "\x14", "<ctrl-h>": "\x08", "<alt-b>": "\x1bb", "<alt-f>": "\x1bf", "<alt-d>": "\x1bd", "<ctrl-y>": "\x19",
	"<home-key>": "\x1b[H", "<end-key>": "\x1b[F", "<home-o>": "\x1bOH", "<end-o>": "\x1bOF",
}

var termNames = []string{"ast", "eval", "roll", "set-die-feeder", "set-dice-queue", "set-game", "list-games", "help", "quit"}

// completion is what Tab adds to a line, if it adds anything for sure.
func completion(line string) (string, bool) {
	cands := []string{}
	rest := line
	switch {
	case strings.HasPrefix(line, ".set-die-feeder "):
		rest = strings.TrimPrefix(line, ".set-die-feeder ")
		cands = []string{"mt ", "queue "}
	case strings.HasPrefix(line, ".set-game "):
		rest = strings.TrimPrefix(line, ".set-game ")
		cands = []string{"DiceBot "}
	default:
		for _, n := range termNames {
			cands = append(cands, "."+n+" ")
		}
	}
	if strings.TrimSpace(rest) != rest {
		return "", false
	}
	if rest == "" && len(cands) > 1 {
		return "", false
	}
	common, n := "", 0
	for _, c := range cands {
		if !strings.HasPrefix(c, rest) {
			continue
		}
		if n++; n == 1 {
			common = c
		}
		for !strings.HasPrefix(c, common) {
			common = common[:len(common)-1]
		}
	}
	if n == 0 || len(common) <= len(rest) {
		return "", false
	}
	return common[len(rest):], true
}

// lineEditor follows the keys.
type lineEditor struct {
	buf   []rune
	pos   int
	hist  []string
	back  int  // how many lines up
	moved bool // the line shown is one of the history, unchanged
	files bool
	used  map[string]bool
	kill  []rune // what was cut last
}

// cut removes a part of the line.
func (e *lineEditor) cut(i, j int) {
	e.kill = append([]rune{}, e.buf[i:j]...)
	e.buf = append(e.buf[:i:i], e.buf[j:]...)
	e.pos = i
}

// wordStart tells whether a word of letters and digits begins at i > 0.
func (e *lineEditor) wordStart(i int) bool {
	return inWord(e.buf[i]) && !inWord(e.buf[i-1])
}

func inWord(r rune) bool {
	return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9'
}

// before gives the start of the word before the cursor.
func (e *lineEditor) before() int {
	i := e.pos - 1
	for i > 0 && !e.wordStart(i) {
		i--
	}
	return max(i, 0)
}

// after gives the start of the word after a place.
func (e *lineEditor) after(i int) int {
	for i++; i < len(e.buf) && !e.wordStart(i); {
		i++
	}
	return min(i, len(e.buf))
}

// press applies a key; false means that it is not pressed here.
func (e *lineEditor) press(k string) bool {
	if _, ok := termKeys[k]; !ok {
		for _, r := range k {
			if r < ' ' || r == 0x7f {
				return false
			}
		}
		r := []rune(k)
		e.buf = append(e.buf[:e.pos:e.pos], append(r, e.buf[e.pos:]...)...)
		e.pos += len(r)
		e.moved = false
		return true
	}
	atEnd := e.pos == len(e.buf)
	switch k {
	case "<ctrl-w>", "<alt-bs>":
		if i := e.before(); i > 0 {
			e.cut(i, e.pos)
		} else if e.pos > 0 && atEnd {
			e.buf, e.pos = nil, 0
		} else {
			return false // the line editor clears what follows, too
		}
	case "<ctrl-k>":
		if atEnd {
			return false
		}
		e.cut(e.pos, len(e.buf))
	case "<alt-d>":
		if atEnd {
			return false
		}
		i := e.pos
		for i < len(e.buf) && !inWord(e.buf[i]) {
			i++
		}
		if i = e.after(i); i < len(e.buf) {
			i--
		}
		e.cut(e.pos, i)
	case "<ctrl-t>":
		if len(e.buf) < 2 {
			return false
		}
		i := min(max(e.pos, 1), len(e.buf)-1)
		e.buf = append([]rune{}, e.buf...)
		e.buf[i], e.buf[i-1] = e.buf[i-1], e.buf[i]
		e.pos = i + 1
	case "<ctrl-y>":
		e.buf = append(e.buf[:e.pos:e.pos], append(append([]rune{}, e.kill...), e.buf[e.pos:]...)...)
		e.pos += len(e.kill)
	case "<alt-b>":
		e.pos = e.before()
	case "<alt-f>":
		e.pos = e.after(e.pos)
	case "<bs>", "<ctrl-h>":
		if e.pos == 0 {
			return false
		}
		e.buf = append(e.buf[:e.pos-1:e.pos-1], e.buf[e.pos:]...)
		e.pos--
	case "<del>", "<delete>":
		if atEnd {
			return false // the end of the session, if the line is empty
		}
		e.cut(e.pos, e.pos+1)
	case "<ctrl-u>":
		if e.pos == 0 {
			return false
		}
		e.cut(0, e.pos)
	case "<home>", "<home-key>", "<home-o>":
		e.pos = 0
	case "<end>", "<end-key>", "<end-o>":
		e.pos = len(e.buf)
	case "<left>", "<back>":
		if e.pos == 0 {
			return false
		}
		e.pos--
	case "<right>", "<forward>":
		if atEnd {
			return false
		}
		e.pos++
	case "<ctrl-z>":
	case "<tab>":
		add, ok := completion(string(e.buf))
		if !ok || !atEnd {
			return false
		}
		e.buf = append(e.buf, []rune(add)...)
		e.pos = len(e.buf)
	case "<up>", "<prev>":
		if !e.files || e.back == 0 && len(e.buf) > 0 || e.back > 0 && !e.moved {
			return false
		}
		if e.back >= len(e.hist) { // nothing earlier
			e.used["at the top "+k] = true
			break
		}
		e.back++
		e.show()
	case "<down>", "<next>":
		if !e.moved || e.back < 2 {
			return false
		}
		e.back--
		e.show()
	}
	switch k {
	case "<up>", "<prev>", "<down>", "<next>":
	case "<alt-b>", "<alt-f>", "<home-key>", "<end-key>", "<home-o>", "<end-o>":
	case "<ctrl-z>", "<home>", "<end>", "<left>", "<back>", "<right>", "<forward>":
	default:
		e.moved = false
	}
	e.used[k] = true
	return true
}

func (e *lineEditor) show() {
	e.buf = []rune(e.hist[len(e.hist)-e.back])
	e.pos = len(e.buf)
	e.moved = true
}

func (e *lineEditor) reset() {
	e.buf, e.pos, e.back, e.moved = nil, 0, 0, false
}

// enter ends a line.
func (e *lineEditor) enter() string {
	l := string(e.buf)
	if l != "" && (len(e.hist) == 0 || e.hist[len(e.hist)-1] != l) {
		e.hist = append(e.hist, l)
	}
	e.reset()
	return l
}

func genC32(t *rapid.T) *TermCase {
	c := &TermCase{NoFile: fw.Coin(t, 4)}
	c.Lines = genTerm(t, nil)
	if fw.Coin(t, 20) {
		var hist []string
		for _, l := range c.Lines {
			hist = append(hist, strings.Join(l.Keys, ""))
		}
		c.Elsewhere = fw.Coin(t, 25)
		c.Second = genTerm(t, hist)
		if c.Elsewhere && fw.Coin(t, 60) {
			c.Second = append([]TermLine{{Keys: []string{"C(77)"}, End: "enter"}, {Keys: slices.Repeat([]string{fw.OneOf(t, "<up>", "<prev>")}, fw.IntIn(t, 2, 9)), End: "enter"}}, c.Second...)
		}
	}
	return c
}

func genTerm(t *rapid.T, earlier []string) []TermLine {
	s := genSession(t)
	lines := s.Lines
	if len(lines) > 8 {
		lines = lines[:8]
	}
	var out []TermLine
	if fw.Coin(t, 2) { // many lines, one of them recalled from far back
		n := fw.OneOf(t, 12, 22, 35, 52, 66, 102, 130)
		for i := 1; i <= n; i++ {
			out = append(out, TermLine{Keys: []string{"C(" + itoa(i) + ")"}, End: "enter"})
		}
		up := make([]string, fw.OneOf(t, 11, n-1, n, fw.IntIn(t, 1, n)))
		for i := range up {
			up[i] = "<up>"
		}
		out = append(out, TermLine{Keys: up, End: "enter"})
	}
	for i, l := range lines {
		var k []string
		r := []rune(l)
		if len(r) > 400 { // every key has the whole line written anew
			r = r[:400]
			l = string(r)
		}
		cut := func() int { return fw.Pick(t, len(r)+1) }
		typo := func() string {
			return fw.OneOf(t, "x", "9", "あ", ".", " ", "D", "+1", "]")
		}
		swapped := func(p int) string {
			return string(r[:p]) + string(r[p+1]) + string(r[p]) + string(r[p+2:])
		}
		switch fw.Weighted(t, 16, 10, 12, 12, 8, 16, 8, 6, 8, 8, 8, 6, 6) {
		case 8: // a word too many
			k = []string{l + fw.OneOf(t, " ", "+", "  ", "("), fw.OneOf(t, "x", "foo", "2D6", "12"), fw.OneOf(t, "<ctrl-w>", "<ctrl-w>", "<alt-bs>"), "<bs>"}
			if k[0] == l+"  " {
				k = append(k, "<ctrl-h>")
			}
		case 9: // too much after it
			k = []string{l, typo() + typo(), "<left>"}
			for j := 1; j < len([]rune(k[1])); j++ {
				k = append(k, "<left>")
			}
			k = append(k, "<ctrl-k>")
		case 10: // two characters swapped
			if len(r) < 2 {
				k = []string{l}
				break
			}
			p := fw.Pick(t, len(r)-1)
			k = []string{swapped(p)}
			for j := len(r); j > p+1 && !(j == len(r) && p == len(r)-2); j-- {
				k = append(k, "<left>")
			}
			k = append(k, "<ctrl-t>")
		case 11: // over its words
			k = []string{l + "x", fw.OneOf(t, "<alt-b>", "<home>", "<home-key>", "<home-o>")}
			for j := fw.Pick(t, 4); j > 0; j-- {
				k = append(k, fw.OneOf(t, "<alt-b>", "<alt-f>", "<alt-f>", "<alt-d>"))
			}
			k = append(k, fw.OneOf(t, "<end>", "<end-key>", "<end-o>"), "<bs>")
		case 12: // a part cut and put elsewhere
			p := cut()
			k = []string{string(r[p:]), "<ctrl-u>", string(r[:p]), "<ctrl-y>"}
			if fw.Coin(t, 30) {
				k = append(k, "+", "<ctrl-y>")
			}

		case 0:
			k = []string{l}
		case 1: // a typo undone
			p := cut()
			x := typo()
			k = []string{string(r[:p]), x}
			for range []rune(x) {
				k = append(k, "<bs>")
			}
			k = append(k, string(r[p:]))
		case 2: // the end first
			p := cut()
			k = []string{string(r[p:]), fw.OneOf(t, "<home>", "<home>", "<left>"), string(r[:p])}
		case 3: // a character too many, deleted from before it
			p := cut()
			k = []string{string(r[:p]), "x", string(r[p:])}
			for j := 0; j < len(r)-p+1; j++ {
				k = append(k, fw.OneOf(t, "<left>", "<back>"))
			}
			k = append(k, fw.OneOf(t, "<del>", "<delete>"))
		case 4: // started again
			k = []string{typo() + typo(), "<ctrl-u>", l}
		case 5: // completed
			if !strings.HasPrefix(l, ".") {
				l = ".eval " + l
			}
			n := 2 + fw.Pick(t, 6)
			name, rest, _ := strings.Cut(l, " ")
			if n > len(name) {
				n = len(name)
			}
			k = []string{name[:n], "<tab>"}
			if fw.Coin(t, 30) {
				k = append(k, "<tab>")
			}
			if rest != "" && fw.Coin(t, 40) {
				k = append(k, rest[:1], "<tab>")
			} else {
				k = append(k, rest)
			}
		case 6, 7: // recalled
			for j, n := 0, 1+fw.Pick(t, i+1+len(earlier)); j < n; j++ {
				k = append(k, fw.OneOf(t, "<up>", "<up>", "<prev>"))
			}
			if fw.Coin(t, 25) {
				k = append(k, fw.OneOf(t, "<down>", "<next>"))
			}
			if fw.Coin(t, 25) {
				k = append(k, typo())
			}
		}
		if fw.Coin(t, 15) {
			p := fw.Pick(t, len(k)+1)
			k = append(k[:p:p], append([]string{"<ctrl-z>"}, k[p:]...)...)
		}
		if fw.Coin(t, 5) {
			p := fw.Pick(t, len(k)+1)
			keys := []string{"<bs>", "<home>", "<end>", "<left>", "<right>", "<tab>", "<up>", "<down>", "<ctrl-u>", "<del>", "<ctrl-w>", "<alt-bs>", "<ctrl-k>", "<ctrl-t>", "<ctrl-h>", "<alt-b>", "<alt-f>", "<alt-d>", "<ctrl-y>", "<home-key>", "<end-key>"}
			k = append(k[:p:p], append([]string{keys[fw.Pick(t, len(keys))]}, k[p:]...)...)
		}
		if fw.Coin(t, 12) {
			out = append(out, TermLine{Keys: k[:fw.Pick(t, len(k)+1)], End: "ctrl-c"})
		}
		end := "enter"
		if fw.Coin(t, 10) {
			end = "ctrl-j"
		}
		out = append(out, TermLine{Keys: k, End: end})
	}
	return out
}

const cleared = "\x1b[J\x1b[2K\r" // what the line editor writes before the prompt

func runC32(c *TermCase, m *fw.Meta) error {
	bin := os.Getenv("VH_REPL")
	if bin == "" {
		panic("harness: VH_REPL is not set")
	}
	dir, err := os.MkdirTemp(os.Getenv("VH_TMP"), "term-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	if c.NoFile {
		if err := os.Mkdir(filepath.Join(dir, "GoBCDiceREPL_history.txt"), 0o700); err != nil {
			panic("harness: " + err.Error())
		}
	}
	home := filepath.Join(dir, "home")
	if err := os.Mkdir(home, 0o700); err != nil {
		panic("harness: " + err.Error())
	}
	k, _ := json.Marshal(c)
	env := append([]string{"HOME=" + home}, fw.SomeEnv(string(k))...)
	e := &lineEditor{files: !c.NoFile, used: map[string]bool{}}
	n := 0
	more := c.Second != nil
	entered, err := termSession(bin, dir, env, c.Lines, e, more, m)
	if err != nil {
		return err
	}
	n += entered
	if more {
		var hist []string
		for _, l := range e.hist {
			if l = strings.TrimSpace(l); l != "" {
				hist = append(hist, l)
			}
		}
		if c.NoFile {
			hist = nil
		}
		if c.Elsewhere && !c.NoFile {
			hist = nil
			dir = filepath.Join(dir, "other")
			if err := os.Mkdir(dir, 0o700); err != nil {
				panic("harness: " + err.Error())
			}
			m.Class(true, "second session elsewhere")
		}
		e.reset()
		e.hist, e.kill = hist, nil
		was := e.used["<up>"] || e.used["<prev>"]
		if entered, err = termSession(bin, dir, env, c.Second, e, false, m); err != nil {
			return errf("second session: %v", err)
		}
		n += entered
		m.Class(!was && (e.used["<up>"] || e.used["<prev>"]), "recalls in a second session only")
		m.Class(true, "two sessions")
	}
	for k := range e.used {
		m.Class(true, "key "+k)
	}
	m.Class(c.NoFile, "no history file")
	m.NonTrivial = n >= 3 && len(e.used) > 0
	return nil
}

// termSession types lines and checks the answers; it returns how many were entered.
func termSession(bin, dir string, env []string, lines []TermLine, e *lineEditor, mustEndByD bool, m *fw.Meta) (int, error) {
	t := startTerminal(bin, dir, env)
	defer t.kill()
	const limit = 60 * time.Second
	if err := t.wait(limit, cleared); err != nil {
		return 0, errf("no prompt on a terminal: %v; output %q", err, lastPart(t.got.String(), 300))
	}
	start, _, _ := strings.Cut(t.got.String(), cleared)
	o := &replOut{strings.ReplaceAll(start, "\r\n", "\n")}
	if err := o.welcome(); err != nil {
		return 0, err
	}
	r := &replModel{}
	n := 0
	var typed []string
	for _, l := range lines {
		var keys strings.Builder
		for _, k := range l.Keys {
			if !e.press(k) {
				continue
			}
			typed = append(typed, k)
			if s, ok := termKeys[k]; ok {
				k = s
			}
			keys.WriteString(k)
		}
		shown := string(e.buf)
		line := ""
		last := "\r"
		x := strings.TrimSpace(shown)
		mm := replNameRe.FindStringSubmatch(x)
		ends := l.End != "ctrl-c" && (x == ".q" || mm != nil && mm[1] == "quit")
		if glued(shown) || ends && mustEndByD {
			l.End, ends = "ctrl-c", false
		}
		switch l.End {
		case "enter", "ctrl-j":
			line = e.enter()
			if l.End == "ctrl-j" {
				last = "\n"
				e.used["<ctrl-j>"] = true
			}
		case "ctrl-c":
			last = "\x03"
			e.reset()
			e.used["<ctrl-c>"] = true
		default:
			continue
		}
		typed = append(typed, "<"+l.End+">")
		where := func(f string, a ...any) error {
			return errf("after the keys %q: "+f, append([]any{typed}, a...)...)
		}
		if len(typed) > 60 {
			typed = append([]string{"..."}, typed[len(typed)-60:]...)
		}
		t.got.Reset()
		if err := t.send(keys.String() + last); err != nil {
			return n, where("cannot type: %v", err)
		}
		n++
		if ends {
			if err := t.finish(limit); err != nil {
				return n, where("the session must end with status 0: %v; output %q", err, lastPart(t.got.String(), 300))
			}
			m.Class(true, "ended by a command")
			return n, nil
		}
		err := t.wait(limit, "\r\n", cleared)
		if err != nil {
			return n, where("the REPL is not ready for the next line (%v); output %q", err, lastPart(t.got.String(), 300))
		}
		echo, a, _ := strings.Cut(t.got.String(), "\r\n")
		a, _, _ = strings.Cut(a, cleared)
		echo = strings.ReplaceAll(echo, "\a", "")
		a = strings.ReplaceAll(a, "\r\n", "\n")
		if l.End == "ctrl-c" {
			if strings.TrimSpace(a) != "" {
				return n, where("the line %q is abandoned but answered: %q", shown, a)
			}
			continue
		}
		if !strings.HasSuffix(echo, shown) {
			return n, where("the line shown ends with %q, want %q", lastPart(echo, 60), shown)
		}
		o := &replOut{a}
		if mm != nil && (mm[1] == "help" || mm[1] == "list-games") {
			o.s += sentinelAnswer + "\n"
		}
		if err := r.step(line, o, m); err != nil {
			return n, where("%v", err)
		}
		o.s = strings.TrimPrefix(o.s, sentinelAnswer+"\n")
		if o.s != "" {
			return n, where("%q is answered and more: %q", line, lastPart(o.s, 300))
		}
	}
	t.got.Reset()
	if err := t.send("\x04"); err != nil {
		return n, errf("after the keys %q: cannot type: %v", typed, err)
	}
	if err := t.finish(60 * time.Second); err != nil {
		return n, errf("after the keys %q and ctrl-d the session must end with status 0: %v; output %q", typed, err, lastPart(t.got.String(), 300))
	}
	if strings.Contains(t.got.String(), resHeader) || strings.Contains(t.got.String(), escRed) {
		return n, errf("after the keys %q ctrl-d is answered: %q", typed, lastPart(t.got.String(), 300))
	}
	return n, nil
}

var gluedRe = regexp.MustCompile(`^\.([-a-z]+)(?:[^-a-z\t\n\f\r ])`)

// glued tells whether a line begins with the name of a command and no space
// after it, which nothing says how to answer.
func glued(l string) bool {
	m := gluedRe.FindStringSubmatch(strings.TrimSpace(l))
	if m == nil {
		return false
	}
	for _, n := range termNames {
		if n == m[1] {
			return true
		}
	}
	return false
}

const escRed = "\x1b[31m"

func fixedC32() []*TermCase {
	l := func(keys ...string) TermLine { return TermLine{Keys: keys, End: "enter"} }
	x := func(keys ...string) TermLine { return TermLine{Keys: keys, End: "ctrl-c"} }
	var out []*TermCase
	all := &TermCase{}
	for _, n := range termNames[:8] {
		for i := 2; i <= len(n)+1; i++ {
			p := ("." + n)[:i]
			if add, ok := completion(p); ok && strings.HasPrefix(("." + n + " ")[i:], add) && strings.HasSuffix(add, " ") {
				all.Lines = append(all.Lines, l(p, "<tab>"))
			}
		}
	}
	out = append(out, all,
		&TermCase{Lines: []TermLine{l(".set-die-feeder ", "q", "<tab>"), l(".set-dice-queue 3/6,4/6"), l("2D6"), l("<up>"), l("<up>", "<up>"), x("2D6"), l("2D6"), l(".set-die-feeder m", "<tab>"), l(".set-game D", "<tab>"), l(".set-game ", "<tab>"), l(".q", "<tab>")}},
		&TermCase{Lines: []TermLine{l("C(1)"), x("C(2)"), l("<up>"), l("C(3)"), x()}, Second: []TermLine{l("<up>"), l("<up>", "<up>"), l("<up>", "<up>", "<up>")}},
		&TermCase{Lines: []TermLine{x(), x(), l(""), l("<ctrl-z>", "C(1", "<ctrl-z>", "2)"), l("<ctrl-z>")}},
		&TermCase{Lines: []TermLine{l("C(1)"), l("C(2)")}, Second: []TermLine{l("C(5)"), l("<up>", "<up>", "<up>"), l("C(6)"), l("<up>", "<up>", "<up>", "<up>", "<up>"), l("<prev>", "<prev>", "<prev>", "<prev>", "<prev>", "<next>")}, Elsewhere: true},
		&TermCase{NoFile: true, Lines: []TermLine{l("C(1)"), l("C(2)"), x("C(3)"), l("C(4)")}},
		&TermCase{Lines: []TermLine{l("C(1) foo", "<ctrl-w>", "<bs>"), l("C(1)+x", "<alt-bs>", "<ctrl-h>"), l("C(1)xy", "<left>", "<left>", "<ctrl-k>"), l("(C1)", "<home-o>", "<right>", "<ctrl-t>"), l("C(1", "2)", "<ctrl-u>", "<ctrl-y>"), l("x C(1)", "<home-key>", "<alt-d>", "<del>", "<end-o>"), l("C(1+2)", "<alt-b>", "<bs>", "<alt-f>", "3")}},
		&TermCase{Lines: []TermLine{l("choice[あ,い]"), l("<up>", "<left>", "<bs>", "う"), l(".q")}},
	)
	return out
}
