//go:build c30 || all

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing/iotest"
	"time"
	"unicode/utf8"

	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/notation"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
	"pgregory.net/rapid"

	"verif/fw"
	"verif/gen"
	"verif/model"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C30", Quick: 80000, Thorough: 3000000,
		Rule: "a text of at least four characters that is a command of at least two operators, rolls or items, or was made from a command by edits",
		Assumptions: []string{
			"a token of the grammar is at most 7 characters long (CHOICE[), so the parser notices a wrong character at most 6 characters before it",
			"a text that begins with an expression without dice may be rejected for that reason, at its beginning",
			"a newline character may also count as column 0 of the next line (as the parser generator has it)",
			"memoization (parser.Memoize) is left out: the parser generator does not support it for grammars that keep state, as this one does",
			"texts are valid UTF-8, except when only the agreement of the entry points is checked",
		},
	}, genC30, runC30, fixedC30()...)
	fw.Sweep("C30", "all sequences of up to three of 24 tokens (thorough: four), by the ways in turn; "+scopeSlots, func(deep bool, yield func(*ParseCase) bool) {
		i := 0
		ways := []string{"bytes", "reader", "onebyte", "half", "zero", "dataerr", "bytes"}
		opts := []string{"stats", "max", "few", "recover", "utf8", "start", "store", "stores", "trace", "x"}
		do := func(s string) bool {
			i++
			c := &ParseCase{Text: s, Name: "input", Via: ways[i%7]}
			if o := opts[i%8]; o != "x" {
				c.Opts = []string{o}
			}
			return yield(c)
		}
		_ = sweepTexts(smallTokens, upTo(deep, 3, 4), do) && sweepSlots(do)
	})
}

// ParseCase is a text and a way to hand it to the parser.
type ParseCase struct {
	Text string `json:"text"`
	// Raw is the text if it is not UTF-8.
	Raw []byte `json:"raw,omitempty"`
	// Base and At: Text was made from the accepted text Base; they agree in the first At bytes.
	Base string `json:"base,omitempty"`
	At   int    `json:"at,omitempty"`
	Name string `json:"name"`
	// Via: bytes, reader, onebyte, half, zero, dataerr, broken (fails after K bytes), file, nofile.
	Via  string   `json:"via"`
	K    int      `json:"k,omitempty"`
	Opts []string `json:"opts,omitempty"` // stats, max, few, recover, utf8, start, store
}

func genC30(t *rapid.T) *ParseCase {
	g := gen.New(t)
	c := &ParseCase{Name: fw.OneOf(t, "input", "input", "", "a b.txt", "x:1", "名前", "%s%d")}
	c.Via = fw.OneOf(t, "bytes", "bytes", "bytes", "reader", "onebyte", "half", "zero", "zero", "dataerr", "broken", "file", "nofile", "pipe", "link")
	for _, o := range []string{"stats", "max", "few", "recover", "utf8", "start", "store", "stores", "trace"} {
		if fw.Coin(t, 22) {
			c.Opts = append(c.Opts, o)
		}
	}
	if fw.Coin(t, 50) { // in another order
		for i, j := 0, len(c.Opts)-1; i < j; i, j = i+1, j-1 {
			c.Opts[i], c.Opts[j] = c.Opts[j], c.Opts[i]
		}
	}
	s := g.Any().S
	if fw.Coin(t, 2) { // a long one
		switch n := fw.OneOf(t, 300, 1100, 2100, 4200); fw.Pick(t, 3) {
		case 0:
			s = "C(" + strings.Repeat(fw.OneOf(t, "1+", "2-"), n/3) + "1)"
		case 1:
			s = "choice[" + strings.Repeat(fw.OneOf(t, "ab ", "あ"), n) + ",b]"
		case 2:
			s = "choice[" + strings.Repeat(fw.OneOf(t, "a,", "い,"), n) + "b]"
		}
		c.Text = s
		return c
	}
	c.Text = s
	c.K = fw.IntIn(t, 0, len(s))
	switch fw.Weighted(t, 30, 40, 20, 6, 4, 4) {
	case 1: // other characters from some place on
		r := []rune(s)
		p := fw.IntIn(t, 0, len(r))
		c.Base, c.At = s, len(string(r[:p]))
		tail := ""
		if fw.Coin(t, 60) && p < len(r) {
			tail = string(r[p+1:])
		}
		x := fw.OneOf(t, "", "x", "\n", "!", "あ", " ", "@", "(", ")", "]", "+", "9", "\nx", "é\n")
		c.Text = string(r[:p]) + x + tail
	case 2:
		c.Text = mutate(t, s)
	case 3: // not UTF-8
		p := fw.IntIn(t, 0, len(s))
		c.Text = s[:p] + fw.OneOf(t, "\xff", "\xe3\x81", "\x80") + s[p:]
		if !utf8.ValidString(c.Text) {
			c.Raw = []byte(c.Text)
		}
	case 5: // something around it that is easily lost
		c.Text = fw.OneOf(t, "\ufeff", "\ufeff", "\u200b", "\u00a0", "\u3000", "\x00", "\r\n", "\t", "#!", "//", "\ufffe", "\u2060", "", "") + s + fw.OneOf(t, "", "", "", "\n", "\r\n", "\x00", "\x1a", "\ufeff", "\u200b", ";", " ", "\u3000")
	case 4: // many lines
		p := fw.IntIn(t, 0, len(s))
		c.Text = s[:p] + fw.OneOf(t, "\n", "\n\n", "\r\n", "い\nろ\n") + s[p:]
	}
	return c
}

// zeroReader delivers up to k+1 bytes at a time, and nothing at all (without an error) before each of them.
type zeroReader struct {
	r    io.Reader
	k    int
	full bool
}

func (z *zeroReader) Read(p []byte) (int, error) {
	z.full = !z.full
	if z.full || len(p) == 0 {
		return 0, nil
	}
	return z.r.Read(p[:min(len(p), z.k%5*7+1)])
}

var (
	parseOnce sync.Once
	parseFile string
)

type parsed struct {
	sexp, infix, err string
}

func treeOutcome(n interface{}, err error) (parsed, error) {
	if err != nil {
		if err.Error() == "" {
			return parsed{}, errf("an error without text")
		}
		return parsed{err: err.Error()}, nil
	}
	node, ok := n.(ast.Node)
	if !ok || node == nil {
		return parsed{}, errf("neither a tree nor an error: %v", n)
	}
	p := parsed{sexp: node.SExp()}
	p.infix, err = notation.InfixNotation(node, true)
	if err != nil {
		return parsed{}, errf("no infix notation of %s: %v", p.sexp, err)
	}
	return p, nil
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// where reads the place in a parser's error: NAME:LINE:COL (OFFSET): ...
func where(msg, name string) (line, col, off int, rest string, ok bool) {
	if name != "" {
		if !strings.HasPrefix(msg, name+":") {
			return
		}
		msg = msg[len(name)+1:]
	}
	a, b, f1 := strings.Cut(msg, ":")
	c, d, f2 := strings.Cut(b, " (")
	e, r, f3 := strings.Cut(d, "): ")
	line, e1 := strconv.Atoi(a)
	col, e2 := strconv.Atoi(c)
	off, e3 := strconv.Atoi(e)
	return line, col, off, r, f1 && f2 && f3 && e1 == nil && e2 == nil && e3 == nil
}

// checkPlace checks the place one line of an error names.
func checkPlace(c *ParseCase, msg string, m *fw.Meta) error {
	line, col, off, rest, ok := where(msg, c.Name)
	if !ok {
		return errf("%q in %q is rejected with %q, which names no place", c.Text, c.Name, msg)
	}
	if off < 0 || off > len(c.Text) || off < len(c.Text) && !utf8.RuneStart(c.Text[off]) {
		return errf("%q is rejected at offset %d, which is no character of it: %s", c.Text, off, msg)
	}
	before := c.Text[:off]
	wl := 1 + strings.Count(before, "\n")
	wc := 1 + utf8.RuneCountInString(before[strings.LastIndexByte(before, '\n')+1:])
	if off < len(c.Text) && c.Text[off] == '\n' && col == 0 {
		wl, wc = wl+1, 0
	}
	if line != wl || col != wc {
		return errf("%q is rejected at %d:%d, but offset %d is %d:%d: %s", c.Text, line, col, off, wl, wc, msg)
	}
	if c.Base == "" || !strings.Contains(rest, "no match found, expected: ") {
		return nil
	}
	if model.Parse(c.Base) == nil {
		panic("harness: the base is no command: " + c.Base)
	}
	k := 0
	for k < len(c.Base) && k < len(c.Text) && c.Base[k] == c.Text[k] {
		k++
	}
	if off+7 <= k {
		return errf("%q is like the command %q in the first %d bytes but is rejected at offset %d: %s", c.Text, c.Base, k, off, msg)
	}
	m.Class(true, "place of an error checked")
	return nil
}

// ownState is a value of a user's own in the parser's state.
type ownState struct{ n int }

func (s *ownState) Clone() interface{} { return &ownState{s.n} }

var devNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

func runC30(c *ParseCase, m *fw.Meta) error {
	if len(c.Raw) > 0 {
		c.Text = string(c.Raw)
	}
	ref, err := treeOutcome(parser.Parse(c.Name, []byte(c.Text)))
	if err != nil {
		return errf("%q: %v", c.Text, err)
	}
	valid := utf8.ValidString(c.Text)
	// the place of an error
	if ref.err != "" && valid {
		for _, l := range strings.Split(ref.err, "\n") {
			if err := checkPlace(c, l, m); err != nil {
				return err
			}
		}
	}

	// the steps it takes
	st := &parser.Stats{}
	if _, err := treeOutcome(parser.Parse(c.Name, []byte(c.Text), parser.Statistics(st, "none"))); err != nil {
		return errf("%q: %v", c.Text, err)
	}
	if st.ExprCnt == 0 {
		return errf("%q is parsed in no steps", c.Text)
	}

	// by another way
	var opts []parser.Option
	own := &parser.Stats{}
	for _, o := range c.Opts {
		switch o {
		case "stats":
			opts = append(opts, parser.Statistics(own, "none"))
		case "max":
			opts = append(opts, parser.MaxExpressions(st.ExprCnt))
		case "few":
			if !has(c.Opts, "max") {
				opts = append(opts, parser.MaxExpressions(st.ExprCnt-1))
			}
		case "recover":
			opts = append(opts, parser.Recover(true))
		case "utf8":
			if valid {
				opts = append(opts, parser.AllowInvalidUTF8(true))
			}
		case "start":
			opts = append(opts, parser.Entrypoint(""))
		case "store":
			opts = append(opts, parser.GlobalStore("a", 1), parser.InitState("b", []int{2}))
		case "stores": // many, some of which are cloned
			for i := 0; i < 20; i++ {
				opts = append(opts, parser.GlobalStore(fmt.Sprint("g", i), i), parser.InitState(fmt.Sprint("s", i), &ownState{i}))
			}
		case "trace":
			if st.ExprCnt < 3000 {
				old := os.Stdout
				os.Stdout = devNull
				defer func() { os.Stdout = old }()
				opts = append(opts, parser.Debug(true))
				m.Class(true, "traced")
			}
		}
	}
	buf := []byte(c.Text)
	var n interface{}
	var perr error
	name := c.Name
	broken := errors.New("broken reader")
	switch c.Via {
	case "bytes":
		n, perr = parser.Parse(c.Name, buf, opts...)
	case "reader":
		n, perr = parser.ParseReader(c.Name, bytes.NewReader(buf), opts...)
	case "onebyte":
		n, perr = parser.ParseReader(c.Name, iotest.OneByteReader(bytes.NewReader(buf)), opts...)
	case "half":
		n, perr = parser.ParseReader(c.Name, iotest.HalfReader(bytes.NewReader(buf)), opts...)
	case "dataerr":
		n, perr = parser.ParseReader(c.Name, iotest.DataErrReader(bytes.NewReader(buf)), opts...)
	case "zero": // nothing is delivered in between
		n, perr = parser.ParseReader(c.Name, &zeroReader{r: bytes.NewReader(buf), k: c.K}, opts...)
	case "broken":
		n, perr = parser.ParseReader(c.Name, io.MultiReader(bytes.NewReader(buf[:min(c.K, len(buf))]), iotest.ErrReader(broken)), opts...)
		if n != nil || !errors.Is(perr, broken) {
			return errf("%q from a reader that fails: got %v, %v", c.Text, n, perr)
		}
	case "pipe", "link":
		d, err := os.MkdirTemp(os.Getenv("VH_TMP"), "parse-")
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer os.RemoveAll(d)
		name = filepath.Join(d, "command")
		if c.Via == "link" {
			err = os.WriteFile(name+".txt", buf, 0o600)
			if err == nil {
				err = os.Symlink(name+".txt", name)
			}
		} else {
			err = syscall.Mkfifo(name, 0o600)
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
		done := make(chan struct{})
		if c.Via == "pipe" { // delivered in two pieces
			go func() {
				defer close(done)
				f, err := os.OpenFile(name, os.O_WRONLY, 0)
				if err != nil {
					return
				}
				k := min(max(c.K, 0), len(buf))
				f.Write(buf[:k])
				f.Write(buf[k:])
				f.Close()
			}()
		} else {
			close(done)
		}
		n, perr = parser.ParseFile(name, opts...)
		select {
		case <-done:
		case <-time.After(5 * time.Millisecond): // not read: let the writer go
			if f, err := os.OpenFile(name, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
				time.Sleep(time.Millisecond)
				f.Close()
			}
			<-done
		}
	case "file", "nofile":
		parseOnce.Do(func() {
			d, err := os.MkdirTemp(os.Getenv("VH_TMP"), "parse-")
			if err != nil {
				panic("harness: " + err.Error())
			}
			parseFile = filepath.Join(d, "command.txt")
		})
		name = parseFile
		if c.Via == "nofile" {
			n, perr = parser.ParseFile(parseFile+".no", opts...)
			if n != nil || !os.IsNotExist(perr) {
				return errf("a file that is not there: got %v, %v", n, perr)
			}
			break
		}
		if err := os.WriteFile(parseFile, buf, 0o600); err != nil {
			panic("harness: " + err.Error())
		}
		n, perr = parser.ParseFile(parseFile, opts...)
	}
	m.Class(true, "via "+c.Via)
	m.Class(ref.err == "", "accepted")
	if c.Via == "broken" || c.Via == "nofile" {
		m.NonTrivial = len(c.Text) >= 4
		return nil
	}
	how := errf("%q via %s with %v", c.Text, c.Via, c.Opts).Error()
	got, err := treeOutcome(n, perr)
	if err != nil {
		return errf("%s: %v", how, err)
	}
	if has(c.Opts, "few") && !has(c.Opts, "max") {
		if got.err == "" || !strings.Contains(got.err, "max number of") {
			return errf("%s: one step less than needed (%d), got %v", how, st.ExprCnt, got)
		}
		m.Class(true, "steps run out")
		m.NonTrivial = len(c.Text) >= 4
		return nil
	}
	want := ref
	if c.Name != name && ref.err != "" { // other file name
		pre := c.Name
		if pre != "" {
			pre += ":"
		}
		l := strings.Split(ref.err, "\n")
		for i := range l {
			l[i] = name + ":" + strings.TrimPrefix(l[i], pre)
		}
		want.err = strings.Join(l, "\n")
	}
	if got != want {
		return errf("%s: got %+v, want %+v", how, got, want)
	}
	if has(c.Opts, "stats") {
		if own.ExprCnt != st.ExprCnt {
			return errf("%s: %d steps, before it were %d", how, own.ExprCnt, st.ExprCnt)
		}
	}
	if string(buf) != c.Text {
		return errf("%s: the parser changed its input to %q", how, buf)
	}
	// the tree is independent of the text's memory
	for i := range buf {
		buf[i] = '#'
	}
	if again, err := treeOutcome(n, perr); err != nil || again != got {
		return errf("%s: after the input's memory was used again the outcome is %+v, was %+v", how, again, got)
	}
	if ref.err == "" {
		w := model.Parse(c.Text)
		if w == nil {
			return errf("%q must be rejected", c.Text)
		}
		m.NonTrivial = len(c.Text) >= 4 && w.Count(model.KBin)+w.Count(model.KRoll)+w.Count(model.KNeg)+len(w.Items)+len(w.Bonus) >= 2
	} else {
		m.NonTrivial = len(c.Text) >= 4
	}
	return nil
}

func fixedC30() []*ParseCase {
	var out []*ParseCase
	i := 0
	for _, s := range []string{"", "2D6", "2D6+", "2D6\n", "\n2D6", "C(1)", "C(1", "CHOICE[a,b]", "CHOICE[", "CHOICE", "2R6[3]+1", "1U6[6]+2>=3", "あ", "2D6あ\nい", "((((1D6))))", "2D6>=3>4", "\xff", "2D\xff6", "CHOICE[\xff]", "[1...3]D6", "[1..3]D6", "2D6+(1-(2*(3/4R)))>=5"} {
		for _, v := range []string{"bytes", "reader", "onebyte", "half", "zero", "dataerr", "broken", "file", "nofile", "pipe", "link"} {
			for _, o := range [][]string{nil, {"stats", "max", "utf8"}, {"few"}, {"stats", "start", "store", "recover"}, {"stores", "trace", "stats"}} {
				out = append(out, &ParseCase{Text: s, Name: []string{"input", ""}[i%2], Via: v, Opts: o, K: i % 3})
				i++
			}
		}
	}
	return out
}
