//go:build c15 || c21 || c32 || all

package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/fw"
)

const (
	escReset  = "\x1b[0m"
	resHeader = "\x1b[36m=>\x1b[0m "
	secHeader = "\x1b[33m[secret]\x1b[0m "
	okLine    = "\x1b[36mOK\x1b[0m"
	errStart  = "\x1b[31m"
	promptStr = "\x1b[33m>>\x1b[0m "
)

var (
	replDirOnce sync.Once
	replDir     string
)

// replRun feeds the input to a fresh REPL process and returns its output.
// The process runs in a scratch directory: it writes a history file.
func replRun(input string) (string, error) {
	bin := os.Getenv("VH_REPL")
	if bin == "" {
		panic("harness: VH_REPL is not set")
	}
	replDirOnce.Do(func() {
		d, err := os.MkdirTemp(os.Getenv("VH_TMP"), "repl-cwd-")
		if err != nil {
			panic("harness: " + err.Error())
		}
		replDir = d
	})
	os.Remove(filepath.Join(replDir, "GoBCDiceREPL_history.txt"))
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = replDir
	cmd.Env = []string{"HOME=" + replDir, "TERM=dumb", "PATH=/usr/bin:/bin", "GOMEMLIMIT=1GiB"}
	cmd.Env = append(cmd.Env, fw.SomeEnv(input)...)
	cmd.Stdin = strings.NewReader(input)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	err := cmd.Run()
	if ctx.Err() != nil {
		return out.String(), fmt.Errorf("the session did not end within 150 s; output so far %q", lastPart(out.String(), 500))
	}
	if err != nil {
		return out.String(), fmt.Errorf("the session ended with %v: %s", err, lastPart(errb.String(), 1500))
	}
	return out.String(), nil
}

// replOut reads the output of a session answer by answer.
type replOut struct{ s string }

// line takes one line.
func (o *replOut) line() (string, bool) {
	i := strings.IndexByte(o.s, '\n')
	if i < 0 {
		return o.s, false
	}
	l := o.s[:i]
	o.s = o.s[i+1:]
	return l, true
}

// answer takes one answer: an error (possibly of several lines) or a line.
func (o *replOut) answer() (text string, isErr, ok bool) {
	o.s = strings.TrimPrefix(o.s, promptStr)
	if strings.HasPrefix(o.s, errStart) {
		i := strings.Index(o.s, escReset+"\n")
		if i < 0 {
			return o.s, true, false
		}
		t := o.s[len(errStart):i]
		o.s = o.s[i+len(escReset)+1:]
		return t, true, true
	}
	l, ok := o.line()
	return l, false, ok
}

// welcome skips the welcome message.
func (o *replOut) welcome() error {
	i := strings.Index(o.s, "\n\n* ")
	if !strings.HasPrefix(o.s, "\x1b[1mGoBCDice REPL\x1b[0m\n") || i < 0 {
		return errf("no welcome message: %q", lastPart(o.s, 300))
	}
	j := strings.Index(o.s[i+2:], "\n\n")
	if j < 0 {
		return errf("unfinished welcome message: %q", lastPart(o.s, 300))
	}
	o.s = o.s[i+2+j+2:]
	return nil
}

// replable: the text can be typed as one line that is not a REPL command.
func replable(s string) bool {
	if s == "" || len(s) > 300 || strings.HasPrefix(s, ".") || strings.TrimSpace(s) != s || !validUTF8(s) {
		return false
	}
	for _, r := range s {
		if r < ' ' || r == 0x7f {
			return false
		}
	}
	return true
}
