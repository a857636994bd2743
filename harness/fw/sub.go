package fw

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"time"
)

// subs are the jobs that can be done in a process of their own.
var subs = map[string]func(in []byte) error{}

// RegisterSub registers a job that Alone does in a process that has done nothing before.
func RegisterSub(name string, f func(in []byte) error) { subs[name] = f }

// SomeEnv gives an environment to run a process in, of the sort users have;
// the key selects which.
func SomeEnv(key string) []string {
	envs := [][]string{
		{},
		{"LANG=C", "LC_ALL=C", "TZ=UTC"},
		{"LANG=en_US.UTF-8", "LC_ALL=en_US.UTF-8", "LANGUAGE=en", "TZ=America/New_York", "COLUMNS=20", "LINES=5"},
		{"LANG=ja_JP.UTF-8", "TZ=Asia/Tokyo", "USER=bcdice", "COLUMNS=200"},
		{"LANG=ja_JP.SJIS", "LC_CTYPE=ja_JP.eucJP", "GOMAXPROCS=1", "DEBUG=1", "CI=true"},
		{"LANG=de_DE.UTF-8", "LC_NUMERIC=de_DE.UTF-8", "LC_MESSAGES=de_DE", "DEBUG=true", "VERBOSE=1", "GOMAXPROCS=3"},
	}
	h := fnv.New32a()
	io.WriteString(h, key)
	return envs[h.Sum32()>>3%uint32(len(envs))]
}

// Alone does a registered job in a fresh process. The error is the job's own, or describes how the process ended.
func Alone(name string, in any) error {
	b, err := json.Marshal(in)
	if err != nil {
		panic("harness: " + err.Error())
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "sub", name)
	cmd.Stdin = bytes.NewReader(b)
	cmd.Env = append(os.Environ(), SomeEnv(string(b))...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err = cmd.Run()
	if err == nil {
		return nil
	}
	s := errb.String()
	if len(s) > 6000 {
		s = s[:6000]
	}
	var ee *exec.ExitError
	if !errors.As(err, &ee) || ctx.Err() != nil || ee.ExitCode() == 4 || ee.ExitCode() == -1 {
		panic(fmt.Sprintf("harness: a process of its own gave no answer: %v %s", err, s))
	}
	if ee.ExitCode() == 3 {
		return errors.New(out.String())
	}
	return fmt.Errorf("the process ended with %v: %s", err, s)
}

// subMain is the other side of Alone.
func subMain(name string) {
	f := subs[name]
	in, err := io.ReadAll(os.Stdin)
	if f == nil || err != nil {
		fmt.Fprintln(os.Stderr, "no such job:", name, err)
		os.Exit(4)
	}
	if err := f(in); err != nil {
		fmt.Print(err)
		os.Exit(3)
	}
	os.Exit(0)
}
