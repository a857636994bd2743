//go:build c29 || all

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verif/fw"
)

func init() {
	fw.Register(fw.Prop{
		ID: "C29", Quick: 2500, Thorough: 80000, Workers: 8, NoMemLimit: true, NoShrink: true,
		Rule: "a server process that answered at least two requests whose log records were counted, or one that could not listen or open its log and ended",
		Assumptions: []string{
			"the server is the built program, run with a scratch directory as its directory for temporary files and reached over loopback TCP",
			"the case without PORT is left out when another process has port 4000",
			"a record is a line that is a JSON object with method, uri and status; other lines on the standard output are not looked at",
		},
	}, genC29, runC29, fixedC29()...)
}

// ServerCase is the environment of a server process and the requests sent to it.
type ServerCase struct {
	// Env is the value of ECHO_ENV ("-": not set).
	Env string `json:"env"`
	// Port: given, low (below 1024), zeros (with leading zeros), none (PORT is not set), empty, taken, bad.
	Port string   `json:"port"`
	Reqs []APIReq `json:"reqs,omitempty"`
	// Par is the number of clients that send the requests.
	Par int `json:"par,omitempty"`
	// Repeat: the requests are sent so many times more.
	Repeat int `json:"repeat,omitempty"`
	// Old: the directory of the logs is there already, with a log.
	Old bool `json:"old,omitempty"`
	// Earlier: a production server ran before on the same directory: "stopped" just before,
	// "older" started in an earlier second, "running" it goes on and gets requests at the same time.
	Earlier string `json:"earlier,omitempty"`
	// Blocked: a file stands where the directory of the logs would be.
	Blocked bool `json:"blocked,omitempty"`
}

func genC29(t *rapid.T) *ServerCase {
	c := &ServerCase{Env: fw.OneOf(t, "-", "", "development", "production", "production", "production", "production", "test", "staging", "Production", "prod", "production-test", "production2", "productions", " production", "production ", "preproduction", "PRODUCTION", "produktion", "production\n", "non-production", "p"),
		Port: fw.OneOf(t, "given", "given", "given", "given", "given", "given", "given", "given", "taken", "none"), Par: fw.OneOf(t, 1, 1, 2, 8), Old: fw.Coin(t, 40)}
	if c.Port == "none" && fw.Coin(t, 50) {
		c.Port = "empty"
	}
	if c.Port == "given" && fw.Coin(t, 10) {
		c.Port = fw.OneOf(t, "low", "zeros")
	}
	if c.Port == "taken" && fw.Coin(t, 30) {
		c.Port = "bad"
	}
	if fw.Coin(t, 15) {
		c.Earlier = fw.OneOf(t, "stopped", "stopped", "older", "running", "running")
	}
	if !c.Old && c.Earlier == "" {
		c.Blocked = fw.Coin(t, 15)
	}
	for n := fw.IntIn(t, 1, fw.OneOf(t, 4, 12, 40)); n > 0; n-- {
		c.Reqs = append(c.Reqs, genReq(t))
	}
	return c
}

// syncBuffer is a buffer that can be read while it is written to.
type syncBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *syncBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *syncBuffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.String()
}

// records reads the log records of a text, as "method uri status".
func records(text string) ([]string, error) {
	var out []string
	for _, l := range strings.Split(text, "\n") {
		if !strings.HasPrefix(strings.TrimSpace(l), "{") {
			continue
		}
		var r struct {
			Method, URI string
			Status      int
		}
		if err := json.Unmarshal([]byte(l), &r); err != nil {
			return nil, errf("log line %q: %v", l, err)
		}
		out = append(out, r.Method+" "+r.URI+" "+itoa(r.Status))
	}
	sort.Strings(out)
	return out, nil
}

// server is a running server process.
type server struct {
	cmd      *exec.Cmd
	out, err syncBuffer
	done     chan struct{}
	addr     string
}

func (s *server) alive() bool {
	select {
	case <-s.done:
		return false
	default:
		return true
	}
}

func (s *server) stop() {
	s.cmd.Process.Kill()
	<-s.done
}

// serverKey selects the rest of the environment.
var serverKey string

// startServer starts the program and waits until it listens or ends.
func startServer(dir, env string, port *string, listen string) *server {
	bin := os.Getenv("VH_API")
	if bin == "" {
		panic("harness: VH_API is not set")
	}
	s := &server{done: make(chan struct{}), addr: listen, cmd: exec.Command(bin)}
	s.cmd.Dir = dir
	s.cmd.Env = []string{"HOME=" + dir, "TMPDIR=" + dir, "PATH=/usr/bin:/bin", "GOMAXPROCS=2"}
	s.cmd.Env = append(s.cmd.Env, fw.SomeEnv(serverKey)...)
	if env != "-" {
		s.cmd.Env = append(s.cmd.Env, "ECHO_ENV="+env)
	}
	if port != nil {
		s.cmd.Env = append(s.cmd.Env, "PORT="+*port)
	}
	s.cmd.Stdout, s.cmd.Stderr = &s.out, &s.err
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := s.cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	go func() { s.cmd.Wait(); close(s.done) }()
	for end := time.Now().Add(60 * time.Second); s.alive() && time.Now().Before(end) && listen != ""; time.Sleep(2 * time.Millisecond) {
		if listens(s.cmd.Process.Pid, listen) {
			break
		}
	}
	return s
}

// listens tells whether the process itself (and no other) listens on the port of the address.
func listens(pid int, addr string) bool {
	_, p, _ := net.SplitHostPort(addr)
	n, _ := strconv.Atoi(p)
	port := fmt.Sprintf(":%04X", n)
	dir := "/proc/" + itoa(pid)
	own := map[string]bool{}
	fds, _ := os.ReadDir(dir + "/fd")
	for _, f := range fds {
		if l, err := os.Readlink(dir + "/fd/" + f.Name()); err == nil && strings.HasPrefix(l, "socket:[") {
			own[strings.TrimSuffix(l[len("socket:["):], "]")] = true
		}
	}
	for _, f := range []string{"tcp", "tcp6"} {
		b, _ := os.ReadFile(dir + "/net/" + f)
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) > 9 && w[3] == "0A" && strings.HasSuffix(w[1], port) && own[w[9]] {
				return true
			}
		}
	}
	return false
}

// freePort gives a port that nobody listened to a moment ago.
func freePort() (net.Listener, string) {
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	_, p, _ := net.SplitHostPort(l.Addr().String())
	return l, p
}

// onlyOne keeps others from using port 4000 at the same time.
func onlyOne() func() {
	f, err := os.OpenFile(filepath.Join(os.TempDir(), "verif-port-4000.lock"), os.O_CREATE|os.O_RDWR, 0600)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX); err != nil {
		panic("harness: " + err.Error())
	}
	return func() { f.Close() }
}

// startAnywhere starts the program on a free port.
func startAnywhere(dir, env, name string) (*server, error) {
	return startOn(dir, env, name, "given")
}

// portOf gives a free port of a kind as it is written in PORT, and its number.
func portOf(kind string) (written, number string) {
	for try := 0; try < 100; try++ {
		want := ":0"
		switch kind {
		case "low":
			want = ":" + itoa(100+int(time.Now().UnixNano()/1000)%900)
		case "zeros": // digits that are octal, too
			want = ":0"
			n := int(time.Now().UnixNano() / 1000)
			want = ":" + itoa(1+n%5) + itoa(n/5%8) + itoa(n/40%8) + itoa(n/320%8) + itoa(n/2560%8)
		}
		l, err := net.Listen("tcp", want)
		if err != nil {
			continue
		}
		_, p, _ := net.SplitHostPort(l.Addr().String())
		l.Close()
		if kind == "zeros" {
			return "0" + p, p
		}
		return p, p
	}
	return "", ""
}

// startOn starts the program on a free port of a kind, if there is one.
func startOn(dir, env, name, kind string) (*server, error) {
	for try := 0; ; try++ {
		written, p := portOf(kind)
		if p == "" {
			return nil, nil
		}
		s := startServer(dir, env, &written, "127.0.0.1:"+p)
		if s.alive() {
			if !listens(s.cmd.Process.Pid, s.addr) {
				s.stop()
				return nil, errf("%s %s: the server does not listen there within a minute; output %q", name, written, s.out.String())
			}
			return s, nil
		}
		if try < 20 && strings.Contains(s.err.String(), "address already in use") {
			continue
		}
		return nil, errf("%s: the server ends: %s", name, lastPart(s.err.String(), 1000))
	}
}

// readDir reads the files of a directory.
func readDir(dir string) map[string]string {
	out := map[string]string{}
	l, _ := os.ReadDir(dir)
	for _, f := range l {
		t, _ := os.ReadFile(filepath.Join(dir, f.Name()))
		out[f.Name()] = string(t)
	}
	return out
}

func runC29(c *ServerCase, m *fw.Meta) error {
	k, _ := json.Marshal(c)
	serverKey = string(k)
	dir, err := os.MkdirTemp(os.Getenv("VH_TMP"), "server-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	logs := filepath.Join(dir, "GoBCDiceAPI")
	const oldText = "{\"method\":\"GET\",\"uri\":\"/old\",\"status\":200}\n"
	if c.Old {
		os.Mkdir(logs, 0700)
		os.WriteFile(filepath.Join(logs, "production-1.log"), []byte(oldText), 0600)
	}
	if c.Blocked {
		os.WriteFile(logs, []byte("x"), 0600)
	}
	var early *server
	var earlyWant []string
	earlyReq := func(n int) error {
		client := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: 60 * time.Second}
		for ; n > 0; n-- {
			rec, err := sendReq(client, early.addr, &APIReq{Method: "GET", Path: "/v1/version", Query: "earlier=" + itoa(len(earlyWant))}, "an earlier server")
			if err != nil {
				return err
			}
			earlyWant = append(earlyWant, rec)
		}
		return nil
	}
	before := map[string]string{}
	if c.Earlier != "" {
		var err error
		if early, err = startAnywhere(dir, "production", "an earlier server"); err != nil {
			return err
		}
		defer early.stop()
		if err := earlyReq(3); err != nil {
			return err
		}
		for end := time.Now().Add(10 * time.Second); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
			before = readDir(logs)
			n := 0
			for _, t := range before {
				n += strings.Count(t, "earlier=")
			}
			if n >= 3 {
				break
			}
		}
		if c.Earlier != "running" {
			early.stop()
		}
		if c.Earlier == "older" {
			time.Sleep(time.Until(time.Now().Truncate(time.Second).Add(1010 * time.Millisecond)))
		}
	}
	name := errf("ECHO_ENV %q, PORT %s", c.Env, c.Port).Error()
	var s *server
	if c.Blocked && c.Env == "production" {
		l, port := freePort()
		l.Close()
		s = startServer(dir, c.Env, &port, "")
		defer s.stop()
		select {
		case <-s.done:
		case <-time.After(60 * time.Second):
			return errf("%s: the server can not open its log file but goes on running; output %q", name, s.out.String())
		}
		if s.cmd.ProcessState.Success() {
			return errf("%s: the server can not open its log file but ends without an error; output %q", name, s.out.String())
		}
		m.NonTrivial = true
		m.Class(true, "can not open the log")
		return nil
	}
	switch c.Port {
	case "taken", "bad":
		port := "70000"
		if c.Port == "taken" {
			l, p := freePort()
			defer l.Close()
			port = p
		}
		s = startServer(dir, c.Env, &port, "")
		defer s.stop()
		select {
		case <-s.done:
		case <-time.After(60 * time.Second):
			return errf("%s %s: the server can not listen there but goes on running; output %q", name, port, s.out.String())
		}
		if s.cmd.ProcessState.Success() {
			return errf("%s %s: the server can not listen there but ends without an error; output %q", name, port, s.out.String())
		}
		m.NonTrivial = true
		m.Class(true, "can not listen: "+c.Port)
		return nil
	case "none", "empty":
		defer onlyOne()()
		l, err := net.Listen("tcp", ":4000")
		if err != nil {
			m.Class(true, "port 4000 is in use")
			return nil
		}
		l.Close()
		var p *string
		if c.Port == "empty" {
			p = new(string)
		}
		s = startServer(dir, c.Env, p, "127.0.0.1:4000")
		if !s.alive() {
			if strings.Contains(s.err.String(), "address already in use") {
				m.Class(true, "port 4000 is in use")
				return nil
			}
			return errf("%s: the server ends: %s", name, lastPart(s.err.String(), 1000))
		}
		if !listens(s.cmd.Process.Pid, s.addr) {
			return errf("%s: the server does not listen on port 4000 within a minute", name)
		}
	default:
		var err error
		if s, err = startOn(dir, c.Env, name, c.Port); err != nil {
			return err
		}
		if s == nil {
			m.Class(true, "no free port: "+c.Port)
			return nil
		}
	}
	defer s.stop()
	m.Class(true, "ECHO_ENV "+c.Env)
	m.Class(true, "PORT "+c.Port)
	m.Class(c.Par > 1, "several clients")

	// the requests
	par := max(c.Par, 1)
	var mu sync.Mutex
	var firstErr error
	var want []string
	var wg sync.WaitGroup
	for k := 0; k < par; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			tr := &http.Transport{DisableCompression: true, DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
				c, err := (&net.Dialer{}).DialContext(ctx, network, addr)
				if t, ok := c.(*net.TCPConn); ok {
					t.SetLinger(0) // leave no closed connections waiting
				}
				return c, err
			}}
			defer tr.CloseIdleConnections()
			client := &http.Client{Transport: tr, Timeout: 60 * time.Second}
			for i := k; i < len(c.Reqs)*(1+max(c.Repeat, 0)); i += par {
				rec, err := sendReq(client, s.addr, &c.Reqs[i%len(c.Reqs)], name)
				mu.Lock()
				if err != nil && firstErr == nil {
					firstErr = err
				}
				if rec != "" {
					want = append(want, rec)
				}
				mu.Unlock()
			}
		}()
	}
	if c.Earlier == "running" {
		if err := earlyReq(3); err != nil {
			wg.Wait()
			return err
		}
	}
	wg.Wait()
	if firstErr != nil {
		return firstErr
	}
	if !s.alive() {
		return errf("%s: the server ended: %s", name, lastPart(s.err.String(), 1000))
	}
	sort.Strings(want)

	// the log
	sort.Strings(earlyWant)
	production := c.Env == "production"
	var inFile, earlyFile, onOut []string
	var after map[string]string
	used, fresh := 0, 0 // files with records of this run, files that were not there before
	for end := time.Now().Add(10 * time.Second); ; time.Sleep(2 * time.Millisecond) {
		after = readDir(logs)
		inFile, earlyFile, used, fresh = nil, nil, 0, 0
		var e1, e2 error
		for f, t := range after {
			if c.Old && f == "production-1.log" {
				continue
			}
			if _, ok := before[f]; !ok {
				fresh++
			}
			l, e := records(t)
			if e != nil {
				e1 = e
			}
			mine := false
			for _, r := range l {
				if strings.Contains(r, "?earlier=") {
					earlyFile = append(earlyFile, r)
				} else {
					inFile = append(inFile, r)
					mine = true
				}
			}
			if mine {
				used++
			}
		}
		sort.Strings(inFile)
		sort.Strings(earlyFile)
		onOut, e2 = records(s.out.String())
		if e1 == nil && e2 == nil && len(inFile)+len(onOut) >= len(want) && len(earlyFile) >= len(earlyWant) {
			break
		}
		if time.Now().After(end) {
			if e1 != nil || e2 != nil {
				return errf("%s: %v %v", name, e1, e2)
			}
			break
		}
	}
	got, other, where := onOut, inFile, "on the standard output"
	if production {
		got, other, where = inFile, onOut, "in the log file"
		// only a server started in the same second may have the same file
		if fresh > 1 || fresh == 0 && (c.Earlier == "" || c.Earlier == "older") {
			return errf("%s (earlier server: %q): there are %d new log files", name, c.Earlier, fresh)
		}
		if used > 1 || len(want) > 0 && used == 0 {
			return errf("%s (earlier server: %q): the records are in %d log files", name, c.Earlier, used)
		}
	} else if fresh > 0 {
		return errf("%s: a log file is written", name)
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		if len(got)+len(want) > 400 {
			return errf("%s: there are %d records %s, want %d, or others", name, len(got), where, len(want))
		}
		return errf("%s: the records %s are %q, want %q", name, where, got, want)
	}
	if len(other) > 0 {
		return errf("%s: besides the records %s there are %q", name, where, other)
	}
	if strings.Join(earlyFile, "\n") != strings.Join(earlyWant, "\n") {
		return errf("%s: the records of the earlier server (%s) are %q, want %q", name, c.Earlier, earlyFile, earlyWant)
	}
	for f, t := range before {
		if !strings.HasPrefix(after[f], t) || c.Earlier == "older" && after[f] != t {
			return errf("%s: the log %s of an earlier server (%s) read %q and reads %q", name, f, c.Earlier, t, after[f])
		}
	}
	if c.Old && after["production-1.log"] != oldText {
		return errf("%s: an earlier log now reads %q", name, after["production-1.log"])
	}
	m.Class(c.Earlier != "", "earlier server: "+c.Earlier)
	m.Class(c.Earlier != "" && production && fresh == 0, "started in the same second")
	m.NonTrivial = len(want) >= 2
	m.Class(len(want) > 20, "more than 20 requests")
	return nil
}

// sendReq sends a request, checks the answer and gives the record it must leave.
func sendReq(client *http.Client, addr string, r *APIReq, name string) (string, error) {
	if r.Method == "CONNECT" || strings.HasPrefix(r.Path, "//") {
		return "", nil
	}
	url := r.Path
	if r.Query != "" {
		url += "?" + r.Query
	}
	req, err := http.NewRequest(r.Method, "http://"+addr+url, strings.NewReader(r.Body))
	if err != nil {
		return "", nil
	}
	r.setHeader(req, nil)
	res, err := client.Do(req)
	if err != nil {
		return "", errf("%s: %s %s: %v", name, r.Method, url, err)
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		return "", errf("%s: %s %s: %v", name, r.Method, url, err)
	}
	err = checkAnswer(errf("%s: %s %s", name, r.Method, url).Error(), documented(r.Method, r.Path), res.StatusCode, b, res.Header.Get("Content-Type"))
	return r.Method + " " + req.URL.RequestURI() + " " + itoa(res.StatusCode), err
}

func fixedC29() []*ServerCase {
	var out []*ServerCase
	reqs := []APIReq{{Method: "GET", Path: "/"}, {Method: "GET", Path: "/v1/version"}, {Method: "GET", Path: "/v1/systems", Query: "a=1"}, {Method: "GET", Path: "/v1/names"}, {Method: "POST", Path: "/v1/names", Body: "a=1", Form: true}, {Method: "GET", Path: "/nothing"}, {Method: "HEAD", Path: "/"}}
	for _, e := range []string{"-", "", "development", "production", "test"} {
		for _, p := range []string{"given", "low", "zeros", "none", "empty", "taken", "bad"} {
			out = append(out, &ServerCase{Env: e, Port: p, Reqs: reqs, Par: 1, Old: true}, &ServerCase{Env: e, Port: p, Reqs: append(append([]APIReq{}, reqs...), reqs...), Par: 8})
		}
	}
	for _, e := range []string{"-", "production", "test"} {
		out = append(out, &ServerCase{Env: e, Port: "given", Reqs: reqs, Par: 1, Blocked: true})
	}
	for _, e := range []string{"production", "test"} {
		out = append(out, &ServerCase{Env: e, Port: "given", Reqs: reqs, Par: 8, Repeat: 600}, &ServerCase{Env: e, Port: "given", Reqs: reqs[:1], Par: 1, Repeat: 3000})
	}
	for i := 0; i < 3; i++ {
		for _, e := range []string{"stopped", "older", "running"} {
			out = append(out, &ServerCase{Env: "production", Port: "given", Reqs: reqs, Par: 2, Earlier: e})
		}
		out = append(out, &ServerCase{Env: "test", Port: "given", Reqs: reqs, Par: 2, Earlier: "running"})
	}
	return out
}
