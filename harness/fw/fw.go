package fw

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Meta is filled in by a property's Run with what the case exercised.
type Meta struct {
	NonTrivial bool
	Classes    []string
	// Known names the listed known finding this case hit, if any.
	Known string
	// Fresh is true when the case runs alone in its process (a replay).
	Fresh bool
}

// Class records that the case belongs to a class (for the distribution report).
func (m *Meta) Class(cond bool, name string) {
	if cond {
		m.Classes = append(m.Classes, name)
	}
}

// Prop is one property: a generator of cases, and the deciding check of a case.
type Prop struct {
	ID          string
	Rule        string
	Assumptions []string
	// Quick and Thorough are the total numbers of generated cases.
	Quick, Thorough int
	// Workers is the number of worker processes (default 8).
	Workers int
	// NoMemLimit turns off the address-space limit of the workers (race builds).
	NoMemLimit bool
	// NoShrink: a failing case is not shrunk (it cannot be rerun cheaply).
	NoShrink bool

	gen   func(t *rapid.T) any
	run   func(c any, m *Meta) error
	dec   func(b []byte) (any, error)
	fixed []any
	sweep func(deep bool, yield func(c any) bool)
	small string
}

// Props is the registry.
var Props = map[string]*Prop{}

// Register adds a property with typed cases.
func Register[C any](p Prop, gen func(t *rapid.T) *C, run func(c *C, m *Meta) error, fixed ...*C) {
	p.gen = func(t *rapid.T) any { return gen(t) }
	p.run = func(c any, m *Meta) error { return run(c.(*C), m) }
	p.dec = func(b []byte) (any, error) {
		c := new(C)
		err := json.Unmarshal(b, c)
		return c, err
	}
	for _, f := range fixed {
		p.fixed = append(p.fixed, f)
	}
	if p.Workers == 0 {
		p.Workers = 8
	}
	Props[p.ID] = &p
}

// Sweep adds all cases of a small scope to a registered property: yield takes
// them one by one and returns false to stop. deep asks for the larger scope of
// the thorough tier.
func Sweep[C any](id, scope string, f func(deep bool, yield func(c *C) bool)) {
	p := Props[id]
	p.small = scope
	p.sweep = func(deep bool, yield func(c any) bool) { f(deep, func(c *C) bool { return yield(c) }) }
}

// CPULimit is the processor time after which a single case counts as hanging.
var CPULimit = 40 * time.Second

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// HarnessError is a defect of the check itself, not a violation.
type HarnessError string

func (e HarnessError) Error() string { return string(e) }

// safeRun runs one case; a panic is a failure of the case.
func (p *Prop) safeRun(c any, m *Meta) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok && strings.HasPrefix(s, "harness:") {
				err = HarnessError(s)
				return
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	return p.run(c, m)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Failure is a violating case.
type Failure struct {
	Case json.RawMessage `json:"case"`
	Err  string          `json:"error"`
}

// WorkerResult is what a worker reports.
type WorkerResult struct {
	Evaluations int            `json:"evaluations"`
	Fixed       int            `json:"fixed"`
	Swept       int            `json:"swept"`
	NonTrivial  int            `json:"nontrivial"`
	Classes     map[string]int `json:"classes"`
	Known       map[string]int `json:"known"`
	Samples     []any          `json:"samples"`
	Failure     *Failure       `json:"failure"`
	Harness     string         `json:"harness_error"`
	CutShort    bool           `json:"cut_short"`
	CPU         float64        `json:"cpu_s"`
}

type worker struct {
	p       *Prop
	res     WorkerResult
	journal *os.File
	hashes  []uint64
	seen    map[uint64]bool
	sampled map[string]int
	mu      sync.Mutex
	started time.Duration // cpu time at which the current case started
	active  bool
	last    *Failure
	failing bool
}

func (w *worker) exec(c any, count bool) error {
	b, jerr := json.Marshal(c)
	if jerr != nil {
		w.res.Harness = "marshal: " + jerr.Error()
		return nil
	}
	var hdr [8]byte
	binary.LittleEndian.PutUint64(hdr[:], uint64(len(b)))
	w.journal.WriteAt(append(hdr[:], b...), 0)

	w.mu.Lock()
	w.started, w.active = cpuTime(), true
	w.mu.Unlock()
	m := &Meta{}
	err := w.p.safeRun(c, m)
	w.mu.Lock()
	w.active = false
	w.mu.Unlock()

	if _, ok := err.(HarnessError); ok {
		w.res.Harness = err.Error() + " in the case " + string(b[:min(len(b), 2000)])
		return nil
	}
	if err != nil {
		w.last = &Failure{Case: b, Err: err.Error()}
		return err
	}
	if !count || w.failing {
		return nil
	}
	w.res.Evaluations++
	for _, cl := range m.Classes {
		w.res.Classes[cl]++
	}
	if m.Known != "" {
		w.res.Known[m.Known]++
	}
	if m.NonTrivial {
		w.res.NonTrivial++
		h := fnv.New64a()
		h.Write(b)
		s := h.Sum64()
		if !w.seen[s] {
			w.seen[s] = true
			w.hashes = append(w.hashes, s)
			// keep one sample per new class, few in all
			key := "other"
			for _, cl := range m.Classes {
				if w.sampled[cl] == 0 {
					key = cl
					break
				}
			}
			if w.sampled[key] == 0 && len(w.res.Samples) < 6 && len(b) < 1500 && w.res.Evaluations > 20 {
				w.sampled[key]++
				for _, cl := range m.Classes {
					w.sampled[cl]++
				}
				w.res.Samples = append(w.res.Samples, json.RawMessage(b))
			}
		}
	}
	return nil
}

// watchdog ends the process when a single case uses too much processor time.
func (w *worker) watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		w.mu.Lock()
		hang := w.active && cpuTime()-w.started > CPULimit
		w.mu.Unlock()
		if hang {
			fmt.Fprintf(os.Stderr, "HANG: a single case used more than %v of processor time\n", CPULimit)
			os.Exit(3)
		}
	}
}

func setLimits(p *Prop) {
	if !p.NoMemLimit {
		lim := uint64(4) << 30
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	debug.SetMemoryLimit(2 << 30)
	debug.SetGCPercent(400)
	debug.SetMaxStack(512 << 20)
}

type fakeTB struct {
	id     string
	mu     sync.Mutex
	failed bool
	msgs   []string
}

func (f *fakeTB) Helper()                         {}
func (f *fakeTB) Name() string                    { return f.id }
func (f *fakeTB) Logf(format string, args ...any) {}
func (f *fakeTB) Log(args ...any)                 {}
func (f *fakeTB) Skipf(format string, args ...any) {
	runtime.Goexit()
}
func (f *fakeTB) Skip(args ...any) { runtime.Goexit() }
func (f *fakeTB) SkipNow()         { runtime.Goexit() }
func (f *fakeTB) Errorf(format string, args ...any) {
	f.mu.Lock()
	f.msgs = append(f.msgs, fmt.Sprintf(format, args...))
	f.mu.Unlock()
	f.Fail()
}
func (f *fakeTB) Error(args ...any) { f.Errorf("%s", fmt.Sprint(args...)) }
func (f *fakeTB) Fatalf(format string, args ...any) {
	f.Errorf(format, args...)
	f.FailNow()
}
func (f *fakeTB) Fatal(args ...any) { f.Fatalf("%s", fmt.Sprint(args...)) }
func (f *fakeTB) FailNow()          { f.Fail(); runtime.Goexit() }
func (f *fakeTB) Fail()             { f.mu.Lock(); f.failed = true; f.mu.Unlock() }
func (f *fakeTB) Failed() bool      { f.mu.Lock(); defer f.mu.Unlock(); return f.failed }

var _ rapid.TB = (*fakeTB)(nil)

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// WorkerMain runs one shard of a property and writes its result to outFile.
func WorkerMain(p *Prop, seed uint64, index, checks int, budget time.Duration, deep bool, dir string) {
	setLimits(p)
	testing.Init()
	flag.CommandLine.Parse([]string{})
	h := fnv.New64a()
	h.Write([]byte(p.ID))
	s := mix(mix(seed)^h.Sum64()) ^ mix(uint64(index)+0x1234567)
	if s == 0 {
		s = 1
	}
	flag.Set("rapid.seed", fmt.Sprint(s))
	flag.Set("rapid.checks", fmt.Sprint(checks))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	flag.Set("test.timeout", "0")

	jf, err := os.Create(fmt.Sprintf("%s/journal.%d", dir, index))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w := &worker{p: p, journal: jf, seen: map[uint64]bool{}, sampled: map[string]int{}}
	w.res.Classes = map[string]int{}
	w.res.Known = map[string]int{}
	go w.watchdog()
	start := time.Now()
	if f := os.Getenv("VERIF_PROFILE"); f != "" && index == 0 {
		pf, _ := os.Create(f)
		pprof.StartCPUProfile(pf)
	}

	for i, c := range p.fixed {
		if i%p.Workers != index {
			continue
		}
		w.res.Fixed++
		if err := w.exec(c, true); err != nil {
			w.res.Failure = w.last
			break
		}
	}

	if p.sweep != nil && w.res.Failure == nil && w.res.Harness == "" {
		i := 0
		p.sweep(deep, func(c any) bool {
			i++
			if i%p.Workers != index {
				return true
			}
			if time.Since(start) > budget {
				w.res.CutShort = true
				return false
			}
			w.res.Swept++
			if err := w.exec(c, true); err != nil {
				w.res.Failure = w.last
				return false
			}
			return w.res.Harness == ""
		})
	}

	if w.res.Failure == nil && checks > 0 {
		tb := &fakeTB{id: p.ID}
		done := make(chan struct{})
		go func() {
			defer close(done)
			rapid.Check(tb, func(t *rapid.T) {
				if !w.failing && time.Since(start) > budget {
					w.res.CutShort = true
					return
				}
				c := p.gen(t)
				if err := w.exec(c, true); err != nil {
					if !w.failing {
						w.failing = true
						if p.NoShrink {
							w.res.Failure = w.last
							w.finish(dir, index)
						}
					}
					t.Fatalf("property violated")
				}
			})
		}()
		<-done
		if w.failing {
			w.res.Failure = w.last
		} else if tb.Failed() && w.res.Harness == "" {
			w.res.Harness = "rapid: " + strings.Join(tb.msgs, "; ")
		}
	}
	w.finish(dir, index)
}

func (w *worker) finish(dir string, index int) {
	w.res.CPU = cpuTime().Seconds()
	pprof.StopCPUProfile()
	hb := make([]byte, 8*len(w.hashes))
	for i, x := range w.hashes {
		binary.LittleEndian.PutUint64(hb[8*i:], x)
	}
	os.WriteFile(fmt.Sprintf("%s/hashes.%d", dir, index), hb, 0o644)
	b, err := json.Marshal(&w.res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := os.WriteFile(fmt.Sprintf("%s/result.%d", dir, index), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Exit(0)
}

// ReplayMain runs one saved case alone: exit 0 if it passes, 1 if it fails, 3 if it hangs.
func ReplayMain(p *Prop, raw []byte) {
	setLimits(p)
	c, err := p.dec(raw)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot decode the case:", err)
		os.Exit(4)
	}
	w := &worker{p: p}
	w.started, w.active = cpuTime(), true
	go w.watchdog()
	if err := p.safeRun(c, &Meta{Fresh: true}); err != nil {
		fmt.Println(err)
		if _, ok := err.(HarnessError); ok {
			os.Exit(4)
		}
		os.Exit(1)
	}
	fmt.Println("the case passes")
	os.Exit(0)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
