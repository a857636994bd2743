package fw

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// Replay is the file a violation points to.
type Replay struct {
	Property string          `json:"property"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Seed     uint64          `json:"seed"`
	Tier     string          `json:"tier"`
	Note     string          `json:"note,omitempty"`
}

// Finding is one line of known-findings.txt.
type Finding struct {
	Kind, Property, Text string
}

// ReadFindings reads the lines of known-findings.txt that belong to a property.
// Lines: "known: property=<id> <what fails>" and "fixed: property=<id> <commit> <what failed>".
func ReadFindings(root, id string) []Finding {
	f, err := os.Open(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []Finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		kind, rest, ok := strings.Cut(l, ": property=")
		if !ok || strings.HasPrefix(l, "#") {
			continue
		}
		p, text, _ := strings.Cut(rest, " ")
		if p == id {
			out = append(out, Finding{kind, p, text})
		}
	}
	return out
}

type procResult struct {
	index  int
	err    error
	stderr string
	killed bool
}

func startWorker(ctx context.Context, p *Prop, seed uint64, index, checks int, budget time.Duration, tier, dir string, ch chan<- procResult) {
	cmd := exec.CommandContext(ctx, os.Args[0], "worker", p.ID, fmt.Sprint(seed), fmt.Sprint(index), fmt.Sprint(checks), fmt.Sprint(int(budget.Seconds())), dir, tier)
	var errb bytes.Buffer
	cmd.Stderr = &errb
	cmd.Env = os.Environ()
	if !p.NoMemLimit {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
	}
	go func() {
		err := cmd.Run()
		s := errb.String()
		if len(s) > 20000 {
			s = s[:8000] + "\n...\n" + s[len(s)-8000:]
		}
		ch <- procResult{index, err, s, ctx.Err() != nil}
	}()
}

func readJournal(dir string, index int) json.RawMessage {
	b, err := os.ReadFile(fmt.Sprintf("%s/journal.%d", dir, index))
	if err != nil || len(b) < 8 {
		return nil
	}
	n := binary.LittleEndian.Uint64(b)
	if uint64(len(b)) < 8+n {
		return nil
	}
	return json.RawMessage(b[8 : 8+n])
}

// runReplay runs a case alone in a fresh process. It returns whether the case fails there and how.
func runReplay(p *Prop, c json.RawMessage, dir string) (bool, string, error) {
	f := filepath.Join(dir, "case.json")
	b, _ := json.Marshal(&Replay{Property: p.ID, Case: c})
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return false, "", err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "replay", f)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	s := out.String()
	if len(s) > 4000 {
		s = s[:2000] + "\n...\n" + s[len(s)-2000:]
	}
	if err == nil {
		return false, s, nil
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) && ee.ExitCode() == 4 {
		return false, s, errors.New("the replay could not run: " + s)
	}
	if ctx.Err() != nil {
		return false, s, errors.New("the replay timed out")
	}
	return true, s, nil
}

func distinctCount(dir string, n int) int {
	seen := map[uint64]struct{}{}
	for i := 0; i < n; i++ {
		b, _ := os.ReadFile(fmt.Sprintf("%s/hashes.%d", dir, i))
		for j := 0; j+8 <= len(b); j += 8 {
			seen[binary.LittleEndian.Uint64(b[j:])] = struct{}{}
		}
	}
	return len(seen)
}

// CheckMain runs a whole check and returns its exit code.
func CheckMain(p *Prop, root, tier string, seed uint64) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "vh-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)

	total, budget := p.Quick, 300*time.Second
	if tier == "thorough" {
		total, budget = p.Thorough, 780*time.Second
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil && n > 0 {
		budget = time.Duration(n) * time.Second
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			total = int(float64(total) * f)
		}
	}
	per := (total + p.Workers - 1) / p.Workers

	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan procResult, p.Workers*3)
	running, next := 0, 0
	maxPar := runtime.NumCPU()
	if maxPar > p.Workers {
		maxPar = p.Workers
	}
	for running < maxPar {
		startWorker(ctx, p, seed, next, per, budget, tier, dir, ch)
		next++
		running++
	}
	var fail *Failure
	note := ""
	retried := map[int]bool{}
	var harnessErr string
	results := map[int]*WorkerResult{}
	for running > 0 {
		r := <-ch
		running--
		if r.killed {
			continue
		}
		if r.err != nil {
			c := readJournal(dir, r.index)
			fmt.Fprintf(os.Stderr, "worker %d ended: %v\n%s\n", r.index, r.err, lastLines(r.stderr, 15))
			if c != nil && fail == nil && harnessErr == "" && isRace(r.stderr) {
				fail = &Failure{Case: c, Err: "unordered accesses of two goroutines:\n" + firstLines(r.stderr, 60)}
				note = "not shrunk: reported by the race detector; the replay runs the case 60 times"
				cancel()
				continue
			}
			if c != nil && fail == nil && harnessErr == "" {
				bad, out, rerr := runReplay(p, c, dir)
				if rerr != nil {
					harnessErr = rerr.Error()
				} else if bad {
					fail = &Failure{Case: c, Err: "the process died or hung on this case: " + r.err.Error() + "\n" + lastLines(r.stderr, 12) + "\nreplayed alone: " + lastLines(out, 12)}
					note = "not shrunk: the process running it died"
					cancel()
					continue
				}
			}
			if fail == nil && !retried[r.index] && harnessErr == "" {
				retried[r.index] = true
				startWorker(ctx, p, seed, r.index, per, budget, tier, dir, ch)
				running++
				continue
			}
			if fail == nil && harnessErr == "" {
				harnessErr = fmt.Sprintf("worker %d died twice without a reproducible case", r.index)
			}
			continue
		}
		b, rerr := os.ReadFile(fmt.Sprintf("%s/result.%d", dir, r.index))
		res := &WorkerResult{}
		if rerr == nil {
			rerr = json.Unmarshal(b, res)
		}
		if rerr != nil {
			harnessErr = rerr.Error()
			continue
		}
		results[r.index] = res
		if res.Failure != nil && fail == nil {
			fail = res.Failure
			cancel()
			continue
		}
		if res.Harness != "" {
			harnessErr = res.Harness
		}
		if next < p.Workers && fail == nil {
			startWorker(ctx, p, seed, next, per, budget, tier, dir, ch)
			next++
			running++
		}
	}

	// merge
	sum := WorkerResult{Classes: map[string]int{}, Known: map[string]int{}}
	for i := 0; i < p.Workers; i++ {
		r := results[i]
		if r == nil {
			continue
		}
		sum.Evaluations += r.Evaluations
		sum.Fixed += r.Fixed
		sum.Swept += r.Swept
		sum.NonTrivial += r.NonTrivial
		sum.CPU += r.CPU
		sum.CutShort = sum.CutShort || r.CutShort
		for k, v := range r.Classes {
			sum.Classes[k] += v
		}
		for k, v := range r.Known {
			sum.Known[k] += v
		}
		for _, s := range r.Samples {
			if len(sum.Samples) < 12 {
				sum.Samples = append(sum.Samples, s)
			}
		}
	}

	code := 0
	violations := 0
	if fail != nil {
		violations = 1
		h := fnv.New32a()
		h.Write(fail.Case)
		rd := filepath.Join(root, "replays")
		os.MkdirAll(rd, 0o755)
		path := filepath.Join(rd, fmt.Sprintf("%s-%08x.json", p.ID, h.Sum32()))
		b, _ := json.MarshalIndent(&Replay{p.ID, fail.Err, fail.Case, seed, tier, note}, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		cs := string(fail.Case)
		if len(cs) > 1200 {
			cs = cs[:1200] + "..."
		}
		fmt.Printf("failing case: %s\n%s\n", cs, firstLines(fail.Err, 25))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		code = 1
	} else if harnessErr != "" {
		fmt.Fprintln(os.Stderr, "check error:", harnessErr)
		code = 2
	} else {
		for _, f := range ReadFindings(root, p.ID) {
			if f.Kind == "known" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.Text)
			}
		}
	}

	cov := map[string]any{
		"evaluations":         sum.Evaluations,
		"fixed_cases":         sum.Fixed,
		"distinct_nontrivial": distinctCount(dir, p.Workers),
		"rule":                p.Rule,
		"samples":             sum.Samples,
		"classes":             sum.Classes,
		"cpu_s":               sum.CPU,
		"workers":             p.Workers,
		"cut_short":           sum.CutShort,
	}
	if p.sweep != nil {
		cov["small_scope_cases"] = sum.Swept
		cov["small_scope"] = p.small
	}
	if len(sum.Known) > 0 {
		cov["known_finding_hits"] = sum.Known
	}
	if sum.Samples == nil {
		cov["samples"] = []any{}
	}
	if len(sum.Samples) == 0 && fail != nil {
		cov["samples"] = []any{fail.Case}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": p.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		if code == 0 {
			code = 2
		}
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s\n", p.ID, tier, seed, sum.Evaluations, cov["distinct_nontrivial"], time.Since(start).Seconds())
	if os.Getenv("VERIF_CLASSES") != "" {
		for _, k := range sortedKeys(sum.Classes) {
			fmt.Printf("   %-40s %d\n", k, sum.Classes[k])
		}
	}
	return code
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimRight(s, "\n"), "\n")
	// a Go crash report starts with the reason
	for i, x := range l {
		if strings.HasPrefix(x, "fatal error:") || strings.HasPrefix(x, "panic:") || strings.HasPrefix(x, "WARNING: DATA RACE") || strings.HasPrefix(x, "HANG") {
			e := i + n
			if e > len(l) {
				e = len(l)
			}
			return strings.Join(l[i:e], "\n")
		}
	}
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// Main dispatches the sub-commands: check, worker, sub, replay.
func Main() {
	die := func(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...); os.Exit(4) }
	if len(os.Args) < 3 {
		die("usage: vh check|worker|replay ...")
	}
	switch os.Args[1] {
	case "check":
		// vh check ID ROOT
		p := Props[os.Args[2]]
		if p == nil {
			die("unknown property %s", os.Args[2])
		}
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 4 {
			tier = os.Args[4]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		seed := uint64(1)
		if s := os.Getenv("VERIF_SEED"); s != "" {
			if v, err := strconv.ParseInt(s, 10, 64); err == nil {
				seed = uint64(v)
			} else {
				for _, b := range []byte(s) {
					seed = seed*131 + uint64(b)
				}
				seed &= 1<<62 - 1
			}
		}
		os.Exit(CheckMain(p, os.Args[3], tier, seed))
	case "worker":
		p := Props[os.Args[2]]
		if p == nil || len(os.Args) < 9 {
			die("bad worker call")
		}
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		idx, _ := strconv.Atoi(os.Args[4])
		checks, _ := strconv.Atoi(os.Args[5])
		budget, _ := strconv.Atoi(os.Args[6])
		WorkerMain(p, seed, idx, checks, time.Duration(budget)*time.Second, os.Args[8] == "thorough", os.Args[7])
	case "sub":
		subMain(os.Args[2])
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			die("%v", err)
		}
		var r Replay
		if err := json.Unmarshal(b, &r); err != nil {
			die("%v", err)
		}
		p := Props[r.Property]
		if p == nil {
			die("this binary does not have property %q", r.Property)
		}
		ReplayMain(p, r.Case)
	default:
		die("unknown sub-command %s", os.Args[1])
	}
}

// isRace recognises the runtime's own reports of unordered accesses in the code under test.
func isRace(s string) bool {
	return strings.Contains(s, "raa0121/GoBCDice/") && (strings.Contains(s, "WARNING: DATA RACE") || strings.Contains(s, "fatal error: concurrent map"))
}
