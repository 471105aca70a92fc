// Package run is the frame of all checks: a supervisor that hands numbered cases to worker processes, watches
// them, and turns what the monitors in the cases report into a verdict, replay files and an evidence file.
package run

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Case is one generated case; a case is fully determined by (seed, property, index, tier).
type Case struct {
	R        *rand.Rand
	I        int
	Seed     int64
	Thorough bool
	ID       string

	res result
	tmp string
}

type result struct {
	I          int
	Viol       string         `json:",omitempty"`
	Known      string         `json:",omitempty"`
	Nontrivial bool           `json:",omitempty"`
	Key        string         `json:",omitempty"`
	Events     map[string]int `json:",omitempty"`
	Sample     string         `json:",omitempty"`
	Skip       string         `json:",omitempty"`
	Broken     string         `json:",omitempty"` // the harness failed, not the code
}

type violation struct{ msg string }

// Fail reports a violation observed by a monitor and ends the case.
func (c *Case) Fail(format string, a ...any) {
	c.res.Viol = fmt.Sprintf(format, a...)
	panic(violation{c.res.Viol})
}

// Check fails the case if ok is false.
func (c *Case) Check(ok bool, format string, a ...any) {
	if !ok {
		c.Fail(format, a...)
	}
}

// Event counts things that monitors observed.
func (c *Case) Event(name string, n int) {
	if c.res.Events == nil {
		c.res.Events = map[string]int{}
	}
	c.res.Events[name] += n
}

// Distinct marks the case as non-trivial and describes it; cases with equal descriptions count once.
func (c *Case) Distinct(format string, a ...any) {
	c.res.Nontrivial = true
	h := sha256.Sum256([]byte(fmt.Sprintf(format, a...)))
	c.res.Key = fmt.Sprintf("%x", h[:8])
}

func (c *Case) Sample(format string, a ...any) { c.res.Sample = fmt.Sprintf(format, a...) }

// Skip ends a case that turned out to be outside of the property's precondition.
func (c *Case) Skip(why string) {
	c.res.Skip = why
	panic(skip{})
}

type skip struct{}

// Known reports a defect that is expected: it is a finding if KNOWN_FINDINGS lists it and a violation otherwise.
func (c *Case) Known(name, format string, a ...any) {
	b, _ := os.ReadFile(filepath.Join(os.Getenv("VRUN_VERIF"), "KNOWN_FINDINGS"))
	for _, l := range strings.Split(string(b), "\n") {
		if p := "known: property=" + c.ID + " "; strings.HasPrefix(l, p+name+":") {
			c.res.Known = l[len(p):]
			return
		}
	}
	c.Fail(format, a...)
}

// Tmp is a scratch directory of the case; it is removed afterwards.
func (c *Case) Tmp() string {
	if c.tmp == "" {
		d, err := os.MkdirTemp(os.Getenv("VRUN_TMP"), "case")
		if err != nil {
			panic(err)
		}
		c.tmp = d
	}
	return c.tmp
}

// Pick returns one of the values.
func Pick[T any](r *rand.Rand, v ...T) T { return v[r.Intn(len(v))] }

type Property struct {
	ID    string
	Level string // evidence level
	Rule  string
	Quick int // number of cases
	Full  int
	Min   int // minimal number of distinct non-trivial cases of a quick run, otherwise the run is inconclusive
	// Must lists events that have to be observed at least once, otherwise the run is inconclusive.
	Must        []string
	Run         func(c *Case)
	Assumptions []string
	CPU         int  // CPU seconds a single case may use, default 40
	External    bool // case waits for other processes: no detection of idle waiting
	Workers     int
}

var Registry = map[string]*Property{}

func Register(p *Property) { Registry[p.ID] = p }

func newCase(p *Property, seed int64, i int, thorough bool) *Case {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", p.ID, seed, i)
	return &Case{R: rand.New(rand.NewSource(int64(h.Sum64() & (1<<63 - 1)))), I: i, Seed: seed, Thorough: thorough, ID: p.ID,
		res: result{I: i}}
}

func runCase(p *Property, c *Case) (res result) {
	defer func() {
		if c.tmp != "" {
			os.RemoveAll(c.tmp)
		}
		if e := recover(); e != nil {
			switch e.(type) {
			case violation, skip:
			default:
				if m, ok := e.(string); ok && strings.HasPrefix(m, "harness:") {
					c.res.Broken = m
					break
				}
				buf := make([]byte, 6000)
				buf = buf[:runtime.Stack(buf, false)]
				c.res.Viol = fmt.Sprintf("panic: %v\n%s", e, buf)
			}
		}
		res = c.res
	}()
	p.Run(c)
	return c.res
}

// Waiting counts running commands; a case that waits for a command is not blocked.
var Waiting atomic.Int32

const (
	exitIdle = 96
	exitMem  = 97
	exitCPU  = 98
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Worker runs cases whose numbers come on stdin and writes results to fd 3.
func Worker(p *Property, seed int64, thorough bool) {
	out := os.NewFile(3, "results")
	enc := json.NewEncoder(out)
	var busy atomic.Int64 // 0 - idle, otherwise number of the running case + 1
	go func() {           // watchdog, decides on CPU time, memory and on the absence of any progress
		var cur int64
		var start, last time.Duration
		idle := 0
		for {
			time.Sleep(250 * time.Millisecond)
			b := busy.Load()
			now := cpuTime()
			if b == 0 || b != cur {
				cur, start, last, idle = b, now, now, 0
				continue
			}
			limit := p.CPU
			if limit == 0 {
				limit = 40
			}
			if now-start > time.Duration(limit)*time.Second {
				fmt.Fprintf(os.Stderr, "\nVRUN-CPU case %d used %v of CPU and did not finish\n%s\n", b-1, now-start, stacks())
				os.Exit(exitCPU)
			}
			s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
			metrics.Read(s)
			if s[0].Value.Uint64() > 3<<30 {
				fmt.Fprintf(os.Stderr, "\nVRUN-MEM case %d holds %d MB\n%s\n", b-1, s[0].Value.Uint64()>>20, stacks())
				os.Exit(exitMem)
			}
			if now-last < 60*time.Millisecond {
				idle++
			} else {
				idle, last = 0, now
			}
			if Waiting.Load() > 0 {
				idle = 0
			}
			if !p.External && idle > 160 { // 40 s without any computation while a case is running
				fmt.Fprintf(os.Stderr, "\nVRUN-IDLE case %d is blocked\n%s\n", b-1, stacks())
				os.Exit(exitIdle)
			}
		}
	}()
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		i, err := strconv.Atoi(sc.Text())
		if err != nil {
			os.Exit(95)
		}
		busy.Store(int64(i) + 1)
		res := runCase(p, newCase(p, seed, i, thorough))
		busy.Store(0)
		if err := enc.Encode(&res); err != nil {
			os.Exit(95)
		}
	}
}

func stacks() string {
	b := make([]byte, 8000)
	return string(b[:runtime.Stack(b, true)])
}

// ring keeps the last bytes of a stream.
type ring struct {
	mu sync.Mutex
	b  []byte
}

func (r *ring) Write(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.b = append(r.b, p...)
	if len(r.b) > 1<<17 {
		r.b = append([]byte(nil), r.b[len(r.b)-1<<16:]...)
	}
	return len(p), nil
}
func (r *ring) tail(n int) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	b := r.b
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	res *bufio.Reader
	rf  *os.File
	err *ring
}

func start(p *Property, seed int64, tier string) (*proc, error) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "worker", p.ID, strconv.FormatInt(seed, 10), tier)
	cmd.Dir = os.Getenv("VRUN_TMP")
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{pw}
	rg := &ring{}
	cmd.Stderr = rg
	if os.Getenv("VRUN_DUMP") != "" {
		cmd.Stderr = io.MultiWriter(rg, os.Stderr)
	}
	cmd.Stdout = nil
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	return &proc{cmd, in, bufio.NewReaderSize(pr, 1<<20), pr, rg}, nil
}

func (q *proc) do(i int) (result, error) {
	var r result
	if _, err := fmt.Fprintf(q.in, "%d\n", i); err != nil {
		return r, err
	}
	line, err := q.res.ReadBytes('\n')
	if err != nil {
		return r, err
	}
	return r, json.Unmarshal(line, &r)
}

func (q *proc) close() error {
	q.in.Close()
	q.rf.Close()
	return q.cmd.Wait()
}

// interesting part of the output of a crashed worker
func crashText(s string) string {
	for _, m := range []string{"WARNING: DATA RACE", "VRUN-", "fatal error:", "panic:", "SIGSEGV"} {
		if k := strings.Index(s, m); k >= 0 {
			s = s[k:]
			if len(s) > 5000 {
				s = s[:5000]
			}
			return s
		}
	}
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

type Violation struct {
	Property string `json:"property"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Case     int    `json:"case"`
	Message  string `json:"message"`
	Replay   string `json:"replay_with"`
}

// Supervise runs all the cases of a property and returns the exit code.
func Supervise(p *Property, seed int64, tier, verif string, only int) int {
	t0 := time.Now()
	thorough := tier == "thorough"
	n := p.Quick
	if thorough {
		n = p.Full
	}
	if s := os.Getenv("VRUN_CASES"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	from := 0
	if only >= 0 {
		from, n = only, only+1
	}
	workers := p.Workers
	if workers == 0 {
		workers = 8
	}
	if workers > n-from {
		workers = n - from
	}

	var mu sync.Mutex
	next := from
	var viols []Violation
	known := map[string]int{}
	keys := map[string]bool{}
	events := map[string]int{}
	skips := map[string]int{}
	var samples []string
	evals, nontrivial := 0, 0
	var inconclusive []string

	take := func() int {
		mu.Lock()
		defer mu.Unlock()
		if next >= n || len(viols) >= 3 || len(inconclusive) > 0 {
			return -1
		}
		next++
		return next - 1
	}
	addViol := func(i int, msg string) {
		mu.Lock()
		defer mu.Unlock()
		viols = append(viols, Violation{p.ID, seed, tier, i, msg, ""})
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var q *proc
			retried := -1
			redo := -1
			for {
				i := redo
				redo = -1
				if i < 0 {
					i = take()
				}
				if i < 0 {
					break
				}
				if q == nil {
					var err error
					if q, err = start(p, seed, tier); err != nil {
						mu.Lock()
						inconclusive = append(inconclusive, "cannot start a worker: "+err.Error())
						mu.Unlock()
						return
					}
				}
				r, err := q.do(i)
				if err != nil { // worker died
					werr := q.close()
					text := crashText(q.err.tail(1 << 16))
					q = nil
					if ee, ok := werr.(*exec.ExitError); ok {
						if st, ok := ee.Sys().(syscall.WaitStatus); ok && st.Signaled() && st.Signal() == syscall.SIGKILL {
							// killed from outside (memory), it says nothing about the code
							if retried != i {
								retried, redo = i, i
								continue
							}
							mu.Lock()
							inconclusive = append(inconclusive, fmt.Sprintf("case %d: worker was killed twice", i))
							mu.Unlock()
							return
						}
					}
					addViol(i, fmt.Sprintf("process ended during the case (%v): %s", werr, text))
					mu.Lock()
					evals++
					mu.Unlock()
					continue
				}
				mu.Lock()
				evals++
				for k, v := range r.Events {
					events[k] += v
				}
				if r.Skip != "" {
					skips[r.Skip]++
				}
				if r.Nontrivial && !keys[r.Key] {
					keys[r.Key] = true
					nontrivial++
				}
				if r.Known != "" {
					known[r.Known]++
				}
				if r.Sample != "" && len(samples) < 8 {
					samples = append(samples, fmt.Sprintf("case %d: %s", i, r.Sample))
				}
				mu.Unlock()
				if r.Broken != "" {
					mu.Lock()
					inconclusive = append(inconclusive, fmt.Sprintf("case %d: %s", i, r.Broken))
					mu.Unlock()
				}
				if r.Viol != "" {
					addViol(i, r.Viol)
				}
			}
			if q != nil {
				q.close()
			}
		}()
	}
	wg.Wait()

	if only < 0 && len(viols) == 0 && os.Getenv("VRUN_CASES") == "" {
		if nontrivial < p.Min {
			inconclusive = append(inconclusive, fmt.Sprintf("only %d distinct non-trivial cases, at least %d expected", nontrivial, p.Min))
		}
		for _, e := range p.Must {
			if events[e] == 0 {
				inconclusive = append(inconclusive, "event was never observed: "+e)
			}
		}
	}

	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": nontrivial, "rule": p.Rule, "samples": samples,
			"observed_events": events, "skipped": skips, "inconclusive": inconclusive, "known_findings": known,
		},
		"assumptions": append([]string{"the case list is fixed by the seed; what other inputs do is not known"}, p.Assumptions...),
		"wall_s":      time.Since(t0).Seconds(), "violations": len(viols),
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(filepath.Join(dir, "replays"), 0755)
	if only < 0 {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Println("cannot write evidence:", err)
			return 2
		}
	}
	names := []string{}
	for k := range known {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, events %v, skipped %v, %.1f s\n", p.ID, tier, evals, nontrivial, events, skips, time.Since(t0).Seconds())
	if len(viols) > 0 {
		sort.Slice(viols, func(i, j int) bool { return viols[i].Case < viols[j].Case })
		for _, v := range viols {
			path := filepath.Join(dir, "replays", fmt.Sprintf("%s-%s-%d.json", p.ID, tier, v.Case))
			v.Replay = fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s --case %d", seed, tier, p.ID, v.Case)
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, append(b, '\n'), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			m := v.Message
			if len(m) > 1500 {
				m = m[:1500] + "..."
			}
			fmt.Printf("  case %d: %s\n", v.Case, m)
		}
		return 1
	}
	if len(inconclusive) > 0 {
		fmt.Println("INCONCLUSIVE:", strings.Join(inconclusive, "; "))
		return 2
	}
	return 0
}
