// Package explore is a stateless, deviation-bounded, exhaustive explorer: an
// execution is a deterministic function of the choices made in it, every choice
// has one free default, every other option costs (usually) one deviation, and
// all executions whose total cost is within the bound are run, in order of cost.
// Executions run in worker processes; violations are re-run before they count.
package explore

import (
	"bufio"
	"bytes"
	"container/heap"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	rtpprof "runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
)

type Choice struct {
	N    int    `json:"n"`
	Pick int    `json:"p"`
	Cost []int  `json:"c,omitempty"` // nil: 0 for option 0, 1 otherwise
	Sig  uint32 `json:"s"`
}

func (c *Choice) cost(i int) int {
	if c.Cost != nil {
		return c.Cost[i]
	}
	if i == 0 {
		return 0
	}
	return 1
}

type Violation struct {
	Key string `json:"key"` // identifies the failing input, call site or history
	Msg string `json:"msg"`
}

// Run is one execution.
type Run struct {
	prefix   []int
	trace    []Choice
	left     int // remaining budget, for scenarios that want to know
	Viol     []Violation
	Evals    int64
	Steps    int64
	states   map[uint64]bool
	fresh    []uint64
	outs     map[string]bool
	Notes    []string
	LogFn    func() []string
	Tier     string
	Seed     int64
	diverged string
	Verbose  bool
}

func sig(label string, opts []string) uint32 {
	h := uint32(2166136261)
	add := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint32(s[i])) * 16777619
		}
		h = (h ^ 0xff) * 16777619
	}
	add(label)
	for _, o := range opts {
		add(o)
	}
	return h
}

// Choose picks one of opts; cost nil means option 0 is free and the rest cost 1.
func (r *Run) Choose(label string, opts []string, cost []int) int {
	r.Steps++
	if len(opts) == 1 && (cost == nil || cost[0] == 0) {
		return 0
	}
	i := len(r.trace)
	pick := 0
	if i < len(r.prefix) {
		pick = r.prefix[i]
		if pick >= len(opts) {
			r.diverged = fmt.Sprintf("choice %d (%s): option %d of %d", i, label, pick, len(opts))
			pick = 0
		}
	}
	c := Choice{len(opts), pick, cost, sig(label, opts)}
	r.trace = append(r.trace, c)
	if pick > 0 {
		r.Notes = append(r.Notes, label+": "+opts[pick])
	}
	return pick
}

// Pick is a free choice among n alternatives (input enumeration).
func (r *Run) Pick(label string, n int) int {
	o := make([]string, n)
	for i := range o {
		o[i] = strconv.Itoa(i)
	}
	return r.Choose(label, o, make([]int, n))
}

func (r *Run) Fail(key, f string, a ...any) {
	if len(r.Viol) < 20 {
		r.Viol = append(r.Viol, Violation{key, fmt.Sprintf(f, a...)})
	}
}

// State records a visited state digest.
func (r *Run) State(h uint64) {
	if !r.states[h] {
		r.states[h] = true
		r.fresh = append(r.fresh, h)
	}
}

// Outcome records a distinct observable outcome (for evidence only).
func (r *Run) Outcome(s string) { r.outs[s] = true }

type Scenario struct {
	Name   string
	Bound  int    // deviation bound, quick
	Deep   int    // deviation bound, thorough
	Only   string // "thorough": not in the quick tier
	Bubble bool
	Fresh  bool    // every execution in a new worker
	Weight float64 // unused executions are shared by cost order anyway
	Run    func(*Run)
}

type Check struct {
	ID          string
	Level       string
	Rule        string
	Bounds      string
	Assumptions []string
	Scenarios   []Scenario
	QuickSecs   int
	DeepSecs    int
}

// ------------------------------------------------------------------ worker

type job struct {
	Scen   int   `json:"s"`
	Prefix []int `json:"p"`
	Verb   bool  `json:"v,omitempty"`
}

type result struct {
	Trace   []Choice    `json:"t"`
	Viol    []Violation `json:"v,omitempty"`
	Evals   int64       `json:"e"`
	Steps   int64       `json:"st"`
	States  []uint64    `json:"h,omitempty"`
	Outs    []string    `json:"o,omitempty"`
	Div     string      `json:"d,omitempty"`
	Notes   []string    `json:"n,omitempty"`
	Log     []string    `json:"l,omitempty"`
	Recycle bool        `json:"r,omitempty"`
}

func execute(c *Check, j job, states map[uint64]bool, tier string, seed int64) (res result) {
	sc := &c.Scenarios[j.Scen]
	r := &Run{prefix: j.Prefix, states: states, outs: map[string]bool{}, Tier: tier, Seed: seed, Verbose: j.Verb}
	f := func() { sc.Run(r) }
	if sc.Bubble {
		res.Recycle = synctest.VerifRun(f)
	} else {
		f()
	}
	if r.diverged == "" && len(r.trace) < len(j.Prefix) {
		r.diverged = fmt.Sprintf("only %d of %d choices came up", len(r.trace), len(j.Prefix))
	}
	res.Trace, res.Viol, res.Evals, res.Steps, res.States, res.Div, res.Notes = r.trace, r.Viol, r.Evals, r.Steps, r.fresh, r.diverged, r.Notes
	if r.LogFn != nil && (len(r.Viol) > 0 || j.Verb) {
		res.Log = r.LogFn()
	}
	for o := range r.outs {
		res.Outs = append(res.Outs, o)
	}
	return res
}

func worker(c *Check, tier string, seed int64) {
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(2 << 30)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	// Nothing the code under test prints may reach the protocol.
	out := bufio.NewWriter(os.NewFile(3, "out"))
	states := map[uint64]bool{}
	leaks := 0
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j job
		if json.Unmarshal(line, &j) != nil {
			return
		}
		res := execute(c, j, states, tier, seed)
		if res.Recycle {
			leaks++
		}
		res.Recycle = leaks >= 1500
		b, _ := json.Marshal(res)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

// ------------------------------------------------------------------ parent

type item struct {
	job
	cost int
	seq  int
}
type queue []*item

func (q queue) Len() int { return len(q) }
func (q queue) Less(i, j int) bool {
	if q[i].cost != q[j].cost {
		return q[i].cost < q[j].cost
	}
	return q[i].seq < q[j].seq
}
func (q queue) Swap(i, j int) { q[i], q[j] = q[j], q[i] }
func (q *queue) Push(x any)   { *q = append(*q, x.(*item)) }
func (q *queue) Pop() any {
	o := *q
	x := o[len(o)-1]
	*q = o[:len(o)-1]
	return x
}

type proc struct {
	cmd  *exec.Cmd
	in   *bufio.Writer
	out  *bufio.Reader
	err  *tail
	dir  string
	jobs int
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	// Keep the head of a panic: itko prints little to stderr.
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func startWorker(id, tier string, seed int64, scratch string) (*proc, error) {
	p := &proc{err: &tail{}}
	p.dir, _ = os.MkdirTemp(scratch, "w")
	p.cmd = exec.Command(os.Args[0], "-worker", "-check", id, "-tier", tier, "-seed", strconv.FormatInt(seed, 10))
	p.cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "VERIF_SCRATCH="+p.dir, "GOTRACEBACK=all")
	in, err := p.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	p.cmd.ExtraFiles = []*os.File{pw}
	p.cmd.Stderr = p.err
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	p.in, p.out = bufio.NewWriter(in), bufio.NewReaderSize(pr, 1<<20)
	return p, nil
}

func (p *proc) stop() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
	os.RemoveAll(p.dir)
}

// do runs one job; died reports that the worker ended or hung.
func (p *proc) do(j job, limit time.Duration) (res result, died string) {
	b, _ := json.Marshal(j)
	p.in.Write(append(b, '\n'))
	if err := p.in.Flush(); err != nil {
		p.cmd.Wait()
		return res, "worker gone: " + err.Error()
	}
	hung := false
	t := time.AfterFunc(limit, func() { hung = true; p.cmd.Process.Kill() })
	line, err := p.out.ReadBytes('\n')
	t.Stop()
	if err != nil {
		p.cmd.Wait()
		if hung {
			return res, "hang"
		}
		p.err.mu.Lock()
		defer p.err.mu.Unlock()
		return res, "died: " + string(p.err.b)
	}
	if err := json.Unmarshal(line, &res); err != nil {
		return res, "garbled: " + err.Error()
	}
	return res, ""
}

type KnownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

type Report struct {
	execs, steps, evals, diverged, flaky, dead, reruns int64
	states                                             map[uint64]bool
	outs                                               map[string]bool
	done                                               map[string]int // scenario -> completed deviation bound
	byScen                                             map[string]int64
	samples                                            []any
	exhaust                                            bool
	perCost                                            map[int]int64
}

// panicked says whether a dead worker's stderr shows a crash of the code under test.
func panicked(msg string) string {
	i := strings.Index(msg, "panic: ")
	if j := strings.Index(msg, "fatal error: "); i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if i < 0 {
		return ""
	}
	m := msg[i:]
	// the goroutine that panicked is printed first
	g := m
	if k := strings.Index(m, "\n\ngoroutine"); k >= 0 {
		if k2 := strings.Index(m[k+2:], "\n\n"); k2 >= 0 {
			g = m[:k+2+k2]
		}
	}
	if !strings.Contains(g, "itko.dev/internal/") {
		return ""
	}
	line, _, _ := strings.Cut(m, "\n")
	for _, l := range strings.Split(g, "\n") {
		if strings.HasPrefix(l, "itko.dev/internal/") {
			f, _, _ := strings.Cut(l, "(0x")
			return line + " in " + f
		}
	}
	return line
}

// Main is the entry point of a checker binary.
func Main(checks []*Check) {
	args := map[string]string{}
	isWorker, replay := false, ""
	for i := 1; i < len(os.Args); i++ {
		switch a := os.Args[i]; a {
		case "-worker":
			isWorker = true
		case "-replay":
			i++
			replay = os.Args[i]
		default:
			if i+1 < len(os.Args) {
				args[strings.TrimPrefix(a, "-")] = os.Args[i+1]
				i++
			}
		}
	}
	tier := args["tier"]
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(args["seed"], 10, 64)
	var c *Check
	for _, x := range checks {
		if x.ID == args["check"] {
			c = x
		}
	}
	if c == nil {
		fmt.Fprintln(os.Stderr, "no such check:", args["check"])
		os.Exit(2)
	}
	if isWorker {
		if f := os.Getenv("VERIF_PROF"); f != "" {
			w, _ := os.Create(f + strconv.Itoa(os.Getpid()))
			rtpprof.StartCPUProfile(w)
			time.AfterFunc(15*time.Second, rtpprof.StopCPUProfile)
		}
		worker(c, tier, seed)
		return
	}
	verif := args["verif"]
	if replay != "" {
		os.Exit(doReplay(c, tier, seed, replay))
	}
	os.Exit(explore(c, tier, seed, verif, args))
}

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Scenario string   `json:"scenario"`
	Choices  []int    `json:"choices"`
	Notes    []string `json:"deviations"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Log      []string `json:"log"`
	How      string   `json:"how_to_replay"`
}

func doReplay(c *Check, tier string, seed int64, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f replayFile
	json.Unmarshal(b, &f)
	for i, s := range c.Scenarios {
		if s.Name == f.Scenario {
			p, err := startWorker(c.ID, tier, seed, os.TempDir())
			if err != nil {
				return 2
			}
			defer p.stop()
			res, died := p.do(job{i, f.Choices, true}, 5*time.Minute)
			for _, l := range res.Log {
				fmt.Println(l)
			}
			for _, n := range res.Notes {
				fmt.Println("deviation:", n)
			}
			fmt.Println("diverged:", res.Div)
			for _, v := range res.Viol {
				fmt.Printf("%s: %s\n", v.Key, v.Msg)
			}
			if died != "" {
				fmt.Println(died)
			}
			if len(res.Viol) > 0 || died != "" {
				return 1
			}
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no scenario", f.Scenario)
	return 2
}

func explore(c *Check, tier string, seed int64, verif string, args map[string]string) int {
	begin := time.Now()
	secs := c.QuickSecs
	if secs == 0 {
		secs = 30
	}
	if tier == "thorough" {
		secs = c.DeepSecs
		if secs == 0 {
			secs = 600
		}
	}
	if s := args["secs"]; s != "" {
		secs, _ = strconv.Atoi(s)
	}
	deadline := begin.Add(time.Duration(secs) * time.Second)
	nw := 8
	if s := args["workers"]; s != "" {
		nw, _ = strconv.Atoi(s)
	}
	scratch, err := os.MkdirTemp("", "mcrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)

	var known []KnownFinding
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			return 2
		}
	}
	isKnown := func(key string) *KnownFinding {
		for i := range known {
			k := &known[i]
			if k.Property == c.ID && k.Fixed == "" && k.Key == key {
				return k
			}
		}
		return nil
	}

	rep := &Report{states: map[uint64]bool{}, outs: map[string]bool{}, done: map[string]int{}, byScen: map[string]int64{}, perCost: map[int]int64{}}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	q := &queue{}
	seq, busy := 0, 0
	only := args["scenario"]
	bound := func(s int) int {
		if v := args["bound"]; v != "" {
			n, _ := strconv.Atoi(v)
			return n
		}
		if tier == "thorough" {
			return c.Scenarios[s].Deep
		}
		return c.Scenarios[s].Bound
	}
	for i, s := range c.Scenarios {
		if (s.Only == "thorough" && tier != "thorough") || (only != "" && s.Name != only) {
			continue
		}
		heap.Push(q, &item{job{Scen: i}, 0, seq})
		seq++
	}
	type found struct {
		it  item
		res result
		v   Violation
	}
	var hit *found
	secsOf := map[string]float64{}
	knownHit := map[string]bool{}
	var fatal string
	stopped := false
	outstanding := map[*item]bool{}

	var spoiled atomic.Int64
	confirm := func(it *item, key string) (bool, result) {
		for k := 0; k < 5; k++ {
			p, err := startWorker(c.ID, tier, seed, scratch)
			if err != nil {
				return false, result{}
			}
			res, died := p.do(it.job, 2*time.Minute)
			p.stop()
			if died != "" {
				if w := panicked(died); (w != "" && key == "panic: "+w) || (died == "hang" && key == "hang") {
					i := strings.Index(died, "panic: ")
					if i < 0 {
						i = 0
					}
					res.Log = strings.Split(died[i:], "\n")
					if len(res.Log) > 60 {
						res.Log = res.Log[:60]
					}
					return true, res
				}
				continue
			}
			for _, v := range res.Viol {
				if v.Key == key {
					return true, res
				}
			}
		}
		return false, result{}
	}

	var wg sync.WaitGroup
	for n := 0; n < nw; n++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.stop()
				}
			}()
			for {
				mu.Lock()
				for q.Len() == 0 && busy > 0 && !stopped {
					cond.Wait()
				}
				if q.Len() == 0 || stopped || hit != nil || fatal != "" || time.Now().After(deadline) {
					stopped = true
					cond.Broadcast()
					mu.Unlock()
					return
				}
				it := heap.Pop(q).(*item)
				busy++
				outstanding[it] = true
				mu.Unlock()

				t0 := time.Now()
				var res result
				var died string
				if (spoiled.Load() >= 3 || c.Scenarios[it.Scen].Fresh) && p != nil { // what the code keeps between logs disturbs
					p.stop()
					p = nil
				}
				rerun := false
				for try := 0; ; try++ {
					if p == nil {
						var err error
						if p, err = startWorker(c.ID, tier, seed, scratch); err != nil {
							died = err.Error()
							break
						}
					}
					res, died = p.do(it.job, 2*time.Minute)
					p.jobs++
					// What a job found in a worker that had others before must come up in a
					// new one too, or else what they left behind is to blame.
					if !rerun && p.jobs > 1 && (died != "" || res.Div != "" || len(res.Viol) > 0) {
						rerun = true
						p.stop()
						p = nil
						continue
					}
					if rerun && died == "" && res.Div == "" && len(res.Viol) == 0 {
						spoiled.Add(1)
					}
					if died == "" || try == 2 || panicked(died) != "" || died == "hang" {
						break
					}
					p.stop()
					p = nil
				}
				if died != "" && p != nil {
					p.stop()
					p = nil
				}
				if res.Recycle {
					p.stop()
					p = nil
				}
				mu.Lock()
				busy--
				delete(outstanding, it)
				rep.execs++
				rep.perCost[it.cost]++
				name := c.Scenarios[it.Scen].Name
				rep.byScen[name]++
				secsOf[name] += time.Since(t0).Seconds()
				if died != "" {
					key := "hang"
					if w := panicked(died); w != "" {
						key = "panic: " + w
					} else if died != "hang" {
						fatal = fmt.Sprintf("worker failed in %s %v: %s", name, it.Prefix, died)
						cond.Broadcast()
						mu.Unlock()
						return
					}
					res.Viol = append(res.Viol, Violation{key, "the process under test " + map[bool]string{true: "does not come to rest", false: "crashed: " + key}[died == "hang"]})
				}
				rep.steps += res.Steps
				rep.evals += res.Evals
				for _, h := range res.States {
					rep.states[h] = true
				}
				for _, o := range res.Outs {
					if len(rep.outs) < 200000 {
						rep.outs[o] = true
					}
				}
				if res.Div != "" {
					rep.diverged++
					if args["v"] != "" {
						fmt.Fprintln(os.Stderr, "diverged:", name, it.Prefix, res.Div)
					}
				} else {
					// siblings of the choices this run made beyond its prefix
					cost := 0
					for i := range res.Trace {
						ch := &res.Trace[i]
						if i >= len(it.Prefix) {
							for a := 0; a < ch.N; a++ {
								if a == ch.Pick || cost+ch.cost(a) > bound(it.Scen) {
									continue
								}
								pre := make([]int, i+1)
								for k := 0; k < i; k++ {
									pre[k] = res.Trace[k].Pick
								}
								pre[i] = a
								heap.Push(q, &item{job{Scen: it.Scen, Prefix: pre}, cost + ch.cost(a), seq})
								seq++
							}
						}
						cost += ch.cost(ch.Pick)
					}
					if len(rep.samples) < 12 && (rep.execs < 4 || rep.execs%97 == 0) {
						rep.samples = append(rep.samples, map[string]any{"scenario": name, "choices": len(res.Trace), "deviations": res.Notes})
					}
				}
				var todo []Violation
				seen := map[string]bool{}
				for _, v := range res.Viol {
					if seen[v.Key] {
						continue
					}
					seen[v.Key] = true
					if k := isKnown(v.Key); k != nil {
						knownHit[v.Key] = true
						continue
					}
					todo = append(todo, v)
				}
				cond.Broadcast()
				mu.Unlock()
				for _, v := range todo {
					ok, r2 := confirm(it, v.Key)
					mu.Lock()
					if !ok {
						rep.flaky++
						if args["v"] != "" {
							fmt.Fprintln(os.Stderr, "not reproduced:", name, it.Prefix, v)
						}
					} else if hit == nil {
						hit = &found{*it, r2, v}
					}
					cond.Broadcast()
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	rep.exhaust = q.Len() == 0 && hit == nil && fatal == ""
	minCost := map[int]int{}
	for _, it := range *q {
		if m, ok := minCost[it.Scen]; !ok || it.cost < m {
			minCost[it.Scen] = it.cost
		}
	}
	for i, s := range c.Scenarios {
		if rep.byScen[s.Name] == 0 {
			continue
		}
		if m, ok := minCost[i]; ok {
			rep.done[s.Name] = m - 1
		} else {
			rep.done[s.Name] = bound(i)
		}
	}
	if fatal != "" {
		fmt.Fprintln(os.Stderr, fatal)
		return 2
	}
	if args["v"] != "" {
		fmt.Fprintf(os.Stderr, "worker seconds: %v\n", secsOf)
	}
	rep.reruns = spoiled.Load()
	writeEvidence(c, rep, tier, seed, verif, time.Since(begin).Seconds(), hit != nil)
	var ks []string
	for k := range knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, isKnown(k).What)
	}
	fmt.Printf("%s %s: %d executions, %d choice points, %d states, %d cases, %d outcomes, exhaustive=%v, bounds completed %v, diverged %d, unreproduced %d, %.1fs\n",
		c.ID, tier, rep.execs, rep.steps, len(rep.states), rep.evals, len(rep.outs), rep.exhaust, rep.done, rep.diverged, rep.flaky, time.Since(begin).Seconds())
	if hit != nil {
		dir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, c.ID+".json")
		f := replayFile{c.ID, tier, c.Scenarios[hit.it.Scen].Name, hit.it.Prefix, hit.res.Notes, hit.v.Key, hit.v.Msg, hit.res.Log,
			"./check.sh " + c.ID + " replay " + path}
		var b bytes.Buffer
		e := json.NewEncoder(&b)
		e.SetEscapeHTML(false)
		e.SetIndent("", " ")
		e.Encode(f)
		os.WriteFile(path, b.Bytes(), 0o644)
		fmt.Printf("scenario %s, deviations %v\n%s: %s\n", f.Scenario, f.Notes, hit.v.Key, hit.v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		return 1
	}
	return 0
}

func writeEvidence(c *Check, rep *Report, tier string, seed int64, verif string, wall float64, bad bool) {
	cov := map[string]any{
		"executions":                    rep.execs,
		"rule":                          c.Rule,
		"bounds":                        c.Bounds,
		"samples":                       rep.samples,
		"exhaustive":                    rep.exhaust,
		"deviation_bound_completed":     rep.done,
		"executions_by_scenario":        rep.byScen,
		"executions_by_deviation_count": rep.perCost,
		"replay_divergences":            rep.diverged,
		"unreproduced":                  rep.flaky,
		"reruns_in_a_new_worker":        rep.reruns,
		"distinct_outcomes":             len(rep.outs),
	}
	switch c.Level {
	case "model_checking":
		cov["states"] = len(rep.states)
		cov["transitions"] = rep.steps
		cov["traces_validated_against_impl"] = rep.execs
		cov["cases"] = rep.evals
	default:
		cov["evaluations"] = rep.evals
		cov["distinct_nontrivial"] = len(rep.outs)
	}
	viol := 0
	if bad {
		viol = 1
	}
	ev := map[string]any{"property": c.ID, "tier": tier, "seed": seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": wall, "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(b, '\n'), 0o644)
}
