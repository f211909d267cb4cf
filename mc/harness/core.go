// The harness: scenarios over the real gev code (rewritten onto the controlled
// scheduler and the kernel model), the exploration driver and the evidence.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"gevmc/vrace"
	"gevmc/vs"
)

// Scen is one scenario: a closed program whose every execution within the
// bounds is explored (Body), or an exhaustive enumeration (Enum).
type Scen struct {
	Props    string // properties it can decide, space separated
	Name     string
	Pre, Dev int // quick bounds: preemptions, environment deviations (thorough deepens)
	Steps    int
	Thorough bool // only in the thorough tier
	Max      int  // cap on executions in the quick tier (0: none)
	Body     func()
	Enum     func(e *Enum)
	Race     bool // also run in the -race build for C30
	NoCache  bool
}

var scens []*Scen
var curProp string
var curTier string

func add(s *Scen) { scens = append(scens, s) }

func (s *Scen) has(p string) bool {
	for _, x := range strings.Fields(s.Props) {
		if x == p {
			return true
		}
	}
	return false
}

// chk reports a violation if cond is false and the property being decided is
// among those of p.
func chk(p string, cond bool, format string, a ...interface{}) {
	if !cond && (strings.Contains(p, curProp) || curProp == "C31" && lostWork(p)) {
		vs.Fail(format, a...)
	}
}

// lostWork tells whether one of the properties of p is among those that
// transient errors must not break.
func lostWork(p string) bool {
	for _, x := range strings.Fields(p) {
		switch x {
		case "C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C12", "C15", "C16", "C18", "C19", "C24", "C29", "C32":
			return true
		}
	}
	return false
}

// is tells whether p is being decided.
func is(ps ...string) bool {
	for _, p := range ps {
		if curProp == p || curProp == "C31" && lostWork(p) {
			return true
		}
	}
	return false
}

// Enum is the context of an exhaustive enumeration without scheduling.
type Enum struct {
	States, Trans int
	Fail          string
	Case          string
	Samples       []string
	Only          string // replay: run only this case
	deadline      time.Time
	Incomplete    bool
	seen          map[uint64]bool
	lazy          func() string
	Known         []string
}

// Begin starts a case; false if it is to be skipped.
func (e *Enum) Begin(format string, a ...interface{}) bool {
	if e.Fail != "" || e.Incomplete {
		return false
	}
	if e.Only == "" && len(e.Samples) >= 3 {
		// formatting is only needed for replay and samples
		e.Case = ""
		e.lazy = func() string { return fmt.Sprintf(format, a...) }
	} else {
		e.Case = fmt.Sprintf(format, a...)
		if e.Only != "" && e.Case != e.Only {
			return false
		}
		e.lazy = nil
		e.Samples = append(e.Samples, e.Case)
	}
	e.Trans++
	vs.Progress++
	if e.Trans&1023 == 0 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
		e.Incomplete = true
		return false
	}
	return true
}

// State notes a distinct observable state.
func (e *Enum) State(h uint64) {
	if e.seen == nil {
		e.seen = map[uint64]bool{}
	}
	if len(e.seen) < 1<<20 {
		e.seen[h] = true
	}
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Bad reports a violation in the current case.
func (e *Enum) Bad(format string, a ...interface{}) {
	if e.Fail == "" {
		if e.lazy != nil {
			e.Case = e.lazy()
		}
		e.Fail = fmt.Sprintf(format, a...)
	}
}

// Finding reports a failure that may be listed in the known findings (VERIF_KNOWN)
// under id for the property being decided; if it is not it is a violation.
func (e *Enum) Finding(id, format string, a ...interface{}) {
	b, _ := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l+" ", "finding: property="+curProp+" id="+id+" ") {
			txt := fmt.Sprintf(format, a...)
			if len(e.Known) == 0 || !strings.HasPrefix(e.Known[len(e.Known)-1], id+" ") {
				e.Known = append(e.Known, id+" "+txt)
			}
			return
		}
	}
	e.Bad(format, a...)
}

// ---------- results ----------

type Result struct {
	Scen     string
	States   int
	Trans    int
	Execs    int
	Pruned   int
	Outcomes int
	Diverged int
	Depth    int
	Complete bool
	Pre, Dev int    // largest bounds explored completely
	Whole    bool   // the bounds cut nothing off
	Fail     string `json:",omitempty"`
	Kind     string `json:",omitempty"`
	Choices  []int  `json:",omitempty"`
	Case     string `json:",omitempty"`
	Samples  []string
	Ms       int64
	Enum     bool
	Known    []string `json:",omitempty"`
}

type Replay struct {
	Property string
	Scenario string
	Tier     string
	Kind     string
	Message  string
	Choices  []int
	Case     string
	Race     bool
	Trace    []string
	HowTo    string
}

func config(s *Scen, pre, dev int) vs.Config {
	steps := s.Steps
	if steps == 0 {
		steps = 6000
	}
	return vs.Config{Preempt: pre, Dev: dev, MaxSteps: steps, TimeBase: timeBase, NoCache: s.NoCache}
}

const timeBase = int64(1700000000)*1e9 + 123456789

func runScen(s *Scen, deadline time.Time) *Result {
	t0 := time.Now()
	r := &Result{Scen: s.Name}
	if s.Enum != nil {
		e := &Enum{deadline: deadline}
		runEnum(s, e)
		r.Enum = true
		r.Trans, r.Execs, r.States = e.Trans, e.Trans, len(e.seen)
		r.Complete = !e.Incomplete
		r.Fail, r.Case, r.Known = e.Fail, e.Case, e.Known
		if r.Fail != "" {
			r.Kind = "oracle"
		}
		if len(e.Samples) > 2 {
			e.Samples = e.Samples[:2]
		}
		r.Samples = e.Samples
		r.Ms = time.Since(t0).Milliseconds()
		return r
	}
	pre, dev := s.Pre, s.Dev
	round := func(cap int) bool {
		st, f := vs.Explore(config(s, pre, dev), deadline, cap, s.Body)
		r.Execs += st.Execs
		r.Pruned += st.Pruned
		r.Trans += st.Steps
		r.Diverged += st.Diverged
		if st.Complete || r.States == 0 {
			r.States, r.Outcomes, r.Depth, r.Samples = st.States, st.Outcomes, st.MaxDepth, st.OutSample
		}
		if f != nil {
			r.Fail, r.Kind, r.Choices = f.Fail, f.FailKind, f.Choices
			r.Pre, r.Dev = pre, dev
			return false
		}
		if st.Complete {
			r.Complete, r.Pre, r.Dev, r.Whole = true, pre, dev, !st.CutPre && !st.CutDev
		} else {
			return false
		}
		if curTier != "thorough" || r.Whole {
			return false
		}
		// deepen: first the preemptions, in between the deviations
		if st.CutDev && (!st.CutPre || dev-s.Dev < pre-s.Pre) {
			dev++
		} else {
			pre++
		}
		return time.Now().Before(deadline)
	}
	for cap := s.Max; round(cap); cap = 0 {
	}
	r.Ms = time.Since(t0).Milliseconds()
	return r
}

func runEnum(s *Scen, e *Enum) {
	defer func() {
		if x := recover(); x != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			var l []string
			for _, v := range st {
				if strings.Contains(v, "gev/") || strings.Contains(v, "ringbuffer") {
					l = append(l, strings.TrimSpace(v))
				}
			}
			if len(l) > 8 {
				l = l[:8]
			}
			e.Bad("panic: %v | %s", x, strings.Join(l, " | "))
		}
	}()
	s.Enum(e)
}

// watchdog turns an execution that stops making progress (an endless loop
// without a scheduling point) or that eats the memory into a reported failure.
func watchdog(report func(kind, msg string)) {
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			p := vs.Progress
			if p != last || idle {
				last, since = p, time.Now()
			} else if time.Since(since) > 30*time.Second {
				report("hang", "no progress for 30 s: endless loop in the code under test")
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				report("hang", "memory grows without bound in one execution")
			}
		}
	}()
}

var idle = true

func worker() {
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(2)
	in := bufio.NewScanner(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	var cur *Scen
	var mu sync.Mutex
	watchdog(func(kind, msg string) {
		mu.Lock()
		_ = out.Encode(&Result{Scen: cur.Name, Fail: msg, Kind: kind, Choices: vs.CurrentChoices()})
		os.Exit(0)
	})
	for in.Scan() {
		f := strings.Fields(in.Text())
		i, _ := strconv.Atoi(f[0])
		ms, _ := strconv.ParseInt(f[1], 10, 64)
		cur = scens[i]
		idle = false
		r := runScen(cur, time.UnixMilli(ms))
		idle = true
		mu.Lock()
		_ = out.Encode(r)
		mu.Unlock()
	}
}

// replayOnce runs one recorded execution in this process.
func replayOnce(rp *Replay, trace bool) *vs.Result {
	for _, s := range scens {
		if s.Name != rp.Scenario {
			continue
		}
		if s.Enum != nil {
			e := &Enum{Only: rp.Case}
			idle = false
			runEnum(s, e)
			return &vs.Result{Fail: e.Fail, FailKind: "oracle"}
		}
		cfg := config(s, -1, 99)
		cfg.Trace = trace
		cfg.NoCache = true
		idle = false
		return vs.Run(cfg, rp.Choices, nil, s.Body)
	}
	fmt.Fprintln(os.Stderr, "no such scenario:", rp.Scenario)
	os.Exit(3)
	return nil
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *limited
}

func startWorker() *proc {
	c := exec.Command(os.Args[0], "-worker", "-prop", curProp, "-tier", curTier)
	c.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=0 history_size=5")
	in, _ := c.StdinPipe()
	o, _ := c.StdoutPipe()
	eb := &limited{b: new(strings.Builder)}
	c.Stderr = eb
	if err := c.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start worker:", err)
		os.Exit(3)
	}
	return &proc{c, in, bufio.NewReaderSize(o, 1<<20), eb}
}

type limited struct {
	mu sync.Mutex
	b  *strings.Builder
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 20000 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *limited) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

func (p *proc) do(i int, deadline time.Time) *Result {
	fmt.Fprintf(p.in, "%d %d\n", i, deadline.UnixMilli())
	l, err := p.out.ReadBytes('\n')
	if err != nil {
		p.in.Close()
		_ = p.cmd.Wait()
		return nil
	}
	r := new(Result)
	if json.Unmarshal(l, r) != nil {
		return nil
	}
	return r
}

func (p *proc) stop() {
	p.in.Close()
	_ = p.cmd.Process.Kill()
	_ = p.cmd.Wait()
}

func crashText(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "fatal") || strings.Contains(l, "Allenxuxu/gev") || strings.Contains(l, "DATA RACE") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 10 {
			break
		}
	}
	return strings.Join(out, " | ")
}

var raceRun, verbose bool
var also string

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	isWorker := flag.Bool("worker", false, "")
	replay := flag.String("replay", "", "replay file")
	list := flag.Bool("list", false, "list scenarios")
	only := flag.String("scen", "", "only this scenario (substring)")
	budget := flag.Int("budget", 45, "seconds of exploration")
	outDir := flag.String("out", "", "directory for replay files")
	evid := flag.String("evidence", "", "evidence fragment to write")
	nw := flag.Int("j", runtime.NumCPU(), "workers")
	one := flag.Int("run", -1, "run one scenario in this process")
	seed := flag.Int("seed", 1, "")
	flag.StringVar(&also, "also", "", "evidence of an earlier run to include")
	confDepth := flag.Int("confdepth", 4, "")
	flag.BoolVar(&verbose, "v", false, "")
	conf := flag.Bool("conform", false, "compare the kernel model with the real kernel")
	flag.Parse()
	curProp, curTier = *prop, *tier
	raceRun = vrace.Enabled
	setup()
	if *conf {
		conformMain(*confDepth, time.Duration(*budget)*time.Second)
		return
	}
	if *list {
		for i, s := range scens {
			if curProp == "" || s.has(curProp) {
				fmt.Println(i, s.Props, s.Name)
			}
		}
		return
	}
	if *isWorker {
		worker()
		return
	}
	if *one >= 0 {
		r := runScen(scens[*one], time.Now().Add(time.Duration(*budget)*time.Second))
		b, _ := json.MarshalIndent(r, "", " ")
		fmt.Println(string(b))
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		rp := new(Replay)
		if err := json.Unmarshal(b, rp); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		curProp, curTier = rp.Property, rp.Tier
		watchdog(func(kind, msg string) {
			fmt.Println("FAIL", kind, msg)
			os.Exit(1)
		})
		r := replayOnce(rp, true)
		for _, l := range r.Trace {
			fmt.Println(l)
		}
		if r.Fail != "" {
			fmt.Println("FAIL", r.FailKind, r.Fail)
			os.Exit(1)
		}
		fmt.Println("no failure")
		return
	}
	os.Exit(parent(*budget, *nw, *outDir, *evid, *only, *seed))
}

// endAll ends the workers that are still at work some time after a violation
// was found: the same defect may keep them busy for long.
func endAll(mu *sync.Mutex, live map[**proc]bool) {
	time.Sleep(15 * time.Second)
	mu.Lock()
	defer mu.Unlock()
	for p := range live {
		_ = (*p).cmd.Process.Kill()
	}
}

// Fragment is what one run of the harness found.
type Fragment struct {
	Results     []*Result
	Violations  []string
	Notes       []string
	Conformance *ConfStats
	WallS       float64
}

type scenEvid struct {
	Name        string `json:"name"`
	Kind        string `json:"kind"`
	Preemptions int    `json:"preemption_bound"`
	Deviations  int    `json:"deviation_bound"`
	Unbounded   bool   `json:"bounds_cut_nothing"`
	Executions  int    `json:"executions"`
	Pruned      int    `json:"pruned"`
	States      int    `json:"states"`
	Transitions int    `json:"transitions"`
	Outcomes    int    `json:"distinct_outcomes"`
	MaxChoices  int    `json:"max_choices"`
	Complete    bool   `json:"complete"`
	Ms          int64  `json:"ms"`
}

// evidence writes the evidence file of the run.
func (f *Fragment) evidence(path string, seed int) {
	var states, trans, execs, outs int
	exh := len(f.Violations) == 0
	var det []scenEvid
	samples := []string{}
	for _, r := range f.Results {
		states += r.States
		trans += r.Trans
		execs += r.Execs
		outs += r.Outcomes
		if !r.Complete {
			exh = false
		}
		d := scenEvid{Name: r.Scen, Kind: "schedules of the implementation", Executions: r.Execs, Pruned: r.Pruned, States: r.States, Transitions: r.Trans, Outcomes: r.Outcomes, MaxChoices: r.Depth, Complete: r.Complete, Ms: r.Ms}
		d.Preemptions, d.Deviations, d.Unbounded = r.Pre, r.Dev, r.Whole
		if r.Enum {
			d.Kind = "inputs against a reference model"
			d.Outcomes = r.States
			outs += r.States
			d.Preemptions, d.Deviations = 0, 0
		}
		det = append(det, d)
		for i, s := range r.Samples {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, r.Scen+": "+first(s, 300))
			}
		}
	}
	cov := map[string]interface{}{
		"states":                        states,
		"transitions":                   trans,
		"traces_validated_against_impl": 0,
		"samples":                       samples,
		"evaluations":                   execs,
		"distinct_nontrivial":           outs,
		"rule":                          "an evaluation is one complete execution of the real gev code under one schedule and one set of environment answers (or one enumerated input compared with the reference model); distinct ones differ in the outcome the client, the handler or the reference comparison observed",
		"exhaustive":                    exh,
		"scenarios":                     det,
		"race_detector":                 raceRun,
	}
	if f.Conformance != nil {
		cov["traces_validated_against_impl"] = f.Conformance.Traces
		cov["conformance"] = map[string]interface{}{
			"what":       "every operation sequence up to the depth over one TCP connection, one epoll instance and one eventfd, run on the kernel model and on the real kernel (loopback), results compared step by step",
			"traces":     f.Conformance.Traces,
			"steps":      f.Conformance.Steps,
			"mismatches": f.Conformance.Mismatches,
			"depth":      f.Conformance.Depth,
			"complete":   f.Conformance.Complete,
			"detail":     f.Conformance.Detail,
			"samples":    f.Conformance.Samples,
		}
	}
	ev := map[string]interface{}{
		"property": curProp, "tier": curTier, "seed": seed, "level": "model_checking",
		"coverage": cov, "wall_s": f.WallS, "violations": len(f.Violations),
		"assumptions": []string{
			"the code checked is /repo's Go source with system calls, sockets, clocks, locks, atomics, goroutines, channels and map order redirected to a controlled scheduler and a kernel model; unsynchronised memory accesses are atomic at the granularity of scheduling points (C30 checks for races)",
			"the kernel model behaves as the real kernel; compared on all traces counted in traces_validated_against_impl",
			"the timing wheel, the byte and ring buffer pools and SO_REUSEPORT listening are models with the interface of the originals",
			"explored within the preemption and deviation bounds listed per scenario; buffer sizes are shrunk so that their boundaries are reached",
		},
	}
	if b, err := os.ReadFile(also); also != "" && err == nil {
		var o struct {
			Coverage map[string]interface{} `json:"coverage"`
		}
		if json.Unmarshal(b, &o) == nil {
			cov["race_detector_run"] = map[string]interface{}{"states": o.Coverage["states"], "transitions": o.Coverage["transitions"],
				"executions": o.Coverage["evaluations"], "exhaustive": o.Coverage["exhaustive"], "scenarios": o.Coverage["scenarios"]}
		}
	}
	if len(f.Notes) > 0 {
		ev["notes"] = f.Notes
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
}

func parent(budget, nw int, outDir, evid, only string, seed int) int {
	t0 := time.Now()
	var idx []int
	for i, s := range scens {
		if !s.has(curProp) || (s.Thorough && curTier != "thorough") || (only != "" && !strings.Contains(s.Name, only)) {
			continue
		}
		if raceRun && !s.Race || !raceRun && strings.HasPrefix(s.Name, "race-") {
			continue
		}
		idx = append(idx, i)
	}
	if len(idx) == 0 {
		fmt.Fprintln(os.Stderr, "no scenarios for", curProp)
		return 3
	}
	deadline := t0.Add(time.Duration(budget) * time.Second)
	frag := &Fragment{}
	var mu sync.Mutex
	next := 0
	var wg sync.WaitGroup
	stop := false
	failed := false
	live := map[**proc]bool{}
	if nw > len(idx) {
		nw = len(idx)
	}
	confDone := make(chan *ConfStats, 1)
	go func() { confDone <- conformChild() }()
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := startWorker()
			defer func() { p.stop() }()
			mu.Lock()
			live[&p] = true
			mu.Unlock()
			defer func() {
				mu.Lock()
				delete(live, &p)
				mu.Unlock()
			}()
			for {
				mu.Lock()
				if next >= len(idx) || stop {
					mu.Unlock()
					return
				}
				k := next
				next++
				mu.Unlock()
				i := idx[k]
				// share the remaining time over the remaining scenarios
				now := time.Now()
				rem := deadline.Sub(now)
				left := (len(idx) - k + nw - 1) / nw
				if left < 1 {
					left = 1
				}
				share := rem / time.Duration(left)
				if curTier != "thorough" {
					share *= 2
				}
				dl := now.Add(share)
				if dl.After(deadline) {
					dl = deadline
				}
				if now.After(deadline) {
					mu.Lock()
					frag.Results = append(frag.Results, &Result{Scen: scens[i].Name})
					mu.Unlock()
					continue
				}
				r := p.do(i, dl)
				mu.Lock()
				if r == nil && stop { // ended by the goroutine below
					mu.Unlock()
					return
				}
				mu.Unlock()
				if r == nil || r.Kind == "hang" {
					txt := "worker ended unexpectedly: " + crashText(p.err.String())
					if r != nil {
						txt = r.Fail
					}
					p.stop()
					p = startWorker()
					// once more in a fresh process
					r2 := p.do(i, time.Now().Add(time.Duration(budget)*time.Second))
					if r2 == nil {
						r = &Result{Scen: scens[i].Name, Fail: txt + " / " + crashText(p.err.String()), Kind: "crash"}
						p.stop()
						p = startWorker()
					} else {
						if r2.Kind == "hang" {
							p.stop()
							p = startWorker()
						}
						r = r2
					}
				}
				if r.Fail != "" && raceRun && r.Kind == "race" {
					r.Samples = []string{raceReport(p.err.String())}
				}
				mu.Lock()
				frag.Results = append(frag.Results, r)
				for _, k := range r.Known {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", curProp, first(k, 400))
					frag.Notes = append(frag.Notes, "known finding: "+first(k, 400))
				}
				mu.Unlock()
				if r.Fail != "" {
					path, ok, why := confirm(r, i, outDir, p.err.String())
					mu.Lock()
					if ok {
						fmt.Printf("violated: %s: [%s] %s\n", r.Scen, r.Kind, first(r.Fail, 700))
						fmt.Printf("VIOLATION property=%s replay=%s\n", curProp, path)
						frag.Violations = append(frag.Violations, r.Scen+": "+first(r.Fail, 400))
						failed = true
						if !stop {
							stop = true
							go endAll(&mu, live)
						}
					} else {
						frag.Notes = append(frag.Notes, "unconfirmed: "+r.Scen+": "+first(r.Fail, 300)+" ("+why+")")
						fmt.Printf("note: %s: not reproduced (%s): %s\n", r.Scen, why, first(r.Fail, 300))
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	frag.Conformance = <-confDone
	frag.WallS = time.Since(t0).Seconds()
	sort.Slice(frag.Results, func(i, j int) bool { return frag.Results[i].Scen < frag.Results[j].Scen })
	if evid != "" {
		frag.evidence(evid, seed)
	}
	tot := &Result{}
	inc := 0
	for _, r := range frag.Results {
		if verbose {
			fmt.Printf("  %-34s execs %7d pruned %7d states %8d outcomes %5d pre %d dev %d complete %v whole %v %d ms\n", r.Scen, r.Execs, r.Pruned, r.States, r.Outcomes, r.Pre, r.Dev, r.Complete, r.Whole, r.Ms)
		}
		tot.States += r.States
		tot.Trans += r.Trans
		tot.Execs += r.Execs
		if !r.Complete && r.Fail == "" {
			inc++
		}
	}
	fmt.Printf("%s %s race=%v: %d scenarios, %d executions, %d states, %d transitions, %d incomplete, %.1fs\n",
		curProp, curTier, raceRun, len(frag.Results), tot.Execs, tot.States, tot.Trans, inc, time.Since(t0).Seconds())
	if failed {
		return 1
	}
	return 0
}

func first(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " | ")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func raceReport(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// confirm re-runs the failing execution in fresh processes before it is believed.
func confirm(r *Result, i int, outDir, stderr string) (string, bool, string) {
	if outDir == "" {
		outDir = os.TempDir()
	}
	_ = os.MkdirAll(outDir, 0o755)
	path := filepath.Join(outDir, fmt.Sprintf("%s-%s.json", curProp, strings.Map(func(c rune) rune {
		if c == '/' || c == ' ' {
			return '_'
		}
		return c
	}, r.Scen)))
	rp := &Replay{Property: curProp, Scenario: r.Scen, Tier: curTier, Kind: r.Kind, Message: r.Fail, Choices: r.Choices, Case: r.Case, Race: raceRun,
		HowTo: "bin/check.sh replay <this file> (needs the tree that failed in /repo)"}
	save := func() {
		b, _ := json.MarshalIndent(rp, "", " ")
		_ = os.WriteFile(path, b, 0o644)
	}
	save()
	if r.Kind == "crash" || r.Kind == "hang" {
		return path, true, ""
	}
	ok, bad := 0, 0
	for k := 0; k < 3; k++ {
		c := exec.Command(os.Args[0], "-replay", path)
		c.Env = append(os.Environ(), "GORACE=halt_on_error=0 history_size=5")
		o, err := c.Output()
		if err != nil && strings.Contains(string(o), "FAIL ") || (err != nil && len(o) == 0) {
			ok++
			if rp.Trace == nil {
				rp.Trace = strings.Split(string(o), "\n")
				if len(rp.Trace) > 400 {
					rp.Trace = rp.Trace[len(rp.Trace)-400:]
				}
				if raceRun {
					rp.Trace = append(rp.Trace, strings.Split(raceReport(stderr), "\n")...)
				}
			}
		} else {
			bad++
		}
	}
	save()
	if ok == 3 || (raceRun && ok > 0) {
		return path, true, ""
	}
	// state outside the executions (package variables) may matter: repeat the
	// whole scenario in two fresh processes
	again := 0
	for k := 0; k < 2; k++ {
		p := startWorker()
		r2 := p.do(i, time.Now().Add(60*time.Second))
		p.stop()
		if r2 == nil || r2.Fail != "" {
			again++
		}
	}
	if again == 2 {
		return path, true, ""
	}
	return path, false, fmt.Sprintf("replay failed %d of 3 times, scenario %d of 2", ok, again)
}
