// Package vs is a controlled scheduler: every goroutine of the program under
// test is a Thread, exactly one of which runs at any time; control moves only
// at scheduling points, and which thread continues is a recorded choice. The
// Explorer enumerates those choices.
//
// The package is compiled without race instrumentation and avoids Go maps, so
// that in -race builds its hand-offs are invisible to the race detector and
// only the program's own synchronisation creates happens-before edges.
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"

	"gevmc/vrace"
)

// ---------- hashing ----------

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 33
	a *= 0xff51afd7ed558ccd
	a ^= a >> 33
	a *= 0xc4ceb9fe1a85ec53
	a ^= a >> 33
	return a
}

// Mix is exported for kernel-side fingerprints.
func Mix(a, b uint64) uint64 { return mix(a, b) }

// Obj is a shared object for happens-before fingerprints.
type Obj struct {
	id     uint64
	hw, hr uint64
}

// ---------- threads ----------

type Thread struct {
	ID       int
	Name     string
	h        uint64 // hash of the local history (with what it observed)
	nobj     uint64
	wake     chan struct{}
	exited   chan struct{}
	en       func() bool // enabledness of the pending operation (nil: enabled)
	quiet    bool        // waits for quiescence
	daemon   bool        // the clock
	yielding bool
	done     bool
	what     string
	// spin gating
	spinVer uint64
	spinCnt int
}

type choice struct {
	n       int  // options
	c       int  // chosen
	cost1   bool // an alternative (c>0) costs one preemption
	clock   bool // the last alternative lets time pass while others could run: costs one too
	data    bool // data choice
	dcost   bool // data alternative costs one deviation
	label   string
	pre, dv int // budget used before this choice
}

// Config of one exploration.
type Config struct {
	Preempt  int // preemption bound; <0 = unbounded
	Dev      int // bound on environment deviations (faults)
	MaxSteps int
	NoCache  bool
	Trace    bool
	TimeBase int64 // ns since epoch
}

// Result of one execution.
type Result struct {
	Fail     string // "" when fine
	FailKind string // "oracle", "panic", "deadlock", "horizon", "race"
	Pruned   bool
	Diverged bool
	Steps    int
	Choices  []int
	Trace    []string
	Outcome  uint64
	OutcomeS string
	choices  []choice
	pre, dv  int
}

type Exec struct {
	cfg      Config
	threads  []*Thread
	cur      *Thread
	prefix   []int
	choices  []choice
	pre, dv  int
	steps    int
	killing  bool
	finished bool
	doneC    chan struct{}
	res      Result
	ver      uint64
	tab      addrTab
	now      int64
	horizon  int64
	timers   []*vtimer
	clockT   *Thread
	tseq     uint64
	cache    *stateCache
	clockO   Obj
	locals   []interface{}
	serial   bool
}

var x *Exec // the execution in progress (nil: pass-through mode)

var epoch int

// endSync orders everything in one execution before the next one, so that
// package variables carried over are no race.
var endSync int64

// Epoch numbers the executions of this process.
func Epoch() int { return epoch }

// Active reports whether a controlled execution is in progress.
func Active() bool { return x != nil }

// Killing reports whether the execution is being torn down.
func Killing() bool { return x == nil || x.killing }

// Cur is the running thread.
func Cur() *Thread {
	if x == nil {
		return nil
	}
	return x.cur
}

// TID is the running thread's id.
func TID() int {
	if x == nil || x.cur == nil {
		return -1
	}
	return x.cur.ID
}

func (x *Exec) tracef(format string, a ...interface{}) {
	if x.cfg.Trace {
		name := "?"
		if x.cur != nil {
			name = fmt.Sprintf("%d:%s", x.cur.ID, x.cur.Name)
		}
		x.res.Trace = append(x.res.Trace, fmt.Sprintf("[%s] ", name)+fmt.Sprintf(format, a...))
	}
}

// Tracing reports whether a trace is recorded.
func Tracing() bool { return x != nil && x.cfg.Trace && !x.killing }

// Tracef adds a line to the trace.
func Tracef(format string, a ...interface{}) {
	if x != nil {
		x.tracef(format, a...)
	}
}

func (x *Exec) newThread(name string, f func()) *Thread {
	t := &Thread{ID: len(x.threads), Name: name, wake: make(chan struct{}, 1), exited: make(chan struct{}, 1)}
	if p := x.cur; p != nil {
		p.h = mix(p.h, 0x60)
		t.h = mix(p.h, 0x61)
	} else {
		t.h = 0x1234567
	}
	x.threads = append(x.threads, t)
	go t.main(x, f)
	return t
}

func (t *Thread) park() {
	vrace.Disable()
	<-t.wake
	vrace.Enable()
}

func (t *Thread) unpark() {
	vrace.Disable()
	t.wake <- struct{}{}
	vrace.Enable()
}

func (t *Thread) main(x *Exec, f func()) {
	defer func() {
		// reached on normal return, on panic (recovered below) and on Goexit
		t.done = true
		vrace.ReleaseMerge(unsafe.Pointer(&endSync))
		if x.killing {
			vrace.Disable()
			t.exited <- struct{}{}
			vrace.Enable()
			return
		}
		if !x.finished {
			if t.ID == 0 {
				x.finish("")
			} else {
				t.h = mix(t.h, 0x77)
				x.switchFrom(t)
			}
		}
		vrace.Disable()
		t.exited <- struct{}{}
		vrace.Enable()
	}()
	defer func() {
		if x.killing {
			recover()
			return
		}
		if e := recover(); e != nil {
			st := string(debug.Stack())
			x.fail("panic", fmt.Sprintf("panic in %s: %v\n%s", t.Name, e, trimStack(st)))
		}
	}()
	t.park()
	if x.killing {
		return
	}
	x.cur = t
	f()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	out := []string{}
	for _, l := range lines {
		if strings.Contains(l, "gev") && !strings.Contains(l, "gevmc/vs") && !strings.Contains(l, "/mc/vs/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, " | ")
}

func (x *Exec) fail(kind, msg string) {
	if x.res.Fail == "" {
		x.res.Fail, x.res.FailKind = msg, kind
	}
	x.tracef("FAIL %s: %s", kind, msg)
	x.finish(kind)
}

// Serial switches scheduling choices off (the lowest-numbered runnable thread
// goes on, without preemption) or on again; used for set-up and tear-down
// phases that are explored by scenarios of their own.
func Serial(on bool) {
	if x != nil {
		x.serial = on
	}
}

// Progress is a counter that moves while executions make progress.
var Progress int64

// Fail reports a property violation and ends the execution.
func Fail(format string, a ...interface{}) {
	if x == nil {
		panic(fmt.Sprintf(format, a...))
	}
	if x.killing || x.finished {
		return
	}
	x.fail("oracle", fmt.Sprintf(format, a...))
	x.cur.stopHere()
}

// Abort ends the execution without a verdict (it is counted as completed).
func Abort() {
	x.finish("")
	x.cur.stopHere()
}

func (t *Thread) stopHere() {
	t.park() // until killed
	runtime.Goexit()
}

func (x *Exec) finish(kind string) {
	if x.finished {
		return
	}
	x.finished = true
	vrace.Disable()
	x.doneC <- struct{}{}
	vrace.Enable()
}

func (t *Thread) enabled() bool {
	if t.done || t.quiet {
		return false
	}
	if t.en == nil {
		return true
	}
	return t.en()
}

// pick selects the next thread. t is the yielding thread (nil or done allowed).
func (x *Exec) pick(t *Thread) *Thread {
	x.steps++
	Progress++
	if x.steps > x.cfg.MaxSteps {
		x.fail("horizon", fmt.Sprintf("no quiescence within %d steps (livelock): %s", x.cfg.MaxSteps, x.describe()))
		return nil
	}
	var optsA [16]*Thread
	opts := optsA[:0]
	selfEn := false
	if t != nil && t != x.clockT && !t.done && t.enabled() {
		opts = append(opts, t)
		selfEn = true
	}
	for _, o := range x.threads {
		if o != t && o != x.clockT && o.enabled() {
			opts = append(opts, o)
		}
	}
	clock := false
	if x.clockT != nil && x.clockT.enabled() {
		opts = append(opts, x.clockT)
		clock = len(opts) > 1
	}
	if len(opts) == 0 {
		for _, o := range x.threads {
			if !o.done && o.quiet {
				// quiescence: a barrier over all threads
				var s uint64
				for _, q := range x.threads {
					s += mix(uint64(q.ID)+1, q.h)
				}
				o.h = mix(o.h, s)
				return o
			}
		}
		x.fail("deadlock", "no thread can run: "+x.describe())
		return nil
	}
	if len(opts) == 1 || x.serial {
		return opts[0]
	}
	cost := selfEn && !t.yielding
	c := x.decide(len(opts), choice{cost1: cost, clock: clock, label: "sched"}, selfEn)
	if c < 0 {
		return nil
	}
	if c > 0 && (cost || clock && c == len(opts)-1) {
		x.pre++
	}
	return opts[c]
}

func (x *Exec) fingerprint(selfEn bool) uint64 {
	var s uint64
	for _, q := range x.threads {
		v := q.h
		if q.done {
			v = mix(v, 3)
		}
		if q.spinCnt > 0 {
			v = mix(v, uint64(q.spinCnt)+10)
			if q.spinVer == x.ver {
				v = mix(v, 7)
			}
		}
		s += mix(v, uint64(0x51))
	}
	s = mix(s, uint64(x.now))
	if selfEn {
		s = mix(s, x.cur.h)
	}
	return s
}

func (x *Exec) decide(n int, ch choice, selfEn bool) int {
	i := len(x.choices)
	ch.n = n
	ch.pre, ch.dv = x.pre, x.dv
	if i < len(x.prefix) {
		c := x.prefix[i]
		if c >= n {
			x.res.Diverged = true
			c = 0
		}
		ch.c = c
		x.choices = append(x.choices, ch)
		return c
	}
	if x.cache != nil && (i > 0 || len(x.prefix) > 0) {
		fp := x.fingerprint(selfEn)
		if ch.data {
			fp = mix(fp, 0xda7a)
		}
		rp, rd := 99, x.cfg.Dev-x.dv
		if x.cfg.Preempt >= 0 {
			rp = x.cfg.Preempt - x.pre
		}
		if x.cache.seen(fp, rp, rd) {
			x.res.Pruned = true
			x.finish("")
			return -1
		}
	}
	x.choices = append(x.choices, ch)
	return 0
}

func (x *Exec) describe() string {
	var b strings.Builder
	for _, t := range x.threads {
		if t.done {
			continue
		}
		fmt.Fprintf(&b, "%d:%s(%s) ", t.ID, t.Name, t.what)
	}
	return b.String()
}

// switchFrom gives control away from a finished thread.
func (x *Exec) switchFrom(t *Thread) {
	n := x.pick(t)
	if n == nil {
		return
	}
	x.cur = n
	n.unpark()
}

// yield is a scheduling point of the current thread.
func (x *Exec) yield(t *Thread, en func() bool) {
	if x.killing {
		runtime.Goexit()
	}
	t.en = en
	n := x.pick(t)
	if n == nil {
		t.stopHere()
	}
	if n != t {
		x.cur = n
		n.unpark()
		t.park()
		if x.killing {
			runtime.Goexit()
		}
		x.cur = t
	}
	t.en = nil
	t.quiet = false
	t.yielding = false
	t.h = mix(t.h, 0x99) // one step further
}

// Point is a scheduling point at which the current thread is enabled.
func Point(what string) {
	if x == nil {
		return
	}
	if x.killing {
		return
	}
	t := x.cur
	t.what = what
	x.yield(t, nil)
	if x.cfg.Trace {
		x.tracef("%s", what)
	}
}

// Block is a scheduling point at which the thread continues only when en holds.
func Block(what string, en func() bool) {
	if x == nil {
		if !en() {
			panic("vs: blocking operation outside an execution: " + what)
		}
		return
	}
	if x.killing {
		runtime.Goexit()
	}
	t := x.cur
	t.what = what
	x.yield(t, en)
	if x.cfg.Trace {
		x.tracef("%s", what)
	}
}

// WaitQuiescent blocks until no other thread can run.
func WaitQuiescent() {
	t := x.cur
	t.what = "wait-quiescent"
	t.quiet = true
	x.yield(t, nil)
	x.ver++
}

// Gosched is a voluntary yield (switching away is free). It is gated: when
// nothing has changed since the thread's previous yields, it waits for change.
func Gosched() {
	if x == nil || x.killing {
		return
	}
	t := x.cur
	t.what = "gosched"
	t.yielding = true
	x.yield(t, nil)
}

// SpinGate is called before an operation that polls for readiness. When the
// thread has polled repeatedly without any change of state in between, it
// returns true, and the caller must block until SpinChanged.
func SpinGate() bool {
	if x == nil {
		return false
	}
	t := x.cur
	if t.spinVer == x.ver && t.spinCnt > 0 {
		t.spinCnt++
		return t.spinCnt > 3
	}
	t.spinVer, t.spinCnt = x.ver, 1
	return false
}

// SpinChanged reports whether the state changed since thread t last polled.
func SpinChanged(t *Thread) bool { return t.spinVer != x.ver }

// SpinReset restarts the count.
func SpinReset() {
	if x != nil {
		x.cur.spinVer, x.cur.spinCnt = x.ver, 1
	}
}

// Bump notes an effective change of shared state.
func Bump() {
	if x != nil {
		x.ver++
	}
}

// Go starts a thread.
func Go(name string, f func()) {
	if x == nil {
		go f()
		return
	}
	if x.killing {
		return
	}
	x.ver++
	t := x.newThread(name, f)
	x.tracef("spawn %d:%s", t.ID, name)
}

// ---------- object accesses ----------

// NewObj makes an object whose identity is determined by its creator's history.
func NewObj() *Obj {
	o := &Obj{}
	InitObj(o)
	return o
}

// InitObj initialises an embedded object.
func InitObj(o *Obj) {
	if x == nil || x.cur == nil {
		o.id = 1
		return
	}
	t := x.cur
	t.nobj++
	o.id = mix(t.h, 0x0b00+t.nobj)
	o.hw, o.hr = o.id, 0
}

// Touch records an access of the current thread to o.
func Touch(o *Obj, write bool) {
	if x == nil || x.killing {
		return
	}
	t := x.cur
	if write {
		t.h = mix(mix(t.h, o.id), mix(o.hw, o.hr+1))
		o.hw = t.h
		o.hr = 0
	} else {
		t.h = mix(mix(t.h, o.id^0x5555), o.hw)
		o.hr += t.h
	}
}

// Note mixes a locally observed value into the thread's history.
func Note(v uint64) {
	if x != nil && x.cur != nil {
		x.cur.h = mix(x.cur.h, v)
	}
}

// AddrObj is the object for a memory address.
func AddrObj(p unsafe.Pointer) *Obj { return x.tab.get(p) }

// Mem is a scheduling point followed by an access to the word at p.
func Mem(p unsafe.Pointer, write bool, what string) {
	if x == nil || x.killing {
		return
	}
	Point(what)
	Touch(AddrObj(p), write)
}

type addrEnt struct {
	k unsafe.Pointer // keeps the word alive, so that addresses are not reused
	o *Obj
}
type addrTab struct {
	e []addrEnt
	n int
}

func (a *addrTab) get(k unsafe.Pointer) *Obj {
	if a.n*2 >= len(a.e) {
		old := a.e
		a.e = make([]addrEnt, 2*len(old)+64)
		a.n = 0
		for _, v := range old {
			if v.o != nil {
				*a.slot(v.k) = v
				a.n++
			}
		}
	}
	s := a.slot(k)
	if s.o == nil {
		s.k, s.o = k, NewObj()
		a.n++
	}
	return s.o
}

func (a *addrTab) slot(k unsafe.Pointer) *addrEnt {
	m := uint64(len(a.e))
	i := mix(uint64(uintptr(k)), 1) % m
	for a.e[i].o != nil && a.e[i].k != k {
		i = (i + 1) % m
	}
	return &a.e[i]
}

// ---------- data choices ----------

// Choose is an environment choice among n; option 0 is the default and every
// other costs one deviation.
func Choose(n int, label string) int {
	if x == nil || x.killing || n < 2 {
		return 0
	}
	c := x.decide(n, choice{data: true, dcost: true, label: label}, true)
	if c < 0 {
		x.cur.stopHere()
	}
	if c > 0 {
		x.dv++
		x.ver++ // a fault that is used up is a change of the environment
	}
	x.cur.h = mix(x.cur.h, 0xc0+uint64(c))
	if x.cfg.Trace {
		x.tracef("choose %s = %d/%d", label, c, n)
	}
	return c
}

// ChooseFree is an environment choice whose alternatives cost nothing.
func ChooseFree(n int, label string) int {
	if x == nil || x.killing || n < 2 {
		return 0
	}
	c := x.decide(n, choice{data: true, label: label}, true)
	if c < 0 {
		x.cur.stopHere()
	}
	x.cur.h = mix(x.cur.h, 0xd0+uint64(c))
	if x.cfg.Trace {
		x.tracef("pick %s = %d/%d", label, c, n)
	}
	return c
}

// Outcome mixes an observable result into the execution's outcome fingerprint.
func Outcome(s string) {
	if x == nil {
		return
	}
	h := x.res.Outcome
	for i := 0; i < len(s); i++ {
		h = h*1099511628211 ^ uint64(s[i])
	}
	x.res.Outcome = mix(h, 5)
	if x.res.OutcomeS == "" {
		x.res.OutcomeS = s
	}
}

// ---------- virtual time ----------

type vtimer struct {
	at   int64
	seq  uint64
	f    func() // runs in a new thread; nil for a sleeper
	on   bool
	name string
}

// NowNS is the virtual clock (ns since the epoch).
func NowNS() int64 {
	if x == nil {
		return time.Now().UnixNano()
	}
	if !x.killing {
		Touch(&x.clockO, false)
	}
	return x.now
}

// Timer is a virtual timer.
type Timer struct{ v *vtimer }

// AddTimer calls f in a new thread once the clock reaches at.
func AddTimer(at int64, name string, f func()) *Timer {
	v := &vtimer{at: at, f: f, on: true, name: name}
	vrace.ReleaseMerge(unsafe.Pointer(v))
	if x == nil {
		return &Timer{v}
	}
	x.addTimer(v)
	return &Timer{v}
}

// Stop cancels the timer; it reports whether it was pending.
func (t *Timer) Stop() bool {
	if x != nil && !x.killing {
		Touch(&x.clockO, true)
		x.ver++
	}
	was := t.v.on
	t.v.on = false
	return was
}

// Pending reports whether the timer has neither fired nor been stopped.
func (t *Timer) Pending() bool { return t.v.on }

func (x *Exec) addTimer(v *vtimer) {
	if x.killing {
		return
	}
	Touch(&x.clockO, true)
	x.ver++
	x.tseq++
	v.seq = x.tseq
	i := len(x.timers)
	x.timers = append(x.timers, v)
	for i > 0 && x.timers[i-1].at > v.at {
		x.timers[i] = x.timers[i-1]
		i--
	}
	x.timers[i] = v
	if x.clockT == nil {
		x.clockT = x.newThread("clock", x.clockMain)
		x.clockT.daemon = true
		x.clockT.what = "clock"
		x.clockT.en = x.clockReady
	}
}

func (x *Exec) nextTimer() *vtimer {
	for len(x.timers) > 0 && !x.timers[0].on {
		x.timers = x.timers[1:]
	}
	if len(x.timers) == 0 {
		return nil
	}
	return x.timers[0]
}

func (x *Exec) clockReady() bool {
	v := x.nextTimer()
	return v != nil && v.at <= x.horizon
}

func (x *Exec) clockMain() {
	for {
		x.cur.what = "clock"
		x.yield(x.cur, x.clockReady)
		v := x.nextTimer()
		if v.at > x.now {
			x.now = v.at
		}
		Touch(&x.clockO, true)
		x.ver++
		x.tracef("clock -> +%.6fs", float64(x.now-x.cfg.TimeBase)/1e9)
		for {
			v := x.nextTimer()
			if v == nil || v.at > x.now {
				break
			}
			v.on = false
			x.timers = x.timers[1:]
			if v.f != nil {
				f := v.f
				t := x.newThread(v.name, func() {
					vrace.Acquire(unsafe.Pointer(v))
					f()
				})
				x.tracef("timer fires: %d:%s", t.ID, v.name)
			}
		}
	}
}

// Sleep blocks the thread for d of virtual time.
func Sleep(d time.Duration) {
	if x == nil || x.killing {
		return
	}
	if d <= 0 {
		Point("sleep0")
		return
	}
	dl := x.now + int64(d)
	v := &vtimer{at: dl, on: true}
	x.addTimer(v)
	Block("sleep", func() bool { return !v.on })
	Touch(&x.clockO, false)
}

// Stall lets the clock jump ahead by d without anything due being handled on the
// way, as when the process is not scheduled for that long.
func Stall(d time.Duration) {
	if x == nil || x.killing {
		return
	}
	Touch(&x.clockO, true)
	x.now += int64(d)
	x.ver++
	x.tracef("stalled until +%.6fs", float64(x.now-x.cfg.TimeBase)/1e9)
}

// PendingTimers counts the armed timers of that name.
func PendingTimers(name string) int {
	n := 0
	for _, v := range x.timers {
		if v.on && v.name == name {
			n++
		}
	}
	return n
}

// AllowTime lets the clock advance up to d from now.
func AllowTime(d time.Duration) {
	x.horizon = x.now + int64(d)
	x.ver++
}

// Elapsed is the virtual time since the start.
func Elapsed() time.Duration { return time.Duration(x.now - x.cfg.TimeBase) }

// ---------- running ----------

// Run performs one execution of body under the given choice prefix.
func Run(cfg Config, prefix []int, cache *stateCache, body func()) *Result {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000
	}
	e := &Exec{cfg: cfg, prefix: prefix, doneC: make(chan struct{}, 4), cache: cache}
	e.now = cfg.TimeBase
	e.horizon = cfg.TimeBase
	e.clockO.id = 0xc10c
	vrace.Acquire(unsafe.Pointer(&endSync))
	errs0 := vrace.Errors()
	epoch++
	x = e
	t := e.newThread("main", body)
	e.cur = t
	t.unpark()
	<-e.doneC
	e.killing = true
	for i := 0; i < len(e.threads); i++ {
		t := e.threads[i]
		if t.done && len(t.exited) > 0 {
			continue
		}
		e.cur = t
		select {
		case t.wake <- struct{}{}:
		default:
		}
		<-t.exited
	}
	x = nil
	r := &e.res
	r.Steps = e.steps
	r.choices = e.choices
	r.pre, r.dv = e.pre, e.dv
	r.Choices = make([]int, len(e.choices))
	for i, c := range e.choices {
		r.Choices[i] = c.c
	}
	if vrace.Enabled && vrace.Errors() > errs0 && r.Fail == "" {
		r.Fail, r.FailKind = "the race detector reported a data race in this execution", "race"
	}
	return r
}

// CurrentChoices is the choice list of the execution in progress (for the watchdog).
func CurrentChoices() []int {
	e := x
	if e == nil {
		return nil
	}
	var c []int
	for _, v := range e.choices {
		c = append(c, v.c)
	}
	return c
}
