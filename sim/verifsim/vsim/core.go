// Package vsim is the deterministic simulator. Every goroutine of the program under
// test is a Task; exactly one task runs at any time, and which one is decided here, from
// a seeded generator (generate mode) or from a recorded plan (replay mode).
//
// Functions that touch simulator state carry go:norace and avoid maps and append, so that
// in race builds the detector sees the program's own synchronisation only.
package vsim

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"unsafe"
)

// Decision is one recorded departure from the default behaviour.
//
//	Kind 'P': task A is preempted when it has consumed B yields; task C runs next.
//	Kind 'B': the B-th time task A blocks (or ends), task C runs next instead of the oldest.
//	Kind 'D': the B-th draw of draw class A yields C instead of 0.
type Decision struct {
	Kind    byte
	A, B, C int64
}

// Outcome says how a run ended.
type Outcome int

const (
	Done      Outcome = iota // the main function returned
	Stuck                    // no task can make progress any more
	StepLimit                // the yield budget is used up
	Panicked                 // an uncaught panic ended the program
	Exited                   // the program called os.Exit or log.Fatal
	Crashed                  // an injected process kill or power loss
	Failed                   // an oracle reported a violation
)

func (o Outcome) String() string {
	return [...]string{"done", "stuck", "step-limit", "panicked", "exited", "crashed", "failed"}[o]
}

// Policy is the scheduling policy of a generated run.
type Policy int

const (
	PolicySerial   Policy = iota // no preemption, oldest runnable task first
	PolicyNewest                 // no preemption, newest runnable task first
	PolicyRandom                 // random preemption with a mean gap, random choice
	PolicyPriority               // random priorities with change points (PCT)
	PolicySync                   // preemption at synchronisation points only
	PolicyShuffle                // no preemption, random choice when blocked
	numPolicies
)

func (p Policy) String() string {
	return [...]string{"serial", "newest", "random", "priority", "sync", "shuffle"}[p]
}

// Config describes one run.
type Config struct {
	Seed      uint64
	Policy    Policy
	Gap       int64      // mean yields between preemptions
	Changes   int        // priority change points (PolicyPriority)
	EstYields int64      // expected length, for placing change points and stalls
	StallProb float64    // probability that a newly started task is stalled for a while
	StallLen  int64      // length of a stall in yields
	MaxYields int64      // step budget
	Tick      int64      // simulated nanoseconds per yield
	Replay    bool       // follow Plan instead of the generator
	Plan      []Decision // recorded departures
	FaultProb [NumDraws]float64
}

// Draw classes.
const (
	DrawStall  = iota // task start: stall it
	DrawSelect        // which ready case of a select
	DrawMap           // rotation of a map iteration
	DrawPool          // sync.Pool forgets an item
	DrawClock         // the wall clock jumps
	DrawRand          // the random source produces an extreme value
	DrawDisk          // a disk operation fails
	DrawTear          // how much of a write is done or survives
	DrawPower         // what survives a power loss
	DrawUser1         // workload-specific faults
	DrawUser2
	DrawUser3
	DrawUser4
	DrawUser5
	DrawWake // which of several waiters is woken
	NumDraws
)

// DrawNames names the draw classes in evidence and traces.
var DrawNames = [NumDraws]string{"stall", "select", "map-order", "pool-drop", "clock-jump", "rand-extreme", "disk-error", "torn-write", "power-loss", "user1", "user2", "user3", "user4", "user5", "wake"}

const (
	stNew = iota
	stRunnable
	stRunning
	stBlocked
	stDone
)

const maxTasks = 1 << 16

// Task is one simulated goroutine.
type Task struct {
	noPre int // of this task, while another one runs
	ID      int
	wake    chan struct{}
	state   int
	local   int64 // yields consumed
	blocks  int64 // block decisions taken
	killed  bool
	prio    int64
	stallTo int64 // not chosen before this total yield count unless nothing else can run
	idle    bool

	epoch   uint64 // invalidates stale waiters
	fired   bool
	firedOK bool
	firedIx int
	next    *Task

	abortAt int64 // local count at which an injected panic happens

	planP []Decision // this task's preemptions, in order
	planB []Decision
	pi    int
	bi    int
}

var (
	active bool
	dying  bool
	budget int64 = math.MaxInt64
	segBud int64
	cur    *Task
	cfg    Config

	tasks   [maxTasks]*Task
	nTasks  int
	runq    [maxTasks]*Task
	nRun    int
	idleq   *Task
	ctl     = make(chan struct{})
	total   int64
	now     int64
	wallOff int64
	limit   int64

	rng      uint64
	nextPre  int64 // local count of the running task at which to consider a preemption
	changeAt [64]int64
	nChange  int
	lowPrio  int64

	outcome  Outcome
	outMsg   string
	outStack string
	exitCode int

	drawIdx   [NumDraws]int64
	planD     [NumDraws][]Decision
	planDi    [NumDraws]int
	DrawFired [NumDraws]int64

	logBuf   []Decision
	nLog     int
	logFull  bool
	evHash   uint64
	swHash   uint64
	switches int64
	preempts int64

	timers    *timer
	timerSeq  int64
	idleJumps int64
	crashAt   int64

	endSync  byte
	noPre    int
	maxLogSz = 1 << 20
)

// Result of a run.
type Result struct {
	Outcome   Outcome
	Msg       string
	Stack     string
	ExitCode  int
	Yields    int64
	SimTime   int64
	Switches  int64
	Preempts  int64
	Tasks     int
	Plan      []Decision
	PlanFull  bool
	EventHash uint64
	SwHash    uint64
	Fired     [NumDraws]int64
}

//go:norace
func nextRand() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func randN(n int64) int64 {
	if n <= 1 {
		return 0
	}
	return int64(nextRand() % uint64(n))
}

//go:norace
func randF() float64 { return float64(nextRand()>>11) / (1 << 53) }

//go:norace
func mix(h *uint64, v uint64) {
	x := *h ^ v
	x *= 0x9e3779b97f4a7c15
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	*h = x
}

// Note mixes a value into the run's event hash (used to prove determinism).
//
//go:norace
func Note(v uint64) {
	if active && !dying {
		mix(&evHash, v)
	}
}

//go:norace
func logDec(k byte, a, b, c int64) {
	mix(&evHash, uint64(k)<<56^uint64(a)<<40^uint64(b)<<16^uint64(c))
	if nLog >= len(logBuf) {
		logFull = true
		return
	}
	logBuf[nLog] = Decision{k, a, b, c}
	nLog++
}

// Active reports whether a run is in progress.
//
//go:norace
func Active() bool { return active && !dying }

// Dying reports whether the simulated process is being torn down.
//
//go:norace
func Dying() bool { return dying }

// Y is the yield point placed before every statement.
//
//go:norace
func Y() {
	budget--
	if budget <= 0 {
		slow()
	}
}

//go:norace
func account() {
	if cur == nil {
		return
	}
	used := segBud - budget
	segBud = budget
	if noPre > 0 {
		return // an atomic section takes no time
	}
	cur.local += used
	total += used
	now += used * cfg.Tick
}

//go:norace
func slow() {
	if !active || dying {
		budget = math.MaxInt64
		return
	}
	if noPre > 0 {
		budget = math.MaxInt64 / 2
		segBud = budget
		return
	}
	account()
	if total >= limit {
		finish(StepLimit, "step budget used up", string(debug.Stack()))
		return
	}
	if crashAt > 0 && total >= crashAt {
		finish(Crashed, "process killed", "")
		return
	}
	if cur.abortAt > 0 && cur.local >= cur.abortAt {
		cur.abortAt = 0
		setBudget()
		panic(Injected)
	}
	fireTimers()
	considerPreempt(false)
	setBudget()
}

type injected struct{}

func (injected) Error() string { return "injected panic" }

// Injected is what an injected panic carries.
var Injected error = injected{}

// PanicAfter makes the running task panic with Injected n yields from now; 0 disarms it.
//
//go:norace
func PanicAfter(n int64) {
	if !active || dying {
		return
	}
	account()
	cur.abortAt = 0
	if n > 0 {
		cur.abortAt = cur.local + n
	}
	setBudget()
}

// setBudget arms the yield countdown for the running task.
//
//go:norace
func setBudget() {
	if noPre > 0 {
		budget = math.MaxInt64 / 2
		segBud = budget
		return
	}
	b := int64(1 << 40)
	if d := limit - total; d < b {
		b = d
	}
	if crashAt > 0 {
		if d := crashAt - total; d < b {
			b = d
		}
	}
	if nextPre > 0 {
		if d := nextPre - cur.local; d < b {
			b = d
		}
	}
	if cur.abortAt > 0 {
		if d := cur.abortAt - cur.local; d < b {
			b = d
		}
	}
	if timers != nil {
		d := (timers.at - now + cfg.Tick - 1) / cfg.Tick
		if d < b {
			b = d
		}
	}
	if b < 1 {
		b = 1
	}
	budget = b
	segBud = b
}

// armPreempt decides when the running task is next considered for preemption.
//
//go:norace
func armPreempt() {
	nextPre = 0
	t := cur
	if cfg.Replay {
		for t.pi < len(t.planP) && t.planP[t.pi].B <= t.local {
			t.pi++
		}
		if t.pi < len(t.planP) {
			nextPre = t.planP[t.pi].B
		}
		return
	}
	switch cfg.Policy {
	case PolicyRandom:
		g := 1 + int64(-math.Log(1-randF())*float64(cfg.Gap))
		nextPre = t.local + g
	case PolicyPriority:
		for nChange > 0 && changeAt[nChange-1] <= total {
			nChange--
		}
		if nChange > 0 {
			nextPre = t.local + (changeAt[nChange-1] - total)
		}
	}
}

//go:norace
func considerPreempt(sync bool) {
	t := cur
	if cfg.Replay {
		if nextPre == 0 || t.local < nextPre {
			return
		}
		var want int64 = -1
		for t.pi < len(t.planP) && t.planP[t.pi].B <= t.local {
			if t.planP[t.pi].B == t.local {
				want = t.planP[t.pi].C
			}
			t.pi++
		}
		if want >= 0 {
			if n := findRunnable(int(want)); n != nil {
				preemptTo(n)
				return
			}
		}
		armPreempt()
		return
	}
	switch cfg.Policy {
	case PolicyRandom:
		if t.local < nextPre {
			return
		}
		if nRun > 0 {
			if n := pickRandom(); n != nil {
				preemptTo(n)
				return
			}
		}
		armPreempt()
	case PolicyPriority:
		if nextPre > 0 && t.local >= nextPre {
			lowPrio--
			t.prio = lowPrio
			armPreempt()
		}
		if n := pickPrio(); n != nil && n.prio > t.prio {
			preemptTo(n)
		}
	case PolicySync:
		if sync && nRun > 0 && randN(2) == 0 {
			if n := pickRandom(); n != nil {
				preemptTo(n)
			}
		}
	}
}

//go:norace
func preemptTo(n *Task) {
	t := cur
	logDec('P', int64(t.ID), t.local, int64(n.ID))
	preempts++
	removeRunq(n)
	t.state = stRunnable
	pushRunq(t)
	switchTo(t, n)
}

//go:norace
func stalled(t *Task) bool { return t.stallTo > total }

//go:norace
func pickRandom() *Task {
	n := 0
	for i := 0; i < nRun; i++ {
		if !stalled(runq[i]) {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	k := int(randN(int64(n)))
	for i := 0; i < nRun; i++ {
		if !stalled(runq[i]) {
			if k == 0 {
				return runq[i]
			}
			k--
		}
	}
	return nil
}

//go:norace
func pickPrio() *Task {
	var best *Task
	for i := 0; i < nRun; i++ {
		if !stalled(runq[i]) && (best == nil || runq[i].prio > best.prio) {
			best = runq[i]
		}
	}
	return best
}

//go:norace
func findRunnable(id int) *Task {
	for i := 0; i < nRun; i++ {
		if runq[i].ID == id {
			return runq[i]
		}
	}
	return nil
}

//go:norace
func pushRunq(t *Task) {
	runq[nRun] = t
	nRun++
}

//go:norace
func removeRunq(t *Task) {
	for i := 0; i < nRun; i++ {
		if runq[i] == t {
			for j := i; j+1 < nRun; j++ {
				runq[j] = runq[j+1]
			}
			nRun--
			runq[nRun] = nil
			return
		}
	}
}

// ready makes a blocked task runnable.
//
//go:norace
func ready(t *Task) {
	if t.state == stBlocked || t.state == stNew {
		t.state = stRunnable
		pushRunq(t)
	}
}

// pickNext chooses what runs after cur blocked, ended or gave way. It returns nil when the
// run has ended.
//
//go:norace
func pickNext(t *Task) *Task {
	for {
		if nRun == 0 {
			if idleq != nil {
				n := idleq
				idleq = n.next
				n.next = nil
				n.idle = false
				return n
			}
			if timers == nil {
				finish(Stuck, "every goroutine is blocked", "")
				return nil
			}
			idleJumps++
			if idleJumps > 2000 && !pendingTimer() {
				finish(Stuck, "no goroutine makes progress any more", "")
				return nil
			}
			if timers.at > now {
				now = timers.at
			}
			fireTimers()
			continue
		}
		def := runq[0]
		n := def
		idx := t.blocks
		t.blocks++
		if cfg.Replay {
			for t.bi < len(t.planB) && t.planB[t.bi].B < idx {
				t.bi++
			}
			if t.bi < len(t.planB) && t.planB[t.bi].B == idx {
				if x := findRunnable(int(t.planB[t.bi].C)); x != nil {
					n = x
				}
				t.bi++
			}
		} else {
			for i := 0; i < nRun; i++ { // oldest one not stalled
				if !stalled(runq[i]) {
					n = runq[i]
					break
				}
			}
			switch cfg.Policy {
			case PolicyNewest:
				for i := nRun - 1; i >= 0; i-- {
					if !stalled(runq[i]) {
						n = runq[i]
						break
					}
				}
			case PolicyRandom, PolicySync, PolicyShuffle:
				if x := pickRandom(); x != nil {
					n = x
				}
			case PolicyPriority:
				if x := pickPrio(); x != nil {
					n = x
				}
			}
		}
		if n != def {
			logDec('B', int64(t.ID), idx, int64(n.ID))
		}
		removeRunq(n)
		return n
	}
}

// switchTo transfers control from t to n; t continues when it is chosen again.
//
//go:norace
func switchTo(t, n *Task) {
	if n != t {
		switches++
		mix(&swHash, uint64(t.ID)<<32|uint64(n.ID))
		mix(&swHash, uint64(t.local))
	}
	if n.ID == 0 {
		idleJumps = 0
	}
	n.state = stRunning
	cur = n
	t.noPre = noPre
	noPre = n.noPre
	armPreempt()
	setBudget()
	if n == t {
		return
	}
	raceOff()
	n.wake <- struct{}{}
	if t.state != stDone {
		<-t.wake
	}
	raceOn()
	if t.state != stDone && t.killed {
		runtime.Goexit()
	}
}

// park blocks the running task until ready() is called on it.
//
//go:norace
func park() {
	if dying {
		runtime.Goexit()
	}
	account()
	t := cur
	t.state = stBlocked
	n := pickNext(t)
	if n == nil {
		return
	}
	switchTo(t, n)
}

// Gosched gives way to another runnable task.
//
//go:norace
func Gosched() {
	if !active {
		runtime.Gosched()
		return
	}
	if dying {
		runtime.Goexit()
	}
	budget -= 64 // a busy wait uses the step budget up quickly
	account()
	if total >= limit {
		finish(StepLimit, "step budget used up", string(debug.Stack()))
		return
	}
	fireTimers()
	t := cur
	if !cfg.Replay && cfg.Policy == PolicyPriority {
		lowPrio--
		t.prio = lowPrio
	}
	if nRun == 0 {
		setBudget()
		return
	}
	t.state = stRunnable
	// choose among the others, then queue this one
	n := pickNext(t)
	if n == nil {
		return
	}
	pushRunq(t)
	switchTo(t, n)
}

// SyncPoint is a yield at a synchronisation operation.
//
//go:norace
func SyncPoint() {
	if !active || dying {
		return
	}
	budget--
	if noPre > 0 {
		return
	}
	if budget <= 0 {
		slow()
		return
	}
	if !cfg.Replay && cfg.Policy == PolicySync {
		account()
		considerPreempt(true)
	}
}

// finish ends the run. It is called by the running task.
//
//go:norace
func finish(o Outcome, msg, stack string) {
	t := cur
	outcome, outMsg, outStack = o, msg, stack
	dying = true
	budget = math.MaxInt64
	raceOff()
	ctl <- struct{}{}
	if t.state != stDone {
		<-t.wake
	}
	raceOn()
	if t.state != stDone {
		runtime.Goexit()
	}
}

// NewTask registers a task about to be started by the running task.
//
//go:norace
func NewTask() *Task {
	if !active || dying {
		return nil
	}
	if nTasks >= maxTasks {
		Abort("too many goroutines for the simulator")
	}
	t := &Task{ID: nTasks, wake: make(chan struct{}), state: stNew}
	tasks[nTasks] = t
	nTasks++
	loadPlan(t)
	if !cfg.Replay {
		t.prio = int64(nextRand()>>2) + 1
	}
	ready(t)
	return t
}

//go:norace
func loadPlan(t *Task) {
	if !cfg.Replay {
		return
	}
	for i := range cfg.Plan {
		d := cfg.Plan[i]
		if d.A != int64(t.ID) {
			continue
		}
		if d.Kind == 'P' {
			t.planP = append(t.planP, d)
		} else if d.Kind == 'B' {
			t.planB = append(t.planB, d)
		}
	}
	planBytes += int64(cap(t.planP)+cap(t.planB)) * int64(unsafe.Sizeof(Decision{}))
}

var planBytes int64 // the plans of the tasks of this run

// Enter is called first by every goroutine started by the program under test.
//
//go:norace
func Enter(t *Task) func() {
	if t == nil {
		runtime.Goexit()
	}
	raceOff()
	<-t.wake
	raceOn()
	if t.killed {
		taskEnd(t)
		runtime.Goexit()
	}
	if !cfg.Replay && cfg.StallProb > 0 && t.ID > 1 {
		if randF() < cfg.StallProb {
			account()
			t.stallTo = total + randN(cfg.StallLen)
			DrawFired[DrawStall]++
			setBudget()
		}
	}
	return func() {
		r := recover()
		taskExit(t, r)
	}
}

//go:norace
func taskExit(t *Task, r any) {
	if dying {
		taskEnd(t)
		return
	}
	if r != nil {
		finishFrom(t, Panicked, fmt.Sprint(r), string(debug.Stack()))
		return
	}
	if t.ID == 0 {
		finishFrom(t, Done, "", "")
		return
	}
	account()
	t.state = stDone
	RaceRelease(unsafe.Pointer(&endSync))
	n := pickNext(t)
	if n == nil {
		return
	}
	switchTo(t, n)
}

//go:norace
func finishFrom(t *Task, o Outcome, msg, stack string) {
	account()
	t.state = stDone
	RaceRelease(unsafe.Pointer(&endSync))
	finish(o, msg, stack)
}

// taskEnd is the end of a killed task: it hands control back to the controller.
//
//go:norace
func taskEnd(t *Task) {
	t.state = stDone
	RaceRelease(unsafe.Pointer(&endSync))
	raceOff()
	ctl <- struct{}{}
	raceOn()
}

// Abort reports a limit of the simulator itself; the check must not treat it as a verdict.
func Abort(msg string) { panic("vsim: " + msg) }

type pkgInit struct {
	path string
	fn   func()
}

var pkgInits []pkgInit

// RegisterInit records a function that re-runs a package's variable initialisers.
func RegisterInit(path string, fn func()) { pkgInits = append(pkgInits, pkgInit{path, fn}) }

// Run executes main under the simulator and returns when it has ended and every task is gone.
//
//go:norace
func Run(c Config, main func()) Result {
	if active {
		panic("vsim: nested run")
	}
	if c.Tick <= 0 {
		c.Tick = 20
	}
	if c.MaxYields <= 0 {
		c.MaxYields = 1 << 33
	}
	cfg = c
	rng = c.Seed
	nTasks, nRun = 0, 0
	idleq, timers, timerSeq = nil, nil, 0
	total, now, wallOff = 0, 0, 1_700_000_000_000_000_000
	limit = c.MaxYields
	crashAt = 0
	outcome, outMsg, outStack, exitCode = Done, "", "", 0
	evHash, swHash, switches, preempts = 0, 0, 0, 0
	lowPrio = 0
	noPre = 0
	idleJumps = 0
	nChange = 0
	if logBuf == nil {
		logBuf = make([]Decision, maxLogSz)
	}
	nLog, logFull = 0, false
	for i := range planD {
		planD[i], planDi[i], drawIdx[i] = nil, 0, 0
		DrawFired[i] = 0
	}
	for _, d := range c.Plan {
		if d.Kind == 'D' && c.Replay && d.A >= 0 && d.A < NumDraws {
			planD[d.A] = append(planD[d.A], d)
		}
	}
	if !c.Replay && c.Policy == PolicyPriority {
		nChange = c.Changes
		if nChange > len(changeAt) {
			nChange = len(changeAt)
		}
		for i := 0; i < nChange; i++ {
			changeAt[i] = 1 + randN(c.EstYields+1)
		}
		for i := 1; i < nChange; i++ { // descending
			for j := i; j > 0 && changeAt[j] > changeAt[j-1]; j-- {
				changeAt[j], changeAt[j-1] = changeAt[j-1], changeAt[j]
			}
		}
	}
	resetChans()
	outBuf, planBytes = nil, 0
	dying = false
	active = true
	RaceAcquire(unsafe.Pointer(&endSync))

	t := NewTask()
	go func() {
		defer Enter(t)()
		for _, p := range pkgInits {
			p.fn()
		}
		main()
	}()
	removeRunq(t)
	cur = t
	t.state = stRunning
	armPreempt()
	setBudget()
	raceOff()
	t.wake <- struct{}{}
	<-ctl
	raceOn()

	for i := 0; i < nTasks; i++ {
		t := tasks[i]
		if t.state != stDone {
			t.killed = true
			cur = t
			raceOff()
			t.wake <- struct{}{}
			<-ctl
			raceOn()
		}
	}
	RaceAcquire(unsafe.Pointer(&endSync))
	active, dying = false, false
	budget = math.MaxInt64
	cur = nil
	r := Result{Outcome: outcome, Msg: outMsg, Stack: outStack, ExitCode: exitCode, Yields: total, SimTime: now,
		Switches: switches, Preempts: preempts, Tasks: nTasks, PlanFull: logFull, EventHash: evHash, SwHash: swHash, Fired: DrawFired}
	r.Plan = make([]Decision, nLog)
	copy(r.Plan, logBuf[:nLog])
	for i := 0; i < nTasks; i++ {
		tasks[i] = nil
	}
	return r
}

// Fail reports a violation and ends the run.
func Fail(format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if !active {
		panic("vsim: Fail outside a run: " + msg)
	}
	if dying {
		runtime.Goexit()
	}
	account()
	finish(Failed, msg, "")
}

// Exit ends the simulated process.
func Exit(code int, msg string) {
	if dying {
		runtime.Goexit()
	}
	account()
	exitCode = code
	finish(Exited, msg, "")
}

// CrashNow kills the simulated process at this instant.
func CrashNow(msg string) {
	if dying {
		runtime.Goexit()
	}
	account()
	finish(Crashed, msg, "")
}

// CrashAfter arms a process kill n yields from now.
//
//go:norace
func CrashAfter(n int64) {
	account()
	crashAt = total + n
	setBudget()
}

// Atomic runs f without preemption and without consuming simulated time. If f blocks, other tasks run as usual.
//
//go:norace
func Atomic(f func()) {
	if !active || dying {
		f()
		return
	}
	account()
	noPre++
	setBudget()
	defer atomicEnd()
	f()
}

//go:norace
func atomicEnd() {
	noPre--
	if !dying {
		setBudget()
	}
}

// WaitIdle blocks the caller until no other task can run without time passing.
//
//go:norace
func WaitIdle() {
	if dying {
		runtime.Goexit()
	}
	if !active {
		return
	}
	account()
	t := cur
	t.state = stBlocked
	t.idle = true
	t.next = idleq
	idleq = t
	n := pickNext(t)
	if n == nil {
		return
	}
	switchTo(t, n)
}

// Draw makes a fault decision of class k with n alternatives: 0 is the default behaviour.
//
//go:norace
func Draw(k int, n int64) int64 {
	if !active || dying || noPre > 0 {
		return 0
	}
	idx := drawIdx[k]
	drawIdx[k]++
	var v int64
	if cfg.Replay {
		p := planD[k]
		for planDi[k] < len(p) && p[planDi[k]].B < idx {
			planDi[k]++
		}
		if planDi[k] < len(p) && p[planDi[k]].B == idx {
			v = p[planDi[k]].C
			if v >= n {
				v = n - 1
			}
		}
	} else if n > 1 && cfg.FaultProb[k] > 0 && randF() < cfg.FaultProb[k] {
		v = 1 + randN(n-1)
	}
	if v != 0 {
		logDec('D', int64(k), idx, v)
		DrawFired[k]++
	}
	return v
}

// SetFaultProb changes the probability of a draw class during a generated run.
//
//go:norace
func SetFaultProb(k int, p float64) { cfg.FaultProb[k] = p }

// CurID is the running task's number.
//
//go:norace
func CurID() int {
	if cur == nil {
		return -1
	}
	return cur.ID
}

// Now is the simulated monotonic clock in nanoseconds.
//
//go:norace
func Now() int64 {
	if active && !dying && noPre == 0 {
		account()
	}
	return now
}

// Wall is the simulated wall clock in Unix nanoseconds.
//
//go:norace
func Wall() int64 { return Now() + wallOff }

// JumpWall moves the wall clock.
//
//go:norace
func JumpWall(d int64) { wallOff += d }

// Yields is the number of yields so far.
//
//go:norace
func Yields() int64 {
	if active && !dying && noPre == 0 {
		account()
	}
	return total
}

// Advance lets simulated time pass while the running task computes.
//
//go:norace
func Advance(d int64) {
	if !active || dying || noPre > 0 {
		return
	}
	account()
	now += d
	fireTimers()
	setBudget()
}

// Fatal ends the simulated process as an unrecoverable runtime error does.
func Fatal(msg string) {
	if dying {
		runtime.Goexit()
	}
	account()
	finish(Panicked, "fatal error: "+msg, string(debug.Stack()))
}
