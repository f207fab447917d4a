package vsim

import (
	"fmt"
	"runtime"
	"sort"
	"unsafe"
)

// ---- timers ----

type timer struct {
	at, seq int64
	period  int64
	fire    func()
	task    *Task
	stopped bool
	next    *timer
}

// Timer is a handle on a simulated timer.
type Timer = timer

//go:norace
func addTimer(t *timer) {
	timerSeq++
	t.seq = timerSeq
	t.stopped = false
	p := &timers
	for *p != nil && ((*p).at < t.at || ((*p).at == t.at && (*p).seq < t.seq)) {
		p = &(*p).next
	}
	t.next = *p
	*p = t
}

//go:norace
func delTimer(t *timer) bool {
	for p := &timers; *p != nil; p = &(*p).next {
		if *p == t {
			*p = t.next
			t.next = nil
			return true
		}
	}
	return false
}

// pendingTimer reports whether any armed timer is more than a ticker.
//
//go:norace
func pendingTimer() bool {
	for t := timers; t != nil; t = t.next {
		if t.period == 0 {
			return true
		}
	}
	return false
}

//go:norace
func fireTimers() {
	for timers != nil && timers.at <= now {
		t := timers
		timers = t.next
		t.next = nil
		if t.period > 0 && !t.stopped {
			t.at += t.period
			if t.at <= now {
				t.at = now + t.period
			}
			addTimer(t)
		} else {
			idleJumps = 0
		}
		if t.task != nil {
			ready(t.task)
		}
		if t.fire != nil {
			raceOff()
			t.fire()
			raceOn()
		}
	}
}

// NewTimer arms a timer that calls fire (which must not block) after d, and then every
// period if that is positive.
//
//go:norace
func NewTimer(d, period int64, fire func()) *Timer {
	t := &timer{at: Now() + d, period: period, fire: fire}
	if d < 0 {
		t.at = now
	}
	addTimer(t)
	rearm()
	return t
}

//go:norace
func rearm() {
	if active && !dying && noPre == 0 {
		setBudget()
	}
}

// Stop disarms a timer and reports whether it was armed.
//
//go:norace
func (t *timer) Stop() bool {
	t.stopped = true
	ok := delTimer(t)
	Now()
	rearm()
	return ok
}

// Reset re-arms a timer.
//
//go:norace
func (t *timer) Reset(d, period int64) bool {
	ok := delTimer(t)
	t.at = Now() + d
	t.period = period
	addTimer(t)
	rearm()
	return ok
}

// Sleep blocks the running task for d nanoseconds of simulated time.
//
//go:norace
func Sleep(d int64) {
	if dying {
		runtime.Goexit()
	}
	if !active {
		return
	}
	if d <= 0 {
		SyncPoint()
		return
	}
	addTimer(&timer{at: Now() + d, task: cur})
	park()
}

// Spawn starts f as a new task (used by shims).
//
//go:norace
func Spawn(f func()) {
	t := NewTask()
	go spawned(t, f)
}

func spawned(t *Task, f func()) {
	defer Enter(t)()
	f()
}

// ---- wait queues ----

type waiter struct {
	t     *Task
	epoch uint64
	ptr   unsafe.Pointer // where to put or take the value (unbuffered hand-off)
	ix    int            // select case
	next  *waiter
}

type waitq struct{ head, tail *waiter }

//go:norace
func (q *waitq) push(w *waiter) {
	if q.tail == nil {
		q.head = w
	} else {
		q.tail.next = w
	}
	q.tail = w
}

//go:norace
func (q *waitq) pop() *waiter {
	for q.head != nil {
		w := q.head
		q.head = w.next
		if q.head == nil {
			q.tail = nil
		}
		if w.epoch == w.t.epoch && w.t.state == stBlocked && !w.t.fired {
			return w
		}
	}
	return nil
}

//go:norace
func (q *waitq) wakeOne() {
	if w := q.pop(); w != nil {
		w.t.epoch++
		ready(w.t)
	}
}

//go:norace
func (q *waitq) wakeAll() {
	for {
		w := q.pop()
		if w == nil {
			return
		}
		w.t.epoch++
		ready(w.t)
	}
}

// WaitQ is a queue of blocked tasks, for shims.
type WaitQ struct{ q waitq }

// Wait blocks the running task until it is woken.
//
//go:norace
func (q *WaitQ) Wait() {
	cur.epoch++
	cur.fired = false
	q.q.push(&waiter{t: cur, epoch: cur.epoch})
	park()
}

// WakeOne wakes the oldest waiter.
//
//go:norace
func (q *WaitQ) WakeOne() { q.q.wakeOne() }

// WakeAll wakes all waiters.
//
//go:norace
func (q *WaitQ) WakeAll() { q.q.wakeAll() }

// ---- channels ----

type chanState struct {
	ptr          unsafe.Pointer
	closed       bool
	recvq, sendq waitq
}

const chanSlots = 1 << 14

var (
	chanTab  [chanSlots]*chanState
	chanUsed [chanSlots]int
	nChans   int
)

//go:norace
func resetChans() {
	for i := 0; i < nChans; i++ {
		chanTab[chanUsed[i]] = nil
	}
	nChans, chanBytes = 0, 0
}

// chanBytes is the memory of the channels that are kept because their states are.
var chanBytes int64

//go:norace
func stateOf(p unsafe.Pointer) *chanState {
	h := (uintptr(p) >> 4) * 0x9e3779b1 % chanSlots
	for {
		s := chanTab[h]
		if s == nil {
			if nChans > chanSlots/2 {
				Abort("too many channels for the simulator")
			}
			s = &chanState{ptr: p}
			chanTab[h] = s
			chanUsed[nChans] = int(h)
			nChans++
			if p != nil { // the header of a channel: its length, capacity, buffer and element size
				n := 96 + *(*uint)(unsafe.Add(p, 8))*uint(*(*uint16)(unsafe.Add(p, 24)))
				chanBytes += int64(n+n/16) + int64(unsafe.Sizeof(*s))
			}
			return s
		}
		if s.ptr == p {
			return s
		}
		h = (h + 1) % chanSlots
	}
}

//go:norace
func ptrOf[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func blockOn(q *waitq, ptr unsafe.Pointer, ix int) {
	q.push(&waiter{t: cur, epoch: cur.epoch, ptr: ptr, ix: ix})
}

//go:norace
func prepare() {
	cur.epoch++
	cur.fired = false
}

// fire completes a hand-off with a waiter.
//
//go:norace
func fire(w *waiter, ok bool) {
	w.t.fired = true
	w.t.firedOK = ok
	w.t.firedIx = w.ix
	w.t.epoch++
	ready(w.t)
}

func trySend[T any](ch chan<- T, v T) bool {
	select {
	case ch <- v:
		return true
	default:
		return false
	}
}

func tryRecv[T any](ch <-chan T) (v T, ok, done bool) {
	select {
	case v, ok = <-ch:
		return v, ok, true
	default:
		return v, false, false
	}
}

//go:norace
func put[T any](p unsafe.Pointer, v T) { *(*T)(p) = v }

//go:norace
func get[T any](p unsafe.Pointer) T { return *(*T)(p) }

//go:norace
func woken() (bool, bool, int) { return cur.fired, cur.firedOK, cur.firedIx }

// SendTo returns a function that performs ch <- v.
func SendTo[T any](ch chan<- T) func(T) { return func(v T) { send(ch, v) } }

func send[T any](ch chan<- T, v T) {
	if !Active() {
		if Dying() {
			trySend(ch, v)
			return
		}
		ch <- v
		return
	}
	SyncPoint()
	p := ptrOf(ch)
	if p == nil {
		prepare()
		park()
		return
	}
	st := stateOf(p)
	if cap(ch) > 0 {
		for {
			if st.closed {
				panic(fmt.Errorf("send on closed channel"))
			}
			if trySend(ch, v) {
				st.recvq.wakeOne()
				return
			}
			prepare()
			blockOn(&st.sendq, nil, 0)
			park()
		}
	}
	for {
		if st.closed {
			panic(fmt.Errorf("send on closed channel"))
		}
		if w := st.recvq.pop(); w != nil {
			RaceRelease(p)
			put(w.ptr, v)
			fire(w, true)
			RaceAcquire(p)
			return
		}
		box := new(T)
		put(unsafe.Pointer(box), v)
		RaceRelease(p)
		prepare()
		blockOn(&st.sendq, unsafe.Pointer(box), 0)
		park()
		if f, _, _ := woken(); f {
			RaceAcquire(p)
			return
		}
	}
}

// Recv performs <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 performs v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	if !Active() {
		if Dying() {
			v, ok, done := tryRecv(ch)
			if !done {
				runtime.Goexit()
			}
			return v, ok
		}
		v, ok = <-ch
		return
	}
	SyncPoint()
	p := ptrOf(ch)
	if p == nil {
		prepare()
		park()
		return
	}
	st := stateOf(p)
	if cap(ch) > 0 {
		for {
			v, ok, done := tryRecv(ch)
			if done {
				if ok {
					st.sendq.wakeOne()
				}
				return v, ok
			}
			prepare()
			blockOn(&st.recvq, nil, 0)
			park()
		}
	}
	for {
		if w := st.sendq.pop(); w != nil {
			RaceAcquire(p)
			v = get[T](w.ptr)
			fire(w, true)
			RaceRelease(p)
			return v, true
		}
		if v, ok, done := tryRecv(ch); done { // closed
			return v, ok
		}
		box := new(T)
		RaceRelease(p)
		prepare()
		blockOn(&st.recvq, unsafe.Pointer(box), 0)
		park()
		if f, ok, _ := woken(); f {
			RaceAcquire(p)
			return get[T](unsafe.Pointer(box)), ok
		}
	}
}

// R3 starts a range over a channel: it returns the channel and its first element.
func R3[T any](ch <-chan T) (<-chan T, T, bool) {
	v, ok := Recv2(ch)
	return ch, v, ok
}

// RecvInto receives into *p and reports whether the channel is still open.
func RecvInto[T any](ch <-chan T, p *T) bool {
	v, ok := Recv2(ch)
	if ok {
		*p = v
	}
	return ok
}

// Close performs close(ch).
func Close[T any](ch chan<- T) {
	if !Active() {
		close(ch)
		return
	}
	SyncPoint()
	if p := ptrOf(ch); p != nil {
		st := stateOf(p)
		if !st.closed {
			st.closed = true
			close(ch)
			st.recvq.wakeAll()
			st.sendq.wakeAll()
			return
		}
	}
	close(ch) // panics
}

// ---- select ----

// Case is one communication of a select.
type Case interface {
	try() bool
	enqueue(ix int)
	complete(ok bool)
}

// RecvCase is a receive communication.
type RecvCase[T any] struct {
	ch  <-chan T
	V   T
	OK  bool
	box *T
}

// CR makes a receive case.
func CR[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (c *RecvCase[T]) try() bool {
	p := ptrOf(c.ch)
	if p == nil {
		return false
	}
	st := stateOf(p)
	if cap(c.ch) == 0 {
		if w := st.sendq.pop(); w != nil {
			RaceAcquire(p)
			c.V, c.OK = get[T](w.ptr), true
			fire(w, true)
			RaceRelease(p)
			return true
		}
	}
	v, ok, done := tryRecv(c.ch)
	if done {
		c.V, c.OK = v, ok
		if ok {
			st.sendq.wakeOne()
		}
	}
	return done
}

func (c *RecvCase[T]) enqueue(ix int) {
	p := ptrOf(c.ch)
	if p == nil {
		return
	}
	c.box = new(T)
	RaceRelease(p)
	blockOn(&stateOf(p).recvq, unsafe.Pointer(c.box), ix)
}

func (c *RecvCase[T]) complete(ok bool) {
	RaceAcquire(ptrOf(c.ch))
	c.V, c.OK = get[T](unsafe.Pointer(c.box)), ok
}

type sendCase[T any] struct {
	ch  chan<- T
	v   T
	box *T
}

// CS makes a send case.
func CS[T any](ch chan<- T) func(T) Case { return func(v T) Case { return &sendCase[T]{ch: ch, v: v} } }

func (c *sendCase[T]) try() bool {
	p := ptrOf(c.ch)
	if p == nil {
		return false
	}
	st := stateOf(p)
	if st.closed {
		panic(fmt.Errorf("send on closed channel"))
	}
	if cap(c.ch) == 0 {
		if w := st.recvq.pop(); w != nil {
			RaceRelease(p)
			put(w.ptr, c.v)
			fire(w, true)
			RaceAcquire(p)
			return true
		}
		return false
	}
	if trySend(c.ch, c.v) {
		st.recvq.wakeOne()
		return true
	}
	return false
}

func (c *sendCase[T]) enqueue(ix int) {
	p := ptrOf(c.ch)
	if p == nil {
		return
	}
	c.box = new(T)
	put(unsafe.Pointer(c.box), c.v)
	RaceRelease(p)
	blockOn(&stateOf(p).sendq, unsafe.Pointer(c.box), ix)
}

func (c *sendCase[T]) complete(ok bool) { RaceAcquire(ptrOf(c.ch)) }

// Select performs a select and returns the index of the chosen case, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	if !Active() {
		runtime.Goexit()
	}
	SyncPoint()
	for {
		start := 0
		if len(cases) > 1 {
			start = int(Draw(DrawSelect, int64(len(cases))))
		}
		for k := range cases {
			ix := (start + k) % len(cases)
			if cases[ix].try() {
				return ix
			}
		}
		if hasDefault {
			return -1
		}
		prepare()
		for ix, c := range cases {
			c.enqueue(ix)
		}
		park()
		if f, ok, ix := woken(); f {
			cases[ix].complete(ok)
			return ix
		}
	}
}

// MapKeys returns the keys of m in an order the simulator decides.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	s := make([]string, len(keys))
	ix := make([]int, len(keys))
	for i, k := range keys {
		s[i] = fmt.Sprint(k)
		ix[i] = i
	}
	sort.SliceStable(ix, func(a, b int) bool { return s[ix[a]] < s[ix[b]] })
	out := make([]K, len(keys))
	rot := 0
	if len(keys) > 1 {
		rot = int(Draw(DrawMap, int64(len(keys))))
	}
	for i := range ix {
		out[i] = keys[ix[(i+rot)%len(ix)]]
	}
	return out
}

// M5 starts a range over a map.
func M5[M ~map[K]V, K comparable, V any](m M) (M, []K, int, K, V) {
	var k K
	var v V
	return m, MapKeys(m), 0, k, v
}
