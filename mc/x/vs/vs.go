//go:build go1.23

// Package vs is a cooperative scheduler and stateless explorer for instrumented
// Go code. Exactly one instrumented goroutine ("thread") runs at a time; at each
// synchronisation operation the running thread decides, by the explorer's
// choice sequence, who runs next. The package is always compiled without race
// instrumentation (-gcflags=...=-race=false) and its hand-offs are hidden from
// the race detector, so that in a -race build every explored schedule is also
// checked for data races with only the program's own happens-before edges.
package vs

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"unsafe"
)

// Kind of a pending operation.
type Kind uint8

const (
	KPoint Kind = iota // always enabled scheduling point
	KStart
	KWait // enabled when w.Ready(kind,arg)
	KSend
	KRecv
	KSelect
	KIdle // enabled when no other thread is enabled
	KJoin
	KDead
)

// Waitable is something a thread can wait for.
type Waitable interface{ Ready(arg int) bool }

// Thread is one instrumented goroutine.
type Thread struct {
	ID        int
	Name      string
	Essential bool
	resume    chan struct{}
	kind      Kind
	w         Waitable
	arg       int
	ch        unsafe.Pointer
	sel       []SelCase
	selDef    bool
	selIdx    int
	completed bool           // rendezvous completed by partner
	xfer      unsafe.Pointer // value box of a rendezvous
	dead      bool
	killed    bool
	crashed   bool // killed by its own simulated process crash
	what      string
	tokIn     uint64
	tokOut    uint64
}

// SelCase is a select case: a channel and a direction.
type SelCase struct {
	Ch   unsafe.Pointer
	Send bool
	box  unsafe.Pointer
}

// Choice is one decision of an execution.
type Choice struct {
	N    uint16 // number of alternatives
	C    uint16 // taken
	Cost uint8  // deviation cost of alternatives other than 0
}

// Exec is one execution.
type Exec struct {
	threads  []*Thread
	prefix   []uint16
	Trace    []Choice
	Steps    int
	Switches int
	fin      chan struct{}
	gone     chan struct{} // acknowledges a kill
	failure  *Failure
	diverged string
	now      int64 // virtual nanoseconds since Epoch0
	timers   []*timer
	idleFire int
	last     *Thread // the thread that ran last, and for how many steps in a row
	run      int
	nows     int // readings of the clock since the last step
	opts     Options
	verbose  bool
	log      []logLine
	joinTok  uint64
	killTok  uint64
	ended    bool
	seq      int
	hash     uint64
	Obs      []string // observation recorded by the scenario, for determinism checks
}

// Options of an execution.
type Options struct {
	StepLimit int
	IdleLimit int
	Verbose   bool
	Delay     bool // delay bounding: also a switch to another than the first ready thread at a blocking point counts
}

// Failure is a property violation found in one execution.
type Failure struct {
	Msg   string
	Stack string
}

type failPanic struct{ msg string }

var (
	cur *Thread // running thread, nil outside executions
	ex  *Exec
)

// Cur returns the running thread or nil.
func Cur() *Thread { return cur }

// Active reports whether an execution is running and the current thread may block.
//
//go:noinline
func Active() bool { return cur != nil && !cur.killed }

// Killed reports whether the current thread is being killed.
//
//go:noinline
func Killed() bool { return cur != nil && cur.killed }

// Fail reports a violation of the property under check and ends the execution.
func Fail(format string, a ...interface{}) {
	panic(failPanic{fmt.Sprintf(format, a...)})
}

// UnlockPoints is set by packages that use TryLock: only with it does it matter
// when a lock is released, besides the order of the critical sections.
var UnlockPoints bool

// Point is a plain scheduling point.
//
//go:noinline
func Point(what string) {
	t := cur
	if t == nil || t.killed {
		return
	}
	t.kind = KPoint
	t.what = what
	ex.yield(t)
}

// Block waits until w.Ready(arg) and is a scheduling point.
//
//go:noinline
func Block(what string, w Waitable, arg int) {
	t := cur
	if t == nil || t.killed {
		return
	}
	t.kind = KWait
	t.w = w
	t.arg = arg
	t.what = what
	ex.yield(t)
	t.w = nil
}

// WaitIdle returns when no other thread can run (timers excluded).
//
//go:noinline
func WaitIdle() {
	t := cur
	t.kind = KIdle
	t.what = "idle"
	ex.yield(t)
	acquire(unsafe.Pointer(&ex.killTok))
}

// JoinAll waits for all other essential threads to end.
//
//go:noinline
func JoinAll() {
	t := cur
	t.kind = KJoin
	t.what = "join"
	ex.yield(t)
	acquire(unsafe.Pointer(&ex.joinTok))
}

// Choose makes a nondeterministic choice among n alternatives; alternatives
// other than 0 cost that many deviations.
//
//go:noinline
func Choose(n int, cost int, what string) int {
	t := cur
	if t == nil || t.killed || n <= 1 {
		return 0
	}
	c := ex.choose(n, cost)
	if ex.verbose {
		ex.logf("T%d choose %s -> %d of %d", t.ID, what, c, n)
	}
	return c
}

// Note adds a line to the trace of a verbose replay.
//
//go:noinline
func Note(format string, a ...interface{}) {
	if ex != nil && ex.verbose {
		ex.logf(format, a...)
	}
}

// Verbose reports whether the execution is a verbose replay.
func Verbose() bool { return ex != nil && ex.verbose }

// logf keeps a line for rendering after the execution: formatting in the
// threads would synchronise them (package fmt pools its buffers).
func (x *Exec) logf(format string, a ...interface{}) {
	if len(x.log) < 4000 {
		x.log = append(x.log, logLine{format, a})
	}
}

type logLine struct {
	format string
	args   []interface{}
}

// Log returns the trace of a verbose execution.
func (x *Exec) Log() []string {
	var l []string
	for _, e := range x.log {
		l = append(l, fmt.Sprintf(e.format, e.args...))
	}
	return l
}

func (x *Exec) choose(n int, cost int) int {
	if n > 60000 {
		panic("vs: too many alternatives")
	}
	i := len(x.Trace)
	c := 0
	if i < len(x.prefix) {
		c = int(x.prefix[i])
		if c >= n {
			if x.diverged == "" {
				x.diverged = fmt.Sprintf("choice %d: prefix wants %d but only %d alternatives", i, c, n)
			}
			c = 0
		}
	}
	x.Trace = append(x.Trace, Choice{uint16(n), uint16(c), uint8(cost)})
	x.hash = (x.hash ^ uint64(n)<<16 ^ uint64(c)) * 1099511628211
	return c
}

func (x *Exec) enabled(t *Thread) bool {
	if t.dead {
		return false
	}
	switch t.kind {
	case KPoint, KStart:
		return true
	case KWait:
		return t.w.Ready(t.arg)
	case KSend, KRecv:
		return t.completed || x.chanReady(t, SelCase{Ch: t.ch, Send: t.kind == KSend})
	case KSelect:
		if t.completed || t.selDef {
			return true
		}
		for _, c := range t.sel {
			if x.chanReady(t, c) {
				return true
			}
		}
		return false
	case KJoin:
		for _, o := range x.threads {
			if o != t && o.Essential && !o.dead {
				return false
			}
		}
		return true
	case KIdle:
		for _, o := range x.threads {
			if o != t && !o.dead && o.kind != KIdle && x.enabled(o) {
				return false
			}
		}
		return true
	}
	return false
}

// pick decides which thread runs next; from is the thread that just stopped.
func (x *Exec) pick(from *Thread) *Thread {
	for {
		var buf [16]*Thread
		en := buf[:0]
		fromEnabled := !from.dead && x.enabled(from)
		if fromEnabled {
			en = append(en, from)
		}
		for _, t := range x.threads {
			if t != from && x.enabled(t) {
				en = append(en, t)
			}
		}
		if len(en) == 0 {
			// only time can make something happen
			if len(x.timers) == 0 || x.idleFire >= x.opts.IdleLimit {
				return nil
			}
			x.idleFire++
			x.fireNext()
			continue
		}
		if from != x.last {
			x.last, x.run = from, 0
		}
		x.run++
		if x.run > x.opts.StepLimit/20 && fromEnabled {
			// Fairness: a thread that waits actively lets the others, or the
			// time, move on; only if that does not help either it is a livelock.
			x.run = 0
			if len(en) == 1 && len(x.timers) > 0 {
				x.fireNext()
				continue
			}
			if len(en) > 1 {
				t := en[1]
				for _, o := range en[1:] {
					if o.ID > from.ID {
						t = o
						break
					}
				}
				x.idleFire = 0
				if t.kind == KSelect && !t.completed {
					x.pickSelect(t)
				}
				return t
			}
		}
		i := 0
		if len(en) > 1 {
			cost := 0
			if fromEnabled || x.opts.Delay {
				cost = 1
			}
			i = x.choose(len(en), cost)
		}
		t := en[i]
		if t.Essential {
			x.idleFire = 0
		}
		if t.kind == KSelect && !t.completed {
			x.pickSelect(t)
		}
		return t
	}
}

func (x *Exec) pickSelect(t *Thread) {
	var buf [16]int
	ready := buf[:0]
	for i, c := range t.sel {
		if x.chanReady(t, c) {
			ready = append(ready, i)
		}
	}
	switch len(ready) {
	case 0:
		t.selIdx = -1
	case 1:
		t.selIdx = ready[0]
	default:
		t.selIdx = ready[x.choose(len(ready), 0)]
	}
}

// yield parks t with its pending operation and returns when it is scheduled.
func (x *Exec) yield(t *Thread) {
	x.Steps++
	x.nows = 0
	if x.Steps > x.opts.StepLimit {
		x.fail(fmt.Sprintf("no progress: execution exceeded %d steps (livelock)", x.opts.StepLimit), "")
		x.park(t)
		return
	}
	if raceEnabled {
		releaseMerge(unsafe.Pointer(&x.killTok))
	}
	next := x.pick(t)
	if x.verbose {
		x.logf("T%d(%s) at %s; next %v", t.ID, t.Name, t.what, next)
	}
	if next == t {
		return
	}
	if next == nil {
		x.fail("deadlock: "+x.describe(), "")
		x.park(t)
		return
	}
	x.Switches++
	x.handoff(t, next)
}

func (t *Thread) String() string {
	if t == nil {
		return "none"
	}
	return fmt.Sprintf("T%d(%s)", t.ID, t.Name)
}

func (x *Exec) describe() string {
	s := ""
	for _, t := range x.threads {
		if !t.dead {
			k := ""
			if t.Essential {
				k = "*"
			}
			s += fmt.Sprintf("[%s%s waits at %s] ", t.Name, k, t.what)
		}
	}
	return s
}

func (x *Exec) handoff(t, next *Thread) {
	cur = next
	raceDisable()
	next.resume <- struct{}{}
	<-t.resume
	raceEnable()
	x.wake(t)
}

// park stops t for good (until it is killed).
func (x *Exec) park(t *Thread) {
	raceDisable()
	x.finish()
	<-t.resume
	raceEnable()
	x.wake(t)
}

func (x *Exec) wake(t *Thread) {
	if t.killed {
		acquire(unsafe.Pointer(&x.killTok))
		runtime.Goexit()
	}
}

func (x *Exec) fail(msg, stack string) {
	if x.failure == nil {
		x.failure = &Failure{Msg: msg, Stack: stack}
	}
}

func (x *Exec) finish() {
	if !x.ended {
		x.ended = true
		cur = nil
		x.fin <- struct{}{}
	}
}

// newThread registers a thread; f runs when it is first scheduled.
func (x *Exec) newThread(name string, essential bool, f func()) *Thread {
	t := &Thread{ID: len(x.threads), Name: name, Essential: essential, resume: make(chan struct{}, 1), kind: KStart, what: "start"}
	x.threads = append(x.threads, t)
	go x.main(t, f)
	return t
}

func (x *Exec) main(t *Thread, f func()) {
	raceDisable()
	<-t.resume
	raceEnable()
	normal := false
	defer func() {
		r := recover()
		if r != nil && !t.killed {
			if fp, ok := r.(failPanic); ok {
				x.fail(fp.msg, string(debug.Stack()))
			} else {
				x.fail(fmt.Sprintf("panic in %s: %v", t.Name, r), string(debug.Stack()))
			}
		} else if !normal && !t.killed && r == nil {
			// runtime.Goexit by the code under test: treated as the thread's end
			_ = normal
		}
		t.dead = true
		t.kind = KDead
		releaseMerge(unsafe.Pointer(&x.joinTok))
		releaseMerge(unsafe.Pointer(&x.killTok))
		raceDisable()
		if t.killed && !t.crashed {
			x.gone <- struct{}{}
			raceEnable()
			return
		}
		done := x.failure != nil || x.ended
		if !done {
			done = true
			for _, o := range x.threads {
				if o.Essential && !o.dead {
					done = false
				}
			}
		}
		if done {
			x.finish()
		} else {
			next := x.pick(t)
			if next == nil {
				x.fail("deadlock: "+x.describe(), "")
				x.finish()
			} else {
				if x.verbose {
					x.logf("T%d(%s) ends; next %v", t.ID, t.Name, next)
				}
				cur = next
				next.resume <- struct{}{}
			}
		}
		raceEnable()
	}()
	if t.killed {
		acquire(unsafe.Pointer(&x.killTok))
		return
	}
	f()
	normal = true
}

type crash struct{}

// Crash ends the current thread because the simulated process dies in it. A
// dying process runs no deferred functions: what they do here has no effect, and
// their panics are ignored.
//
//go:noinline
func Crash() {
	cur.killed, cur.crashed = true, true
	panic(crash{})
}

// Go starts a daemon thread (instrumented go statements end here).
//
//go:noinline
func Go(f func()) {
	t := cur
	if t == nil || t.killed {
		return // outside executions nothing runs in the background
	}
	ex.newThread("go"+strconv.Itoa(len(ex.threads)), false, f)
}

// Spawn starts an essential thread of the harness.
//
//go:noinline
func Spawn(name string, f func()) {
	ex.newThread(name, true, f)
}

// Alive is the number of goroutines there are.
func Alive() (n int) {
	for _, t := range ex.threads {
		if !t.dead {
			n++
		}
	}
	return
}

// KillOthers kills all threads except the current one (a simulated process end).
// Deferred functions of the killed threads run with all operations inert.
//
//go:noinline
func KillOthers() {
	me := cur
	x := ex
	raceDisable()
	for i := 0; i < len(x.threads); i++ {
		t := x.threads[i]
		if t == me || t.dead {
			continue
		}
		x.kill(t)
	}
	cur = me
	raceEnable()
	acquire(unsafe.Pointer(&x.killTok))
	x.timers = nil
}

func (x *Exec) kill(t *Thread) {
	t.killed = true
	cur = t
	t.resume <- struct{}{}
	<-x.gone
	cur = nil
}

// Run performs one execution.
func Run(prefix []uint16, opts Options, body func()) *Exec {
	if opts.StepLimit == 0 {
		opts.StepLimit = 20000
	}
	if opts.IdleLimit == 0 {
		opts.IdleLimit = 60
	}
	x := &Exec{prefix: prefix, opts: opts, verbose: opts.Verbose, fin: make(chan struct{}, 1), gone: make(chan struct{}, 1), hash: 14695981039346656037}
	x.Trace = make([]Choice, 0, len(prefix)+32)
	ex = x
	r0 := raceErrors()
	x.newThread("main", true, body)
	raceDisable()
	cur = x.threads[0]
	x.threads[0].resume <- struct{}{}
	<-x.fin
	cur = nil
	for i := 0; i < len(x.threads); i++ {
		if t := x.threads[i]; !t.dead {
			x.kill(t)
		}
	}
	raceEnable()
	acquire(unsafe.Pointer(&x.joinTok))
	if n := raceErrors() - r0; n > 0 && x.failure == nil {
		x.failure = &Failure{Msg: "data race"}
	}
	for _, f := range endHooks {
		f()
	}
	ex = nil
	if x.diverged == "" && len(x.Trace) < len(prefix) && x.failure == nil {
		x.diverged = fmt.Sprintf("execution ended after %d choices, prefix has %d", len(x.Trace), len(prefix))
	}
	return x
}

// Failure returns the violation found, if any.
func (x *Exec) Failure() *Failure { return x.failure }

// Diverged returns a description if the execution left its prefix.
func (x *Exec) Diverged() string { return x.diverged }

// Hash identifies the choice structure of the execution.
func (x *Exec) Hash() uint64 { return x.hash ^ uint64(x.Steps)<<32 }

var endHooks []func()

// AtEnd registers a function called after every execution.
func AtEnd(f func()) { endHooks = append(endHooks, f) }

// Observe records something for the determinism check and outcome counting.
//
//go:noinline
func Observe(s string) {
	if ex != nil {
		ex.Obs = append(ex.Obs, s)
	}
}

// Cost returns the deviations spent in a trace.
func Cost(tr []Choice) int {
	n := 0
	for _, c := range tr {
		if c.C != 0 {
			n += int(c.Cost)
		}
	}
	return n
}

var resets []func()

// RegisterReset registers a package's re-initialisation function.
func RegisterReset(f func()) { resets = append(resets, f) }

// ResetAll re-initialises all instrumented packages, in dependency order.
func ResetAll() {
	for _, f := range resets {
		f()
	}
}

// Fatal records an unrecoverable error (a runtime throw) and stops the thread.
func Fatal(msg string) {
	t := cur
	if t == nil {
		panic(msg)
	}
	if t.killed {
		return
	}
	ex.fail(msg, string(debug.Stack()))
	ex.park(t)
}

// MapReverse makes instrumented map iteration run in descending key order.
var MapReverse bool

// Keys returns the keys of m in an order that depends on the choices of the execution.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) > 1 {
		switch s := any(ks).(type) {
		case []string:
			sort.Strings(s)
		case []int:
			sort.Ints(s)
		default:
			sort.SliceStable(ks, func(i, j int) bool { return keyLess(reflect.ValueOf(ks[i]), reflect.ValueOf(ks[j])) })
		}
		if MapReverse {
			slices.Reverse(ks)
		}
		// executions with other choices so far get other orders
		if h := ex.choicesHash(); h != 0 {
			r := int(h>>1) % len(ks)
			ks = slices.Concat(ks[r:], ks[:r])
			if h&1 != 0 {
				slices.Reverse(ks)
			}
		}
	}
	return ks
}

// choicesHash returns a number that depends on the choices so far, 0 without any but default ones.
func (x *Exec) choicesHash() uint32 {
	h := uint32(0)
	if x != nil && cur != nil {
		for i, c := range x.Trace {
			if c.C != 0 {
				h = (h ^ uint32(c.C) ^ uint32(i)<<8) * 0x9e3779b1
				h ^= h >> 15
			}
		}
	}
	return h
}

func keyLess(a, b reflect.Value) bool {
	for a.IsValid() && (a.Kind() == reflect.Ptr || a.Kind() == reflect.Interface) && !a.IsNil() {
		a = a.Elem()
	}
	for b.IsValid() && (b.Kind() == reflect.Ptr || b.Kind() == reflect.Interface) && !b.IsNil() {
		b = b.Elem()
	}
	if a.IsValid() && b.IsValid() && a.Kind() == b.Kind() {
		switch {
		case a.CanInt():
			return a.Int() < b.Int()
		case a.CanUint():
			return a.Uint() < b.Uint()
		case a.Kind() == reflect.String:
			return a.String() < b.String()
		}
	}
	return fmt.Sprintf("%v", a) < fmt.Sprintf("%v", b)
}

// Printed takes what the print and println builtins of instrumented code write.
var Printed = func(string) {}

// Println is the println builtin of instrumented code.
func Println(a ...interface{}) { Printed(fmt.Sprintln(a...)) }

// MIter iterates over a map in a deterministic order.
type MIter[M ~map[K]V, K comparable, V any] struct {
	m  M
	ks []K
	K  K
	V  V
}

// MapIter replaces for range over a map.
func MapIter[M ~map[K]V, K comparable, V any](m M) *MIter[M, K, V] {
	return &MIter[M, K, V]{m: m, ks: Keys[M, K, V](m)}
}

// Next advances to the next key that is still in the map.
func (it *MIter[M, K, V]) Next() bool {
	for len(it.ks) > 0 {
		k := it.ks[0]
		it.ks = it.ks[1:]
		if v, ok := it.m[k]; ok {
			it.K, it.V = k, v
			return true
		}
	}
	return false
}

// NThreads returns the number of threads the execution created.
func (x *Exec) NThreads() int { return len(x.threads) }
