// Package simrt is the deterministic scheduler under which the instrumented
// copy of the repository and the simulated tasks run.
//
// Exactly one task runs at any time.  Who runs next, and after how many
// statements, is drawn from a seeded generator or taken from an explicit list.
// Turns are handed over with plain memory accesses inside functions that the
// race detector does not see, so that a race build reports accesses that the
// code under test does not order itself even though the simulator runs them one
// after the other.
package simrt

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

const (
	maxTasks  = 64
	maxSwitch = 1 << 15
	never     = int64(1) << 60
)

// Switch is one scheduling decision: after the current task has executed N more
// statements (or earlier if it ends or blocks), Next gets the turn.
type Switch struct {
	N    int64 `json:"n"`
	Next int32 `json:"t"`
}

// Config describes one simulated execution.
type Config struct {
	Seed     uint64   // scheduling seed
	Quantum  int64    // mean number of statements between preemptions, 0 = none
	List     []Switch // explicit schedule, used instead of the seed if UseList
	UseList  bool
	KillAt   int64 // crash: kill all tasks after that many statements, 0 = never
	MaxSteps int64 // bound on statements of the whole execution
	MapSeed  uint64
	PassOnly bool // tasks change only at Pass
}

// Outcome reports what happened in an execution.
type Outcome struct {
	Steps    int64
	Switches []Switch // decisions taken (nil if there were too many)
	NSwitch  int
	Crashed  bool
	Panics   []*TaskPanic // per task, nil if it did not panic
	Finished []bool
	Hash     uint64 // hash over all decisions: identifies the interleaving
}

// TaskPanic is a panic that escaped a task.
type TaskPanic struct {
	Val   interface{}
	Stack string
}

// StepLimit is the panic value used when an execution exceeds its step bound.
type StepLimit struct{}

func (StepLimit) Error() string { return "simulated step limit exceeded" }

// Deadlock is the panic value used when a task waits and nobody else can run.
type Deadlock struct{}

func (Deadlock) Error() string { return "simulated deadlock: every task waits" }

var (
	countdown   int64 = never // statements until the next scheduler event
	quantum     int64         // value countdown was last loaded with
	turn        int32 = -1
	active      bool
	killing     bool
	crashed     bool
	coarse      bool
	ntasks      int32
	alive       [maxTasks]bool
	steps       int64
	sinceSwitch int64
	nextPreempt int64 // absolute step of next preemption
	meanQ       int64
	passOnly    bool
	killAt      int64
	maxSteps    int64
	rng         uint64
	list        []Switch
	useList     bool
	listPos     int
	swBuf       [maxSwitch]Switch
	swLen       int
	swHash      uint64
	mapRng      uint64
	panics      [maxTasks]*TaskPanic
	finished    [maxTasks]bool
	wg          sync.WaitGroup
	dead        bool // step limit or deadlock was raised
	progress    int64
	simNow      int64
	blockSpins  int64
	yieldKill   int64
)

// SetCoarse turns preemption inside the library off.
func SetCoarse(b bool) { coarse = b }

// Progress returns a counter that grows while the simulation makes progress; it
// is only read by the watchdog.
//
//go:norace
func Progress() int64 { return progress }

//go:norace
func rnd() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func mapRnd() uint64 {
	mapRng += 0x9e3779b97f4a7c15
	z := mapRng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SetMapSeed sets the seed of the iteration order of hash maps.
//
//go:norace
func SetMapSeed(s uint64) { mapRng = s*2654435761 + 12345 }

// Y is called before every statement of the instrumented code.
//
//go:norace
func Y() {
	countdown--
	if countdown <= 0 {
		event()
	}
}

// Yield is a scheduling point of the simulated environment (I/O and the like).
//
//go:norace
func Yield() {
	if yieldKill > 0 {
		yieldKill--
		if yieldKill == 0 && active {
			killing, crashed = true, true
			account()
			arm()
			runtime.Goexit()
		}
	}
	countdown--
	if countdown <= 0 {
		event()
	}
}

// KillAtYield ends the running task at the n-th scheduling point of the
// simulated environment from now: the task ends inside a callback, a source or
// a destination, as it does when one of them calls runtime.Goexit.
//
//go:norace
func KillAtYield(n int64) {
	if active && !coarse {
		yieldKill = n
	}
}

//go:norace
func account() {
	d := quantum - countdown
	steps += d
	sinceSwitch += d
	quantum = 0
	countdown = 0
}

//go:norace
func arm() {
	if !active {
		quantum, countdown = never, never
		return
	}
	next := maxSteps
	if killAt > 0 && killAt < next {
		next = killAt
	}
	if nextPreempt < next {
		next = nextPreempt
	}
	q := next - steps
	if q < 1 {
		q = 1
	}
	quantum, countdown = q, q
}

//go:norace
func event() {
	if !active {
		quantum, countdown = never, never
		return
	}
	progress++
	account()
	if killing {
		arm()
		runtime.Goexit()
	}
	if killAt > 0 && steps >= killAt {
		killing, crashed = true, true
		arm()
		runtime.Goexit()
	}
	if steps >= maxSteps {
		dead = true
		maxSteps = steps + 1000000 // leave room for deferred functions
		arm()
		panic(StepLimit{})
	}
	if steps >= nextPreempt {
		switchTask(false)
		return
	}
	arm()
}

// plan computes the step of the next preemption.
//
//go:norace
func plan() {
	if passOnly {
		nextPreempt = never
		return
	}
	if useList {
		if listPos < len(list) {
			nextPreempt = steps + list[listPos].N
			if list[listPos].N < 1 {
				nextPreempt = steps + 1
			}
		} else {
			nextPreempt = never
		}
		return
	}
	if meanQ <= 0 {
		nextPreempt = never
		return
	}
	// mixture: mostly around the mean, sometimes very short, sometimes long
	var n int64
	switch rnd() % 8 {
	case 0:
		n = 1 + int64(rnd()%4)
	case 1:
		n = 1 + int64(rnd()%uint64(meanQ*8+1))
	default:
		n = 1 + int64(rnd()%uint64(meanQ*2+1))
	}
	nextPreempt = steps + n
}

// pick returns the task that gets the turn next, or -1 if there is none.
//
//go:norace
func pick(exclude int32) int32 {
	n := int32(0)
	for i := int32(0); i < ntasks; i++ {
		if alive[i] && i != exclude {
			n++
		}
	}
	if n == 0 {
		return -1
	}
	if useList {
		if listPos < len(list) {
			t := list[listPos].Next
			listPos++
			if t >= 0 && t < ntasks && alive[t] && t != exclude {
				return t
			}
		}
		for i := int32(0); i < ntasks; i++ {
			if alive[i] && i != exclude {
				return i
			}
		}
	}
	k := int32(rnd() % uint64(n))
	for i := int32(0); i < ntasks; i++ {
		if alive[i] && i != exclude {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

//go:norace
func record(next int32) {
	if swLen < maxSwitch {
		swBuf[swLen] = Switch{N: sinceSwitch, Next: next}
	}
	swLen++
	h := swHash
	h = (h ^ uint64(sinceSwitch)) * 1099511628211
	h = (h ^ uint64(next+1)) * 1099511628211
	swHash = h
	sinceSwitch = 0
}

// switchTask gives the turn to another task and returns when the current task
// gets it back.
//
//go:norace
func switchTask(must bool) bool {
	me := turn
	var next int32
	if must {
		next = pick(me)
	} else {
		next = pick(-1)
	}
	if next < 0 {
		plan()
		arm()
		return false
	}
	record(next)
	plan()
	arm()
	if next != me {
		turn = next
		await(me)
	}
	return true
}

//go:norace
//go:noinline
func loadTurn() int32 { return turn }

//go:norace
func await(me int32) {
	for loadTurn() != me {
		runtime.Gosched()
	}
	if killing {
		runtime.Goexit()
	}
}

// Block is called by a task that cannot proceed until another task does.
//
//go:norace
func Block() {
	if !active || coarse {
		runtime.Gosched()
		return
	}
	progress++
	account()
	steps++
	if killing {
		arm()
		runtime.Goexit()
	}
	blockSpins++
	if blockSpins > 200000 {
		dead = true
		arm()
		panic(Deadlock{})
	}
	if !switchTask(true) {
		dead = true
		panic(Deadlock{})
	}
}

// Pass lets the scheduler choose who continues.
//
//go:norace
func Pass() {
	if !active {
		return
	}
	progress++
	account()
	if killing {
		arm()
		runtime.Goexit()
	}
	switchTask(false)
}

// KillAfter arms a crash: the running task and all others are killed after n
// more statements.
//
//go:norace
func KillAfter(n int64) {
	if !active || coarse {
		return
	}
	account()
	killAt = steps + n
	if killAt <= 0 {
		killAt = 1
	}
	arm()
}

// DisarmKill takes an armed crash back.
//
//go:norace
func DisarmKill() {
	if !active {
		return
	}
	account()
	killAt, yieldKill = 0, 0
	arm()
}

// Unblocked tells the scheduler that waiting made progress.
//
//go:norace
func Unblocked() { blockSpins = 0 }

// Active reports whether tasks are being simulated and preempted.
//
//go:norace
func Active() bool { return active && !coarse }

// Coarse reports whether preemption inside the library is off.
func Coarse() bool { return coarse }

// Self returns the id of the running task.
//
//go:norace
func Self() int { return int(turn) }

// Steps returns the number of statements executed so far.
//
//go:norace
func Steps() int64 { return steps + quantum - countdown }

//go:norace
func setSlot(id int32, p *TaskPanic, fin bool) {
	panics[id] = p
	finished[id] = fin
}

// leave passes the turn on when a task has ended.
//
//go:norace
func leave(id int32) {
	alive[id] = false
	account()
	if killing {
		for i := int32(0); i < ntasks; i++ {
			if alive[i] {
				arm()
				turn = i
				return
			}
		}
		active = false
		arm()
		turn = -1
		return
	}
	next := pick(id)
	if next < 0 {
		active = false
		arm()
		turn = -1
		return
	}
	record(next)
	plan()
	arm()
	turn = next
}

//go:norace
func runTask(id int32, fn func()) {
	fin := false
	defer wg.Done()
	defer func() {
		r := recover()
		var p *TaskPanic
		if r != nil {
			buf := make([]byte, 16384)
			p = &TaskPanic{Val: r, Stack: string(buf[:runtime.Stack(buf, false)])}
		}
		setSlot(id, p, fin)
		leave(id)
	}()
	await(id)
	fn()
	fin = true
}

var loosePanic atomic.Pointer[TaskPanic]

// LoosePanic returns and forgets the panic of a task that the simulator did
// not schedule.
func LoosePanic() *TaskPanic { return loosePanic.Swap(nil) }

// Go starts an additional task from library code.
//
//go:norace
func Go(fn func()) {
	if !active || coarse || ntasks >= maxTasks {
		go func() {
			defer func() {
				if r := recover(); r != nil {
					buf := make([]byte, 16384)
					buf = buf[:runtime.Stack(buf, false)]
					loosePanic.CompareAndSwap(nil, &TaskPanic{Val: r, Stack: string(buf)})
				}
			}()
			fn()
		}()
		return
	}
	id := ntasks
	ntasks++
	alive[id] = true
	panics[id] = nil
	finished[id] = false
	wg.Add(1)
	go runTask(id, fn)
	Yield()
}

// Run executes the tasks under the given schedule and returns when all ended.
//
//go:norace
func Run(cfg Config, fns []func()) Outcome {
	if len(fns) > maxTasks/2 {
		panic("too many tasks")
	}
	rng = cfg.Seed
	list, useList, listPos = cfg.List, cfg.UseList, 0
	meanQ, killAt, maxSteps = cfg.Quantum, cfg.KillAt, cfg.MaxSteps
	if maxSteps <= 0 {
		maxSteps = 50000000
	}
	passOnly = cfg.PassOnly
	SetMapSeed(cfg.MapSeed)
	steps, sinceSwitch, swLen, swHash = 0, 0, 0, 14695981039346656037
	killing, crashed, dead = false, false, false
	blockSpins, yieldKill = 0, 0
	ntasks = int32(len(fns))
	for i := range alive {
		alive[i] = i < len(fns)
		panics[i] = nil
		finished[i] = false
	}
	active = true
	if coarse {
		meanQ = 0
		killAt = 0
	}
	quantum, countdown = 0, 0
	first := pick(-1)
	record(first)
	plan()
	arm()
	wg.Add(len(fns))
	for i := range fns {
		go runTask(int32(i), fns[i])
	}
	turn = first
	for loadTurn() != -1 {
		runtime.Gosched()
	}
	wg.Wait()
	active = false
	arm()
	out := Outcome{Steps: steps, NSwitch: swLen, Crashed: crashed, Hash: swHash}
	if swLen <= maxSwitch {
		out.Switches = append([]Switch{}, swBuf[:swLen]...)
	}
	for i := int32(0); i < ntasks; i++ {
		out.Panics = append(out.Panics, panics[i])
		out.Finished = append(out.Finished, finished[i])
	}
	return out
}

/* ------------------------------------------------------------------ */

// It iterates a hash map in the order decided by the simulator.
type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
	pos  int
}

// Next stores the next entry and reports whether there was one.
func (it *It[K, V]) Next(k *K, v *V) bool {
	for it.pos < len(it.keys) {
		key := it.keys[it.pos]
		it.pos++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// Range starts an iteration over a hash map in simulated order.
func Range[M ~map[K]V, K comparable, V any](m M) (*It[K, V], K, V) {
	var zk K
	var zv V
	return &It[K, V]{m: m, keys: Keys[M, K, V](m)}, zk, zv
}

// Keys returns the keys of a hash map in simulated order.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	names := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
		names = append(names, fmt.Sprintf("%T\x00%v", k, k))
	}
	Order(names, func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	return keys
}

// Order sorts by name and then shuffles with the map seed; swap is called for
// every exchange.
func Order(names []string, swap func(i, j int)) {
	n := len(names)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && names[j] < names[j-1]; j-- {
			names[j], names[j-1] = names[j-1], names[j]
			swap(j, j-1)
		}
	}
	for i := n - 1; i > 0; i-- {
		j := int(mapRnd() % uint64(i+1))
		names[i], names[j] = names[j], names[i]
		swap(i, j)
	}
}

/* ------------------------------------------------------------------ */

// Advance moves the simulated clock; it may be negative (clock jump).
//
//go:norace
func Advance(d time.Duration) {
	simNow += int64(d)
	if timers != nil && active {
		fire()
	}
}

// Timer is a function that runs as a task of its own at some time.
type Timer struct {
	at   int64
	f    func()
	next *Timer
	set  int32
}

// The timers are a linked list because growing a slice is visible to the race
// detector even where the accesses to it are not.
var timers *Timer

// At runs a function when the simulated clock has reached a time.
func At(t int64, f func()) *Timer {
	x := &Timer{at: t, f: f}
	atomic.StoreInt32(&x.set, 1) // what was done before comes before the function
	link(x)
	return x
}

//go:norace
func link(x *Timer) {
	p := &timers
	for *p != nil {
		p = &(*p).next
	}
	*p = x
}

// Cancel reports whether the function had still to be run.
//
//go:norace
func (t *Timer) Cancel() bool {
	for p := &timers; *p != nil; p = &(*p).next {
		if *p == t {
			*p, t.next = t.next, nil
			return true
		}
	}
	return false
}

func (t *Timer) run() {
	atomic.LoadInt32(&t.set)
	t.f()
}

//go:norace
func fire() {
	for {
		var next *Timer
		for t := timers; t != nil; t = t.next {
			if t.at <= simNow && (next == nil || t.at < next.at) {
				next = t
			}
		}
		if next == nil {
			return
		}
		next.Cancel()
		Go(next.run)
	}
}

// SetClock sets the simulated clock to the given offset from its epoch.
//
//go:norace
func SetClock(ns int64) { simNow, timers = ns, nil }

// SimNow returns the simulated clock.
//
//go:norace
func SimNow() int64 { return simNow }

// Rand is the source behind the replacement of math/rand.
func Rand() uint64 { return mapRnd() }
