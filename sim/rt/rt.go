// Package rt is the simulator's scheduler: it runs any number of tasks (real
// goroutines) one at a time and decides, from one seed, which of them proceeds
// at every synchronisation point, source or sink call and (optionally)
// statement of the code under test.
//
// Hand-offs between tasks are invisible to the race detector (RaceDisable
// around the channel operations, norace bookkeeping), so that the
// happens-before relation it sees is the one made by the code under test
// alone; that turns it into an oracle on every simulated schedule.
//
// Bookkeeping shared by tasks must not be race-instrumented: the functions
// touching it are go:norace and use only fixed arrays (no maps, no growing
// appends).
package rt

import (
	"runtime"
	"sync"
	"unsafe"
)

const (
	MaxTasks = 250
	MaxRoots = 24 // tasks of the harness

	TooMany = "rt: too many tasks"
	maxDec  = 1 << 19
	maxEv   = 1 << 16
)

const (
	stFree int32 = iota
	stRunnable
	stBlocked
	stSleeping
	stDone
)

// Kinds of yield points.
const (
	KLock uint8 = iota + 1
	KUnlock
	KAtomic
	KPool
	KSource
	KSink
	KOp
	KStmt
	KSleep
	KSpawn
	KEnd
	KUser
)

type Outcome int

const (
	Finished Outcome = iota
	Deadlock
	Livelock
)

func (o Outcome) String() string {
	return [...]string{"finished", "deadlock", "livelock"}[o]
}

// Sched describes how scheduling decisions are made.
type Sched struct {
	Seed     uint64 `json:"seed"`
	Strategy int    `json:"strategy"`           // 0 random walk, 1 priorities with change points, 2 round robin, 3 recorded only
	Switch   int    `json:"switch"`             // random walk: chance of a switch per mille
	Changes  int    `json:"changes,omitempty"`  // priorities: number of change points
	Horizon  int    `json:"horizon,omitempty"`  // priorities: change points are drawn from [0,Horizon)
	Fine     bool   `json:"fine,omitempty"`     // also yield between statements of the code under test
	Recorded []Dec  `json:"recorded,omitempty"` // replay: the decisions that differ from the default
	Steps    int    `json:"steps,omitempty"`    // step limit
}

// Dec says: at decision At, run task To.
type Dec struct {
	At int `json:"at"`
	To int `json:"to"`
}

type task struct {
	ch   chan struct{}
	st   int32
	key  unsafe.Pointer
	wake int64
	prio int64
	ops  int
	bg   bool // started by the initialisation of a package
	gos  int  // goroutines started
	lib  bool // started by a go statement of the code under test
	// Number, among those of the harness, of the task on whose behalf it runs.
	owner int
}

// Event is one entry of the event log.
type Event struct {
	Step, Task int32
	Kind       uint8
	Op         uint8
	A, B, C    int64
	Now        int64
}

type simState struct {
	active bool
	dead   bool
	epoch  uint64

	tasks [MaxTasks]task
	n     int
	cur   int

	seq      int64
	steps    int
	maxSteps int
	fine     int
	roots    int // tasks of the harness
	ticks    int
	now      int64
	wallOff  int64

	sched   Sched
	rng     uint64
	auxRng  uint64
	change  [16]int
	rr      int
	decN    int
	dec     []Dec
	decUsed int
	recIdx  int

	switches int
	hash     uint64
	done     chan Outcome
	outcome  Outcome
	ack      chan struct{}
	wg       *sync.WaitGroup

	events  []Event
	evN     int
	logging bool

	taskPanic any
	hasPanic  bool
}

var s simState

var theDec = make([]Dec, maxDec)
var theEvents = make([]Event, maxEv)

//go:norace
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:norace
func rnd(state *uint64, n int) int {
	*state += 0x9e3779b97f4a7c15
	x := *state
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	x ^= x >> 31
	return int((x >> 11) % uint64(n))
}

// Result of a simulated run.
type Result struct {
	Outcome   Outcome
	Steps     int
	Decisions int
	Switches  int
	SimTime   int64
	Hash      uint64
	Races     int
	Recorded  []Dec
	Events    []Event
	Panic     any // a panic in a goroutine started by the code under test
	HasPanic  bool
	Left      int   // goroutines of the code under test that had not ended
	Blocked   []int // tasks that were stuck, for Deadlock
}

var joinHB [MaxTasks]sync.Mutex

// Run executes main as task 0 of a new simulation and returns when every task
// has ended or the run is stuck.
func Run(sc Sched, logging bool, main func()) Result {
	races := RaceErrors()
	begin(sc, logging)
	s.done = make(chan Outcome, 1)
	s.ack = make(chan struct{}, 1)
	s.wg = &sync.WaitGroup{}
	clearWaiters()
	setMapState(mix(sc.Seed^0x6d6170) | 1)
	spawn(main, false)
	for _, f := range background {
		s.tasks[spawn(f, true)].bg = true
	}
	startFirst()
	out := waitDone(s.done)
	res := collect(out)
	res.Races = RaceErrors() - races
	if out != Finished || leftovers() {
		// Whatever the unwinding of a stuck run looks like to the race
		// detector says nothing about the code, and must not be seen as
		// concurrent with the runs that follow.
		reap()
		for i := range joinHB {
			joinHB[i].Lock()
			joinHB[i].Unlock()
		}
	} else {
		s.wg.Wait() // real happens-before edge from every task to the controller
	}
	setMapState(0)
	end()
	return res
}

//go:norace
func begin(sc Sched, logging bool) {
	if s.active {
		panic("rt: nested simulation")
	}
	epoch := s.epoch + 1
	s = simState{}
	pools = pools[:0]
	s.epoch = epoch
	s.sched = sc
	s.rng = mix(sc.Seed ^ 0x7363686564)
	s.auxRng = mix(sc.Seed ^ 0x617578)
	s.maxSteps = sc.Steps
	if s.maxSteps == 0 {
		s.maxSteps = 400000
	}
	s.dec = theDec
	s.events = theEvents
	s.logging = logging
	s.hash = 14695981039346656037
	if sc.Strategy == 1 {
		h := sc.Horizon
		if h < 1 {
			h = 1
		}
		for i := 0; i < len(s.change); i++ {
			s.change[i] = -1
			if i < sc.Changes {
				s.change[i] = rnd(&s.rng, h)
			}
		}
	}
	s.active = true
}

//go:norace
func end() { s.active = false; s.dead = false }

//go:norace
func startFirst() {
	s.cur = 0
	raceOff()
	s.tasks[0].ch <- struct{}{}
	raceOn()
}

func waitDone(ch chan Outcome) Outcome {
	raceOff()
	o := <-ch
	raceOn()
	return o
}

//go:norace
func collect(out Outcome) Result {
	r := Result{Outcome: out, Steps: s.steps, Decisions: s.decN, Switches: s.switches, SimTime: s.now, Hash: s.hash}
	r.Recorded = make([]Dec, s.decUsed)
	for i := 0; i < s.decUsed; i++ {
		r.Recorded[i] = s.dec[i]
	}
	if s.logging {
		n := s.evN
		if n > maxEv {
			n = maxEv
		}
		r.Events = make([]Event, n)
		for i := 0; i < n; i++ {
			r.Events[i] = s.events[i]
		}
	}
	r.Panic, r.HasPanic = s.taskPanic, s.hasPanic
	for i := 0; i < s.n; i++ {
		if t := &s.tasks[i]; t.lib && !t.bg && t.st != stDone {
			r.Left++
		}
	}
	if out != Finished {
		for i := 0; i < s.n; i++ {
			if s.tasks[i].st != stDone {
				r.Blocked = append(r.Blocked, s.tasks[i].owner)
			}
		}
	}
	return r
}

// reap unwinds the goroutines of a stuck run.
//
//go:norace
func reap() {
	s.dead = true
	for i := 0; i < s.n; i++ {
		t := &s.tasks[i]
		if t.st == stDone {
			continue
		}
		raceOff()
		t.ch <- struct{}{}
		<-s.ack
		raceOn()
	}
}

//go:norace
func newTask(lib bool) int {
	id := s.n
	for i := 0; lib && i < s.n; i++ {
		if s.tasks[i].lib && s.tasks[i].st == stDone {
			id = i // nobody joins those: the place is free again
			break
		}
	}
	if id >= MaxTasks {
		panic(TooMany)
	}
	if id == s.n {
		s.n++
	}
	t := &s.tasks[id]
	t.lib, t.bg = lib, false
	if lib {
		t.owner = s.tasks[s.cur].owner
	} else {
		if s.roots >= MaxRoots {
			panic("rt: too many tasks of the harness")
		}
		t.owner = s.roots
		s.roots++
	}
	t.ch = make(chan struct{}, 1)
	t.st = stRunnable
	t.prio = int64(rnd(&s.rng, 1<<30)) + 1<<20
	return id
}

func spawn(f func(), lib bool) int {
	id := newTask(lib)
	wg, ack := s.wg, s.ack
	wg.Add(1)
	go func() {
		ended := false
		defer func() {
			if !ended && isDead() {
				recover() // whatever the unwinding met
				joinHB[id].Lock()
				joinHB[id].Unlock()
				raceOff()
				ack <- struct{}{}
				raceOn()
				return
			}
		}()
		park(id)
		runTask(f)
		ended = true
		joinHB[id].Lock()
		joinHB[id].Unlock()
		wg.Done()
		finish(id)
	}()
	return id
}

func runTask(f func()) {
	defer func() {
		if isDead() {
			return
		}
		if p := recover(); p != nil {
			notePanic(p)
		}
	}()
	f()
}

//go:norace
func notePanic(p any) {
	if !s.hasPanic {
		s.taskPanic, s.hasPanic = p, true
	}
}

//go:norace
func isDead() bool { return s.dead }

// park waits until the scheduler hands control to task id.
//
//go:norace
func park(id int) {
	raceOff()
	<-s.tasks[id].ch
	raceOn()
	if s.dead {
		runtime.Goexit()
	}
}

//go:norace
func finish(id int) {
	s.tasks[id].st = stDone
	note(KEnd, 0, 0, 0, 0)
	wakeAll(unsafe.Pointer(&s.tasks[id]))
	wakeAll(joinKey())
	left := false
	for i := 0; i < s.n; i++ {
		if s.tasks[i].st != stDone {
			left = true
		}
	}
	if !left {
		raceOff()
		s.done <- Finished
		raceOn()
		return
	}
	next := choose(false)
	if next < 0 {
		o := stuck()
		raceOff()
		s.done <- o
		raceOn()
		return
	}
	s.cur = next
	raceOff()
	s.tasks[next].ch <- struct{}{}
	raceOn()
}

var joinAnchor byte

//go:norace
func joinKey() unsafe.Pointer { return unsafe.Pointer(&joinAnchor) }

//go:norace
func wakeAll(key unsafe.Pointer) {
	for i := 0; i < s.n; i++ {
		t := &s.tasks[i]
		if t.st == stBlocked && t.key == key {
			t.st = stRunnable
			t.key = nil
		}
	}
}

//go:norace
func wakeOne(key unsafe.Pointer) bool {
	for i := 0; i < s.n; i++ {
		t := &s.tasks[i]
		if t.st == stBlocked && t.key == key {
			t.st = stRunnable
			t.key = nil
			return true
		}
	}
	return false
}

// choose picks the task to run next; curOK says whether the current task may
// go on. It returns -1 if nothing can ever run again.
//
//go:norace
func choose(curOK bool) int {
	for {
		var cand [MaxTasks]uint8
		n := 0
		for i := 0; i < s.n; i++ {
			t := &s.tasks[i]
			if t.st == stSleeping && t.wake <= s.now {
				t.st = stRunnable
			}
			if t.st == stRunnable && (i != s.cur || curOK) {
				cand[n] = uint8(i)
				n++
			}
		}
		if n == 0 && repoll() {
			continue
		}
		if n == 0 {
			// Nothing runnable: jump the clock to the next timer.
			best := int64(-1)
			for i := 0; i < s.n; i++ {
				t := &s.tasks[i]
				if t.st == stSleeping && (best < 0 || t.wake < best) {
					best = t.wake
				}
			}
			if best < 0 {
				return -1
			}
			s.now = best
			continue
		}
		if n == 1 {
			return int(cand[0])
		}
		def := int(cand[0])
		if curOK {
			def = s.cur
		}
		at := s.decN
		s.decN++
		pick := def
		switch s.sched.Strategy {
		case 0:
			if !curOK || rnd(&s.rng, 1000) < s.sched.Switch {
				pick = int(cand[rnd(&s.rng, n)])
			}
		case 1:
			for i := 0; i < len(s.change); i++ {
				if s.change[i] == at {
					s.tasks[s.cur].prio = int64(i)
				}
			}
			for i := 0; i < n; i++ {
				if i == 0 || s.tasks[cand[i]].prio > s.tasks[pick].prio {
					pick = int(cand[i])
				}
			}
		case 2:
			s.rr++
			pick = int(cand[s.rr%n])
		case 3:
			for s.recIdx < len(s.sched.Recorded) && s.sched.Recorded[s.recIdx].At < at {
				s.recIdx++
			}
			if s.recIdx < len(s.sched.Recorded) && s.sched.Recorded[s.recIdx].At == at {
				to := s.sched.Recorded[s.recIdx].To
				for i := 0; i < n; i++ {
					if int(cand[i]) == to {
						pick = to
					}
				}
			}
		}
		if pick != def && s.decUsed < maxDec {
			s.dec[s.decUsed] = Dec{at, pick}
			s.decUsed++
		}
		return pick
	}
}

//go:norace
func note(kind, op uint8, a, b, c int64) {
	h := s.hash
	h = (h ^ uint64(s.cur)) * 1099511628211
	h = (h ^ uint64(kind)) * 1099511628211
	h = (h ^ uint64(op)) * 1099511628211
	h = (h ^ uint64(a)) * 1099511628211
	h = (h ^ uint64(b)) * 1099511628211
	h = (h ^ uint64(c)) * 1099511628211
	s.hash = h
	if s.logging && s.evN < maxEv && kind != KStmt {
		s.events[s.evN] = Event{int32(s.steps), int32(s.cur), kind, op, a, b, c, s.now}
		s.evN++
	}
}

// Note adds an event to the trace (and its hash) without yielding.
//
//go:norace
func Note(kind, op uint8, a, b, c int64) {
	if s.active && !s.dead {
		note(kind, op, a, b, c)
	}
}

// Yield is a point at which the scheduler may let another task run.
//
//go:norace
func Yield(kind uint8) {
	if !s.active {
		return
	}
	if s.dead {
		return
	}
	s.steps++
	s.now += 1000
	note(kind, 0, 0, 0, 0)
	if s.steps > s.maxSteps {
		abort(Livelock)
	}
	next := choose(true)
	switchTo(next)
}

//go:norace
func switchTo(next int) {
	me := s.cur
	if next == me {
		return
	}
	s.switches++
	s.cur = next
	raceOff()
	s.tasks[next].ch <- struct{}{}
	raceOn()
	park(me)
}

// stuck tells a deadlock from goroutines of the code under test that merely
// wait for work, such as background workers.
//
//go:norace
func stuck() Outcome {
	for i := 0; i < s.n; i++ {
		if t := &s.tasks[i]; t.st != stDone && !t.lib {
			return Deadlock
		}
	}
	return Finished
}

//go:norace
func leftovers() bool {
	for i := 0; i < s.n; i++ {
		if s.tasks[i].st != stDone {
			return true
		}
	}
	return false
}

//go:norace
func abort(o Outcome) {
	me := s.cur
	raceOff()
	s.done <- o
	raceOn()
	park(me)
}

// block parks the current task until someone wakes key.
//
//go:norace
func block(key unsafe.Pointer) {
	if s.dead {
		runtime.Goexit()
	}
	me := s.cur
	s.steps++
	s.now += 1000
	t := &s.tasks[me]
	t.st = stBlocked
	t.key = key
	next := choose(false)
	if next < 0 {
		abort(stuck())
		return
	}
	switchTo(next)
}

// Sleep suspends the current task for d nanoseconds of simulated time.
//
//go:norace
func SleepNS(d int64) {
	if !s.active || s.dead || d <= 0 {
		return
	}
	s.steps++
	note(KSleep, 0, d, 0, 0)
	if s.steps > s.maxSteps {
		abort(Livelock)
	}
	t := &s.tasks[s.cur]
	t.st = stSleeping
	t.wake = s.now + d
	// The sleeper itself may be the next to run (its wake time can be the
	// earliest), which choose expresses by making it runnable again.
	next := chooseSleeping()
	if next < 0 {
		abort(stuck())
		return
	}
	switchTo(next)
}

//go:norace
func chooseSleeping() int {
	me := s.cur
	n := 0
	for i := 0; i < s.n; i++ {
		t := &s.tasks[i]
		if t.st == stSleeping && t.wake <= s.now {
			t.st = stRunnable
		}
		if t.st == stRunnable && i != me {
			n++
		}
	}
	if n > 0 || repoll() {
		return choose(false)
	}
	best := int64(-1)
	for i := 0; i < s.n; i++ {
		t := &s.tasks[i]
		if t.st == stSleeping && (best < 0 || t.wake < best) {
			best = t.wake
		}
	}
	if best > s.now {
		s.now = best
	}
	for i := 0; i < s.n; i++ {
		t := &s.tasks[i]
		if t.st == stSleeping && t.wake <= s.now {
			t.st = stRunnable
		}
	}
	return choose(s.tasks[me].st == stRunnable)
}

// Y is inserted between statements of the code under test.
//
//go:norace
func Y() {
	if !s.active || s.dead {
		return
	}
	s.ticks++
	if s.ticks > maxTicks {
		abort(Livelock) // a loop that never reaches a scheduling point
	}
	if s.sched.Fine && s.fine < maxFine {
		s.fine++
		s.steps-- // has a bound of its own
		Yield(KStmt)
	}
}

// maxTicks bounds the statements of one run; no run of a sound tree gets near.
const maxTicks = 30000000

// maxFine bounds the preemptions between statements: code that loops over
// every byte is not preempted for ever.
const maxFine = 20000

// Spawn starts f as a new task of the running simulation and returns its id.
func Spawn(f func()) int {
	return spawn(f, false)
}

// Go replaces go statements in the code under test.
func Go(f func()) {
	if !Active() {
		if Dead() {
			return
		}
		if !mainRuns {
			background = append(background, f)
			return
		}
		go f()
		return
	}
	countGo()
	spawn(f, true)
	Yield(KSpawn)
}

// Goroutines that the initialisation of a package starts belong to every
// simulated run: each run is a process of its own to them.
var (
	background []func()
	mainRuns   bool
)

// Main marks the end of the packages' initialisation.
func Main() { mainRuns = true }

// kick really starts what the initialisation of a package is about to wait for.
func kick() {
	if !mainRuns {
		for _, f := range background {
			go f()
		}
		background = nil
	}
}

//go:norace
func countGo() { s.tasks[s.cur].gos++ }

// goCount is how many goroutines the current task has started.
//
//go:norace
func goCount() int {
	if !Active() {
		return 0
	}
	return s.tasks[s.cur].gos
}

// Join blocks the current task until all given tasks have ended.
func Join(ids ...int) {
	for _, id := range ids {
		for !ended(id) {
			block(joinKey())
		}
		joinHB[id].Lock() // the joined task's work happens before what follows
		joinHB[id].Unlock()
	}
}

//go:norace
func ended(id int) bool { return s.tasks[id].st == stDone }

//go:norace
func Active() bool { return s.active && !s.dead }

// Dead reports that the run was aborted and its tasks are being unwound.
//
//go:norace
func Dead() bool { return s.active && s.dead }

//go:norace
func Cur() int { return s.cur }

// Owner says on behalf of which task of the harness (0 is main, then in order
// of Spawn) the current task runs: itself, or for a goroutine of the code
// under test the one that started it.
//
//go:norace
func Owner() int { return s.tasks[s.cur].owner }

// Seq returns the next value of the global event counter.
//
//go:norace
func Seq() int64 { s.seq++; return s.seq }

//go:norace
func Steps() int { return s.steps }

//go:norace
func NowNS() int64 { return s.now }

// WallJump moves the simulated wall clock (not the monotonic one).
//
//go:norace
func WallJump(d int64) { s.wallOff += d }

// Choose draws from the run's auxiliary random stream (pool reuse and other
// environment choices that are not scheduling decisions).
//
//go:norace
func Choose(n int) int {
	if n <= 1 || !s.active {
		return 0
	}
	return rnd(&s.auxRng, n)
}

//go:norace
func Epoch() uint64 { return s.epoch }
