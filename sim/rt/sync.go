package rt

import (
	"sync"
	"unsafe"
)

// The types below replace those of package sync in the code under test. In a
// simulation, acquiring and releasing are yield points and blocking is known
// to the scheduler; the real primitive inside is taken only when it is free
// and gives the race detector the usual happens-before edges. Outside of a
// simulation they behave like the real ones.

type Mutex struct {
	in    sync.Mutex
	held  bool
	epoch uint64
}

//go:norace
func (m *Mutex) refresh() {
	if e := s.epoch; m.epoch != e {
		m.epoch = e
		if m.held {
			m.held = false
			m.in = sync.Mutex{}
		}
	}
}

//go:norace
func (m *Mutex) acquire(try bool) bool {
	m.refresh()
	for m.held {
		if try {
			return false
		}
		block(unsafe.Pointer(m))
	}
	m.held = true
	return true
}

//go:norace
func (m *Mutex) release() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	wakeAll(unsafe.Pointer(m))
}

func (m *Mutex) Lock() {
	if !Active() {
		if Dead() {
			return
		}
		m.in.Lock()
		return
	}
	Yield(KLock)
	m.acquire(false)
	m.in.Lock()
}

func (m *Mutex) TryLock() bool {
	if !Active() {
		if Dead() {
			return true
		}
		return m.in.TryLock()
	}
	Yield(KLock)
	if !m.acquire(true) {
		return false
	}
	m.in.Lock()
	return true
}

func (m *Mutex) Unlock() {
	if !Active() {
		if Dead() {
			return
		}
		m.in.Unlock()
		return
	}
	if !m.isHeld() {
		panic("sync: unlock of unlocked mutex")
	}
	m.in.Unlock()
	m.release()
	Yield(KUnlock)
}

//go:norace
func (m *Mutex) isHeld() bool { m.refresh(); return m.held }

type Locker = sync.Locker

type RWMutex struct {
	in      sync.RWMutex
	writer  bool
	readers int
	waitW   int
	epoch   uint64
}

//go:norace
func (m *RWMutex) refresh() {
	if e := s.epoch; m.epoch != e {
		m.epoch = e
		if m.writer || m.readers > 0 || m.waitW > 0 {
			m.writer, m.readers, m.waitW = false, 0, 0
			m.in = sync.RWMutex{}
		}
	}
}

//go:norace
func (m *RWMutex) acqW(try bool) bool {
	m.refresh()
	if try && (m.writer || m.readers > 0) {
		return false
	}
	m.waitW++
	for m.writer || m.readers > 0 {
		block(unsafe.Pointer(m))
	}
	m.waitW--
	m.writer = true
	return true
}

//go:norace
func (m *RWMutex) relW() {
	m.writer = false
	wakeAll(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) acqR(try bool) bool {
	m.refresh()
	for m.writer || m.waitW > 0 {
		if try {
			return false
		}
		block(unsafe.Pointer(m))
	}
	m.readers++
	return true
}

//go:norace
func (m *RWMutex) relR() {
	m.readers--
	if m.readers == 0 {
		wakeAll(unsafe.Pointer(m))
	}
}

//go:norace
func (m *RWMutex) heldW() bool { m.refresh(); return m.writer }

//go:norace
func (m *RWMutex) heldR() bool { m.refresh(); return m.readers > 0 }

func (m *RWMutex) Lock() {
	if !Active() {
		if !Dead() {
			m.in.Lock()
		}
		return
	}
	Yield(KLock)
	m.acqW(false)
	m.in.Lock()
}

func (m *RWMutex) TryLock() bool {
	if !Active() {
		return Dead() || m.in.TryLock()
	}
	Yield(KLock)
	if !m.acqW(true) {
		return false
	}
	m.in.Lock()
	return true
}

func (m *RWMutex) Unlock() {
	if !Active() {
		if !Dead() {
			m.in.Unlock()
		}
		return
	}
	if !m.heldW() {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.in.Unlock()
	m.relW()
	Yield(KUnlock)
}

func (m *RWMutex) RLock() {
	if !Active() {
		if !Dead() {
			m.in.RLock()
		}
		return
	}
	Yield(KLock)
	m.acqR(false)
	m.in.RLock()
}

func (m *RWMutex) TryRLock() bool {
	if !Active() {
		return Dead() || m.in.TryRLock()
	}
	Yield(KLock)
	if !m.acqR(true) {
		return false
	}
	m.in.RLock()
	return true
}

func (m *RWMutex) RUnlock() {
	if !Active() {
		if !Dead() {
			m.in.RUnlock()
		}
		return
	}
	if !m.heldR() {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.in.RUnlock()
	m.relR()
	Yield(KUnlock)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

// Once does it again in the next run when it started goroutines, which end
// with the run.
type Once struct {
	m     Mutex
	done  bool
	epoch uint64
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done && o.epoch != 0 && o.epoch != Epoch() {
		o.done = false
	}
	if !o.done {
		n := goCount()
		defer func() {
			o.done, o.epoch = true, 0
			if goCount() != n && Active() {
				o.epoch = Epoch()
			}
		}()
		f()
	}
}

type WaitGroup struct {
	in sync.WaitGroup
	n  int
}

//go:norace
func (w *WaitGroup) add(d int) {
	w.n += d
	if w.n == 0 {
		wakeAll(unsafe.Pointer(w))
	}
}

//go:norace
func (w *WaitGroup) waitZero() {
	for w.n > 0 {
		block(unsafe.Pointer(w))
	}
}

func (w *WaitGroup) Add(d int) {
	if Dead() {
		return
	}
	w.in.Add(d)
	w.add(d)
	if d < 0 && Active() {
		Yield(KUnlock)
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if Dead() {
		return
	}
	if Active() {
		Yield(KLock)
		w.waitZero()
	} else {
		kick()
	}
	w.in.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L  sync.Locker
	in *sync.Cond
	k  byte
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l, in: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if !Active() {
		if !Dead() {
			kick()
			c.in.Wait()
		}
		return
	}
	// Register before releasing the lock, as the real one does.
	enqueue(unsafe.Pointer(&c.k))
	c.L.Unlock()
	waitTurn(unsafe.Pointer(&c.k))
	c.L.Lock()
}

// Waiting on a condition must not lose a signal sent between Unlock and the
// wait, so the ticket is taken first and checked afterwards.
var tickets [MaxTasks]unsafe.Pointer

//go:norace
func enqueue(k unsafe.Pointer) { tickets[s.cur] = k }

//go:norace
func waitTurn(k unsafe.Pointer) {
	me := s.cur
	for tickets[me] == k {
		block(k)
	}
}

//go:norace
func signal(k unsafe.Pointer, all bool) {
	for i := 0; i < s.n; i++ {
		if tickets[i] == k {
			tickets[i] = nil
			if t := &s.tasks[i]; t.st == stBlocked && t.key == k {
				t.st = stRunnable
				t.key = nil
			}
			if !all {
				return
			}
		}
	}
}

func (c *Cond) Signal() {
	if !Active() {
		if !Dead() {
			c.in.Signal()
		}
		return
	}
	signal(unsafe.Pointer(&c.k), false)
	Yield(KUnlock)
}

func (c *Cond) Broadcast() {
	if !Active() {
		if !Dead() {
			c.in.Broadcast()
		}
		return
	}
	signal(unsafe.Pointer(&c.k), true)
	Yield(KUnlock)
}

// Pool hands back pooled items (or makes new ones) as the simulation's
// auxiliary random stream decides, so that every reuse pattern is reachable
// and repeatable.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
	epoch uint64
}

var PoolReuses, PoolNews int64

func (p *Pool) Get() any {
	Yield(KPool)
	p.mu.Lock()
	if e := Epoch(); p.epoch != e {
		p.epoch, p.items = e, nil
		usedPools(p)
	}
	var x any
	if n := len(p.items); n > 0 {
		if i := Choose(n + 1); i < n || Choose(4) != 0 {
			if i == n {
				i = n - 1
			}
			x = p.items[i]
			p.items[i] = p.items[n-1]
			p.items = p.items[:n-1]
			countPool(&PoolReuses)
		}
	}
	p.mu.Unlock()
	if x == nil && p.New != nil {
		countPool(&PoolNews)
		x = p.New()
	}
	return x
}

var pools []*Pool

//go:norace
func usedPools(p *Pool) { pools = append(pools, p) }

// DropPools empties all pools, as garbage collections do in the end.
//
//go:norace
func DropPools() {
	for _, p := range pools {
		p.items = nil
	}
	pools = nil
}

// countPool is called under the locks of different pools.
//
//go:norace
func countPool(n *int64) { *n++ }

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	if e := Epoch(); p.epoch != e {
		p.epoch, p.items = e, nil
		usedPools(p)
	}
	p.items = append(p.items, x)
	p.mu.Unlock()
	Yield(KPool)
}
