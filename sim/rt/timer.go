package rt

import (
	"sync"
	"time"
)

// Timer is time.Timer on the simulated clock.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	mu sync.Mutex
	no int // of the current setting; 0: stopped
	n  int
	id int // its task
	r  *time.Timer
}

func (t *Timer) start(d time.Duration) {
	t.mu.Lock()
	t.n++
	t.no = t.n
	no := t.no
	t.mu.Unlock()
	if !Active() {
		return
	}
	end := NowNS() + max(1, int64(d))
	t.setTask(spawn(func() {
		if t.set(no) {
			SleepNS(end - NowNS())
		}
		t.mu.Lock()
		hit := t.no == no
		if hit {
			t.no = 0
		}
		t.mu.Unlock()
		if !hit {
			return
		}
		if t.f != nil {
			t.f()
			return
		}
		Select(true, CSend((chan<- time.Time)(t.c), Now()))
	}, true))
	Yield(KSpawn)
}

// set reports whether setting no is still in force.
func (t *Timer) set(no int) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.no == no
}

//go:norace
func (t *Timer) setTask(id int) { t.id = id }

// cancel ends the task of a timer that has not gone off.
//
//go:norace
func (t *Timer) cancel() {
	if x := &s.tasks[t.id]; x.lib && x.st == stSleeping {
		x.wake = s.now
	}
}

func (t *Timer) Stop() bool {
	if t.r != nil {
		return t.r.Stop()
	}
	Yield(KAtomic)
	t.mu.Lock()
	defer t.mu.Unlock()
	was := t.no != 0
	if was {
		t.cancel()
	}
	t.no = 0
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.r != nil {
		return t.r.Reset(d)
	}
	was := t.Stop()
	t.start(d)
	return was
}

func NewTimer(d time.Duration) *Timer {
	if !Active() {
		r := time.NewTimer(d)
		return &Timer{C: r.C, r: r}
	}
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	if !Active() {
		return &Timer{r: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
