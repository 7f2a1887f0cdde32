package rt

import (
	"reflect"
	"sync"
	"unsafe"
)

// Channels. The code under test keeps its real channels; sends, receives and
// selects on them become the functions below. Buffered values live in the
// real channel. An unbuffered channel never has both ends inside it, since
// one task runs at a time, so a waiting end is registered here and its
// partner hands the value over.

// Case is one case of a select.
type Case interface {
	base() *caseBase
	try() bool          // on the real channel, without blocking
	give() any          // the value of a send case
	take(v any, k bool) // completes a receive case
}

type caseBase struct {
	ch   unsafe.Pointer
	cap  int
	send bool
}

func (b *caseBase) base() *caseBase { return b }

// RecvCase receives into V and OK.
type RecvCase[T any] struct {
	caseBase
	in <-chan T
	V  T
	OK bool
}

type SendCase[T any] struct {
	caseBase
	out chan<- T
	v   T
}

func CRecv[T any](ch <-chan T) *RecvCase[T] {
	return &RecvCase[T]{caseBase: caseBase{ch: unsafe.Pointer(reflect.ValueOf(ch).Pointer()), cap: cap(ch)}, in: ch}
}

func CSend[T any](ch chan<- T, v T) *SendCase[T] {
	return &SendCase[T]{caseBase: caseBase{ch: unsafe.Pointer(reflect.ValueOf(ch).Pointer()), cap: cap(ch), send: true}, out: ch, v: v}
}

func (c *RecvCase[T]) try() bool {
	select {
	case c.V, c.OK = <-c.in:
		return true
	default:
		return false
	}
}
func (c *RecvCase[T]) give() any { return nil }
func (c *RecvCase[T]) take(v any, ok bool) {
	if v != nil {
		c.V = v.(T)
	}
	c.OK = ok
}

func (c *SendCase[T]) try() bool {
	select {
	case c.out <- c.v:
		return true
	default:
		return false
	}
}
func (c *SendCase[T]) give() any      { return c.v }
func (c *SendCase[T]) take(any, bool) {}

// waiter is a task that waits at channels.
type waiter struct {
	mu    sync.Mutex // gives the race detector the edges of a hand-over
	cases []Case
	done  int // case that a partner completed; -1: none
	polls int
}

var waiters [MaxTasks]*waiter

//go:norace
func newWaiter(cases []Case, polls int) *waiter {
	return &waiter{cases: cases, done: -1, polls: polls}
}

//go:norace
func setWaiter(w *waiter) { waiters[s.cur] = w }

//go:norace
func clearWaiter() { waiters[s.cur] = nil }

//go:norace
func clearWaiters() { waiters = [MaxTasks]*waiter{} }

// partner finds a waiting task that can complete case b.
//
//go:norace
func partner(b *caseBase) (*waiter, int) {
	var cand [MaxTasks]int
	n := 0
	for i := 0; i < s.n; i++ {
		if w := waiters[i]; w != nil && w.done < 0 && i != s.cur {
			for _, c := range w.cases {
				if o := c.base(); o.ch == b.ch && o.ch != nil && o.send != b.send {
					cand[n] = i
					n++
					break
				}
			}
		}
	}
	if n == 0 {
		return nil, 0
	}
	w := waiters[cand[Choose(n)]]
	for k, c := range w.cases {
		if o := c.base(); o.ch == b.ch && o.send != b.send {
			return w, k
		}
	}
	return nil, 0
}

//go:norace
func complete(w *waiter, k int) {
	w.done = k
	wakeAll(unsafe.Pointer(w))
}

// stirred wakes the tasks that wait at ch, to look again.
//
//go:norace
func stirred(ch unsafe.Pointer) {
	for i := 0; i < s.n; i++ {
		if w := waiters[i]; w != nil {
			for _, c := range w.cases {
				if c.base().ch == ch {
					wakeAll(unsafe.Pointer(w))
				}
			}
		}
	}
}

func attempt(c Case) bool {
	b := c.base()
	if b.ch == nil {
		return false
	}
	if c.try() { // a closed channel panics here, as it should
		stirred(b.ch)
		return true
	}
	if b.cap > 0 {
		return false
	}
	w, k := partner(b)
	if w == nil {
		return false
	}
	w.mu.Lock()
	o := w.cases[k]
	if b.send {
		o.take(c.give(), true)
	} else {
		c.take(o.give(), true)
	}
	w.mu.Unlock()
	complete(w, k)
	return true
}

// repoll makes channel waits look again when nothing else can run: channels
// that the standard library closes or sends to (contexts) tell nobody here.
//
//go:norace
func repoll() bool {
	any := false
	for i := 0; i < s.n; i++ {
		if w, t := waiters[i], &s.tasks[i]; w != nil && t.st == stBlocked && t.key == unsafe.Pointer(w) && w.polls < 50 {
			w.polls++
			t.st = stRunnable
			t.key = nil
			any = true
		}
	}
	return any
}

//go:norace
func pollsOf(w *waiter) int { return w.polls }

//go:norace
func outcome(w *waiter) int { return w.done }

// Select performs one of the cases and returns its number, or -1 if none is
// ready and nonblock is set.
func Select(nonblock bool, cases ...Case) int {
	if !Active() {
		if Dead() {
			return 0
		}
		return realSelect(nonblock, cases)
	}
	Yield(KLock)
	polls := 0
	for {
		for k, n, at := 0, len(cases), Choose(max(1, len(cases))); k < n; k++ {
			if i := (at + k) % n; attempt(cases[i]) {
				Yield(KUnlock)
				return i
			}
		}
		if nonblock {
			return -1
		}
		w := newWaiter(cases, polls)
		w.mu.Lock()
		w.mu.Unlock()
		setWaiter(w)
		block(unsafe.Pointer(w))
		clearWaiter()
		polls = pollsOf(w)
		w.mu.Lock()
		w.mu.Unlock()
		if k := outcome(w); k >= 0 {
			return k
		}
	}
}

func realSelect(nonblock bool, cases []Case) int {
	kick()
	var l []reflect.SelectCase
	for _, c := range cases {
		l = append(l, c.(interface{ real() reflect.SelectCase }).real())
	}
	if nonblock {
		l = append(l, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	k, v, ok := reflect.Select(l)
	if k == len(cases) {
		return -1
	}
	if !cases[k].base().send {
		if v.IsValid() {
			cases[k].take(v.Interface(), ok)
		} else {
			cases[k].take(nil, ok)
		}
	}
	return k
}

func (c *RecvCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.in)}
}

func (c *SendCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.out), Send: reflect.ValueOf(&c.v).Elem()}
}

func Send[T any](ch chan<- T, v T) {
	if !Active() {
		if !Dead() {
			kick()
			ch <- v
		}
		return
	}
	Select(false, CSend(ch, v))
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if !Active() && !Dead() {
		kick()
		v, ok := <-ch
		return v, ok
	}
	c := CRecv(ch)
	Select(false, c)
	return c.V, c.OK
}

func Close[T any](ch chan<- T) {
	if Dead() {
		return
	}
	close(ch)
	if Active() {
		stirred(unsafe.Pointer(reflect.ValueOf(ch).Pointer()))
		Yield(KUnlock)
	}
}

// Each is what a range over a channel becomes.
func Each[T any](ch <-chan T) func() (T, bool) {
	return func() (T, bool) { return Recv2(ch) }
}
