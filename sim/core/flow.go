package core

import (
	"errors"
	"io"
	"net/http"
	"runtime"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"

	"verifsim/rt"
)

// FOp is one step of a run with a long stream.
type FOp struct {
	Kind string `json:"op"` // read, copy, close, catchup, serve, sleep, measure
	Slot int    `json:"body"`
	New  int    `json:"new,omitempty"`
	N    int    `json:"n,omitempty"`    // chunk (read), what the client takes (serve; -1: all), µs (sleep)
	Reps int    `json:"reps,omitempty"` // read
	At   int    `json:"at,omitempty"`   // serve: measure when the client has taken this much
	RF   int    `json:"rf,omitempty"`   // serve: the client has a ReadFrom with a buffer this large
	Nap  int    `json:"nap,omitempty"`  // serve: every write takes this long (µs)
}

// FlowPlan is a run with a source too long to be held in memory unnoticed.
// Every task works on bodies of its own, all of one family.
type FlowPlan struct {
	Src   *SrcPlan `json:"source"`
	Resp  bool     `json:"responses,omitempty"` // the bodies are in Responses
	Setup []FOp    `json:"setup"`
	Tasks [][]FOp  `json:"tasks"`
	After []FOp    `json:"after,omitempty"`
}

const (
	flowSlots  = 6
	aheadSlack = 1 << 20
	heapSlack  = 2 << 20
)

type fslot struct {
	b    body.Body
	r    *response.Response
	pos  int64
	want int64 // of the Read under way
	made bool
	open bool
}

type flowRun struct {
	p     *FlowPlan
	o     *Outcome
	src   *Src
	slots [flowSlots]fslot
	base  uint64

	furthest int64
	maxWant  int64
	spans    [3]int64 // gaps at the latest reads of the source
	ahead    int64
	heap     int64
	heapMax  int64
	heapAt   int64
	gapAt    int64
	measures int
	bad      string
	cerr     error
	ops      int
}

// The bookkeeping is the simulator's and not subject to the data-race oracle.
//
//go:norace
func (x *flowRun) gap() int64 {
	least := x.furthest
	for i := range x.slots {
		if s := &x.slots[i]; s.open && s.pos < least {
			least = s.pos
		}
	}
	return x.furthest - least
}

//go:norace
func (x *flowRun) asked(i int, n int64) {
	x.slots[i].want = n
	if n > x.maxWant {
		x.maxWant = n
	}
	x.ops++
}

//go:norace
func (x *flowRun) moved(i int, n int64) {
	s := &x.slots[i]
	s.want = 0
	s.pos += n
	if s.pos > x.furthest {
		x.furthest = s.pos
	}
}

//go:norace
func (x *flowRun) setOpen(i int, open bool) { x.slots[i].open = open }

//go:norace
func (x *flowRun) made(i int, from int, b body.Body, r *response.Response) {
	s := &x.slots[i]
	s.b, s.r, s.made, s.open = b, r, true, true
	if from >= 0 {
		s.pos = x.slots[from].pos
	}
}

//go:norace
func (x *flowRun) slot(i int) (body.Body, *response.Response, int64) {
	s := &x.slots[i]
	if !s.made || !s.open {
		return nil, nil, 0
	}
	return s.b, s.r, s.pos
}

//go:norace
func (x *flowRun) isMade(i int) bool { return x.slots[i].made }

//go:norace
func (x *flowRun) wrong(s string) {
	if x.bad == "" {
		x.bad = s
	}
}

// consumed is told after every read of the source where it stands now.
//
//go:norace
func (x *flowRun) consumed(pos int64) {
	asked := x.furthest
	for i := range x.slots {
		if s := &x.slots[i]; s.pos+s.want > asked {
			asked = s.pos + s.want
		}
	}
	if a := pos - asked; a > x.ahead {
		x.ahead = a
	}
	if pos-asked > 2*aheadSlack {
		x.src.truncate(pos) // enough seen; do not let it read on
	}
	x.spans[2], x.spans[1], x.spans[0] = x.spans[1], x.spans[0], max(x.gap(), pos-x.least())
}

//go:norace
func (x *flowRun) least() int64 {
	l := int64(-1)
	for i := range x.slots {
		if s := &x.slots[i]; s.open && (l < 0 || s.pos < l) {
			l = s.pos
		}
	}
	return l
}

func heapNow() uint64 {
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// measure compares what is reachable with what the copies still need.
//
//go:norace
func (x *flowRun) measure() {
	x.measures++
	grown := int64(heapNow()) - int64(x.base)
	gap := x.gap()
	for _, s := range x.spans {
		gap = max(gap, s)
	}
	if x.least() < 0 {
		gap = 0
	}
	may := 3*(gap+x.maxWant) + heapSlack
	if x.least() < 0 {
		may = heapSlack
	}
	if over := grown - may; over > 0 && grown > x.heap {
		x.heap, x.heapMax, x.gapAt = grown, may, gap
	}
}

func (x *flowRun) read(i int, n int) bool {
	b, r, pos := x.slot(i)
	if r != nil {
		b = r.Body()
	}
	if b == nil {
		return false
	}
	buf := make([]byte, n)
	x.asked(i, int64(n))
	rt.Note(rt.KOp, 1, int64(i), int64(n), pos)
	k, err := b.Read(buf)
	if rt.Dead() {
		return false
	}
	x.moved(i, int64(k))
	rt.Note(rt.KOp, 2, int64(k), 0, 0)
	if k > n || k < 0 || !x.src.same(buf[:max(0, min(k, n))], pos) {
		x.wrong("a copy delivered wrong bytes")
	}
	return err == nil
}

func (x *flowRun) do(op *FOp) {
	switch op.Kind {
	case "read":
		for k := 0; k < max(1, op.Reps); k++ {
			if !x.read(op.Slot, op.N) || rt.Dead() {
				return
			}
		}
	case "catchup":
		for {
			_, _, pos := x.slot(op.Slot)
			d := x.far() - pos
			if d <= 0 || !x.read(op.Slot, int(min(d, 1<<18))) || rt.Dead() {
				return
			}
		}
	case "copy":
		b, r, _ := x.slot(op.Slot)
		if b == nil && r == nil || x.isMade(op.New) {
			return
		}
		if r != nil {
			r2, err := r.Copy()
			if err != nil {
				x.wrong("Copy failed")
				return
			}
			x.made(op.New, op.Slot, nil, r2)
			return
		}
		b2, err := b.Copy()
		if err != nil {
			x.wrong("Copy failed")
			return
		}
		x.made(op.New, op.Slot, b2, nil)
	case "close":
		b, r, _ := x.slot(op.Slot)
		if r != nil {
			b = r.Body()
		}
		if b == nil {
			return
		}
		b.Close()
		x.setOpen(op.Slot, false)
	case "serve":
		_, r, pos := x.slot(op.Slot)
		if r == nil {
			return
		}
		w := &flowRW{x: x, op: op, at: pos, h: http.Header{}}
		var face http.ResponseWriter = w
		if op.RF > 0 {
			face = &flowRF{w}
		}
		r.Serve(face)
		if rt.Dead() {
			return
		}
		x.setOpen(op.Slot, false)
	case "sleep":
		rt.SleepNS(int64(op.N) * 1000)
	case "measure":
		x.measure()
	}
}

//go:norace
func (x *flowRun) far() int64 { return x.furthest }

// flowRW is a client that checks what it gets and keeps nothing.
type flowRW struct {
	x        *flowRun
	op       *FOp
	h        http.Header
	at       int64
	taken    int64
	measured bool
}

var errFlowGone = errors.New("injected client error")

func (w *flowRW) Header() http.Header { return w.h }
func (w *flowRW) WriteHeader(int)     { rt.Yield(rt.KSink) }

func (w *flowRW) Write(p []byte) (int, error) {
	rt.Yield(rt.KSink)
	rt.Note(rt.KSink, 1, int64(w.op.Slot), int64(len(p)), w.at)
	if w.op.Nap > 0 {
		rt.SleepNS(int64(w.op.Nap) * 1000)
	}
	if !w.x.src.same(p, w.at) {
		w.x.wrong("the client got wrong bytes")
	}
	w.at += int64(len(p))
	w.taken += int64(len(p))
	w.x.asked(w.op.Slot, int64(len(p)))
	w.x.moved(w.op.Slot, int64(len(p)))
	if w.op.At > 0 && !w.measured && w.taken >= int64(w.op.At) {
		w.measured = true
		w.x.measure()
	}
	if w.op.N >= 0 && w.taken >= int64(w.op.N) {
		return 0, errFlowGone
	}
	return len(p), nil
}

// flowRF is one that fetches the body itself.
type flowRF struct{ *flowRW }

func (w *flowRF) ReadFrom(r io.Reader) (int64, error) {
	buf := make([]byte, w.op.RF)
	total := int64(0)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			if _, werr := w.Write(buf[:n]); werr != nil {
				return total, werr
			}
			total += int64(n)
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil || rt.Dead() {
			return total, err
		}
	}
}

func (x *flowRun) list(l []FOp) {
	for i := range l {
		x.do(&l[i])
		if rt.Dead() {
			return
		}
	}
}

func (x *flowRun) main() {
	x.base = heapNow()
	var b body.Body
	var err error
	if p := x.p.Src; p.Declared >= 0 {
		b, err = body.FromReaderAndLength(x.src.reader(), int64(p.Declared))
	} else {
		b, err = body.FromReader(x.src.reader())
	}
	if err != nil {
		x.cerr = err
		return
	}
	if x.p.Resp {
		x.made(0, -1, nil, response.NewBuilder().WithStatus(200).WithBody(b).Build())
	} else {
		x.made(0, -1, b, nil)
	}
	x.list(x.p.Setup)
	if rt.Dead() {
		return
	}
	if len(x.p.Tasks) == 1 {
		x.list(x.p.Tasks[0])
	} else if len(x.p.Tasks) > 1 {
		var ids []int
		for t := range x.p.Tasks {
			t := t
			ids = append(ids, rt.Spawn(func() { x.list(x.p.Tasks[t]) }))
		}
		rt.Join(ids...)
	}
	if rt.Dead() {
		return
	}
	x.list(x.p.After)
	if rt.Dead() {
		return
	}
	for i := range x.slots {
		x.do(&FOp{Kind: "close", Slot: i})
		if rt.Dead() {
			return
		}
	}
	x.measure()
}

func runFlow(p *Plan, o *Outcome, logging bool) {
	x := &flowRun{p: p.Flow, o: o, src: newSrc(p.Flow.Src, -1)}
	x.src.data = p.Flow.Src.data()
	x.src.meter = x.consumed
	o.rt = rt.Run(p.Sched, logging, x.main)
	o.Tasks = max(1, len(p.Flow.Tasks))
	o.Ops = x.ops
	x.src.report(o)
	if x.cerr != nil {
		o.mark("construction failed")
	}
	o.mark("stream " + map[bool]string{true: "of known length", false: "of unknown length"}[p.Flow.Src.Declared >= 0] + map[bool]string{true: ", in a Response", false: ""}[p.Flow.Resp])
	const mib = 1 << 20
	tags := []string{"C24"}
	if x.ahead > aheadSlack {
		o.fail("read-ahead", tags, "the Reader was read more than %d MiB beyond what any copy had been asked for or any client had taken", aheadSlack/mib)
	}
	if x.heap > 0 {
		o.fail("memory-kept", tags, "more than %d MiB stayed reachable when the slowest and the furthest open copy were at most %d MiB apart", x.heapMax/mib, (x.gapAt+mib-1)/mib)
	}
	if x.bad != "" {
		o.fail("wrong-bytes", []string{"C01", "C02"}, "%s", x.bad)
	}
	if o.rt.Races > 0 {
		o.fail("data-race", []string{"C10"}, "the race detector reported %d conflicting accesses", o.rt.Races)
	}
	if o.rt.HasPanic {
		o.fail("task-panic", []string{"C10"}, "a goroutine panicked: %v", o.rt.Panic)
	} else if o.rt.Outcome != rt.Finished {
		o.fail(o.rt.Outcome.String(), []string{"C10"}, "the run ended in a %s", o.rt.Outcome)
	}
}

func (p *FlowPlan) valid() bool {
	if p.Src == nil || !p.Src.valid() || p.Src.Kind != "reader" || !p.Src.virtual() || p.Src.Len > 48<<20 || p.Src.Declared > p.Src.Len || p.Src.Declared >= 0 && p.Src.Declared < 4<<20 || len(p.Tasks) > 3 {
		return false
	}
	// Every body belongs to one task.
	owner := map[int]int{}
	for t, l := range append([][]FOp{p.Setup, p.After}, p.Tasks...) {
		for i := range l {
			o := &l[i]
			if o.Slot < 0 || o.Slot >= flowSlots || o.New < 0 || o.New >= flowSlots || o.Reps < 0 || o.RF < 0 || o.Nap < 0 || o.N < 0 && o.Kind != "serve" || o.N > 48<<20 {
				return false
			}
			if o.Kind == "sleep" || o.Kind == "measure" {
				if t > 1 && o.Kind == "measure" {
					return false
				}
				continue
			}
			if o.Kind == "read" && o.N == 0 {
				return false
			}
			if t > 1 {
				for _, s := range []int{o.Slot, o.New} {
					if s == o.New && o.Kind != "copy" {
						continue
					}
					if w, ok := owner[s]; ok && w != t {
						return false
					}
					owner[s] = t
				}
			}
		}
	}
	return true
}

func genFlow(r *R) *FlowPlan {
	s := &SrcPlan{Kind: "reader", Declared: -1, DataSeed: uint64(r.N(3)), Closer: r.P(60)}
	s.Len = r.In(6<<20, 10<<20)
	if r.P(50) {
		s.Declared = s.Len
		if r.P(30) {
			s.Declared -= r.N(1 << 20)
		}
	}
	switch r.W(80, 10, 10) { // the others have nothing to keep
	case 1:
		s.Seek = true
	case 2:
		s.ReadAt, s.Seek = true, true
	}
	if r.P(40) {
		s.ShortMax = r.Pick(20000, 50000, 65536, 200000)
	}
	s.EOFData = r.P(30)
	if r.P(20) {
		s.StallEvery = r.In(5, 30)
		s.StallFor = genStallFor(r)
	}
	if r.P(15) {
		f := Fault{Op: "read", Call: r.In(1, 60), Kind: r.PickS("err", "errdata", "trunc", "zero"), N: r.In(1, s.Len)}
		if f.Kind == "zero" {
			f.N = r.N(50)
		}
		s.Faults = append(s.Faults, f)
	}
	p := &FlowPlan{Src: s, Resp: r.P(45)}
	n := r.Pick(1, 1, 2, 2, 3, 4)
	own := make([][]int, r.In(1, min(3, n)))
	own[0] = []int{0}
	next := 1
	read := func(slot int) FOp {
		c := r.Pick(20000, 65536, 65536, 100000, 1<<18, 1<<18, 1<<18)
		most := min(40*c, r.Pick(1<<20, 3<<20, 10<<20))
		return FOp{Kind: "read", Slot: slot, N: c, Reps: max(1, most/c)}
	}
	for ; next < n; next++ {
		if r.P(30) {
			p.Setup = append(p.Setup, read(r.N(next)))
		}
		p.Setup = append(p.Setup, FOp{Kind: "copy", Slot: r.N(next), New: next})
		t := r.N(len(own))
		if len(own[t]) > 0 && next < len(own) {
			t = next
		}
		own[t] = append(own[t], next)
	}
	serve := func(slot int) FOp {
		o := FOp{Kind: "serve", Slot: slot, N: -1}
		if r.P(20) {
			o.N = r.N(s.Len)
		}
		if r.P(60) {
			o.At = r.In(4<<20, s.Len)
		}
		if r.P(40) {
			o.RF = r.Pick(20000, 32768, 1<<18)
		}
		if r.P(30) {
			o.Nap = r.In(1, 1000)
		}
		return o
	}
	for t := range own {
		var l []FOp
		mine := append([]int(nil), own[t]...)
		if len(mine) == 0 {
			continue
		}
		rounds := r.In(1, 4)
		if r.P(40) { // in step
			c := r.Pick(65536, 1<<18)
			for k, m := 0, r.In(4, 12); k < m; k++ {
				for _, i := range mine {
					l = append(l, FOp{Kind: "read", Slot: i, N: c, Reps: max(1, (1<<20)/c)})
				}
			}
			rounds = r.N(2)
		}
		for k := 0; k < rounds; k++ {
			i := mine[r.N(len(mine))]
			switch r.W(50, 15, 15, 10, 10) {
			case 0:
				l = append(l, read(i))
			case 1:
				l = append(l, FOp{Kind: "close", Slot: i})
			case 2:
				if next < flowSlots {
					l = append(l, FOp{Kind: "copy", Slot: i, New: next})
					mine = append(mine, next)
					next++
				}
			case 3:
				l = append(l, FOp{Kind: "catchup", Slot: i})
			case 4:
				l = append(l, FOp{Kind: "sleep", N: r.In(1, 5000)})
			}
		}
		if p.Resp {
			for _, i := range mine {
				if r.P(60) {
					l = append(l, serve(i))
				}
			}
		}
		p.Tasks = append(p.Tasks, l)
	}
	// Close some, let the others catch up, and look.
	for i := 0; i < next; i++ {
		if r.P(35) {
			p.After = append(p.After, FOp{Kind: "close", Slot: i})
		}
	}
	for i := 0; i < next; i++ {
		if r.P(70) {
			p.After = append(p.After, FOp{Kind: "catchup", Slot: i})
		}
	}
	for k, m := 0, r.In(1, 3); k < m; k++ {
		for i := 0; i < next; i++ {
			if r.P(80) {
				p.After = append(p.After, FOp{Kind: "read", Slot: i, N: 65536, Reps: r.In(1, 3)})
			}
		}
	}
	p.After = append(p.After, FOp{Kind: "measure"})
	return p
}
