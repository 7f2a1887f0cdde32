package core

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"reflect"
	"runtime"

	"github.com/chronos-tachyon/morehttp/body"

	"verifsim/rt"
)

const maxSlots = 14

// BOp is one operation of a task on one body of the family.
type BOp struct {
	Kind   string `json:"op"` // read readall readat seek writeto copy close remaining unwrap sleep rewrap other visit
	Slot   int    `json:"body"`
	N      int    `json:"n,omitempty"`
	Off    int64  `json:"off,omitempty"`
	Whence int    `json:"whence,omitempty"`
	New    int    `json:"new,omitempty"`
	Wr     string `json:"writer,omitempty"` // writeto: ok, short, err, stall, panic, copy (reads a copy of the body meanwhile)
	Reps   int    `json:"reps,omitempty"`
}

type BodyPlan struct {
	Mode  string  `json:"mode"`
	Src   SrcPlan `json:"source"`
	Setup []BOp   `json:"setup"`
	Tasks [][]BOp `json:"tasks"`
	Final string  `json:"final"` // drain, close, seekdrain
	Order uint64  `json:"order"` // order of the final phase

	// Other is a family over a source of its own that has nothing to do with
	// this one: its setup runs alongside, as a task of its own or, at "other"
	// operations of this family's setup, in between.
	Other *BodyPlan `json:"other,omitempty"`

	// Inner are operations on the other family that this one's reader
	// performs inside its calls, one at a time, as one that is layered on a
	// Body would.
	Inner []BOp `json:"inner,omitempty"`
}

// Expected shape of the body, from the documentation.
func (p *SrcPlan) positional() bool {
	switch p.Kind {
	case "reader":
		return p.Seek || p.ReadAt && (p.Stat || p.Declared >= 0)
	}
	return true
}

func (p *SrcPlan) base() int {
	if p.positional() {
		return 0
	}
	return p.Pos
}

// known returns the length known at construction, or -1.
func (p *SrcPlan) known() int64 {
	if p.Kind != "reader" {
		return int64(p.Len)
	}
	if p.Declared >= 0 {
		return int64(p.Declared)
	}
	if p.Stat && p.StatLie > 0 {
		return int64(p.StatLie - 1)
	}
	if p.Stat || p.Seek {
		return int64(p.Len)
	}
	return -1
}

const (
	eNil = iota
	eEOF
	eClosed
	eSrc
	eWriter
	eShort
	eOther
)

var errName = [...]string{"nil", "io.EOF", "fs.ErrClosed", "source error", "writer error", "io.ErrShortWrite", "other error"}

type rec struct {
	task      int
	kind      string
	slot, nw  int
	want      int
	off       int64
	whence    int
	call, ret int64
	t0, t1    int64 // in simulated time
	n         int64
	err       error
	ec        int
	eid       int32
	data      []byte
	panicked  bool
	aborted   bool // the writer panicked
	panicVal  string
	isNil     bool // copy returned no body; unwrap returned nil
	bad       string
	werr      bool  // the writer failed or stopped short
	done      bool  // completed
	sErr      int32 // injected source error met during the operation
	sErrs     uint64
	sZero     bool
	sCut      bool // its last read of the source delivered data and failed
	sClose    bool
	sCloseErr int32
	sCalls    int
}

func (r *rec) String() string {
	s := fmt.Sprintf("task %d: %s body %d", r.task, r.kind, r.slot)
	switch r.kind {
	case "read":
		s += fmt.Sprintf(" len %d", r.want)
	case "readat":
		s += fmt.Sprintf(" len %d off %d", r.want, r.off)
	case "seek":
		s += fmt.Sprintf(" off %d whence %d", r.off, r.whence)
	case "copy":
		s += fmt.Sprintf(" -> body %d", r.nw)
	}
	s += fmt.Sprintf(" = (%d, %s", r.n, errName[r.ec])
	if r.ec == eOther || r.ec == eSrc {
		s += fmt.Sprintf(" %q", r.err.Error())
	}
	s += ")"
	if r.panicked {
		s += " PANIC " + r.panicVal
	}
	if r.aborted {
		s += " writer panicked"
	}
	if r.bad != "" {
		s += " " + r.bad
	}
	return s
}

// sink is a writer for WriteTo.
type sink struct {
	kind  string
	inner func(n int)
	limit int
	slow  int64
	root  int
	got   []byte
	bad   bool
	calls int
	cut   int64
}

// sinkPanic is what a writer panics with, before it has taken anything.
type sinkPanic struct{}

type WErr struct{}

func (WErr) Error() string { return "injected writer error" }

func (k *sink) Write(p []byte) (int, error) {
	rt.Yield(rt.KSink)
	k.calls++
	if k.kind == "panic" {
		panic(sinkPanic{})
	}
	n := len(p)
	room := k.limit - len(k.got)
	if k.kind == "stall" {
		nap(k.slow, k.root, nil)
	}
	if k.inner != nil {
		k.inner(len(p))
	}
	if (k.kind == "short" || k.kind == "err" || k.kind == "stall") && n > room {
		n = room
		k.bad = true
	}
	k.got = append(k.got, p[:n]...)
	rt.Yield(rt.KSink)
	if n < len(p) && k.kind != "short" {
		return n, WErr{}
	}
	return n, nil
}

type bodyRun struct {
	p      *BodyPlan
	src    *Src
	reader io.Reader
	data   []byte // contents, unless they are virtual
	base   int64
	dlen   int64
	mem    []byte
	slots  [maxSlots]body.Body
	recs   [rt.MaxRoots][]*rec
	last   [rt.MaxRoots]*rec
	cerr   error
	cnil   bool
	cpanic string
	lacks  string
	fin    int64
	o      *Outcome
	other  *bodyRun
	next   int // operations of the setup done
	inner  int // inner operations done

	declared int64
	nbodies  int
	many     bool
}

func classify(err error) (int, int32) {
	if err == nil {
		return eNil, -1
	}
	if err == io.EOF {
		return eEOF, -2
	}
	if id, ok := srcErrID(err); ok {
		return eSrc, id
	}
	if errors.Is(err, fs.ErrClosed) {
		return eClosed, -1
	}
	var we WErr
	if errors.As(err, &we) {
		return eWriter, -1
	}
	if errors.Is(err, io.ErrShortWrite) {
		return eShort, -1
	}
	return eOther, -1
}

func kindNo(k string) uint8 {
	h := uint8(7)
	for i := 0; i < len(k); i++ {
		h = h*31 + k[i]
	}
	return h | 1
}

func (x *bodyRun) start(task int, op *BOp) *rec {
	r := &rec{task: task, kind: op.Kind, slot: op.Slot, want: op.N, off: op.Off, whence: op.Whence, nw: op.New, eid: -1, sErr: -1, sCloseErr: -1}
	x.last[task] = r
	rt.Note(rt.KOp, kindNo(op.Kind), int64(op.Slot), int64(op.N), op.Off)
	r.call = rt.Seq()
	r.t0 = rt.NowNS()
	return r
}

func (x *bodyRun) finish(r *rec, n int64, err error) {
	r.n, r.err = n, err
	r.ec, r.eid = classify(err)
	r.ret = rt.Seq()
	r.t1 = rt.NowNS()
	r.done = true
	rt.Note(rt.KOp, 0, n, int64(r.ec), int64(r.eid))
	x.recs[r.task] = append(x.recs[r.task], r)
}

func (x *bodyRun) do(task int, op *BOp) {
	if op.Kind == "sleep" {
		rt.SleepNS(op.Off)
		return
	}
	b := x.slots[op.Slot]
	if b == nil {
		return
	}
	if op.Kind == "visit" { // by way of a copy
		x.do1(task, &BOp{Kind: "copy", Slot: op.Slot, New: op.New}, b)
		if c := x.slots[op.New]; c != nil {
			x.do1(task, &BOp{Kind: "read", Slot: op.New, N: op.N}, c)
			x.do1(task, &BOp{Kind: "close", Slot: op.New}, c)
		}
		return
	}
	if op.Kind == "readall" {
		for i := 0; i < op.Reps; i++ {
			o2 := *op
			o2.Kind = "read"
			x.do1(task, &o2, b)
			rs := x.recs[task]
			if n := len(rs); n == 0 || rs[n-1].err != nil || rs[n-1].panicked {
				break
			}
		}
		return
	}
	x.do1(task, op, b)
}

func scribble(p []byte) {
	for i := range p {
		p[i] = 0xEE
	}
}

func panicText(p any) string {
	if e, ok := p.(error); ok {
		return e.Error()
	}
	return fmt.Sprint(p)
}

func (x *bodyRun) do1(task int, op *BOp, b body.Body) {
	var r *rec
	defer func() {
		if rt.Dead() {
			return
		}
		if p := recover(); p != nil {
			if _, ok := p.(sinkPanic); ok {
				r.aborted = true
			} else {
				r.panicked = true
				r.panicVal = panicText(p)
			}
			x.finish(r, 0, nil)
		}
	}()
	switch op.Kind {
	case "read":
		buf := make([]byte, op.N)
		r = x.start(task, op)
		n, err := b.Read(buf)
		if n < 0 || n > len(buf) {
			r.bad = fmt.Sprintf("impossible count %d", n)
			n = 0
		}
		r.data = append([]byte(nil), buf[:n]...)
		scribble(buf)
		x.finish(r, int64(n), err)
	case "readat":
		ra, ok := b.(io.ReaderAt)
		if !ok {
			return
		}
		buf := make([]byte, op.N)
		r = x.start(task, op)
		n, err := ra.ReadAt(buf, op.Off)
		if n < 0 || n > len(buf) {
			r.bad = fmt.Sprintf("impossible count %d", n)
			n = 0
		}
		r.data = append([]byte(nil), buf[:n]...)
		scribble(buf)
		x.finish(r, int64(n), err)
	case "seek":
		sk, ok := b.(io.Seeker)
		if !ok {
			return
		}
		r = x.start(task, op)
		n, err := sk.Seek(op.Off, op.Whence)
		x.finish(r, n, err)
	case "writeto":
		wt, ok := b.(io.WriterTo)
		if !ok {
			return
		}
		k := &sink{kind: op.Wr, limit: op.N, slow: op.Off, root: task}
		if op.Wr == "copy" {
			if x.slots[op.New] != nil {
				return
			}
			x.do1(task, &BOp{Kind: "copy", Slot: op.Slot, New: op.New}, b)
			if c := x.slots[op.New]; c != nil {
				k.inner = func(n int) {
					x.do1(task, &BOp{Kind: "remaining", Slot: op.New}, c)
					x.do1(task, &BOp{Kind: "read", Slot: op.New, N: min(n, 70000)}, c)
				}
			}
		}
		r = x.start(task, op)
		n, err := wt.WriteTo(k)
		r.data = k.got
		r.werr = k.bad
		x.finish(r, n, err)
	case "copy":
		if x.slots[op.New] != nil {
			return
		}
		r = x.start(task, op)
		nb, err := b.Copy()
		r.isNil = nb == nil
		if nb != nil {
			if !capsInclude(nb, b) {
				r.bad = "the copy lacks an interface of the original"
			}
			if nb == b && reflect.TypeOf(nb) != reflect.TypeOf(body.AlreadyClosed()) {
				r.bad = "the copy is the original"
			}
			x.slots[op.New] = nb
		}
		x.finish(r, 0, err)
	case "close":
		r = x.start(task, op)
		err := b.Close()
		x.finish(r, 0, err)
	case "remaining":
		r = x.start(task, op)
		n := b.BytesRemaining()
		x.finish(r, n, nil)
	case "unwrap":
		r = x.start(task, op)
		u := b.Unwrap()
		r.isNil = u == nil
		if u != nil && u != x.reader {
			r.bad = "Unwrap returned something else than the reader"
		}
		x.finish(r, 0, nil)
	case "rewrap":
		r = x.start(task, op)
		b2, err := body.FromReader(b)
		if b2 != b {
			r.bad = "FromReader did not return the Body it was given"
		}
		x.finish(r, 0, err)
	}
}

func capsInclude(a, b body.Body) bool {
	_, s1 := a.(io.Seeker)
	_, s2 := b.(io.Seeker)
	_, r1 := a.(io.ReaderAt)
	_, r2 := b.(io.ReaderAt)
	_, w1 := a.(io.WriterTo)
	_, w2 := b.(io.WriterTo)
	return (s1 || !s2) && (r1 || !r2) && (w1 || !w2)
}

func (x *bodyRun) construct() {
	p := &x.p.Src
	defer func() {
		if q := recover(); q != nil {
			x.cpanic = panicText(q)
		}
	}()
	var b body.Body
	switch p.Kind {
	case "bytes":
		b = body.FromBytes(x.mem)
	case "string":
		b = body.FromString(string(x.data))
	case "empty":
		b = body.Empty()
	case "closed":
		b = body.AlreadyClosed()
	default:
		x.reader = x.src.reader()
		var err error
		if p.Declared >= 0 {
			b, err = body.FromReaderAndLength(x.reader, int64(p.Declared))
		} else {
			b, err = body.FromReader(x.reader)
		}
		x.cerr = err
		if err != nil && b != nil {
			x.cpanic = "both a Body and an error"
		}
	}
	x.cnil = b == nil
	x.slots[0] = b
	if b == nil {
		return
	}
	_, sk := b.(io.Seeker)
	_, ra := b.(io.ReaderAt)
	_, wt := b.(io.WriterTo)
	if p.promisesPositioned() && !(sk && ra) {
		x.lacks = fmt.Sprintf("io.Seeker %v, io.ReaderAt %v", sk, ra)
	}
	if p.Kind != "reader" && !wt {
		x.lacks += " no io.WriterTo"
	}
}

// promisesPositioned reports whether the documentation promises that a Body
// over this source offers io.ReaderAt and io.Seeker.
func (p *SrcPlan) promisesPositioned() bool {
	return p.Kind != "reader" || p.Seek || p.ReadAt && p.Stat
}

func newBodyRun(p *BodyPlan, o *Outcome, k int) *bodyRun {
	x := &bodyRun{p: p, o: o}
	if p.Other != nil && k == 0 {
		x.other = newBodyRun(p.Other, o, 1)
	}
	if p.Src.Kind == "empty" || p.Src.Kind == "closed" {
		p.Src.Len = 0
	}
	x.src = newSrc(&p.Src, k)
	base := p.Src.base()
	if base > p.Src.Len {
		base = p.Src.Len
	}
	x.base, x.dlen = int64(base), int64(p.Src.Len-base)
	if !p.Src.virtual() {
		x.data = x.src.data[base:]
	}
	if p.Src.Kind == "bytes" {
		x.mem = append([]byte(nil), x.data...)
	}
	x.declared = p.Src.known()
	if x.other != nil && len(p.Inner) > 0 {
		x.src.inner = x.nested
	}
	return x
}

// nested does the next inner operation.
func (x *bodyRun) nested() {
	if i := x.nextInner(); i < len(x.p.Inner) && !x.other.failed() {
		x.other.do(rt.Owner(), &x.p.Inner[i])
	}
}

//go:norace
func (x *bodyRun) nextInner() int { x.inner++; return x.inner - 1 }

// some runs the next n operations of the setup (all for n < 0) on a task.
func (x *bodyRun) some(task, n int) {
	if x.failed() {
		return
	}
	for ; n != 0 && x.next < len(x.p.Setup); n-- {
		op := &x.p.Setup[x.next]
		x.next++
		if op.Kind == "other" {
			if x.other != nil {
				x.other.some(task, op.N)
			}
			continue
		}
		x.do(task, op)
	}
}

func (x *bodyRun) failed() bool { return x.slots[0] == nil || x.cpanic != "" || x.cerr != nil }

func (x *bodyRun) main() {
	y := x.other
	if y != nil && x.p.Order&1 == 0 {
		y.construct()
	}
	x.construct()
	if y != nil && x.p.Order&1 != 0 {
		y.construct()
	}
	x.some(0, -1)
	x.tasks()
	last := []*bodyRun{x}
	if y != nil {
		last = append(last, y)
		if x.p.Order&2 != 0 {
			last[0], last[1] = y, x
		}
	}
	r := NewR(x.p.Order)
	for _, x := range last {
		if !x.failed() {
			x.final(r)
		}
	}
}

func (x *bodyRun) tasks() {
	var ids []int
	if !x.failed() {
		for t := range x.p.Tasks {
			t := t
			ids = append(ids, rt.Spawn(func() {
				for i := range x.p.Tasks[t] {
					x.do(t+1, &x.p.Tasks[t][i])
				}
			}))
		}
	}
	if y := x.other; y != nil {
		t := len(ids) + 1
		ids = append(ids, rt.Spawn(func() { y.some(t, -1) }))
	}
	rt.Join(ids...)
	x.src.setFaults(false)
	if x.other != nil {
		x.other.src.setFaults(false)
	}
}

func (x *bodyRun) final(r *R) {
	x.fin = rt.Seq()
	var order []int
	for i, b := range x.slots {
		if b != nil {
			order = append(order, i)
		}
	}
	for i := range order {
		j := r.N(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	closers := append([]int(nil), order...)
	for i := range closers {
		j := r.N(i + 1)
		closers[i], closers[j] = closers[j], closers[i]
	}
	if x.p.Final != "close" {
		for _, s := range order {
			x.do(0, &BOp{Kind: "remaining", Slot: s})
			if x.p.Src.positional() {
				op := BOp{Kind: "seek", Slot: s, Whence: io.SeekCurrent}
				if x.p.Final == "seekdrain" {
					op.Whence = io.SeekStart
				}
				x.do(0, &op)
			}
			dlen := int(x.dlen)
			if x.p.Src.virtual() {
				x.do(0, &BOp{Kind: "read", Slot: s, N: r.In(1, 300)})
				dlen = r.In(0, 1000)
				x.do(0, &BOp{Kind: "seek", Slot: s, Off: -int64(dlen), Whence: io.SeekEnd})
			}
			size := dlen/3 + 1
			if size < 16 {
				size = 16
			}
			if r.P(30) {
				size = dlen + 1
			}
			x.do(0, &BOp{Kind: "readall", Slot: s, N: size, Reps: dlen/size + 4})
			x.do(0, &BOp{Kind: "read", Slot: s, N: 3})
			x.do(0, &BOp{Kind: "remaining", Slot: s})
		}
	}
	for _, s := range closers {
		x.do(0, &BOp{Kind: "close", Slot: s})
	}
	for i, s := range closers {
		if i > 2 {
			break
		}
		x.do(0, &BOp{Kind: "read", Slot: s, N: r.Pick(0, 5)})
		x.do(0, &BOp{Kind: "readat", Slot: s, N: 5})
		x.do(0, &BOp{Kind: "seek", Slot: s})
		x.do(0, &BOp{Kind: "writeto", Slot: s, N: 100, Wr: "ok"})
		x.do(0, &BOp{Kind: "remaining", Slot: s})
		x.do(0, &BOp{Kind: "unwrap", Slot: s})
		x.do(0, &BOp{Kind: "close", Slot: s})
	}
}

func runBody(p *Plan, o *Outcome, logging bool) {
	x := newBodyRun(p.Body, o, 0)
	o.rt = rt.Run(p.Sched, logging, x.main)
	runtime.KeepAlive(x)
	x.verdict()
}

func (s *Src) report(o *Outcome) {
	for i, n := range s.fired {
		if i < len(FaultKinds) {
			o.fired("source "+FaultKinds[i], n)
			if n > 0 {
				o.Faults += n
			}
		}
	}
}

func (x *bodyRun) capsMark() string {
	p := &x.p.Src
	if p.Kind != "reader" {
		return p.Kind
	}
	m := "reader"
	if p.Stat {
		m += "+stat"
	}
	if p.Seek {
		m += "+seek"
	}
	if p.ReadAt {
		m += "+readat"
	}
	if p.Closer || p.Stat {
		m += "+close"
	}
	if p.virtual() {
		m += " huge"
	}
	if p.StatLie > 0 {
		m += " stat lies"
	}
	if p.Declared >= 0 {
		switch {
		case p.Declared < p.Len:
			m += " declared<real"
		case p.Declared > p.Len:
			m += " declared>real"
		default:
			m += " declared=real"
		}
	}
	return m
}

// heldUp checks that no operation waited for what is none of its business.
func (x *bodyRun) heldUp() {
	if len(x.p.Inner) > 0 {
		return // the readers of one family may wait for anything in the other
	}
	for _, y := range []*bodyRun{x, x.other} {
		if y == nil {
			continue
		}
		for t := range y.recs {
			for _, r := range y.recs[t] {
				c := &span{root: t, from: r.t0, to: r.t1, srcs: [4]*Src{y.src}, what: r.kind + " on body " + fmt.Sprint(r.slot)}
				x.o.held("operation-held-up", c, func(s *stall) bool { return y.same(r, s) })
			}
		}
	}
	(&spans{}).judge(x.o, "")
}

// same says whether a stall was part of an operation on the same body that
// overlaps with r, which may have to wait for it.
func (x *bodyRun) same(r *rec, s *stall) bool {
	if s.root < 0 || s.root == r.task {
		return false
	}
	for _, q := range x.recs[s.root] {
		if (q.slot == r.slot) && q.t0 <= s.from && s.from <= q.t1 && q.t1 >= r.t0 && q.t0 <= r.t1 {
			return true
		}
	}
	return false
}

func (x *bodyRun) verdict() {
	o := x.o
	o.Tasks = len(x.p.Tasks)
	o.mark("mode: " + x.p.Mode)
	for _, x := range []*bodyRun{x, x.other} {
		if x == nil {
			continue
		}
		x.src.report(o)
		for t := range x.recs {
			o.Ops += len(x.recs[t])
		}
		o.mark("source: " + x.capsMark())
	}
	if x.other != nil {
		o.mark("another family alongside")
		if x.inner > 0 {
			o.mark("reader that uses another body")
		}
	}
	conc := len(x.p.Tasks) > 1
	with := func(tags ...string) []string {
		if conc {
			tags = append(tags, "C10")
		}
		return tags
	}
	if o.rt.Races > 0 {
		o.fail("data-race", []string{"C10"}, "the race detector reported %d conflicting accesses without synchronisation", o.rt.Races)
	}
	if o.rt.HasPanic {
		o.fail("task-panic", with("C10"), "a goroutine panicked: %v", o.rt.Panic)
	}
	if o.rt.Outcome != rt.Finished {
		tags := []string{"C10"}
		var stuck string
		for _, t := range o.rt.Blocked {
			if r := x.last[t]; r != nil && !r.done {
				stuck += fmt.Sprintf("; task %d inside %s on body %d", t, r.kind, r.slot)
				tags = append(tags, opTag(r.kind))
			} else if y := x.other; y != nil && y.last[t] != nil && !y.last[t].done {
				stuck += fmt.Sprintf("; task %d inside %s on body %d of the other family", t, y.last[t].kind, y.last[t].slot)
				tags = append(tags, opTag(y.last[t].kind))
			}
		}
		o.fail(o.rt.Outcome.String(), tags, "the run ended in a %s%s", o.rt.Outcome, stuck)
		return
	}
	x.heldUp()
	x.check(conc)
	if x.other != nil {
		x.other.check(len(x.p.Inner) > 0 && conc)
	}
}

// check judges one family.
func (x *bodyRun) check(conc bool) {
	o := x.o
	s := x.src
	with := func(tags ...string) []string {
		if conc {
			tags = append(tags, "C10")
		}
		return tags
	}
	// Construction.
	p := &x.p.Src
	cErr := int32(-1)
	reads := 0
	firstOp := int64(math.MaxInt64)
	for t := range x.recs {
		if len(x.recs[t]) > 0 && x.recs[t][0].call < firstOp {
			firstOp = x.recs[t][0].call
		}
	}
	for i := 0; i < s.logN; i++ {
		c := &s.log[i]
		if c.start >= firstOp {
			break
		}
		if c.errID >= 0 && cErr < 0 {
			cErr = c.errID
		}
		if c.op == sRead || c.op == sReadAt {
			reads++
		}
	}
	if x.cpanic != "" {
		o.fail("construct-panic", []string{"C11"}, "construction: %s", x.cpanic)
		return
	}
	if cErr >= 0 && !(x.cnil || x.cerr != nil) {
		o.fail("construct-ignored-error", []string{"C11"}, "construction succeeded although the source failed with error %d", cErr)
	}
	if x.cnil || x.cerr != nil {
		o.mark("construction failed")
		if cErr < 0 {
			o.fail("construct-spurious-error", []string{"C11"}, "construction failed without a source failure: %v", x.cerr)
		} else if !s.isErr(x.cerr, cErr) {
			o.fail("construct-wrong-error", []string{"C11"}, "construction reported %v, the source failed with error %d", x.cerr, cErr)
		}
		if s.closes > 0 || reads > 0 {
			o.fail("construct-not-clean", []string{"C11", "C04"}, "failed construction closed (%d) or read (%d) the reader", s.closes, reads)
		}
		return
	}
	if x.lacks != "" {
		tags := []string{"C11", "C07", "C08"}
		if p.Kind != "reader" {
			tags = []string{"C07", "C08", "C09"}
		}
		o.fail("interfaces-missing", tags, "the Body lacks a promised interface: %s", x.lacks)
	}
	// Conduct towards the source.
	if s.overlap != "" {
		o.fail("source-entered-concurrently", []string{"C10", "C01"}, "the source was entered concurrently (%s)", s.overlap)
	}
	if s.cut != "" {
		o.fail("source-closed-in-use", []string{"C04", "C10"}, "the source was closed during a %s of it", s.cut)
	}
	if s.late != "" {
		o.fail("source-used-after-close", []string{"C04", "C05"}, "the source received a %s after it had been closed", s.late)
	}
	if d := x.declared; d >= 0 && !p.positional() && s.maxRead-int64(p.base()) > d {
		o.fail("stream-overread", []string{"C11"}, "%d bytes were consumed from a stream, only %d belong to the body", s.maxRead-int64(p.base()), d)
	}
	if p.Kind == "reader" && (p.Closer || p.Stat) && s.closes != 1 {
		o.fail("source-closes", with("C04"), "the source was closed %d times by the end of a run that closed all bodies", s.closes)
	}
	if x.mem != nil && string(x.mem) != string(x.data) {
		o.fail("caller-data-modified", []string{"C01", "C02"}, "the slice given to FromBytes was modified")
	}
	if s.lost {
		o.mark("source log overflow")
		return
	}
	x.attribute()
	x.linearize(conc)
}

// attribute records on each operation what the source did to it.
func (x *bodyRun) attribute() {
	s := x.src
	for t := range x.recs {
		rs := x.recs[t]
		k := 0
		for i := 0; i < s.logN; i++ {
			c := &s.log[i]
			if int(c.task) != t {
				continue
			}
			for k < len(rs) && rs[k].ret < c.start {
				k++
			}
			if k == len(rs) {
				break
			}
			// Operations of a task are in the order in which they ended;
			// one that ran inside another comes before it.
			j := k
			for j < len(rs) && rs[j].call > c.start {
				j++
			}
			if j == len(rs) {
				continue
			}
			r := rs[j]
			r.sCalls++
			if c.op == sRead || c.op == sReadAt {
				r.sCut = c.errID >= 0 && c.n > 0
			}
			switch {
			case c.op == sClose:
				r.sClose = true
				r.sCloseErr = c.errID
			case c.errID >= 0:
				r.sErr = c.errID
				if c.errID < 64 {
					r.sErrs |= 1 << uint(c.errID)
				}
			case c.op == sRead && c.n == 0 && c.errID == -1:
				r.sZero = true
			}
		}
	}
}

func opTag(kind string) string {
	switch kind {
	case "read":
		return "C01"
	case "readat":
		return "C08"
	case "seek":
		return "C07"
	case "writeto":
		return "C09"
	case "copy":
		return "C02"
	case "close":
		return "C04"
	case "remaining":
		return "C06"
	case "unwrap":
		return "C05"
	case "rewrap":
		return "C11"
	}
	return "C01"
}
