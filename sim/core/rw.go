package core

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifsim/rt"
)

// RWPlan describes a simulated client connection: a strict ResponseWriter
// modelled on net/http's, with the failures a client can cause.
type RWPlan struct {
	Kind     string `json:"kind"` // basic, flusher, fancy
	Pusher   bool   `json:"pusher,omitempty"`
	Limit    int    `json:"limit"` // body bytes taken before the client is gone; -1: no limit
	Partial  bool   `json:"partial,omitempty"`
	PushRes  []int  `json:"pushres,omitempty"` // per push: 0 ok, 1 not supported, 2 not supported (wrapped), 3 fails
	PanicOn  string `json:"panicon,omitempty"` // header, writeheader, write, push, readfrom
	PanicAt  int    `json:"panicat,omitempty"`
	Stall    int    `json:"stall,omitempty"`    // every n-th call takes long
	StallFor int    `json:"stallfor,omitempty"` // how long (µs); 4 ms if zero
	Mutate   string `json:"mutate,omitempty"`
	Pre      int    `json:"pre,omitempty"`
	Lax      bool   `json:"lax,omitempty"` // does not police Content-Length and bodiless statuses
	RFBuf    int    `json:"rfbuf,omitempty"`
	FlushER  bool   `json:"flusher,omitempty"`
	ErrKind  int    `json:"errkind,omitempty"`  // what the errors of the connection look like, see fail
	ShortAt  int    `json:"shortat,omitempty"`  // this write (1 is the first) takes only half and reports no error
	Hijack   int    `json:"hijack,omitempty"`   // Hijack: 0 not supported, 1 hands the connection over, 2 fails
	Away     int    `json:"away,omitempty"`     // the client is gone after so many µs, as CloseNotify tells
	Deadline int    `json:"deadline,omitempty"` // SetWriteDeadline: 0 succeeds, 1 fails
	Huge     int64  `json:"huge,omitempty"`     // every ReadFrom claims to have taken this much more
}

// CErr is the error of an injected client or push failure.
type CErr struct {
	ID  int
	At  string
	Inn error
}

func (e *CErr) Unwrap() error { return e.Inn }

func (e *CErr) Error() string { return fmt.Sprintf("injected client error %d (%s)", e.ID, e.At) }

// CPanic is the value of an injected panic of the ResponseWriter.
type CPanic struct{ At string }

type rwEvent struct {
	kind string // info, final, dup, body, flush, push, hijack
	code int
	n    int
	url  string
}

type simRW struct {
	p    *RWPlan
	head bool
	h    http.Header
	pre  http.Header

	events   []rwEvent
	final    int // 0: none yet
	implicit bool
	snap     http.Header
	cl       int64
	got      []byte // what the client took (also for HEAD, where it is not sent)
	dups     int
	errs     []error // every error returned to the caller
	writeErr bool    // a Write or the writing part of a ReadFrom failed
	gone     bool
	late     int // writes after a failed one
	flushes  int
	pushes   []string
	opts     []*http.PushOptions
	pushErr  error
	lastWork int64
	lastPush error
	writes   int
	calls    map[string]int
	stallN   int
	stalls   int
	panicked string
	readErr  error // error of the reader given to ReadFrom
	rfs      int
	lastN    int64
	lastErr  error
	lastSeq  int64
	short    bool  // a write took less than it was given and reported no error
	extra    int64 // bytes claimed beyond got
	cn       chan bool
	awayAt   int64 // when the client went away; 0: not yet
	conn     net.Conn
	buf      *bufio.ReadWriter
	hijacks  []error
	deadline []time.Time
	dlErr    error
	cancel   func() // cancels the context of the request
	cancelAt int
	cancels  int
	root     int // the task that it serves
}

func newRW(p *RWPlan, head bool) *simRW {
	w := &simRW{p: p, head: head, h: http.Header{}, cl: -1, calls: map[string]int{}, cn: make(chan bool, 1)}
	for i := 0; i < p.Pre; i++ {
		w.h["X-Pre-"+strconv.Itoa(i)] = []string{"pre"}
	}
	if p.Pre > 2 {
		w.h["X-A"] = []string{"outer"} // a header that the response may replace
	}
	w.pre = w.h.Clone()
	return w
}

func (w *simRW) enter(op string) {
	rt.Yield(rt.KSink)
	n := w.calls[op]
	w.calls[op] = n + 1
	w.lastSeq = rt.Seq()
	if w.cancel != nil {
		if w.cancelAt--; w.cancelAt == 0 {
			w.cancels++
			w.cancel()
		}
	}
	if w.p.Stall > 0 {
		w.stallN++
		if w.stallN%w.p.Stall == 0 {
			w.stalls++
			d := int64(4e6)
			if w.p.StallFor > 0 {
				d = int64(w.p.StallFor) * 1000
			}
			nap(d, w.root, nil)
		}
	}
	if op == "write" || op == "push" || op == "readfrom" {
		w.lastWork = rt.NowNS()
	}
	if w.p.PanicOn == op && n == w.p.PanicAt {
		w.panicked = op
		panic(&CPanic{At: op})
	}
}

func (w *simRW) fail(at string) error {
	e := clientErr(len(w.errs), at, w.p.ErrKind)
	w.errs = append(w.errs, e)
	return e
}

const clientErrKinds = 12

// clientErr makes the error of a connection: one of its own, or one of those
// that real connections and middleware return.
func clientErr(id int, at string, kind int) error {
	e := &CErr{ID: id, At: at}
	switch kind {
	case 1:
		e.Inn = syscall.EPIPE
	case 2:
		e.Inn = syscall.ECONNRESET
	case 3:
		return context.Canceled
	case 4:
		return http.ErrHandlerTimeout
	case 5:
		return io.ErrClosedPipe
	case 6:
		return io.EOF
	case 7:
		e.Inn = io.EOF
	case 8:
		return io.ErrShortWrite
	case 9:
		return http.ErrAbortHandler
	case 10:
		return net.ErrClosed
	case 11:
		return &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}
	}
	return e
}

func (w *simRW) header() http.Header {
	w.enter("header")
	return w.h
}

func (w *simRW) writeHeader(code int) {
	w.enter("writeheader")
	if code < 100 || code > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", code))
	}
	if w.final != 0 {
		w.dups++
		w.events = append(w.events, rwEvent{kind: "dup", code: code})
		return
	}
	if code < 200 && code != 101 {
		w.events = append(w.events, rwEvent{kind: "info", code: code})
		return
	}
	w.decide(code)
}

func (w *simRW) decide(code int) {
	w.final = code
	w.snap = w.h.Clone()
	w.events = append(w.events, rwEvent{kind: "final", code: code})
	rt.Note(rt.KSink, 1, int64(code), 0, 0)
	if !w.p.Lax {
		if v := w.snap["Content-Length"]; len(v) == 1 {
			if n, err := strconv.ParseInt(v[0], 10, 64); err == nil && n >= 0 {
				w.cl = n
			}
		}
	}
	w.mutate()
}

// mutate changes the connection's own header map, as middleware may.
func (w *simRW) mutate() {
	if w.p.Mutate == "" {
		return
	}
	var keys []string
	for k := range w.h {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		switch w.p.Mutate {
		case "inplace":
			for i := range w.h[k] {
				w.h[k][i] = "mutated"
			}
		case "append":
			w.h[k] = append(w.h[k], "appended")
		case "delete":
			delete(w.h, k)
		case "add":
			w.h.Add(k, "added")
		}
	}
	w.h["X-Mutated"] = []string{w.p.Mutate}
}

func (w *simRW) write(p []byte) (int, error) {
	w.enter("write")
	n, err := w.accept(p)
	rt.Note(rt.KSink, 2, int64(n), int64(len(p)), 0)
	rt.Yield(rt.KSink)
	return n, err
}

func (w *simRW) accept(p []byte) (int, error) {
	if w.final == 0 {
		w.implicit = true
		w.decide(http.StatusOK)
	}
	w.writes++
	w.mutate()
	if w.gone {
		w.late++
	}
	bad := func(n int, err error) (int, error) {
		w.writeErr = true
		w.lastN, w.lastErr = int64(n), err
		return n, err
	}
	if !w.p.Lax {
		if w.final == 204 || w.final == 304 || w.final < 200 {
			w.errs = append(w.errs, http.ErrBodyNotAllowed)
			return bad(0, http.ErrBodyNotAllowed)
		}
		if w.cl >= 0 && int64(len(w.got)+len(p)) > w.cl {
			w.errs = append(w.errs, http.ErrContentLength)
			return bad(0, http.ErrContentLength)
		}
	}
	n := len(p)
	var err error
	if w.p.ShortAt > 0 && w.writes == w.p.ShortAt && n > 0 && !w.gone {
		n /= 2
		w.short = true
		w.errs = append(w.errs, io.ErrShortWrite)
		w.got = append(w.got, p[:n]...)
		if n > 0 {
			w.events = append(w.events, rwEvent{kind: "body", n: n})
		}
		w.lastN, w.lastErr = int64(n), nil
		return n, nil
	}
	if w.p.Limit >= 0 && len(w.got)+n > w.p.Limit || w.gone {
		room := w.p.Limit - len(w.got)
		if room < 0 || w.gone || !w.p.Partial {
			room = 0
		}
		n = room
		w.gone = true
		err = w.fail("write")
	}
	w.got = append(w.got, p[:n]...)
	if n > 0 {
		w.events = append(w.events, rwEvent{kind: "body", n: n})
	}
	if err != nil {
		return bad(n, err)
	}
	w.lastN, w.lastErr = int64(n), nil
	return n, nil
}

func (w *simRW) flush() {
	w.enter("flush")
	if w.final == 0 {
		w.implicit = true
		w.decide(http.StatusOK)
	}
	w.flushes++
	w.events = append(w.events, rwEvent{kind: "flush"})
}

func (w *simRW) push(url string, o *http.PushOptions) error {
	w.enter("push")
	k := len(w.pushes)
	w.pushes = append(w.pushes, url)
	w.opts = append(w.opts, o)
	w.events = append(w.events, rwEvent{kind: "push", url: url})
	w.lastPush = w.pushResult(k)
	return w.lastPush
}

func (w *simRW) pushResult(k int) error {
	if k < len(w.p.PushRes) {
		switch w.p.PushRes[k] {
		case 1:
			return http.ErrNotSupported
		case 2:
			return fmt.Errorf("push: %w", http.ErrNotSupported)
		case 3:
			e := w.fail("push")
			if w.pushErr == nil {
				w.pushErr = e
			}
			return e
		}
	}
	return nil
}

func (w *simRW) readFrom(r io.Reader) (int64, error) {
	w.enter("readfrom")
	w.rfs++
	size := w.p.RFBuf
	if size <= 0 {
		size = 4096
	}
	buf := make([]byte, size)
	total := w.p.Huge
	w.extra += w.p.Huge
	for {
		n, err := r.Read(buf)
		if n > 0 {
			m, werr := w.accept(buf[:n])
			rt.Note(rt.KSink, 2, int64(m), int64(n), 0)
			total += int64(m)
			if werr == nil && m < n {
				werr = io.ErrShortWrite
				w.writeErr = true
			}
			if werr != nil {
				w.lastN, w.lastErr = total, werr
				return total, werr
			}
		}
		if err == io.EOF {
			w.lastN, w.lastErr = total, nil
			return total, nil
		}
		if err != nil {
			w.readErr = err
			w.lastN, w.lastErr = total, err
			return total, err
		}
		rt.Yield(rt.KSink)
	}
}

type simConn struct{ net.Conn }

// hijack hands the connection over, together with what was read ahead.
func (w *simRW) hijack() (net.Conn, *bufio.ReadWriter, error) {
	w.enter("hijack")
	var err error
	switch w.p.Hijack {
	case 0:
		err = errors.ErrUnsupported
	case 1:
		w.conn = &simConn{}
		w.buf = bufio.NewReadWriter(bufio.NewReader(strings.NewReader("read ahead")), bufio.NewWriter(io.Discard))
		w.buf.Reader.Peek(1)
		w.events = append(w.events, rwEvent{kind: "hijack"})
	default:
		err = w.fail("hijack")
	}
	w.hijacks = append(w.hijacks, err)
	return w.conn, w.buf, err
}

func (w *simRW) setWriteDeadline(t time.Time) error {
	w.enter("deadline")
	w.deadline = append(w.deadline, t)
	w.dlErr = nil
	if w.p.Deadline != 0 {
		w.dlErr = w.fail("deadline")
	}
	return w.dlErr
}

// leave is the client going away.
func (w *simRW) leave() {
	rt.SleepNS(int64(w.p.Away) * 1000)
	w.awayAt = rt.NowNS()
	rt.Send(w.cn, true)
}

type (
	rwBasic  struct{ w *simRW }
	rwPush   struct{ rwBasic }
	rwFlush  struct{ rwBasic }
	rwFlushP struct{ rwFlush }
	rwFancy  struct{ rwFlush }
	rwFancyP struct{ rwFancy }
)

func (x rwBasic) Header() http.Header                       { return x.w.header() }
func (x rwBasic) WriteHeader(code int)                      { x.w.writeHeader(code) }
func (x rwBasic) Write(p []byte) (int, error)               { return x.w.write(p) }
func (x rwBasic) SetWriteDeadline(t time.Time) error        { return x.w.setWriteDeadline(t) }
func (x rwPush) Push(u string, o *http.PushOptions) error   { return x.w.push(u, o) }
func (x rwFlush) Flush()                                    { x.w.flush() }
func (x rwFlushP) Push(u string, o *http.PushOptions) error { return x.w.push(u, o) }
func (x rwFancy) ReadFrom(r io.Reader) (int64, error)       { return x.w.readFrom(r) }
func (x rwFancy) CloseNotify() <-chan bool {
	x.w.enter("closenotify")
	return x.w.cn
}
func (x rwFancy) Hijack() (net.Conn, *bufio.ReadWriter, error) { return x.w.hijack() }
func (x rwFancyP) Push(u string, o *http.PushOptions) error    { return x.w.push(u, o) }

func (w *simRW) face() http.ResponseWriter {
	b := rwBasic{w}
	switch {
	case w.p.Kind == "fancy" && w.p.Pusher:
		return &rwFancyP{rwFancy{rwFlush{b}}}
	case w.p.Kind == "fancy":
		return &rwFancy{rwFlush{b}}
	case w.p.Kind == "flusher" && w.p.Pusher:
		return &rwFlushP{rwFlush{b}}
	case w.p.Kind == "flusher":
		return &rwFlush{b}
	case w.p.Pusher:
		return &rwPush{b}
	}
	return &b
}

func (w *simRW) report(o *Outcome) {
	count := func(k string, n int) {
		o.fired(k, n)
		o.Faults += n
	}
	if w.writeErr && w.gone {
		count("client disconnect", 1)
	}
	if w.writeErr && !w.gone {
		count("client refuses bytes", 1)
	}
	if w.short {
		count("short write without error", 1)
	}
	if w.extra > 0 {
		count("count beyond 32 bits", 1)
	}
	if w.pushErr != nil {
		count("push error", 1)
	}
	if w.panicked != "" {
		count("client panic ("+w.panicked+")", 1)
	}
	if w.stalls > 0 {
		count("client stall", w.stalls)
	}
	if w.cancels > 0 {
		count("request context cancelled", w.cancels)
	}
	if w.awayAt != 0 {
		count("client goes away (CloseNotify)", 1)
	}
	for _, e := range w.hijacks {
		if e != nil {
			count("hijack refused or failed", 1)
		}
	}
	if w.p.Deadline != 0 && len(w.deadline) > 0 {
		count("deadline error", len(w.deadline))
	}
	if w.p.Mutate != "" && w.final != 0 {
		count("header map mutated", 1)
	}
}

func genRW(r *R, body int) *RWPlan {
	p := &RWPlan{Kind: r.PickS("basic", "basic", "flusher", "fancy", "fancy"), Pusher: r.P(40), Limit: -1, RFBuf: r.Pick(1, 7, 64, 512, 4096, 32768)}
	if p.RFBuf*200 < body {
		p.RFBuf = body/200 + 1
	}
	p.Pre = r.Pick(0, 0, 1, 2, 3)
	if r.P(30) {
		p.Limit = r.N(body + 2)
		p.Partial = r.P(60)
	}
	if r.P(25) {
		p.Stall = r.In(1, 4)
		p.StallFor = genStallFor(r)
	}
	if r.P(35) {
		p.Mutate = r.PickS("inplace", "append", "delete", "add")
	}
	p.Lax = r.P(15)
	if p.Pusher && r.P(60) {
		for i, n := 0, r.In(1, 3); i < n; i++ {
			p.PushRes = append(p.PushRes, r.W(50, 12, 10, 28))
		}
	}
	if r.P(50) {
		p.ErrKind = r.N(clientErrKinds)
	}
	if r.P(8) {
		p.ShortAt = r.In(1, 4)
	}
	if r.P(14) {
		p.PanicOn = r.PickS("header", "writeheader", "write", "write", "push", "readfrom")
		if p.PanicOn == "write" {
			p.PanicAt = r.N(3)
		}
	}
	return p
}

func headersEqual(a, b http.Header) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		y, ok := b[k]
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
	}
	return true
}

func headerDiff(want, got http.Header) string {
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	out := ""
	for _, k := range keys {
		w, ok1 := want[k]
		g, ok2 := got[k]
		if ok1 != ok2 || fmt.Sprint(w) != fmt.Sprint(g) {
			out += fmt.Sprintf(" %s: want %q, got %q;", k, w, g)
		}
	}
	return out
}
