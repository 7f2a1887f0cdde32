package core

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"time"

	"github.com/chronos-tachyon/morehttp/response"

	"verifsim/rt"
)

// WOp is one call on a Writer.
type WOp struct {
	Kind string `json:"op"` // writeheader, maybe, write, readfrom, copy, flush, push, header, rewrap, hijack, waitaway, deadline, sleep
	Code int    `json:"code,omitempty"`
	N    int    `json:"n,omitempty"`
	Part int    `json:"part,omitempty"` // reads of the reader given to readfrom return at most this
	Err  int    `json:"err,omitempty"`  // the reader fails after this many bytes (-1: never)
	EOF  bool   `json:"eofdata,omitempty"`
	How  string `json:"reader,omitempty"` // what the reader is or offers besides
	Name string `json:"name,omitempty"`
	Val  string `json:"value,omitempty"`
	Opts bool   `json:"opts,omitempty"`
}

// WConn is one connection with its Writer.
type WConn struct {
	RW     *RWPlan `json:"rw"`
	Method string  `json:"method"`
	Layers bool    `json:"layers,omitempty"`
	// Of the request: HTTP version, and whether it asks for an upgrade.
	Proto   int   `json:"proto,omitempty"`
	Upgrade bool  `json:"upgrade,omitempty"`
	Ops     []WOp `json:"ops"`
}

const wrData = 1 << 22 // all that is written to one connection

type WrPlan struct {
	Conns []WConn `json:"tasks"`
}

// wreader is the reader given to ReadFrom.
type wreader struct {
	data  []byte
	pos   int
	part  int
	err   int
	eof   bool
	e     error
	given int
}

type rdErr struct{}

// wlen is a reader that knows how much is left.
type wlen struct{ *wreader }

func (r wlen) Len() int    { return len(r.data) - r.pos }
func (r wlen) Size() int64 { return int64(len(r.data)) }

// wto is a reader that would rather write itself.
type wto struct{ *wreader }

func (r wto) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(struct{ io.Writer }{w}, struct{ io.Reader }{r.wreader})
}

// reader is what is handed to the Writer.
func (r *wreader) reader(how string) io.Reader {
	switch how {
	case "limited":
		return &io.LimitedReader{R: r, N: int64(len(r.data))}
	case "limited to more":
		return io.LimitReader(r, int64(len(r.data))+10)
	case "with Len":
		return wlen{r}
	case "with WriteTo":
		return wto{r}
	}
	return r
}

func (*rdErr) Error() string { return "injected reader error" }

func (r *wreader) Read(p []byte) (int, error) {
	rt.Yield(rt.KSource)
	end := len(r.data)
	if r.err >= 0 && r.err < end {
		end = r.err
	}
	if r.pos >= end {
		if r.err >= 0 && end == r.err {
			r.e = &rdErr{}
			return 0, r.e
		}
		return 0, io.EOF
	}
	n := min(len(p), end-r.pos)
	if r.part > 0 && n > r.part {
		n = r.part
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	r.given += n
	if r.eof && r.pos == len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

// layer is a middleware between two Writers.
type layer struct{ http.ResponseWriter }

func (l *layer) Unwrap() http.ResponseWriter { return l.ResponseWriter }

type wconn struct {
	p     *WConn
	rw    *simRW
	ops   int
	bad   []Violation
	marks []string
	last  string

	want     []byte // what the client should have by now
	expect   int    // expected final status; 0: undecided
	mustErr  bool
	mayErr   bool
	infos    int
	next     int // position in the pattern
	hdrWant  http.Header
	refusals int
	waited   bool // asked CloseNotify
	away     int
	watch    int // the task that waits for it
	after    int // calls the client had got when it was hijacked
}

type wrRun struct {
	p     *WrPlan
	o     *Outcome
	conns []*wconn
}

func (c *wconn) fail(class string, tags []string, format string, args ...any) {
	c.bad = append(c.bad, Violation{class, tags, fmt.Sprintf(format, args...)})
}

var (
	tW  = []string{"C14"}
	tH  = []string{"C15"}
	tWH = []string{"C14", "C15"}
	tO  = []string{"C27"}
	tWO = []string{"C14", "C27"}
)

func (c *wconn) run() {
	face := c.rw.face()
	req := &http.Request{Method: c.p.Method, URL: &url.URL{Path: "/"}, Header: http.Header{}, ProtoMajor: c.p.Proto}
	if c.p.Upgrade {
		req.Header.Set("Connection", "Upgrade")
		req.Header.Set("Upgrade", "websocket")
	}
	w := response.NewWriter(face, req)
	var inner response.Writer
	if c.p.Layers {
		inner = w
		w = response.NewWriter(&layer{inner}, req)
	}
	fancy := c.rw.p.Kind == "fancy" && !c.p.Layers
	flusher := c.rw.p.Kind != "basic" && !c.p.Layers
	if w.Unwrap() == nil {
		c.fail("unwrap-nil", tWO, "Unwrap returned nil")
	}
	c.offers(w, face, fancy, flusher, "NewWriter")
	if len(c.rw.events) > 0 {
		c.fail("touched-by-newwriter", tO, "NewWriter alone made the client get %v", c.rw.events)
	}
	if c.rw.p.Away > 0 {
		c.away = rt.Spawn(c.rw.leave)
		defer func() {
			if !rt.Dead() {
				rt.Join(c.away)
				if c.watch > 0 {
					rt.Join(c.watch)
				}
			}
		}()
	}
	c.hdrWant = c.rw.h.Clone()
	c.check(w, inner, "NewWriter")
	for i := range c.p.Ops {
		op := &c.p.Ops[i]
		if op.Kind == "sleep" {
			rt.SleepNS(int64(op.N) * 1000)
			continue
		}
		what := fmt.Sprintf("op %d (%s)", i, op.Kind)
		c.last = op.Kind
		rt.Note(rt.KOp, kindNo(op.Kind), int64(op.Code), int64(op.N), 0)
		c.ops++
		if op.Kind == "rewrap" {
			again := req
			if op.Name != "" {
				again = new(http.Request)
				*again = *req
				again.Method = op.Name
			}
			w = response.NewWriter(w, again)
			c.offers(w, face, fancy, flusher, what)
			c.check(w, inner, what)
			continue
		}
		if !c.op(w, op, what, fancy) {
			return
		}
		c.check(w, inner, what)
	}
}

// offers compares what the Writer can do with what the ResponseWriter can.
func (c *wconn) offers(w response.Writer, face http.ResponseWriter, fancy, flusher bool, what string) {
	if _, ok := w.(http.Flusher); ok != flusher {
		c.fail("flusher-lost", tWO, "%s: Flusher offered: %v, by the ResponseWriter: %v", what, ok, flusher)
	}
	if fancy {
		_, a := w.(http.Hijacker)
		_, b := w.(http.CloseNotifier)
		_, d := w.(io.ReaderFrom)
		if !a || !b || !d {
			c.fail("capability-lost", tO, "%s: the ResponseWriter can hijack, notify and read from, the Writer: %v, %v, %v", what, a, b, d)
		}
	}
	// Down the chain of wrappers there is the client, for http.ResponseController.
	var at http.ResponseWriter = w
	through := false
	for i := 0; i < 20; i++ {
		u, ok := at.(interface{ Unwrap() http.ResponseWriter })
		if !ok {
			break
		}
		at = u.Unwrap()
		if _, l := at.(*layer); l {
			through = true
		}
	}
	if at != face || through != c.p.Layers {
		c.fail("unwrap-elsewhere", tO, "%s: unwrapping ends at a %T (through the layer given to NewWriter: %v)", what, at, through)
	}
}

// made is the number of calls that the client has got.
func (c *wconn) made() int {
	n := 0
	for _, k := range c.rw.calls {
		n += k
	}
	return n
}

// call runs f and returns the panic value, if any.
func call(f func()) (pv any) {
	defer func() {
		if !rt.Dead() {
			pv = recover()
		}
	}()
	f()
	return nil
}

func (c *wconn) suppressed() bool { return c.p.Method == "HEAD" || c.expect == 204 }

func (c *wconn) first(code int) {
	if c.expect == 0 {
		c.expect = code
	}
}

// injected says whether a panic was the ResponseWriter's own.
func (c *wconn) injected(pv any) bool {
	_, ok := pv.(*CPanic)
	if ok {
		c.mayErr = true
	}
	return ok
}

func (c *wconn) op(w response.Writer, op *WOp, what string, fancy bool) bool {
	rw := c.rw
	before, extra := len(rw.got), rw.extra
	writes := rw.writes
	rfs, wcalls := rw.rfs, rw.calls["write"]
	switch op.Kind {
	case "writeheader":
		second := c.expect != 0
		info := op.Code < 200
		if second && info {
			return true // not specified
		}
		ev := len(rw.events)
		pv := call(func() { w.WriteHeader(op.Code) })
		if rt.Dead() {
			return false
		}
		switch {
		case info:
			if pv != nil {
				c.fail("informational-refused", tH, "%s: WriteHeader(%d) panicked: %v", what, op.Code, pv)
			}
			if len(rw.events) != ev+1 || rw.events[ev].kind != "info" || rw.events[ev].code != op.Code {
				c.fail("informational-lost", tH, "%s: WriteHeader(%d) was not passed on", what, op.Code)
			}
			c.marks = append(c.marks, "informational status")
		case second:
			c.marks = append(c.marks, "second WriteHeader")
			c.mustErr = true
			c.refusals++
			if len(rw.events) != ev {
				c.fail("second-status-passed-on", tH, "%s: a second WriteHeader(%d) after %d reached the client", what, op.Code, c.expect)
			}
		default:
			c.expect = op.Code
			if pv != nil {
				c.fail("writer-panic", tWH, "%s: WriteHeader(%d) panicked: %v", what, op.Code, pv)
			}
		}
	case "maybe":
		ev := len(rw.events)
		second := c.expect != 0
		c.first(op.Code)
		if pv := call(func() { w.MaybeWriteHeader(op.Code) }); pv != nil {
			c.fail("writer-panic", tWH, "%s: MaybeWriteHeader(%d) panicked: %v", what, op.Code, pv)
		}
		if second && len(rw.events) != ev {
			c.fail("second-status-passed-on", tH, "%s: MaybeWriteHeader(%d) after %d reached the client", what, op.Code, c.expect)
		}
	case "write":
		p := cachedPattern(3, wrData)[c.next : c.next+op.N]
		c.first(200)
		var n int
		var err error
		pv := call(func() { n, err = w.Write(p) })
		if rt.Dead() {
			return false
		}
		c.took(p[:len(rw.got)-before])
		if c.suppressed() {
			c.marks = append(c.marks, "suppressed write")
			if pv != nil || n != len(p) || err != nil || rw.writes != writes {
				c.fail("suppressed-write", tH, "%s: Write of %d bytes, %s, status %d: (%d, %v), panic %v, %d bytes passed on", what, len(p), c.p.Method, c.expect, n, err, pv, len(rw.got)-before)
			}
			return true
		}
		if pv != nil {
			if !c.injected(pv) {
				c.fail("writer-panic", tWH, "%s: Write panicked: %v", what, pv)
			}
			return true
		}
		c.mustErr = c.mustErr || rw.writeErr
		if n != len(rw.got)-before || rw.writes == writes && len(p) > 0 || rw.writes > writes && err != rw.lastErr {
			c.fail("write-result", tW, "%s: Write of %d bytes returned (%d, %v), the ResponseWriter took %d and returned %v", what, len(p), n, err, len(rw.got)-before, rw.lastErr)
		}
	case "readfrom", "copy":
		r := &wreader{data: cachedPattern(3, wrData)[c.next : c.next+op.N], part: op.Part, err: op.Err, eof: op.EOF}
		had := c.expect
		c.first(200)
		f, direct := w.(io.ReaderFrom)
		direct = direct && op.Kind == "readfrom"
		var n int64
		var err error
		rd := r.reader(op.How)
		pv := call(func() {
			if direct {
				n, err = f.ReadFrom(rd)
			} else {
				n, err = io.Copy(struct{ io.Writer }{w}, rd)
			}
		})
		if rt.Dead() {
			return false
		}
		c.took(r.data[:len(rw.got)-before])
		none := had == 0 && !direct && r.given == 0 && rw.final == 0
		if r.e != nil {
			c.mayErr = true
		}
		if none { // io.Copy of nothing makes no call
			c.expect = 0
			return true
		}
		if c.suppressed() {
			c.marks = append(c.marks, "suppressed ReadFrom")
			all := r.given == r.pos && (r.e != nil || r.pos == len(r.data))
			if pv != nil || int(n) != r.given || err != r.e || rw.writes != writes || !all {
				c.fail("suppressed-write", tH, "%s: %s of %d bytes, %s, status %d: (%d, %v), panic %v, %d bytes passed on, %d read", what, op.Kind, len(r.data), c.p.Method, c.expect, n, err, pv, len(rw.got)-before, r.given)
			}
			return true
		}
		if direct && (rw.rfs == rfs || rw.calls["write"] != wcalls) && rw.panicked == "" {
			c.fail("readfrom-not-passed-on", tO, "%s: ReadFrom of %d bytes made %d ReadFrom and %d Write calls on the ResponseWriter", what, len(r.data), rw.rfs-rfs, rw.calls["write"]-wcalls)
		}
		if pv != nil {
			if !c.injected(pv) {
				c.fail("writer-panic", tWH, "%s: panicked: %v", what, pv)
			}
			return true
		}
		c.mustErr = c.mustErr || rw.writeErr
		ok := n == int64(len(rw.got)-before)+rw.extra-extra
		switch {
		case r.e != nil && err == r.e:
		case err == nil:
			ok = ok && r.e == nil && len(rw.got)-before == len(r.data)
		default:
			ok = ok && (rw.writeErr && err == rw.lastErr || rw.short && !direct && err == io.ErrShortWrite)
		}
		if !ok {
			c.fail("write-result", tW, "%s: %s of %d bytes returned (%d, %v), the ResponseWriter took %d and returned %v, the reader %v", what, op.Kind, len(r.data), n, err, len(rw.got)-before, rw.lastErr, r.e)
		}
	case "flush":
		f, ok := w.(http.Flusher)
		if !ok {
			return true
		}
		c.first(200)
		k := rw.flushes
		if pv := call(f.Flush); pv != nil {
			c.fail("writer-panic", tWH, "%s: Flush panicked: %v", what, pv)
		}
		if rw.flushes != k+1 {
			c.fail("flush-lost", tWO, "%s: Flush made %d flushes", what, rw.flushes-k)
		}
	case "push":
		var o *http.PushOptions
		if op.Opts {
			o = &http.PushOptions{Method: "GET", Header: http.Header{"X-Push": {op.Val}}}
		}
		k := len(rw.pushes)
		var err error
		pv := call(func() { err = w.Push(op.Name, o) })
		if rt.Dead() {
			return false
		}
		if !c.rw.p.Pusher || c.p.Layers {
			if pv != nil || !errors.Is(err, http.ErrNotSupported) {
				c.fail("push-result", tWO, "%s: Push without a Pusher returned %v (panic %v)", what, err, pv)
			}
			return true
		}
		if pv != nil {
			if !c.injected(pv) {
				c.fail("writer-panic", tWH, "%s: Push panicked: %v", what, pv)
			}
			return true
		}
		if len(rw.pushes) != k+1 || rw.pushes[k] != op.Name || rw.opts[k] != o {
			c.fail("push-result", tWO, "%s: Push(%q, %v) reached the ResponseWriter as %v", what, op.Name, o, rw.pushes[k:])
		} else if err != rw.lastPush {
			c.fail("push-result", tWO, "%s: Push returned %v, the ResponseWriter %v", what, err, rw.lastPush)
		}
	case "header":
		var h http.Header
		pv := call(func() { h = w.Header() })
		if rt.Dead() || c.injected(pv) {
			return !rt.Dead()
		}
		if pv != nil {
			c.fail("writer-panic", tWH, "%s: Header panicked: %v", what, pv)
			return true
		}
		if rw.final == 0 {
			if op.Val == "" {
				h.Del(op.Name)
				c.hdrWant.Del(op.Name)
			} else {
				h.Add(op.Name, op.Val)
				c.hdrWant.Add(op.Name, op.Val)
			}
			if !headersEqual(c.hdrWant, rw.h) {
				c.fail("header-result", tWO, "%s: the ResponseWriter's headers differ:%s", what, headerDiff(c.hdrWant, rw.h))
			}
		}
	case "hijack":
		if !fancy {
			return true
		}
		hj, ok := w.(http.Hijacker)
		if !ok {
			return true
		}
		var err error
		var conn net.Conn
		var buf *bufio.ReadWriter
		k := len(rw.hijacks)
		pv := call(func() {
			if op.Opts {
				conn, buf, err = http.NewResponseController(w).Hijack()
			} else {
				conn, buf, err = hj.Hijack()
			}
		})
		if rt.Dead() {
			return false
		}
		switch {
		case pv != nil || len(rw.hijacks) != k+1:
			c.fail("hijack-result", tWO, "%s: Hijack (panic %v) reached the client %d times", what, pv, len(rw.hijacks)-k)
		case err != rw.hijacks[k] || conn != rw.conn || buf != rw.buf:
			c.fail("hijack-result", tWO, "%s: Hijack returned (%v, %v, %v), the ResponseWriter (%v, %v, %v)", what, conn, buf, err, rw.conn, rw.buf, rw.hijacks[k])
		case err == nil:
			if s, _ := io.ReadAll(buf.Reader); string(s) != "read ahead" {
				c.fail("hijack-result", tO, "%s: of what the server had read ahead only %q is left", what, s)
			}
			c.marks = append(c.marks, "hijacked")
			c.check(w, nil, what)
			c.after = c.made()
			return false // the connection is the caller's now
		}
	case "waitaway":
		if !fancy || rw.p.Away == 0 {
			return true
		}
		cn, ok := w.(http.CloseNotifier)
		if !ok {
			return true
		}
		var ch <-chan bool
		if pv := call(func() { ch = cn.CloseNotify() }); pv != nil {
			if !c.injected(pv) && !rt.Dead() {
				c.fail("notify-lost", tO, "%s: CloseNotify panicked: %v", what, pv)
			}
			return !rt.Dead()
		}
		if ch == nil {
			c.fail("notify-lost", tO, "%s: CloseNotify returned nil", what)
			return true
		}
		if c.waited { // the value comes once
			return true
		}
		c.waited = true
		c.marks = append(c.marks, "waits for CloseNotify")
		if op.Opts { // meanwhile the handler goes on
			c.watch = rt.Spawn(func() { c.notified(ch, what) })
			return true
		}
		c.notified(ch, what)
	case "deadline":
		k := len(rw.deadline)
		at := time.Unix(int64(op.N), 0)
		var err error
		pv := call(func() { err = http.NewResponseController(w).SetWriteDeadline(at) })
		if rt.Dead() {
			return false
		}
		if pv != nil || len(rw.deadline) != k+1 || !rw.deadline[k].Equal(at) || err != rw.dlErr {
			c.fail("controller-result", tO, "%s: SetWriteDeadline returned %v (panic %v) and reached the client %d times, which returned %v", what, err, pv, len(rw.deadline)-k, rw.dlErr)
		}
	}
	return true
}

// notified waits until the client is gone.
func (c *wconn) notified(ch <-chan bool, what string) {
	v, ok := rt.Recv2(ch)
	if rt.Dead() {
		return
	}
	if !v || !ok || c.rw.awayAt == 0 {
		c.fail("notify-wrong", tO, "%s: CloseNotify told %v (%v) although the client is gone: %v", what, v, ok, c.rw.awayAt != 0)
	}
}

func (c *wconn) took(p []byte) {
	c.want = append(c.want, p...)
	c.next += len(p) // the next write goes on from there, so that lost bytes show
	if c.next > 1<<16 {
		c.next = 0
	}
}

func (c *wconn) check(w, inner response.Writer, what string) {
	rw := c.rw
	if !bytes.Equal(rw.got, c.want) {
		c.fail("bytes-altered", tW, "after %s: the client got other bytes than were written (%d, want %d)", what, len(rw.got), len(c.want))
		c.want = append([]byte(nil), rw.got...)
	}
	if rw.final != c.expect {
		c.fail("status-decision", tH, "after %s: the client got status %d, want %d", what, rw.final, c.expect)
	}
	if rw.implicit {
		c.fail("status-not-first", tH, "after %s: a flush or body bytes reached the ResponseWriter before any status did", what)
	}
	if rw.dups > 0 {
		c.fail("second-status-passed-on", tH, "after %s: a second final status reached the client", what)
	}
	if c.suppressed() && len(rw.got) > 0 && rw.final == c.expect {
		c.fail("body-not-suppressed", tH, "after %s: %d body bytes reached the client, %s, status %d", what, len(rw.got), c.p.Method, c.expect)
	}
	for i, u := range []response.Writer{w, inner} {
		if u == nil {
			continue
		}
		who := "Writer"
		if i == 1 {
			who = "inner Writer"
		}
		if s := u.Status(); s != rw.final {
			c.fail("status-account", tWH, "after %s: %s.Status() is %d, the client got %d", what, who, s, rw.final)
		}
		if n := u.BytesWritten(); n != int64(len(rw.got))+rw.extra {
			c.fail("bytes-account", tW, "after %s: %s.BytesWritten() is %d, the client took %d", what, who, n, len(rw.got))
		}
		e := u.SawError()
		if i == 1 {
			if rw.writeErr && !e {
				c.fail("saw-error", tW, "after %s: %s.SawError() is false, a write had failed", what, who)
			}
			continue
		}
		if c.mustErr && !e {
			tags := tW
			if c.refusals > 0 {
				tags = tWH
			}
			c.fail("saw-error", tags, "after %s: SawError() is false (a write failed: %v, refused statuses: %d)", what, rw.writeErr, c.refusals)
		}
		if e && !c.mustErr && !c.mayErr && !rw.short {
			c.fail("saw-error-false-alarm", tW, "after %s: SawError() is true although nothing failed", what)
		}
	}
	// Order of what the client got.
	seen := false
	for _, e := range rw.events {
		switch e.kind {
		case "final":
			seen = true
		case "body", "flush":
			if !seen {
				c.fail("header-after-body", tH, "after %s: %s before the status", what, e.kind)
			}
		}
	}
}

func runWriter(p *Plan, o *Outcome, logging bool) {
	x := &wrRun{p: p.Wr, o: o}
	cachedPattern(3, wrData)
	for i := range p.Wr.Conns {
		c := &p.Wr.Conns[i]
		x.conns = append(x.conns, &wconn{p: c, rw: newRW(c.RW, c.Method == "HEAD")})
	}
	o.rt = rt.Run(p.Sched, logging, func() {
		if len(x.conns) == 1 {
			x.conns[0].run()
			return
		}
		var ids []int
		for _, c := range x.conns {
			ids = append(ids, rt.Spawn(c.run))
		}
		rt.Join(ids...)
	})
	o.Tasks = len(x.conns)
	for i, c := range x.conns {
		c.rw.report(o)
		o.Ops += c.ops
		o.mark("connection: " + c.p.RW.Kind)
		if c.p.Method == "HEAD" {
			o.mark("HEAD")
		}
		for _, m := range c.marks {
			o.mark(m)
		}
		if c.after > 0 && c.made() != c.after {
			c.fail("touched-after-hijack", tO, "%d calls were made on the ResponseWriter after it was hijacked", c.made()-c.after)
		}
		for _, v := range c.bad {
			o.fail(v.Class, v.Props, "connection %d (%s, %s): %s", i, c.p.RW.Kind, c.p.Method, v.Detail)
		}
	}
	if o.rt.Races > 0 {
		o.fail("data-race", []string{"C14", "C15", "C27"}, "the race detector reported %d conflicting accesses although every connection has its own Writer", o.rt.Races)
	}
	if o.rt.HasPanic {
		o.fail("task-panic", []string{"C14", "C15", "C27"}, "a goroutine panicked: %v", o.rt.Panic)
		return
	}
	if o.rt.Outcome != rt.Finished {
		o.fail(o.rt.Outcome.String(), []string{"C14", "C15", "C27"}, "the run ended in a %s", o.rt.Outcome)
	}
}

func genWriter(r *R, prop string) *WrPlan {
	p := &WrPlan{}
	n := r.Pick(1, 1, 2, 3)
	for i := 0; i < n; i++ {
		size := r.Pick(10, 100, 1000, 20000)
		if r.N(250) == 0 {
			size = genBig(r)
		}
		c := WConn{RW: genRW(r, size*2), Method: r.PickS("GET", "GET", "GET", "POST", "HEAD")}
		w := c.RW
		w.Mutate = ""
		if w.PanicOn == "writeheader" {
			w.PanicOn = "push"
		}
		if w.Kind == "basic" && r.P(40) {
			w.Kind = "fancy"
		}
		if w.RFBuf*100 < size {
			w.RFBuf = size/100 + 1
		}
		c.Layers = r.P(8)
		c.Proto = r.Pick(0, 1, 1, 2)
		c.Upgrade = r.P(15)
		open := prop == "C27"
		if open {
			if r.P(50) {
				w.Kind = "fancy"
			}
			w.Hijack = r.Pick(0, 1, 1, 1, 2)
			w.Deadline = r.W(60, 40)
			if r.P(60) {
				w.Away = r.In(1, 5000)
			}
		}
		if r.P(10) {
			w.Huge = int64(r.Pick(1<<31-1, 1<<31, 3<<30, 5<<32))
		}
		steps := r.In(2, 12)
		budget := max(60000, min(wrData, 4*size))
		for k := 0; k < steps; k++ {
			var op WOp
			op.Err = -1
			weights := []int{14, 12, 30, 20, 5, 8, 8, 8, 4, 3, 2, 0, 0}
			if open {
				weights = []int{7, 6, 12, 22, 3, 16, 10, 5, 7, 4, 3, 10, 8}
			}
			switch r.W(weights...) {
			case 0:
				op.Kind = "writeheader"
				op.Code = r.Pick(200, 200, 201, 204, 204, 206, 301, 304, 404, 500, 599, 999, 100, 103, 102, 199)
			case 1:
				op.Kind = "maybe"
				op.Code = r.Pick(200, 204, 404, 500, 299)
			case 2:
				op.Kind = "write"
				op.N = r.Pick(0, 1, r.N(size), r.N(size), size)
			case 3:
				op.Kind = "readfrom"
			case 4:
				op.Kind = "copy"
			case 5:
				op.Kind = "flush"
			case 6:
				op.Kind = "push"
				op.Name = r.PickS("/a", "/b", "/c")
				op.Val = r.PickS("x", "y")
				op.Opts = r.P(50)
			case 7:
				op.Kind = "header"
				op.Name = r.PickS("X-A", "X-B", "Content-Type", "Content-Length")
				op.Val = r.PickS("v", "w", "")
				if op.Name == "Content-Length" && op.Val != "" {
					op.Val = r.PickS("0", "10", "1000")
				}
			case 8:
				op.Kind = "rewrap"
				if open && r.P(40) {
					op.Name = r.PickS("HEAD", "HEAD", "GET", "POST")
				}
			case 9:
				op.Kind = "hijack"
				op.Opts = r.P(30)
			case 10:
				op.Kind = "sleep"
				op.N = r.In(1, 3000)
			case 11:
				op.Kind = "waitaway"
				op.Opts = r.P(60)
			case 12:
				op.Kind = "deadline"
				op.N = r.N(1 << 16)
			}
			if op.Kind == "readfrom" || op.Kind == "copy" {
				op.N = r.Pick(0, 1, r.N(size), r.N(size), size)
				op.Part = r.Pick(0, 0, 1, 7, 100)
				if op.Part*100 < op.N && op.Part > 0 {
					op.Part = op.N/100 + 1
				}
				op.EOF = r.P(30)
				op.How = r.PickS("", "", "", "limited", "limited", "limited to more", "with Len", "with WriteTo")
				if r.P(20) {
					op.Err = r.N(op.N + 1)
				}
			}
			if op.N > budget {
				op.N = budget
			}
			if op.Kind == "write" || op.Kind == "readfrom" || op.Kind == "copy" {
				budget -= op.N
			}
			c.Ops = append(c.Ops, op)
		}
		p.Conns = append(p.Conns, c)
	}
	return p
}

func wrTasks(p *WrPlan) int {
	n := len(p.Conns)
	for i := range p.Conns {
		if p.Conns[i].RW.Away > 0 {
			n++
		}
	}
	return n
}
