package core

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"unsafe"
	"weak"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"

	"verifsim/rt"
)

// What is over has to be let go: Readers whose last Body is closed, clients
// that have been served, values that have been encoded. A run does the same
// few things again and again and looks what is left at the end.

// LOp is one life: something is made, used and given up.
type LOp struct {
	Kind   string   `json:"life"` // body, bytes, response, request, payload
	Src    *SrcPlan `json:"source,omitempty"`
	RW     *RWPlan  `json:"rw,omitempty"`
	Steps  string   `json:"steps,omitempty"`
	Copies int      `json:"copies,omitempty"`
	How    string   `json:"how,omitempty"`    // request: how the handler ends; payload: which value
	Method string   `json:"method,omitempty"` // "*": one of its own
	Wrap   bool     `json:"wrap,omitempty"`
	Keep   bool     `json:"keep,omitempty"` // the user holds on to what has been closed
}

// LeftPlan is a run of lives.
type LeftPlan struct {
	Times int     `json:"times"`
	Tasks [][]LOp `json:"tasks"`
}

const leftFew = 8 // so many may be left, such as background workers and caches

// ghost is something that was given to the code under test.
type ghost struct {
	task, op int
	what     string
	alive    func() bool
}

type visit struct {
	task, op int
	calls    map[string]int
	n        int
}

type leftRun struct {
	p      *LeftPlan
	o      *Outcome
	ghosts [rt.MaxRoots][]ghost
	kept   [rt.MaxRoots][]any
	visits [rt.MaxRoots][]visit
	lives  [rt.MaxRoots]int
	srcs   [rt.MaxRoots][]*Src // of the present life
	mu     sync.Mutex
	boxes  []body.Body // handed over between tasks
	faults [rt.MaxRoots]map[string]int
}

func track[T any](x *leftRun, t, k int, what string, p *T) {
	w := weak.Make(p)
	x.ghosts[t] = append(x.ghosts[t], ghost{t, k, what, func() bool { return w.Value() != nil }})
}

func (x *leftRun) hand(b body.Body) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.boxes = append(x.boxes, b)
}

func (x *leftRun) take() body.Body {
	x.mu.Lock()
	defer x.mu.Unlock()
	n := len(x.boxes)
	if n == 0 {
		return nil
	}
	b := x.boxes[n-1]
	x.boxes[n-1] = nil
	x.boxes = x.boxes[:n-1]
	return b
}

func (x *leftRun) note(t int, kind string) { x.count(t, kind, 1) }

func (x *leftRun) count(t int, kind string, n int) {
	if x.faults[t] == nil {
		x.faults[t] = map[string]int{}
	}
	x.faults[t][kind] += n
}

// calm runs f and survives what the simulated components throw.
func (x *leftRun) calm(t int, f func()) {
	defer func() {
		if rt.Dead() {
			return
		}
		if p := recover(); p != nil {
			x.note(t, "panic passed through")
		}
	}()
	f()
}

// leftSink is a writer that takes some.
type leftSink struct{ room int }

func (s *leftSink) Write(p []byte) (int, error) {
	rt.Yield(rt.KSink)
	if len(p) > s.room {
		n := s.room
		s.room = 0
		return n, errFlowGone
	}
	s.room -= len(p)
	return len(p), nil
}

// source makes what a life reads from, and the body.
func (x *leftRun) source(t, k int, op *LOp) (b body.Body) {
	p := op.Src
	switch p.Kind {
	case "bytes":
		data := append(make([]byte, 0, max(64, p.Len)), p.data()...)
		track(x, t, k, "the bytes given to FromBytes", unsafe.SliceData(data))
		return body.FromBytes(data)
	case "empty":
		return body.Empty()
	}
	s := newSrc(p, -1)
	x.srcs[t] = append(x.srcs[t], s)
	track(x, t, k, "the Reader of a Body", s)
	x.calm(t, func() {
		var err error
		if p.Declared >= 0 {
			b, err = body.FromReaderAndLength(s.reader(), int64(p.Declared))
		} else {
			b, err = body.FromReader(s.reader())
		}
		if err != nil {
			x.note(t, "construction failed")
		}
	})
	return b
}

func (x *leftRun) use(t int, l *[]body.Body, steps string) {
	open := *l
	for i := 0; i < len(steps) && len(open) > 0 && !rt.Dead(); i++ {
		j := i * 7 % len(open)
		b := open[j]
		x.calm(t, func() {
			switch steps[i] {
			case 'c', 'h':
				c, err := b.Copy()
				if err != nil {
					return
				}
				if steps[i] == 'h' {
					x.hand(c)
				} else if len(open) < 6 {
					open = append(open, c)
				} else {
					c.Close()
				}
			case 't':
				if c := x.take(); c != nil {
					c.Close()
				}
			case 'r':
				b.Read(make([]byte, 20))
			case 'e':
				buf := make([]byte, 4096)
				for k := 0; k < 60 && !rt.Dead(); k++ {
					if _, err := b.Read(buf); err != nil {
						break
					}
				}
			case 's':
				if s, ok := b.(io.Seeker); ok {
					s.Seek(int64(i), i%3)
				}
			case 'a':
				if r, ok := b.(io.ReaderAt); ok {
					r.ReadAt(make([]byte, 10), int64(i))
				}
			case 'w', 'W':
				sink := &leftSink{1 << 30}
				if steps[i] == 'w' {
					sink.room = 5
				}
				track(x, t, 0, "the Writer given to WriteTo", sink)
				if r, ok := b.(io.WriterTo); ok {
					r.WriteTo(sink)
				}
			case 'u':
				b.Unwrap()
				b.BytesRemaining()
			case 'x':
				open = append(open[:j:j], open[j+1:]...)
				b.Close()
			}
		})
	}
	*l = open
}

// life lives op; what it made is only reachable from here.
//
//go:noinline
func (x *leftRun) life(t, k int, op *LOp) {
	x.lives[t]++
	defer func() {
		for i, s := range x.srcs[t] {
			for f, n := range s.fired {
				if f < len(FaultKinds) && n > 0 {
					x.count(t, "source "+FaultKinds[f], n)
				}
			}
			x.srcs[t][i] = nil
		}
		x.srcs[t] = x.srcs[t][:0]
	}()
	keep := func(v any) {
		if op.Keep {
			x.kept[t] = append(x.kept[t], v)
		}
	}
	switch op.Kind {
	case "body":
		b := x.source(t, k, op)
		if b == nil {
			return
		}
		open := []body.Body{b}
		keep(b)
		x.use(t, &open, op.Steps)
		for _, b := range open {
			x.calm(t, func() { b.Close() })
			keep(b)
		}
	case "response":
		b := x.source(t, k, op)
		if b == nil {
			return
		}
		bd := response.NewBuilder()
		var resps []*response.Response
		x.calm(t, func() {
			bd.WithStatus(200).WithHeader("X-Life", "y", true).WithHeader("Push", "/a", true).WithBody(b)
			resps = append(resps, bd.Build())
		})
		keep(bd)
		for i := 0; i < op.Copies && len(resps) > 0; i++ {
			x.calm(t, func() {
				if c, err := resps[0].Copy(); err == nil {
					resps = append(resps, c)
				}
			})
		}
		for i, r := range resps {
			if i < len(op.Steps) && op.Steps[i] == 'x' {
				x.calm(t, func() { r.Body().Close() })
			} else {
				x.client(t, k, op, func(w http.ResponseWriter, req *http.Request) {
					if op.Wrap {
						w = response.NewWriter(w, req)
					}
					r.Serve(w)
				})
			}
			keep(r)
			if rt.Dead() {
				return
			}
		}
	case "request":
		x.client(t, k, op, func(w http.ResponseWriter, req *http.Request) {
			h := &leftHandler{x: x, t: t, k: k, op: op}
			track(x, t, k, "the Handler of an Adaptor", h)
			handler.Adaptor{Inner: h}.ServeHTTP(w, req)
		})
	case "payload":
		x.encode(t, k, op, keep)
	}
}

func (x *leftRun) client(t, k int, op *LOp, serve func(http.ResponseWriter, *http.Request)) {
	w := newRW(op.RW, op.Method == "HEAD")
	w.root = t
	method := op.Method
	if method == "*" {
		method = fmt.Sprintf("METHOD-%d-%d-%d-%s", t, k, x.lives[t], strings.Repeat("x", 40))
	}
	path := fmt.Sprintf("/%d/%d/%d/%s", t, k, x.lives[t], strings.Repeat("y", 40))
	req := &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{}, RequestURI: path, Proto: "HTTP/1.1", Host: "h"}
	track(x, t, k, "the ResponseWriter", w)
	track(x, t, k, "the Request", req)
	track(x, t, k, "the path of the Request", unsafe.StringData(path))
	if op.Method == "*" {
		track(x, t, k, "the method of the Request", unsafe.StringData(method))
	}
	x.calm(t, func() { serve(w.face(), req) })
	if rt.Dead() {
		return
	}
	if len(w.errs) > 0 {
		x.note(t, "client failed")
	}
	x.visits[t] = append(x.visits[t], visit{t, k, w.calls, sum(w.calls)})
}

func sum(m map[string]int) int {
	n := 0
	for _, k := range m {
		n += k
	}
	return n
}

type leftHandler struct {
	x    *leftRun
	t, k int
	op   *LOp
}

type leftPanic struct {
	text string
	pad  [40]byte
}

func (e *leftPanic) Error() string { return e.text }

func (h *leftHandler) Handle(req *http.Request) response.Response {
	rt.Yield(rt.KUser)
	x, t, k := h.x, h.t, h.k
	switch h.op.How {
	case "error", "value":
		text := fmt.Sprintf("failure of request %s", req.URL.Path)
		e := &leftPanic{text: text}
		track(x, t, k, "the value of a panic", e)
		track(x, t, k, "the text of a panic", unsafe.StringData(text))
		if h.op.How == "value" {
			panic(struct{ e *leftPanic }{e})
		}
		panic(e)
	}
	b := x.source(t, k, h.op)
	if b == nil {
		panic(errFlowGone)
	}
	if h.op.Copies > 0 {
		x.calm(t, func() {
			if c, err := b.Copy(); err == nil {
				x.hand(c)
			}
		})
	}
	return *response.NewBuilder().WithStatus(200).WithBody(b).Build()
}

// leftValue is a value to be encoded.
type leftValue struct {
	Text string
	fail int
	pad  [40]byte
}

func (v *leftValue) MarshalJSON() ([]byte, error) {
	rt.Yield(rt.KUser)
	switch v.fail {
	case 1:
		return nil, errors.New("cannot be encoded")
	case 2:
		panic(v)
	}
	return []byte(`"` + v.Text + `"`), nil
}

func (x *leftRun) encode(t, k int, op *LOp, keep func(any)) {
	v := &leftValue{Text: strings.Repeat("z", 100+x.lives[t])}
	switch op.How {
	case "fail":
		v.fail = 1
	case "panic":
		v.fail = 2
	}
	track(x, t, k, "the value of a payload", v)
	var b body.Body
	x.calm(t, func() {
		switch op.How {
		case "proto", "text":
			m := wrapperspb.Bytes(make([]byte, 200))
			track(x, t, k, "the message of a payload", m)
			track(x, t, k, "the bytes of a message", unsafe.SliceData(m.Value))
			if op.How == "proto" {
				b = body.FromProto(proto.Message(m))
			} else {
				b = body.FromProtoText(m, nil)
			}
		case "pretty":
			b = body.FromPrettyJSON(map[string]any{"a": v})
		default:
			b = body.FromJSON([]any{v})
		}
	})
	if b == nil || rt.Dead() {
		return
	}
	keep(b)
	open := []body.Body{b}
	x.use(t, &open, op.Steps)
	for _, b := range open {
		x.calm(t, func() { b.Close() })
	}
}

func (x *leftRun) main() {
	var ids []int
	for t := range x.p.Tasks {
		ids = append(ids, rt.Spawn(func() {
			for n := 0; n < x.p.Times && !rt.Dead(); n++ {
				for k := range x.p.Tasks[t] {
					x.life(t, k, &x.p.Tasks[t][k])
					if rt.Dead() {
						return
					}
				}
			}
		}))
	}
	rt.Join(ids...)
	for !rt.Dead() {
		b := x.take()
		if b == nil {
			break
		}
		x.calm(0, func() { b.Close() })
	}
	if !rt.Dead() {
		rt.SleepNS(100 * 3600e9) // whatever is put off comes to pass
	}
}

func runLeft(p *Plan, o *Outcome, logging bool) {
	x := &leftRun{p: p.Left, o: o}
	for _, l := range p.Left.Tasks {
		for i := range l {
			if s := l[i].Src; s != nil {
				s.data() // the cache is not for concurrent use
			}
		}
	}
	hook := handler.OnPanic
	handler.OnPanic = func(err error) { rt.Yield(rt.KUser) }
	o.rt = rt.Run(p.Sched, logging, x.main)
	handler.OnPanic = hook
	rt.DropPools()
	for i := range stalls[:nstalls] {
		stalls[i].src = nil
	}
	o.Tasks = len(p.Left.Tasks)
	for t := range x.lives {
		o.Ops += x.lives[t]
		for k, n := range x.faults[t] {
			o.fired(k, n)
			o.Faults += n
		}
	}
	for _, l := range p.Left.Tasks {
		for i := range l {
			o.mark("life: " + l[i].Kind + " " + l[i].How)
		}
	}
	tags := []string{"C26"}
	if o.rt.Races > 0 {
		o.fail("data-race", []string{"C10"}, "the race detector reported %d conflicting accesses", o.rt.Races)
	}
	if o.rt.HasPanic {
		if fmt.Sprint(o.rt.Panic) == rt.TooMany {
			o.fail("goroutines-left", tags, "more goroutines were started than the %d lives of this run can have use for", o.Ops)
		} else {
			o.fail("task-panic", []string{"C10"}, "a goroutine panicked: %v", o.rt.Panic)
		}
		return
	}
	if o.rt.Outcome != rt.Finished {
		o.fail(o.rt.Outcome.String(), []string{"C10"}, "the run ended in a %s", o.rt.Outcome)
		return
	}
	if n := o.rt.Left; n > leftFew && 2*n > p.Left.Times {
		o.fail("goroutines-left", tags, "%d goroutines were left when everything had long been closed and served", n)
	}
	for t := range x.visits {
		for _, v := range x.visits[t] {
			if n := sum(v.calls); n != v.n {
				o.fail("client-used-late", tags, "task %d, life %d: the ResponseWriter was used after Serve had returned", v.task, v.op)
			}
		}
	}
	runtime.GC()
	runtime.GC()
	runtime.GC() // pools give up what they hold in the second
	type cell struct {
		task, op int
		what     string
	}
	made, left, all := map[cell]int{}, map[cell]int{}, map[string]int{}
	var order []cell
	for t := range x.ghosts {
		for i := range x.ghosts[t] {
			g := &x.ghosts[t][i]
			c := cell{g.task, g.op, g.what}
			if made[c] == 0 {
				order = append(order, c)
			}
			made[c]++
			if g.alive() {
				left[c]++
				all[g.what]++
			}
		}
	}
	for _, c := range order {
		if n := left[c]; n > 2 && 2*n > made[c] && all[c.what] > leftFew {
			o.fail("still-reachable", tags, "task %d, life %d: %s was still reachable in %d of %d cases when everything had long been closed and served", c.task, c.op, c.what, n, made[c])
		}
	}
	runtime.KeepAlive(x)
}

func (p *LeftPlan) valid() bool {
	if p.Times < 10 || p.Times > 24 || len(p.Tasks) == 0 || len(p.Tasks) > 3 {
		return false
	}
	for _, l := range p.Tasks {
		if len(l) > 4 {
			return false
		}
		for i := range l {
			op := &l[i]
			if op.Copies < 0 || op.Copies > 4 {
				return false
			}
			switch op.Kind {
			case "payload":
			case "request", "response":
				if op.RW == nil || op.Src == nil || !op.Src.valid() {
					return false
				}
			default:
				if op.Src == nil || !op.Src.valid() {
					return false
				}
			}
		}
	}
	return true
}

func genLeft(r *R) *LeftPlan {
	p := &LeftPlan{Times: r.Pick(10, 12, 16, 20)}
	tasks := r.Pick(1, 1, 2, 2, 3)
	steps := func(n int) string {
		s := ""
		for i := 0; i < n; i++ {
			s += string("crreesawWuxht"[r.N(13)])
		}
		return s
	}
	src := func() *SrcPlan {
		s := &SrcPlan{}
		pf := bprofile{faults: 45, ctor: 8}
		genBodySrc(r, s, pf, r.W(40, 20, 25, 12, 3))
		if s.Kind == "string" || s.Kind == "closed" {
			s.Kind = "bytes"
		}
		for s.Len > 2000 {
			s.Len = r.In(0, 300)
			s.Declared = min(s.Declared, s.Len)
			s.StatLie = 0
			s.Pos = min(s.Pos, s.Len)
		}
		var fs []Fault
		for _, f := range s.Faults {
			if f.Op == "close" && f.Kind == "panic" {
				continue
			}
			f.N = min(f.N, s.Len)
			fs = append(fs, f)
		}
		s.Faults = fs
		return s
	}
	for t := 0; t < tasks; t++ {
		var l []LOp
		for i, n := 0, r.Pick(1, 1, 2, 3); i < n; i++ {
			op := LOp{Keep: r.P(50)}
			switch r.W(35, 22, 28, 15) {
			case 0:
				op.Kind, op.Src, op.Steps = "body", src(), steps(r.In(0, 9))
			case 1:
				op.Kind, op.Src, op.Copies, op.Wrap = "response", src(), r.Pick(0, 0, 1, 2), r.P(50)
				op.Steps = strings.Map(func(c rune) rune {
					if c == 'x' {
						return 'x'
					}
					return '.'
				}, steps(3))
			case 2:
				op.Kind, op.Src, op.How, op.Copies = "request", src(), r.PickS("", "", "", "error", "value"), r.Pick(0, 0, 0, 1)
			case 3:
				op.Kind, op.How, op.Steps = "payload", r.PickS("json", "pretty", "proto", "text", "fail", "panic"), steps(r.In(0, 5))
			}
			if op.Kind == "request" || op.Kind == "response" {
				op.RW = genRW(r, op.Src.Len)
				op.Method = r.PickS("GET", "GET", "POST", "*")
				if op.Kind == "request" || op.Wrap {
					op.Method = r.PickS(op.Method, op.Method, "HEAD")
				}
			}
			l = append(l, op)
		}
		p.Tasks = append(p.Tasks, l)
	}
	return p
}
