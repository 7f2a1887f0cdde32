package core

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"runtime"
	"strconv"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"

	"verifsim/rt"
)

// AReq is one request served through an Adaptor.
type AReq struct {
	RW     *RWPlan     `json:"rw"`
	Method string      `json:"method"`
	Kind   string      `json:"kind"` // response, panic, zero
	Value  string      `json:"value,omitempty"`
	Code   int         `json:"code,omitempty"`
	Hdrs   [][2]string `json:"headers,omitempty"`
	Src    *SrcPlan    `json:"source,omitempty"`
	Sleep  int64       `json:"sleep,omitempty"` // the handler takes this long (µs)
	Jump   int64       `json:"jump,omitempty"`  // the wall clock jumps by this (ms)
	Same   bool        `json:"same,omitempty"`  // this one is the outer's *http.Request
	Pre    bool        `json:"prewrapped,omitempty"`
	Wait   int64       `json:"wait,omitempty"`  // before the request (µs)
	Proto  int         `json:"proto,omitempty"` // HTTP version of the request
	Ctx    int         `json:"ctx,omitempty"`   // the request's context is cancelled: 1 before, n at the client's call n-1
	Hook   int64       `json:"hook,omitempty"`  // OnPanic takes this long (µs)
	Sub    *AReq       `json:"sub,omitempty"`   // a request that the handler serves, for itself, meanwhile
}

type AdPlan struct {
	Tasks  [][]AReq `json:"tasks"`
	Shared bool     `json:"shared,omitempty"` // one Adaptor for all
}

type areq struct {
	p     *AReq
	task  int
	rw    *simRW
	req   *http.Request
	src   *Src
	resp  http.Header // headers of the response to be served
	code  int
	want  []byte
	whole bool
	sub   *areq

	pval     any
	begin    int64
	entry    int64
	lastWork int64
	end      int64
	ended    bool
	handled  int
	escaped  any
	calls    []error
	inHook   int
	early    string
	preHdr   http.Header
}

type adRun struct {
	p        *AdPlan
	o        *Outcome
	reqs     [rt.MaxRoots][]*areq
	subs     [rt.MaxRoots][]*areq
	cur      [rt.MaxRoots]*areq
	bad      [rt.MaxRoots][]Violation
	marks    [rt.MaxRoots][]string
	before   *metrics
	started  int
	finished int
	hooks    int
	stray    int
	spans    spans
}

var theAd *adRun

type metrics struct {
	panics   float64
	requests map[string]float64
	latency  map[string]float64
	send     map[string]float64
	recv     map[string]float64
	hist     [3]*dto.Histogram
}

func vec(c prometheus.Collector) map[string]float64 {
	ch := make(chan prometheus.Metric, 4096)
	c.Collect(ch)
	close(ch)
	out := map[string]float64{}
	for m := range ch {
		var d dto.Metric
		if m.Write(&d) != nil {
			continue
		}
		k := ""
		for _, l := range d.Label {
			k += l.GetValue()
		}
		out[k] += d.GetCounter().GetValue()
	}
	return out
}

func hist(h prometheus.Metric) *dto.Histogram {
	var d dto.Metric
	h.Write(&d)
	return d.Histogram
}

func counter(c prometheus.Metric) float64 {
	var d dto.Metric
	c.Write(&d)
	return d.GetCounter().GetValue()
}

//go:norace
func readMetrics() *metrics {
	return &metrics{
		panics:   counter(handler.PromPanicsTotal),
		requests: vec(handler.PromRequestsTotal),
		latency:  vec(handler.PromLatencyTotal),
		send:     vec(handler.PromSendBytesTotal),
		recv:     vec(handler.PromRecvBytesTotal),
		hist:     [3]*dto.Histogram{hist(handler.PromLatencyHist), hist(handler.PromRecvBytesHist), hist(handler.PromSendBytesHist)},
	}
}

func total(m map[string]float64) float64 {
	t := 0.0
	for _, k := range sortedKeys(m) {
		t += m[k]
	}
	return t
}

func sortedKeys(m map[string]float64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	return uniqSorted(ks)
}

func uniqSorted(ks []string) []string { return uniq(ks) }

func (x *adRun) fail(task int, class string, tags []string, format string, args ...any) {
	x.bad[task] = append(x.bad[task], Violation{class, tags, fmt.Sprintf(format, args...)})
}

var (
	tM = []string{"C18"}
	tP = []string{"C19"}
	tA = []string{"C19", "C12"}
)

// The counters below are the simulator's own and not subject to the data-race
// oracle.
//
//go:norace
func (x *adRun) hooked(stray bool) (int, int) {
	x.hooks++
	if stray {
		x.stray++
	}
	return x.hooks, x.finished
}

//go:norace
func (x *adRun) starting() int { x.started++; return x.started }

//go:norace
func (x *adRun) over() (int, int) { x.finished++; return x.finished, x.started }

// hook is what OnPanic does in the simulation.
func (x *adRun) hook(err error) {
	t := rt.Owner()
	q := x.cur[t]
	hooks, finished := x.hooked(q == nil)
	if q == nil {
		return
	}
	q.calls = append(q.calls, err)
	q.hooked(1)
	if d := counter(handler.PromPanicsTotal) - x.before.panics; d < float64(hooks) {
		x.fail(t, "hook-before-metrics", tP, "%s: OnPanic was called when http_panics_total had grown by %v in %d OnPanic calls", x.name(q), d, hooks)
	}
	if d := total(vec(handler.PromRequestsTotal)) - total(x.before.requests); d < float64(finished+1) {
		x.fail(t, "hook-before-metrics", tP, "%s: OnPanic was called when http_requests_total had grown by %v, %d requests were over", x.name(q), d, finished)
	}
	rt.Yield(rt.KUser)
	if q.p.Hook > 0 {
		nap(q.p.Hook*1000, q.task, nil)
	}
	q.hooked(-1)
}

// sources are those that the request may have to wait for.
func (q *areq) sources() []*Src {
	l := []*Src{q.src}
	for s := q.sub; s != nil; s = s.sub {
		l = append(l, s.src)
	}
	return l
}

// hooked counts the OnPanic calls of the request that have not returned.
//
//go:norace
func (q *areq) hooked(d int) int { q.inHook += d; return q.inHook }

func (x *adRun) name(q *areq) string {
	s := q.p.Kind
	if q.p.Value != "" {
		s += " " + q.p.Value
	}
	if q.src != nil {
		s += " from " + q.src.plan.Kind
	}
	return fmt.Sprintf("task %d: %s request (%s to %s)", q.task, q.p.Method, s, q.p.RW.Kind)
}

type strangePanic struct{ n int }

// Handle is the simulated handler.
func (x *adRun) Handle(req *http.Request) response.Response {
	q := x.cur[rt.Owner()]
	q.handled++
	q.entry = rt.NowNS()
	p := q.p
	rt.Yield(rt.KUser)
	if p.Sleep > 0 {
		nap(p.Sleep*1000, q.task, nil)
	}
	if p.Jump != 0 {
		rt.WallJump(p.Jump * 1e6)
	}
	if q.sub != nil {
		q.sub.task = q.task
		x.serve(q.sub)
		if rt.Dead() {
			runtime.Goexit()
		}
	}
	q.lastWork = rt.NowNS()
	switch p.Kind {
	case "panic":
		switch p.Value {
		case "error":
			q.pval = &appErr{7}
		case "string":
			q.pval = "something went wrong"
		case "int":
			q.pval = 42
		case "abort":
			q.pval = http.ErrAbortHandler
		case "panicerror":
			q.pval = handler.PanicError{Value: 5}
		case "wrapped":
			q.pval = fmt.Errorf("giving up: %w", http.ErrAbortHandler)
		case "canceled":
			q.pval = context.Canceled
		case "slice":
			q.pval = []string{"not", "comparable"}
		case "nilptr":
			q.pval = (*appErr)(nil)
		case "struct":
			q.pval = strangePanic{3}
		case "runtime":
			var a []int
			q.pval = runtime.Error(nil)
			_ = a[q.task+100]
		}
		panic(q.pval)
	case "zero":
		return response.Response{}
	}
	b := response.NewBuilder().WithStatus(p.Code)
	for _, kv := range p.Hdrs {
		b.WithHeader(kv[0], kv[1], true)
	}
	b.WithBody(x.body(q))
	r := b.Build()
	q.resp = cloneHdr(r.Headers())
	q.code = p.Code
	return *r
}

func (x *adRun) body(q *areq) body.Body {
	s := q.src
	p := q.p.Src
	base := p.base()
	q.want = s.data[base:]
	var b body.Body
	switch p.Kind {
	case "bytes":
		b = body.FromBytes(append([]byte(nil), q.want...))
	case "string":
		b = body.FromString(string(q.want))
	case "empty":
		q.want = nil
		b = body.Empty()
	default:
		var err error
		if p.Declared >= 0 {
			b, err = body.FromReaderAndLength(s.reader(), int64(p.Declared))
			q.want = q.want[:min(len(q.want), p.Declared)]
		} else {
			b, err = body.FromReader(s.reader())
		}
		if err != nil {
			panic(err)
		}
	}
	return b
}

func (x *adRun) serve(q *areq) {
	t := q.task
	outer := x.cur[t]
	q.rw.root = t
	x.cur[t] = q
	no := x.starting()
	face := q.rw.face()
	req := &http.Request{Method: q.p.Method, URL: &url.URL{Path: "/"}, Header: http.Header{}}
	req.ProtoMajor = q.p.Proto
	if q.p.Ctx > 0 {
		ctx, cancel := context.WithCancel(context.Background())
		req = req.WithContext(ctx)
		q.rw.cancel, q.rw.cancelAt = cancel, q.p.Ctx-1
		if q.p.Ctx == 1 {
			cancel()
		}
	}
	if q.p.Same && outer != nil {
		req = outer.req
	}
	q.req = req
	if q.p.Pre {
		face = response.NewWriter(face, req)
	}
	a := handler.Adaptor{Inner: x}
	rt.Note(rt.KOp, 5, int64(t), int64(no), 0)
	q.begin = rt.NowNS()
	func() {
		defer func() {
			if !rt.Dead() {
				q.escaped = recover()
			}
		}()
		a.ServeHTTP(face, req)
	}()
	if rt.Dead() {
		return
	}
	q.end = rt.NowNS()
	q.ended = true
	x.spans.add(t, q.begin, x.name(q), q.sources()...)
	x.cur[t] = outer
	finished, started := x.over()
	if d := total(vec(handler.PromRequestsTotal)) - total(x.before.requests); d < float64(finished) || d > float64(started) {
		x.fail(t, "requests-count", tM, "%s: http_requests_total has grown by %v after %d of %d requests begun had finished", x.name(q), d, finished, started)
	}
	x.judge(q)
}

// judge checks what one request did to its client and to OnPanic.
func (x *adRun) judge(q *areq) {
	t := q.task
	rw := q.rw
	n := x.name(q)
	f := func(class string, tags []string, format string, args ...any) {
		x.fail(t, class, tags, "%s: %s", n, fmt.Sprintf(format, args...))
	}
	if q.handled != 1 {
		f("handler-calls", tM, "the handler was called %d times", q.handled)
	}
	if k := q.hooked(0); k > 0 {
		f("hook-unfinished", tP, "ServeHTTP returned while OnPanic was still running")
	}
	if len(q.calls) > 1 {
		f("hook-repeated", tP, "OnPanic was called %d times", len(q.calls))
	}
	srcBad := false
	if q.src != nil {
		srcBad = q.src.errN+q.src.sentinels > 0 || q.src.panics > 0 || q.src.fired[kindIndex("panic")] > 0
	}
	full := q.p.Kind == "response" && len(rw.got) == len(q.want)
	suppressed := q.p.Method == "HEAD" || rw.final == 204
	began := rw.final != 0
	certain := q.p.Kind != "response" || rw.panicked != "" || rw.writeErr || rw.pushErr != nil || !full && !suppressed
	clean := !certain && !srcBad && len(rw.errs) == 0
	switch {
	case certain && len(q.calls) == 0:
		f("hook-missing", tP, "OnPanic was not called although the request failed (client: status %d, %d of %d bytes)", rw.final, len(rw.got), len(q.want))
	case clean && len(q.calls) > 0:
		f("hook-false", tP, "OnPanic was called with %v although nothing failed", q.calls[0])
	}
	failed := certain || len(q.calls) > 0
	// The error given to OnPanic.
	if len(q.calls) == 1 {
		e := q.calls[0]
		var pe handler.PanicError
		ok := true
		wrapped := func(v any) bool { return errors.As(e, &pe) && reflect.DeepEqual(pe.Value, v) }
		switch {
		case e == nil:
			ok = false
		case q.p.Kind == "panic" && q.p.Value == "runtime":
			var re runtime.Error
			ok = errors.As(e, &re)
		case q.p.Kind == "panic":
			if pv, isErr := q.pval.(error); isErr {
				ok = e == pv
			} else {
				ok = wrapped(q.pval)
			}
		case rw.panicked != "":
			ok = errors.As(e, &pe)
			if ok {
				_, ok = pe.Value.(*CPanic)
			}
		case q.src != nil && q.src.fired[kindIndex("panic")] > 0:
			ok = errors.As(e, &pe)
			if ok {
				_, ok = pe.Value.(*SrcPanic)
			}
			for _, w := range rw.errs { // the source may be read ahead
				ok = ok || errors.Is(e, w)
			}
		case q.p.Kind == "response":
			ok = false
			for _, w := range rw.errs {
				ok = ok || errors.Is(e, w)
			}
			_, isSrc := srcErrID(e)
			ok = ok || srcBad && isSrc
		}
		if !ok {
			f("hook-error", tP, "OnPanic was called with %T %v", e, e)
		}
	}
	// What the client saw.
	truncated := failed && began && rw.final == q.code && q.p.Kind == "response" && len(rw.got) < len(q.want) && !suppressed
	if q.escaped != nil {
		if e, ok := q.escaped.(error); ok && errors.Is(e, http.ErrAbortHandler) && truncated {
			// Aborting the connection is the only way to tell the client.
			x.marks[t] = append(x.marks[t], "truncated response aborted")
		} else {
			f("panic-escaped", tP, "a panic escaped from ServeHTTP: %v", q.escaped)
		}
	}
	if q.resp != nil {
		switch s := q.src; {
		case s.plan.Kind == "reader" && (s.plan.Closer || s.plan.Stat) && s.closes != 1:
			f("source-closes", []string{"C13"}, "the Reader of the response's body was closed %d times when ServeHTTP returned", s.closes)
		case s.late != "":
			f("source-used-after-close", []string{"C13"}, "the Reader of the response's body received a %s after it had been closed", s.late)
		}
	}
	if rw.final == 0 {
		f("nothing-sent", tP, "no status was sent (failed: %v)", failed)
		return
	}
	if rw.dups > 0 || rw.late > 0 {
		f("sent-after-failure", tP, "%d statuses and %d writes were sent after the response had failed", rw.dups, rw.late)
	}
	if q.p.Kind == "response" && (len(rw.got) > len(q.want) || !bytes.Equal(rw.got, q.want[:len(rw.got)])) {
		f("wrong-bytes", tA, "the client got %d bytes that are not the first of the response's %d", len(rw.got), len(q.want))
	}
	begun := false // did anything of the response itself reach the client?
	if q.p.Kind == "response" && rw.panicked != "header" && rw.pushErr == nil && rw.panicked != "push" {
		begun = true
	}
	if !begun {
		x.marks[t] = append(x.marks[t], "failed before anything was sent")
		if rw.final != 500 {
			f("status-500", tP, "the request failed before anything was sent and the client got status %d", rw.final)
		}
		if len(rw.got) > 0 {
			f("body-of-500", tP, "the request failed before anything was sent and the client got %d body bytes", len(rw.got))
		}
		for _, k := range headerKeys(q.resp) {
			if fmt.Sprint(rw.snap[k]) != fmt.Sprint(rw.pre[k]) {
				f("leftover-header", tP, "the 500 was sent with header %s %q of the failed response", k, rw.snap[k])
			}
		}
		return
	}
	if rw.final != q.code {
		f("wrong-status", tA, "the client got status %d, the response had %d (failed: %v)", rw.final, q.code, failed)
	}
	want := cloneHdr(rw.pre)
	for _, k := range headerKeys(q.resp) {
		want[k] = q.resp[k]
	}
	if !headersEqual(want, rw.snap) {
		f("headers-wrong", []string{"C12"}, "headers sent differ:%s", headerDiff(want, rw.snap))
	}
	if failed {
		x.marks[t] = append(x.marks[t], "failed after the response had begun")
	} else {
		x.marks[t] = append(x.marks[t], "served completely")
	}
	if truncated && q.escaped == nil && !rw.gone && rw.panicked == "" && rw.snap["Content-Length"] == nil && !rw.writeErr && !rw.short {
		f("truncated-unknown-length", tP, "the body failed after %d of %d bytes of a response without Content-Length, and the handler returned normally, so the client takes the response for complete", len(rw.got), len(q.want))
	}
}

func headerKeys(h http.Header) []string {
	var ks []string
	for k := range h {
		if k != "Push" {
			ks = append(ks, k)
		}
	}
	return uniq(ks)
}

func (x *adRun) main() {
	x.before = readMetrics()
	if len(x.p.Tasks) == 1 {
		x.task(0, 0)
	} else {
		var ids []int
		for t := range x.p.Tasks {
			t := t
			ids = append(ids, rt.Spawn(func() { x.task(t, rt.Owner()) }))
		}
		rt.Join(ids...)
	}
	x.totals()
}

func (x *adRun) task(t, id int) {
	for i := range x.reqs[t] {
		q := x.reqs[t][i]
		q.task = id
		if q.p.Wait > 0 {
			rt.SleepNS(q.p.Wait * 1000)
		}
		x.serve(q)
		if rt.Dead() {
			return
		}
	}
}

// totals compares what the metrics grew by with what the clients saw.
func (x *adRun) totals() {
	after := readMetrics()
	wantReq := map[string]float64{}
	wantBytes := map[string]float64{}
	leastBytes := map[string]float64{}
	loose := false
	sumLeast := 0.0
	var allLeast []float64
	lo, hi := map[string]float64{}, map[string]float64{}
	n, fails := 0, 0
	var sumBytes, sumLo, sumHi float64
	var allLo, allHi, allBytes []float64
	for t := range x.reqs {
		for _, q := range x.all(t) {
			n++
			fails += min(1, len(q.calls))
			c := strconv.Itoa(q.rw.final)
			b := float64(len(q.rw.got))
			least := b
			if q.src != nil && q.src.fired[kindIndex("panic")] > 0 && q.rw.rfs > 0 {
				// What a ReadFrom had sent before the reader panicked nobody told the Writer.
				least = 0
				loose = true
			}
			leastBytes[c] += least
			sumLeast += least
			allLeast = append(allLeast, least)
			l := float64(q.lastWork-q.entry) / 1e9
			if q.rw.lastWork > q.lastWork {
				l = float64(q.rw.lastWork-q.entry) / 1e9
			}
			h := float64(q.end-q.begin) / 1e9
			wantReq[c]++
			wantBytes[c] += b
			lo[c] += l
			hi[c] += h
			sumBytes += b
			sumLo += l
			sumHi += h
			allLo, allHi, allBytes = append(allLo, l), append(allHi, h), append(allBytes, b)
		}
	}
	// The counters only ever grow during a search, and lose precision with it.
	eps := 1e-6 + 1e-14*max(after.hist[0].GetSampleSum(), total(after.latency))
	codes := map[string]float64{}
	for _, m := range []map[string]float64{after.requests, after.latency, after.send, wantReq} {
		for k := range m {
			codes[k] = 0
		}
	}
	for _, c := range sortedKeys(codes) {
		if d := after.requests[c] - x.before.requests[c]; d != wantReq[c] {
			x.fail(0, "requests-by-code", tM, "http_requests_total{code=%q} grew by %v, %v clients saw that status", c, d, wantReq[c])
		}
		if d := after.send[c] - x.before.send[c]; d > wantBytes[c] || d < leastBytes[c] {
			x.fail(0, "bytes-by-code", tM, "http_send_bytes_total{code=%q} grew by %v, clients got %v body bytes", c, d, wantBytes[c])
		}
		if d := after.latency[c] - x.before.latency[c]; d < lo[c]-eps || d > hi[c]+eps {
			x.fail(0, "latency-by-code", tM, "http_latency_total{code=%q} grew by %v s, the requests took between %v and %v s", c, d, lo[c], hi[c])
		}
		if after.recv[c] < x.before.recv[c] {
			x.fail(0, "recv-by-code", tM, "http_recv_bytes_total{code=%q} fell", c)
		}
	}
	if d := after.panics - x.before.panics; d != float64(fails) {
		x.fail(0, "panics-total", tM, "http_panics_total grew by %v, %d requests failed", d, fails)
	}
	for i, name := range []string{"http_latency_seconds_hist", "http_recv_bytes_hist", "http_send_bytes_hist"} {
		a, b := after.hist[i], x.before.hist[i]
		if d := a.GetSampleCount() - b.GetSampleCount(); d != uint64(n) {
			x.fail(0, "hist-count", tM, "%s got %d observations for %d requests", name, d, n)
			continue
		}
		d := a.GetSampleSum() - b.GetSampleSum()
		var los, his []float64
		switch i {
		case 0:
			if d < sumLo-eps || d > sumHi+eps {
				x.fail(0, "hist-sum", tM, "%s grew by %v s, the requests took between %v and %v s", name, d, sumLo, sumHi)
			}
			los, his = allLo, allHi
		case 1:
			continue
		case 2:
			if d > sumBytes+eps || d < sumLeast-eps {
				x.fail(0, "hist-sum", tM, "%s grew by %v, clients got %v bytes", name, d, sumBytes)
			}
			los, his = allLeast, allBytes
		}
		for k := range a.Bucket {
			ub := a.Bucket[k].GetUpperBound()
			got := int(a.Bucket[k].GetCumulativeCount() - b.Bucket[k].GetCumulativeCount())
			least, most := 0, 0
			slack := eps
			if i == 2 {
				slack = 0
			}
			for j := range los {
				if his[j] <= ub-slack {
					least++
				}
				if los[j] <= ub+slack {
					most++
				}
			}
			if got < least || got > most {
				x.fail(0, "hist-bucket", tM, "%s has %d new observations up to %v, want %d to %d", name, got, ub, least, most)
				break
			}
		}
	}
	if loose {
		x.marks[0] = append(x.marks[0], "source panic inside ReadFrom: bytes sent only bounded")
	}
	if x.stray > 0 {
		x.fail(0, "hook-stray", tP, "OnPanic was called %d times outside of any request", x.stray)
	}
}

func newAReq(a *AReq) *areq {
	q := &areq{p: a, rw: newRW(a.RW, a.Method == "HEAD")}
	if a.Src != nil {
		q.src = newSrc(a.Src, -1)
	}
	return q
}

// all returns the requests that task t served.
func (x *adRun) all(t int) []*areq {
	l := append([]*areq(nil), x.reqs[t]...)
	for _, q := range x.subs[t] {
		if q.ended {
			l = append(l, q)
		}
	}
	return l
}

func runAdaptor(p *Plan, o *Outcome, logging bool) {
	x := &adRun{p: p.Ad, o: o}
	theAd = x
	handler.OnPanic = func(err error) { theAd.hook(err) }
	for t := range p.Ad.Tasks {
		for i := range p.Ad.Tasks[t] {
			a := &p.Ad.Tasks[t][i]
			q := newAReq(a)
			x.reqs[t] = append(x.reqs[t], q)
			if a.Sub != nil {
				q.sub = newAReq(a.Sub)
				x.subs[t] = append(x.subs[t], q.sub)
			}
		}
	}
	o.rt = rt.Run(p.Sched, logging, x.main)
	o.Tasks = len(p.Ad.Tasks)
	x.spans.judge(o, "request-held-up")
	for t := range x.reqs {
		if len(x.subs[t]) > 0 {
			o.mark("request served inside a handler")
		}
		for _, q := range x.all(t) {
			q.rw.report(o)
			if q.src != nil {
				q.src.report(o)
			}
			if q.ended {
				o.Ops++
			}
			o.mark("handler: " + q.p.Kind)
			if q.p.Kind == "panic" && q.handled > 0 {
				o.fired("handler panic ("+q.p.Value+")", 1)
				o.Faults++
			}
			if q.p.Jump < 0 && q.handled > 0 {
				o.fired("wall clock set back", 1)
				o.Faults++
			} else if q.p.Jump > 0 && q.handled > 0 {
				o.fired("wall clock set forward", 1)
				o.Faults++
			}
		}
		for _, m := range x.marks[t] {
			o.mark(m)
		}
		for _, v := range x.bad[t] {
			o.fail(v.Class, v.Props, "%s", v.Detail)
		}
	}
	both := []string{"C18", "C19"}
	if o.rt.Races > 0 {
		o.fail("data-race", both, "the race detector reported %d conflicting accesses between requests", o.rt.Races)
	}
	if o.rt.HasPanic {
		o.fail("task-panic", both, "a goroutine panicked: %v", o.rt.Panic)
		return
	}
	if o.rt.Outcome != rt.Finished {
		o.fail(o.rt.Outcome.String(), both, "the run ended in a %s", o.rt.Outcome)
	}
}

func genAdaptor(r *R, prop string) *AdPlan {
	p := &AdPlan{}
	tasks := r.Pick(1, 1, 2, 3, 4)
	if prop == "C25" {
		tasks = r.In(2, 4)
	}
	for t := 0; t < tasks; t++ {
		var l []AReq
		for i, n := 0, r.In(1, 4); i < n; i++ {
			a := genReq(r, prop)
			if r.P(12) {
				sub := genReq(r, prop)
				sub.Wait = 0
				if r.P(50) {
					sub.Same = true
					sub.Method = a.Method
					if a.Method == "HEAD" && sub.RW.PanicOn == "readfrom" {
						sub.RW.PanicOn = ""
					}
				}
				a.Sub = &sub
			}
			l = append(l, a)
		}
		p.Tasks = append(p.Tasks, l)
	}
	return p
}

func genReq(r *R, prop string) AReq {
	a := AReq{Method: r.PickS("GET", "GET", "GET", "POST", "HEAD"), Kind: r.PickS("response", "response", "response", "response", "panic", "panic", "zero")}
	a.Proto = r.Pick(0, 1, 1, 2)
	if r.P(20) {
		a.Ctx = r.In(1, 8)
	}
	if prop == "C18" && r.P(40) {
		a.Kind = "response"
	}
	n := 0
	if a.Kind == "panic" {
		a.Value = r.PickS("error", "string", "int", "abort", "panicerror", "struct", "runtime", "wrapped", "canceled", "slice", "nilptr")
	}
	if a.Kind == "response" {
		a.Code = r.Pick(200, 200, 200, 201, 204, 205, 206, 226, 299, 301, 400, 404, 499, 500, 503, 600, 999)
		s := genHSrc(r, hprofile{faults: 45, srcPanic: 8, lie: 15})
		if s.Declared > s.Len { // a body may be shorter than declared, which fails nothing
			s.Declared = s.Len
		}
		if s.Len > 40000 && (s.Len < 200000 || r.P(80)) {
			s.Len = r.In(1, 3000)
			s.Declared = min(s.Declared, s.Len)
			s.ShortMax = max(s.ShortMax, 100)
		}
		n = s.Len
		a.Src = &s
		for i, k := 0, r.N(4); i < k; i++ {
			name := r.PickS("X-A", "X-B", "Vary", "Content-Type", "Etag", "Push")
			v := r.PickS("a", "b")
			if name == "Push" {
				v = r.PickS("/a.css", "/b.js")
			}
			a.Hdrs = append(a.Hdrs, [2]string{name, v})
		}
	}
	a.RW = genRW(r, n)
	a.RW.Mutate = ""
	if a.RW.PanicOn == "writeheader" {
		a.RW.PanicOn = "write"
	}
	if a.RW.PanicOn == "push" && !a.RW.Pusher {
		a.RW.PanicOn = ""
	}
	if a.RW.PanicOn == "readfrom" && a.Method == "HEAD" {
		a.RW.PanicOn = ""
	}
	if r.P(60) {
		a.Sleep = int64(r.Pick(10, 1000, 5000, 20000, 300000, 2500000, 10+genStallFor(r)))
	}
	if r.P(30) {
		a.Jump = int64(r.Pick(-3600000, -5000, -10, 10, 5000, 86400000))
	}
	a.Pre = r.P(15)
	if r.P(30) {
		a.Wait = int64(r.In(1, 20000))
	}
	if r.P(25) {
		a.Hook = int64(r.In(1, 20000) + genStallFor(r))
	}
	return a
}
