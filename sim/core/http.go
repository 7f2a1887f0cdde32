package core

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"net/url"
	"runtime"
	"strconv"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"

	"verifsim/rt"
)

const (
	maxBuilders = 8
	maxResps    = 20
)

// HOp is one operation on a Builder or a Response.
type HOp struct {
	Kind  string      `json:"op"`
	B     int         `json:"builder"`
	R     int         `json:"response"`
	New   int         `json:"new,omitempty"`
	Src   int         `json:"src,omitempty"`
	N     int         `json:"n,omitempty"`
	Name  string      `json:"name,omitempty"`
	Value string      `json:"value,omitempty"`
	Hdrs  [][2]string `json:"headers,omitempty"`
	RW    *RWPlan     `json:"rw,omitempty"`
	Wrap  bool        `json:"wrap,omitempty"`
	Head  bool        `json:"head,omitempty"`
	Via   string      `json:"via,omitempty"` // plain, track, trackw, nocopy
	Off   int64       `json:"off,omitempty"`
}

type HTTPPlan struct {
	Srcs  []SrcPlan `json:"sources"`
	Setup []HOp     `json:"setup"`
	Tasks [][]HOp   `json:"tasks"`
	Order uint64    `json:"order"`
}

// trackBody is a Body given to the Builder that counts what is done to it.
type trackBody struct {
	in     body.Body
	nocopy error
	closes int
	late   int
	cerr   error
	wt     bool
}

// trackBodyW also offers WriterTo.
type trackBodyW struct{ trackBody }

func (t *trackBody) BytesRemaining() int64 { return t.in.BytesRemaining() }
func (t *trackBody) Unwrap() io.Reader     { return t.in.Unwrap() }

func (t *trackBody) Read(p []byte) (int, error) {
	if t.closes > 0 {
		t.late++
	}
	return t.in.Read(p)
}

func (t *trackBody) Close() error {
	t.closes++
	err := t.in.Close()
	if t.closes == 1 {
		t.cerr = err
	}
	return err
}

func (t *trackBody) dup() (*trackBody, error) {
	if t.nocopy != nil {
		return nil, t.nocopy
	}
	b, err := t.in.Copy()
	if err != nil {
		return nil, err
	}
	return &trackBody{in: b, wt: t.wt}, nil
}

func (t *trackBody) Copy() (body.Body, error) {
	d, err := t.dup()
	if err != nil {
		return nil, err
	}
	return d, nil
}

func (t *trackBodyW) Copy() (body.Body, error) {
	d, err := t.dup()
	if err != nil {
		return nil, err
	}
	return &trackBodyW{*d}, nil
}

func (t *trackBodyW) WriteTo(w io.Writer) (int64, error) {
	if t.closes > 0 {
		t.late++
	}
	if wt, ok := t.in.(io.WriterTo); ok {
		return wt.WriteTo(w)
	}
	total := int64(0)
	buf := make([]byte, 700)
	for i := 0; ; i++ {
		if i == 100 {
			buf = make([]byte, 1<<15)
		}
		n, err := t.in.Read(buf)
		if n > 0 {
			m, werr := w.Write(buf[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
			if m < n {
				return total, io.ErrShortWrite
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func trackOf(b body.Body) *trackBody {
	switch x := b.(type) {
	case *trackBody:
		return x
	case *trackBodyW:
		return &x.trackBody
	}
	return nil
}

type copyErr struct{}

func (copyErr) Error() string { return "injected copy failure" }

// mbody is the model of one Body instance.
type mbody struct {
	fam  int // index of its source; -1: payload
	data []byte
	pos  int64
	end  int64
	b    body.Body
	nc   bool
}

type mbuilder struct {
	live   bool
	b      *response.Builder
	code   int
	hdrs   http.Header
	body   *mbody
	err    error
	gen    *simGen
	copied bool
}

type mresp struct {
	live   bool
	shared bool
	r      *response.Response
	code   int
	hdrs   http.Header
	err    error
	body   *mbody
	autoCL bool
	served bool
	copied bool
}

// simGen is an application's page generator.
type simGen struct {
	id   int
	next body.Body // of the next page
	bare bool      // that one comes without headers
}

func (g *simGen) page(h http.Header, s string) (http.Header, body.Body) {
	if b := g.next; b != nil {
		g.next = nil
		if g.bare {
			h = nil
		}
		return h, b
	}
	return h, body.FromString(s)
}

func (g *simGen) GenerateRedirectPage(code int, loc string) (http.Header, body.Body) {
	h := http.Header{"Location": {loc}, "X-Gen": {strconv.Itoa(g.id)}}
	return g.page(h, fmt.Sprintf("gen %d redirect %d %s", g.id, code, loc))
}

func (g *simGen) GenerateErrorPage(code int, err error) (http.Header, body.Body) {
	h := http.Header{"X-Gen": {strconv.Itoa(g.id)}}
	return g.page(h, fmt.Sprintf("gen %d error %d %v", g.id, code, err))
}

type appErr struct{ id int }

func (e *appErr) Error() string { return "application error " + strconv.Itoa(e.id) }

type httpRun struct {
	p     *HTTPPlan
	o     *Outcome
	made  []*Src // all of them
	srcs  []*Src // those in use
	b     [maxBuilders]*mbuilder
	r     [maxResps]*mresp
	bad   [rt.MaxRoots][]Violation
	rws   [rt.MaxRoots][]*simRW
	ops   [rt.MaxRoots]int
	marks [rt.MaxRoots][]string
	stage int
	last  [rt.MaxRoots]string
	fin   bool
	spans spans
}

func (x *httpRun) fail(task int, class string, tags []string, format string, args ...any) {
	x.bad[task] = append(x.bad[task], Violation{class, tags, fmt.Sprintf("task %d: ", task) + fmt.Sprintf(format, args...)})
}

func (x *httpRun) mark(task int, m string) { x.marks[task] = append(x.marks[task], m) }

// source makes a Body over source k.
func (x *httpRun) source(k int, via string) *mbody {
	if k < 0 || k >= len(x.p.Srcs) || x.srcs[k] != nil {
		return nil
	}
	p := &x.p.Srcs[k]
	s := x.made[k]
	x.srcs[k] = s
	base := p.base()
	data := s.data[base:]
	var b body.Body
	switch p.Kind {
	case "bytes":
		b = body.FromBytes(append([]byte(nil), data...))
	case "string":
		b = body.FromString(string(data))
	case "empty":
		data = nil
		b = body.Empty()
	default:
		var err error
		if p.Declared >= 0 {
			b, err = body.FromReaderAndLength(s.reader(), int64(p.Declared))
		} else {
			b, err = body.FromReader(s.reader())
		}
		if err != nil {
			return nil
		}
	}
	m := &mbody{fam: k, data: data, end: int64(len(data))}
	if p.Kind == "reader" && p.Declared >= 0 && int64(p.Declared) < m.end {
		m.end = int64(p.Declared)
	}
	switch via {
	case "track":
		b = &trackBody{in: b}
	case "trackw":
		b = &trackBodyW{trackBody{in: b, wt: true}}
	case "nocopy":
		m.nc = true
		b = &trackBody{in: b, nocopy: copyErr{}}
	}
	m.b = b
	return m
}

// adopt makes a model of a Body that the code under test built.
func adopt(b body.Body) *mbody {
	if b == nil {
		return nil
	}
	c, err := b.Copy()
	if err != nil {
		return &mbody{fam: -1, b: b}
	}
	data, _ := io.ReadAll(c)
	c.Close()
	return &mbody{fam: -1, data: data, end: int64(len(data)), b: b}
}

func (m *mbody) dup(b body.Body) *mbody {
	if m == nil {
		return nil
	}
	d := *m
	d.b = b
	return &d
}

func cloneHdr(h http.Header) http.Header {
	d := http.Header{}
	for k, v := range h {
		d[k] = append([]string{}, v...)
	}
	return d
}

func (x *httpRun) checkBuilder(task, i int, when string, tags ...string) bool {
	m := x.b[i]
	what := ""
	if s := m.b.Status(); s != m.code {
		what = fmt.Sprintf("status %d, want %d", s, m.code)
	} else if h := m.b.Headers(); !headersEqual(m.hdrs, h) {
		what = "headers" + headerDiff(m.hdrs, h)
	} else if e := m.b.Err(); e != m.err {
		what = fmt.Sprintf("error %v, want %v", e, m.err)
	} else if g := m.b.PageGenerator(); m.gen != nil && g != response.PageGenerator(m.gen) || m.gen == nil && g != response.DefaultPageGenerator {
		what = "page generator"
	} else if b := m.b.Body(); m.body == nil && b != nil {
		what = "a body, want none"
	} else if m.body != nil && b != m.body.b {
		what = "another body than the one it was given"
	}
	if what == "" {
		return true
	}
	class := "builder-state"
	if tags[0] == "C16" {
		class = "builder-changed"
	}
	x.fail(task, class, tags, "%s: builder %d has %s", when, i, what)
	return false
}

func (x *httpRun) checkResp(task, i int, class, when string, tags ...string) bool {
	m := x.r[i]
	what := ""
	if s := m.r.Status(); s != m.code {
		what = fmt.Sprintf("status %d, want %d", s, m.code)
	} else if h := m.r.Headers(); !headersEqual(m.hdrs, h) {
		what = "headers" + headerDiff(m.hdrs, h)
	} else if e := m.r.Err(); e != m.err {
		what = fmt.Sprintf("error %v, want %v", e, m.err)
	} else if m.r.Body() == nil {
		what = "no body"
	} else if m.body != nil && m.r.Body() != m.body.b {
		what = "another body than the one it was given"
	}
	if what == "" {
		return true
	}
	x.fail(task, class, tags, "%s: response %d has %s", when, i, what)
	return false
}

// involved are the sources that an operation may have to wait for.
func (x *httpRun) involved(op *HOp) []*Src {
	var l []*Src
	add := func(m *mbody) {
		if m != nil && m.fam >= 0 {
			l = append(l, x.srcs[m.fam])
		}
	}
	switch op.Kind {
	case "rcopy", "serve", "rclose", "rpeek":
		if r := x.r[op.R]; r != nil {
			add(r.body)
		}
		return l
	case "build":
		if r := x.r[op.R]; r != nil {
			add(r.body)
		}
	case "body", "redirect", "errorpage":
		if op.Via != "" && op.Src >= 0 && op.Src < len(x.srcs) && x.srcs[op.Src] != nil {
			l = append(l, x.srcs[op.Src])
		}
	}
	if b := x.b[op.B]; b != nil {
		add(b.body)
	}
	return l
}

func setHdr(h http.Header, k, v string, add bool) {
	if add {
		h.Add(k, v)
	} else {
		h.Set(k, v)
	}
}

func (x *httpRun) do(task int, op *HOp) {
	if op.Kind == "sleep" {
		rt.SleepNS(op.Off)
		return
	}
	x.last[task] = op.Kind
	begin := rt.NowNS()
	was := x.involved(op)
	defer func() {
		if rt.NowNS()-begin >= heldSlack {
			x.spans.add(task, begin, op.Kind, append(was, x.involved(op)...)...)
		}
	}()
	rt.Note(rt.KOp, kindNo(op.Kind), int64(op.B), int64(op.R), int64(op.N))
	switch op.Kind {
	case "rcopy", "serve", "rclose", "rpeek":
		x.doResp(task, op)
		return
	}
	m := x.b[op.B]
	if op.Kind == "new" {
		if m == nil {
			x.b[op.B] = &mbuilder{live: true, b: response.NewBuilder(), hdrs: http.Header{}}
			x.ops[task]++
		}
		return
	}
	if m == nil {
		return
	}
	x.ops[task]++
	if !x.checkBuilder(task, op.B, "before "+op.Kind, "C16", "C17") {
		return
	}
	b := m.b
	var ret *response.Builder
	switch op.Kind {
	case "status":
		ret = b.WithStatus(op.N)
		m.code = op.N
	case "headers":
		h := http.Header{}
		for _, kv := range op.Hdrs {
			h[kv[0]] = append(append(make([]string, 0, 8), h[kv[0]]...), kv[1])
		}
		m.hdrs = cloneHdr(h)
		ret = b.WithHeaders(h)
		// What the caller does with its map afterwards is its own business.
		for _, kv := range op.Hdrs {
			h[kv[0]][0] = "changed by the caller"
			h[kv[0]] = append(h[kv[0]], "added by the caller")
		}
		h["X-Caller"] = []string{"late"}
	case "set", "add":
		ret = b.WithHeader(op.Name, op.Value, op.Kind == "add")
		setHdr(m.hdrs, op.Name, op.Value, op.Kind == "add")
	case "del":
		ret = b.WithoutHeader(op.Name)
		m.hdrs.Del(op.Name)
	case "raw":
		// The map belongs to the caller: any key, any list.
		var v []string
		for _, kv := range op.Hdrs {
			v = append(v, kv[1])
		}
		if v == nil && op.N > 0 {
			v = []string{}
		}
		b.Headers()[op.Name] = v
		m.hdrs[op.Name] = append([]string{}, v...)
		ret = b
	case "hmut":
		h := b.Headers()
		k := http.CanonicalHeaderKey(op.Name)
		if len(h[k]) > 0 {
			h[k][0] = op.Value
			m.hdrs[k][0] = op.Value
		} else {
			h[k] = append(h[k], op.Value)
			m.hdrs[k] = append(m.hdrs[k], op.Value)
		}
		ret = b
	case "gen":
		m.gen = &simGen{id: op.N}
		ret = b.WithPageGenerator(m.gen)
	case "err":
		m.err = &appErr{op.N}
		ret = b.WithError(m.err)
	case "noerr":
		m.err = nil
		ret = b.WithError(nil)
	case "body":
		nb := x.source(op.Src, op.Via)
		if nb == nil {
			return
		}
		x.preRead(task, nb, op.N)
		old := m.body
		m.body = nb
		ret = b.WithBody(nb.b)
		if old != nil {
			old.b.Close() // the Builder does not own a replaced Body
		}
	case "json", "pretty":
		v := map[string]int{"n": op.N}
		if op.Kind == "json" {
			ret = b.WithJSON(v)
		} else {
			ret = b.WithPrettyJSON(v)
		}
		m.hdrs.Set("Content-Type", "application/json")
		x.replace(m, b)
	case "bpeek":
		// Reads a copy of the body: the Builder's own learns what the copy
		// finds out about a shared source.
		if m.body == nil || m.body.nc {
			return
		}
		c, err := b.Body().Copy()
		if err != nil {
			return
		}
		x.drain(task, m.body.dup(c), op.N, "peek at builder "+strconv.Itoa(op.B))
		c.Close()
		ret = b
	case "redirect", "errorpage":
		var page *mbody
		if op.Via != "" { // the generator makes the page from a source
			page = x.source(op.Src, op.Via)
			if page == nil {
				return
			}
			m.gen = &simGen{id: op.N, next: page.b, bare: op.Wrap}
			b.WithPageGenerator(m.gen)
		}
		if op.Kind == "errorpage" {
			e := &appErr{op.N}
			ret = b.ErrorPage(op.N, e)
			m.code, m.err = op.N, e
		} else {
			ret = b.RedirectPage(op.N, op.Value)
			m.code, m.err = op.N, nil
		}
		switch {
		case m.gen == nil:
			m.hdrs = cloneHdr(b.Headers())
		case page != nil && op.Wrap:
			m.hdrs = http.Header{}
		default:
			m.hdrs = http.Header{"X-Gen": {strconv.Itoa(m.gen.id)}}
			if op.Kind == "redirect" {
				m.hdrs["Location"] = []string{op.Value}
			}
		}
		if page == nil {
			x.replace(m, b)
			break
		}
		x.mark(task, "generated page from "+x.p.Srcs[op.Src].Kind)
		old := m.body
		m.body = page
		if old != nil {
			old.b.Close()
		}
	case "bcopy":
		if x.b[op.New] != nil {
			return
		}
		c, err := b.Copy()
		if m.body != nil && m.body.nc {
			x.mark(task, "builder with a body that cannot be copied")
			if c != nil || !errors.Is(err, copyErr{}) {
				x.fail(task, "builder-copy-error-lost", []string{"C16"}, "Copy of a builder whose body cannot be copied returned (%v, %v)", c != nil, err)
			}
			return
		}
		if err != nil || c == nil || c == b {
			x.fail(task, "builder-copy-failed", []string{"C16"}, "Copy of builder %d: %v", op.B, err)
			return
		}
		nm := &mbuilder{live: true, b: c, code: m.code, hdrs: cloneHdr(m.hdrs), err: m.err, gen: m.gen, copied: true}
		m.copied = true
		if m.body != nil {
			nb := c.Body()
			if nb == nil || nb == m.body.b {
				x.fail(task, "builder-copy-shares-body", []string{"C16"}, "Copy of builder %d has no body of its own", op.B)
				return
			}
			nm.body = m.body.dup(nb)
		}
		x.b[op.New] = nm
		x.checkBuilder(task, op.New, "after Copy", "C16")
		ret = b
	case "build":
		if m.body == nil || x.r[op.R] != nil {
			return
		}
		x.build(task, op, m)
		return
	}
	if ret != b {
		x.fail(task, "builder-not-returned", []string{"C17"}, "%s returned another builder", op.Kind)
	}
	x.checkBuilder(task, op.B, "after "+op.Kind, "C17")
}

func (x *httpRun) replace(m *mbuilder, b *response.Builder) {
	old := m.body
	m.body = adopt(b.Body())
	if old != nil {
		old.b.Close()
	}
}

func (x *httpRun) preRead(task int, m *mbody, n int) {
	for n > 0 {
		buf := make([]byte, n)
		k, err := m.b.Read(buf)
		m.pos += int64(k)
		n -= k
		if err != nil {
			return
		}
		if k == 0 {
			n--
		}
	}
}

func (x *httpRun) build(task int, op *HOp, m *mbuilder) {
	known := m.body.b.BytesRemaining()
	resp := m.b.Build()
	if resp == nil {
		x.fail(task, "build-nil", []string{"C17"}, "Build returned nil")
		return
	}
	r := &mresp{live: true, r: resp, code: m.code, hdrs: m.hdrs, err: m.err, body: m.body}
	if r.code == 0 {
		r.code = 200
	}
	if _, ok := r.hdrs["Content-Type"]; !ok {
		r.hdrs["Content-Type"] = []string{"application/octet-stream"}
	}
	if _, ok := r.hdrs["Content-Length"]; !ok && known >= 0 {
		r.hdrs["Content-Length"] = []string{strconv.FormatInt(known, 10)}
		r.autoCL = true
		if want := m.body.end - m.body.pos; x.honest(m.body.fam) && known != want {
			x.fail(task, "content-length-wrong", []string{"C17"}, "Content-Length is %d, the body has %d bytes left", known, want)
		}
	}
	m.code, m.hdrs, m.err, m.body = 0, http.Header{}, nil, nil
	x.r[op.R] = r
	x.checkResp(task, op.R, "response-state", "after Build", "C17")
	x.checkBuilder(task, op.B, "after Build", "C17")
}

// honest says whether a source delivers what it announces.
func (x *httpRun) honest(fam int) bool {
	if fam < 0 {
		return true
	}
	p := &x.p.Srcs[fam]
	return p.Declared <= p.Len && len(p.Faults) == 0
}

func (x *httpRun) doResp(task int, op *HOp) {
	m := x.r[op.R]
	if m == nil || m.served {
		return
	}
	x.ops[task]++
	switch op.Kind {
	case "rcopy":
		if x.r[op.New] != nil {
			return
		}
		c, err := m.r.Copy()
		if m.body.nc {
			x.mark(task, "response with a body that cannot be copied")
			if c != nil || !errors.Is(err, copyErr{}) {
				x.fail(task, "response-copy-error-lost", []string{"C16"}, "Copy of a response whose body cannot be copied returned (%v, %v)", c != nil, err)
			}
			return
		}
		if err != nil || c == nil || c == m.r {
			x.fail(task, "response-copy-failed", []string{"C16"}, "Copy of response %d: %v", op.R, err)
			return
		}
		nb := c.Body()
		if nb == nil || nb == m.body.b {
			x.fail(task, "response-copy-shares-body", []string{"C16"}, "Copy of response %d has no body of its own", op.R)
			return
		}
		n := &mresp{live: true, r: c, code: m.code, hdrs: cloneHdr(m.hdrs), err: m.err, body: m.body.dup(nb), autoCL: m.autoCL, copied: true}
		x.r[op.New] = n
		x.checkResp(task, op.New, "response-copy-differs", "after Copy", "C16")
	case "rpeek":
		// Reads a copy of the body.
		if m.body.nc || m.shared {
			return
		}
		c, err := m.r.Body().Copy()
		if err != nil {
			return
		}
		d := m.body.dup(c)
		x.drain(task, d, op.N, "peek at response "+strconv.Itoa(op.R))
		c.Close()
	case "rclose":
		if m.shared {
			return
		}
		m.served = true
		m.r.Body().Close()
	case "serve":
		if m.shared {
			return
		}
		x.serve(task, op, m)
	}
}

func (x *httpRun) serve(task int, op *HOp, m *mresp) {
	if !x.checkResp(task, op.R, "response-changed", "before Serve", "C16") {
		return
	}
	m.served = true
	rw := newRW(op.RW, op.Head)
	rw.root = task
	x.rws[task] = append(x.rws[task], rw)
	face := rw.face()
	wrap := op.Wrap
	if wrap {
		meth := "GET"
		if op.Head {
			meth = "HEAD"
		}
		face = response.NewWriter(face, &http.Request{Method: meth, URL: &url.URL{Path: "/"}, Header: http.Header{}})
	}
	hdrs := cloneHdr(m.r.Headers())
	code := m.r.Status()
	tb := trackOf(m.body.b)
	var err error
	var pv any
	panicked := false
	from := rt.Seq()
	func() {
		defer func() {
			if rt.Dead() {
				return
			}
			if p := recover(); p != nil {
				panicked, pv = true, p
			}
		}()
		err = m.r.Serve(face)
	}()
	if rt.Dead() {
		return
	}
	to := rt.Seq()
	rt.Note(rt.KOp, 77, int64(len(rw.got)), int64(rw.final), 0)
	where := fmt.Sprintf("response %d (%s) served to %s", op.R, x.famText(m.body), rwText(op))

	// Errors met meanwhile.
	var closeErr, srcMet bool
	if m.body.fam >= 0 {
		s := x.srcs[m.body.fam]
		s.callsBy(task, from, to, func(c *srcCall) {
			if c.errID >= 0 {
				srcMet = true
				if c.op == sClose {
					closeErr = true
				}
			}
		})
	}
	// Release of the body (C13).
	if tb != nil {
		if tb.closes != 1 {
			x.fail(task, "body-closes", []string{"C13"}, "%s: the body was closed %d times (panic: %v, error: %v)", where, tb.closes, panicked, err)
		}
		if tb.late > 0 {
			x.fail(task, "body-used-after-close", []string{"C13"}, "%s: the body was read after it had been closed", where)
		}
	} else if n, e := m.body.b.Read(make([]byte, 1)); n != 0 || !errors.Is(e, fs.ErrClosed) {
		x.fail(task, "body-not-closed", []string{"C13"}, "%s: the body is still open (panic: %v, error: %v)", where, panicked, err)
		m.body.b.Close()
	}
	if panicked {
		x.mark(task, "Serve panicked")
		_, a := pv.(*CPanic)
		_, b := pv.(*SrcPanic)
		if !a && !b {
			x.fail(task, "serve-panic", []string{"C12"}, "%s: Serve panicked by itself: %v", where, pv)
		}
	}
	// Status and headers.
	finals := 0
	for _, e := range rw.events {
		if e.kind == "final" {
			finals++
		}
	}
	interrupted := panicked || rw.pushErr != nil
	if finals == 0 && !interrupted {
		x.fail(task, "status-missing", []string{"C12"}, "%s: no status was sent", where)
	}
	if rw.dups > 0 {
		x.fail(task, "status-repeated", []string{"C12"}, "%s: the status was sent again", where)
	}
	if finals > 0 {
		if rw.final != code || rw.implicit {
			x.fail(task, "status-wrong", []string{"C12"}, "%s: status %d (implicit: %v) was sent, want %d", where, rw.final, rw.implicit, code)
		}
		want := cloneHdr(rw.pre)
		for k, v := range hdrs {
			if k != "Push" {
				want[k] = v
			}
		}
		if !headersEqual(want, rw.snap) {
			x.fail(task, "headers-wrong", []string{"C12"}, "%s: headers sent differ:%s", where, headerDiff(want, rw.snap))
		}
	}
	// Pushes.
	if op.RW.Pusher {
		want := hdrs["Push"]
		got := rw.pushes
		ok := len(got) <= len(want)
		for i := range got {
			if ok && got[i] != want[i] {
				ok = false
			}
		}
		for _, o := range rw.opts {
			if o != nil && (o.Method != "" && o.Method != "GET" || len(o.Header) > 0) {
				ok = false
			}
		}
		if ok && len(got) < len(want) && !interrupted {
			ok = false
		}
		if !ok {
			x.fail(task, "pushes-wrong", []string{"C12"}, "%s: pushed %q, want %q", where, got, want)
		}
		if len(got) > 0 {
			x.mark(task, "pushes made")
		}
	}
	// Body bytes.
	d := m.body.data
	if m.body.pos < int64(len(d)) {
		d = d[m.body.pos:]
	} else {
		d = nil
	}
	left := m.body.end - m.body.pos
	if left < 0 {
		left = 0
	}
	suppressed := wrap && (op.Head || code == 204)
	if int64(len(rw.got)) > left || !bytes.Equal(rw.got, d[:len(rw.got)]) {
		x.fail(task, "wrong-body-bytes", []string{"C12"}, "%s: the client got %d bytes that are not the first of the body's %d", where, len(rw.got), left)
	}
	all := int64(len(rw.got)) == left || suppressed
	if panicked {
		return
	}
	if err == nil {
		switch {
		case rw.pushErr != nil:
			x.fail(task, "push-error-lost", []string{"C12"}, "%s: Serve returned nil although a push failed", where)
		case rw.writeErr:
			x.fail(task, "write-error-lost", []string{"C12"}, "%s: Serve returned nil although a write failed", where)
		case !all:
			x.fail(task, "incomplete-nil", []string{"C12"}, "%s: Serve returned nil after %d of %d body bytes", where, len(rw.got), left)
		case closeErr:
			x.fail(task, "close-error-lost", []string{"C12"}, "%s: Serve returned nil although closing the body failed", where)
		default:
			x.mark(task, "served completely")
			if m.autoCL && x.honest(m.body.fam) && !suppressed && m.hdrs["Content-Length"][0] != strconv.Itoa(len(rw.got)) {
				x.fail(task, "content-length-wrong", []string{"C17"}, "%s: Content-Length %s, delivered %d", where, m.hdrs["Content-Length"][0], len(rw.got))
			}
		}
		return
	}
	x.mark(task, "Serve failed")
	ok := false
	for _, e := range rw.errs {
		if errors.Is(err, e) {
			ok = true
		}
	}
	if _, isSrc := srcErrID(err); isSrc && m.body.fam >= 0 {
		// A stream's failure is shared by its copies.
		if srcMet || !x.p.Srcs[m.body.fam].positional() || m.body.pos > 0 {
			ok = true
		}
	}
	if !ok {
		x.fail(task, "unjustified-error", []string{"C12"}, "%s: Serve returned %v, which nothing it used had returned (%d of %d bytes delivered)", where, err, len(rw.got), left)
	}
	if rw.pushErr != nil && rw.pushErr != err && !errors.Is(err, rw.pushErr) && !rw.writeErr && !srcMet {
		x.fail(task, "unjustified-error", []string{"C12"}, "%s: Serve returned %v, the push failed with %v", where, err, rw.pushErr)
	}
}

func (x *httpRun) famText(m *mbody) string {
	if m.fam < 0 {
		return "payload body"
	}
	p := x.p.Srcs[m.fam]
	s := p.Kind
	if p.Kind == "reader" {
		br := bodyRun{p: &BodyPlan{Src: p}}
		s = br.capsMark()
	}
	if t := trackOf(m.b); t != nil {
		s += ", tracked"
	}
	return s
}

func rwText(op *HOp) string {
	s := op.RW.Kind
	if op.RW.Pusher {
		s += "+pusher"
	}
	if op.Wrap {
		s += " through a Writer"
	}
	if op.Head {
		s += " for HEAD"
	}
	return s
}

// drain reads b to its end (or n bytes) and compares.
func (x *httpRun) drain(task int, m *mbody, n int, what string) {
	d := m.data
	if m.pos < int64(len(d)) {
		d = d[m.pos:m.end]
	} else {
		d = nil
	}
	if n <= 0 {
		n = 1 << 30
	}
	var got []byte
	buf := make([]byte, max(997, len(d)/100))
	var err error
	for i := 0; len(got) < n && i < 4000; i++ {
		var k int
		k, err = m.b.Read(buf)
		got = append(got, buf[:k]...)
		if err != nil {
			break
		}
	}
	if len(got) > len(d) || !bytes.Equal(got, d[:len(got)]) {
		x.fail(task, "body-changed", []string{"C16"}, "%s: the body delivers %d bytes that are not the first of the expected %d", what, len(got), len(d))
		return
	}
	if err == io.EOF && len(got) != len(d) {
		x.fail(task, "body-changed", []string{"C16"}, "%s: the body ends after %d bytes, want %d", what, len(got), len(d))
	}
	if err != nil && err != io.EOF {
		if _, isSrc := srcErrID(err); !isSrc {
			x.fail(task, "body-changed", []string{"C16"}, "%s: reading the body failed: %v", what, err)
		}
	}
}

func (x *httpRun) main() {
	for i := range x.p.Setup {
		op := &x.p.Setup[i]
		if op.Kind == "share" {
			if m := x.r[op.R]; m != nil {
				m.shared = true
			}
			continue
		}
		x.do(0, op)
	}
	var ids []int
	for t := range x.p.Tasks {
		t := t
		ids = append(ids, rt.Spawn(func() {
			for i := range x.p.Tasks[t] {
				x.do(t+1, &x.p.Tasks[t][i])
			}
		}))
	}
	rt.Join(ids...)
	for _, s := range x.srcs {
		if s != nil {
			s.setFaults(false)
		}
	}
	x.fin = true
	for i, m := range x.r {
		if m == nil || m.served {
			continue
		}
		if x.checkResp(0, i, "response-changed", "at the end", "C16") {
			x.drain(0, m.body, 0, fmt.Sprintf("response %d at the end", i))
		}
		m.body.b.Close()
	}
	for i, m := range x.b {
		if m == nil {
			continue
		}
		if x.checkBuilder(0, i, "at the end", "C16", "C17") && m.body != nil {
			x.drain(0, m.body, 0, fmt.Sprintf("builder %d at the end", i))
		}
		if m.body != nil {
			m.body.b.Close()
		}
	}
	x.fin = false
}

func runHTTP(p *Plan, o *Outcome, logging bool) {
	x := &httpRun{p: p.HTTP, o: o, srcs: make([]*Src, len(p.HTTP.Srcs))}
	for k := range x.p.Srcs {
		x.made = append(x.made, newSrc(&x.p.Srcs[k], k))
	}
	o.rt = rt.Run(p.Sched, logging, x.main)
	runtime.KeepAlive(x)
	x.verdict()
}

func (x *httpRun) verdict() {
	o := x.o
	o.Tasks = len(x.p.Tasks)
	for _, s := range x.srcs {
		if s != nil {
			s.report(o)
		}
	}
	for t := range x.rws {
		for _, w := range x.rws[t] {
			w.report(o)
			o.mark("connection: " + w.p.Kind)
		}
		for _, m := range x.marks[t] {
			o.mark(m)
		}
		o.Ops += x.ops[t]
	}
	for t := range x.bad {
		for _, v := range x.bad[t] {
			o.fail(v.Class, v.Props, "%s", v.Detail)
		}
	}
	x.spans.judge(o, "response-held-up")
	if o.rt.Races > 0 {
		o.fail("data-race", []string{"C16"}, "the race detector reported %d conflicting accesses without synchronisation", o.rt.Races)
	}
	if o.rt.HasPanic {
		o.fail("task-panic", []string{"C12", "C16", "C17"}, "a goroutine panicked: %v", o.rt.Panic)
		return
	}
	if o.rt.Outcome != rt.Finished {
		what := ""
		for _, t := range o.rt.Blocked {
			what += fmt.Sprintf("; task %d in %s", t, x.last[t])
		}
		o.fail(o.rt.Outcome.String(), []string{"C12", "C13", "C16"}, "the run ended in a %s%s", o.rt.Outcome, what)
		return
	}
	for i, s := range x.srcs {
		if s == nil {
			continue
		}
		p := &x.p.Srcs[i]
		if p.Kind == "reader" && (p.Closer || p.Stat) && s.closes != 1 {
			o.fail("source-closes", []string{"C13"}, "source %d was closed %d times after every response had been served or closed", i, s.closes)
		}
		if s.late != "" {
			o.fail("source-used-after-close", []string{"C13"}, "source %d received a %s after it had been closed", i, s.late)
		}
	}
}
