from lib import bug
R='github.com/chronos-tachyon/morehttp/response'
B='github.com/chronos-tachyon/morehttp/body'
H='github.com/chronos-tachyon/morehttp/handler'
RW='''
// conn is a minimal client connection.
type conn struct {
	h      http.Header
	code   int
	sent   http.Header
	got    []byte
	limit  int // -1: none
	err    error
	panics bool
}

func newConn() *conn { return &conn{h: http.Header{}, limit: -1} }

func (c *conn) Header() http.Header { return c.h }
func (c *conn) WriteHeader(code int) {
	if c.code == 0 {
		c.code = code
		c.sent = c.h.Clone()
	}
}
func (c *conn) Write(p []byte) (int, error) {
	if c.code == 0 {
		c.WriteHeader(200)
	}
	if c.panics {
		panic("connection")
	}
	if c.limit >= 0 && len(c.got)+len(p) > c.limit {
		n := c.limit - len(c.got)
		c.got = append(c.got, p[:n]...)
		return n, c.err
	}
	c.got = append(c.got, p...)
	return len(p), nil
}
'''
PUSH='''
type pconn struct {
	*conn
	urls []string
	perr error
}

func (c *pconn) Push(u string, o *http.PushOptions) error {
	c.urls = append(c.urls, u)
	return c.perr
}
'''
FANCY='''
type fconn struct {
	*conn
}

func (c *fconn) Flush() {
	if c.code == 0 {
		c.WriteHeader(200)
	}
}
func (c *fconn) CloseNotify() <-chan bool { return nil }
func (c *fconn) Hijack() (net.Conn, *bufio.ReadWriter, error) { return nil, nil, nil }
func (c *fconn) ReadFrom(r io.Reader) (int64, error) {
	total := int64(0)
	p := make([]byte, 4)
	for {
		n, err := r.Read(p)
		if n > 0 {
			m, werr := c.Write(p[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}
'''
SRC='''
// src is a plain reader that fails at the end if err is set.
type src struct {
	data   []byte
	err    error
	closed int
	cerr   error
}

func (s *src) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		if s.err != nil {
			return 0, s.err
		}
		return 0, io.EOF
	}
	n := copy(p, s.data)
	s.data = s.data[n:]
	return n, nil
}
func (s *src) Close() error { s.closed++; return s.cerr }
'''
bug('c12-client-gone-is-fine','C12',[('response/response.go','''	w.WriteHeader(resp.code)
''','''	w.WriteHeader(resp.code)
	defer func() {
		if errors.Is(err, syscall.EPIPE) {
			// The client went away; nobody to tell.
			err = nil
		}
	}()
'''),('response/response.go','	"net/http"\n','	"net/http"\n	"syscall"\n')],"a client that disconnects in the middle of the body, seen as EPIPE","Serve returns nil although the response was truncated",
'response',f'net/http syscall testing {B} {R}',RW+'''
func TestDemo(t *testing.T) {
	c := newConn()
	c.limit, c.err = 3, &netErr{}
	err := response.NewBuilder().WithBody(body.FromString("hello")).Build().Serve(c)
	if err == nil {
		t.Fatal("no error; the client got", len(c.got), "bytes")
	}
}

type netErr struct{}

func (*netErr) Error() string { return "write: broken pipe" }
func (*netErr) Unwrap() error { return syscall.EPIPE }
''')
bug('c12-push-header-leaks','C12',[('response/response.go','''	if x, ok := w.(http.Pusher); ok {
		vlist := resp.hdrs[headerPush]
''','''	pushed := false
	if x, ok := w.(http.Pusher); ok {
		pushed = true
		vlist := resp.hdrs[headerPush]
'''),('response/response.go','''		if k != headerPush {
''','''		if k != headerPush || !pushed {
''')],"a response with Push served to a connection that cannot push","the Push pseudo header is sent to the client",
'response',f'net/http testing {B} {R}',RW+'''
func TestDemo(t *testing.T) {
	c := newConn()
	r := response.NewBuilder().WithBody(body.FromString("hello")).WithHeader("Push", "/a.css", true).Build()
	if err := r.Serve(c); err != nil {
		t.Fatal(err)
	}
	if _, found := c.sent[http.CanonicalHeaderKey("Push")]; found {
		t.Fatal("Push was sent", c.sent)
	}
}
''')
bug('c12-push-abandoned','C12',[('response/response.go','''			err := x.Push(url, &http.PushOptions{})
			if err != nil && !errors.Is(err, http.ErrNotSupported) {
				return err
			}
''','''			err := x.Push(url, &http.PushOptions{})
			if errors.Is(err, http.ErrNotSupported) {
				break
			}
			if err != nil {
				return err
			}
''')],"several pushes of which one, not the last, is refused with http.ErrNotSupported","the pushes after it are not requested",
'response',f'net/http testing {B} {R}',RW+PUSH+'''
func TestDemo(t *testing.T) {
	c := &pconn{conn: newConn(), perr: http.ErrNotSupported}
	r := response.NewBuilder().WithBody(body.FromString("hello")).WithHeader("Push", "/a.css", true).WithHeader("Push", "/b.css", true).Build()
	if err := r.Serve(c); err != nil {
		t.Fatal(err)
	}
	if len(c.urls) != 2 {
		t.Fatal(c.urls)
	}
}
''')
bug('c12-limit-to-content-length','C12',[('response/response.go','''	w.WriteHeader(resp.code)
''','''	w.WriteHeader(resp.code)
	if n := resp.body.BytesRemaining(); n == 0 {
		// Nothing to send.
		return nil
	}
''')],"a body that reports 0 bytes remaining and fails (a stream that failed before serving, as a copy did)","the failure is not reported and the response is taken to be complete",
'response',f'errors io net/http testing {B} {R}',RW+SRC+'''
func TestDemo(t *testing.T) {
	boom := errors.New("boom")
	b, err := body.FromReader(&src{data: []byte("hello"), err: boom})
	if err != nil {
		t.Fatal(err)
	}
	r := response.NewBuilder().WithBody(b).Build()
	r2, err := r.Copy()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := io.ReadAll(r2.Body()); err != boom {
		t.Fatal(err)
	}
	c := newConn()
	if err := r2.Serve(c); err != boom {
		t.Fatal("Serve returned", err)
	}
}
''')
bug('c13-headers-before-cleanup','C13',[('response/response.go','''		for _, url := range vlist {
			err := x.Push(url, &http.PushOptions{})
			if err != nil && !errors.Is(err, http.ErrNotSupported) {
				return err
			}
		}
''','''		for _, url := range vlist {
			err := x.Push(url, &http.PushOptions{})
			if err != nil && !errors.Is(err, http.ErrNotSupported) {
				// Keep the body, so that the caller can serve it without pushing.
				resp.body = nil
				return err
			}
		}
''')],"a push that fails","the body is not closed and its reader leaks",
'response',f'errors io net/http testing {B} {R}',RW+PUSH+SRC+'''
func TestDemo(t *testing.T) {
	s := &src{data: []byte("hello")}
	b, _ := body.FromReader(s)
	c := &pconn{conn: newConn(), perr: errors.New("no")}
	r := response.NewBuilder().WithBody(b).WithHeader("Push", "/a.css", true).Build()
	if err := r.Serve(c); err == nil {
		t.Fatal("no error")
	}
	if s.closed != 1 {
		t.Fatal("closed", s.closed)
	}
}
''')
bug('c13-spare-copy-leaks','C13',[('response/response.go','''	w.WriteHeader(resp.code)
''','''	w.WriteHeader(resp.code)

	// Serve from a copy, so that Body() can still be inspected afterwards.
	spare, err := resp.body.Copy()
	if err == nil {
		orig := resp.body
		resp.body = spare
		if _, err = io.Copy(w, spare); err == nil {
			err = orig.Close()
		}
		return err
	}
''')],"a body or a client that fails while the response is served","one of the two copies is closed only when the response was served completely, so the reader leaks on failures",
'response',f'errors io net/http testing {B} {R}',RW+SRC+'''
func TestDemo(t *testing.T) {
	s := &src{data: []byte("hello"), err: errors.New("boom")}
	b, _ := body.FromReader(s)
	c := newConn()
	if err := response.NewBuilder().WithBody(b).Build().Serve(c); err == nil {
		t.Fatal("no error")
	}
	if s.closed != 1 {
		t.Fatal("closed", s.closed)
	}
}
''')
bug('c14-readfrom-partial-not-counted','C14',[('response/writer.go','''	n, err := w.next.(io.ReaderFrom).ReadFrom(r)
	assert.Assertf(n >= 0, "%d >= 0", n)
	w.bytes += n
	if err != nil {
		w.sawError = true
	}
''','''	n, err := w.next.(io.ReaderFrom).ReadFrom(r)
	assert.Assertf(n >= 0, "%d >= 0", n)
	if err != nil {
		w.sawError = true
		return n, err
	}
	w.bytes += n
''')],"a ReadFrom that fails after part of the body was sent","the bytes sent before the failure are missing from BytesWritten",
'response',f'bufio errors io net net/http net/http/httptest strings testing {R}',RW+FANCY+'''
func TestDemo(t *testing.T) {
	c := &fconn{newConn()}
	c.limit, c.err = 6, errors.New("gone")
	w := response.NewWriter(c, httptest.NewRequest("GET", "/", nil))
	n, err := w.(io.ReaderFrom).ReadFrom(strings.NewReader("hello, world"))
	if n != 6 || err == nil {
		t.Fatal(n, err)
	}
	if w.BytesWritten() != 6 || !w.SawError() {
		t.Fatal(w.BytesWritten(), w.SawError())
	}
}
''')
bug('c14-short-write-counted-whole','C14',[('response/writer.go','''	w.bytes += int64(n)
	if err != nil {
		w.sawError = true
	}
''','''	w.bytes += int64(len(p))
	if err != nil {
		w.sawError = true
		w.bytes -= int64(len(p))
	}
''')],"a Write of which the connection accepts a part before it fails","the accepted part is not counted",
'response',f'errors net/http net/http/httptest testing {R}',RW+'''
func TestDemo(t *testing.T) {
	c := newConn()
	c.limit, c.err = 3, errors.New("gone")
	w := response.NewWriter(c, httptest.NewRequest("GET", "/", nil))
	n, err := w.Write([]byte("hello"))
	if n != 3 || err == nil {
		t.Fatal(n, err)
	}
	if w.BytesWritten() != 3 || !w.SawError() {
		t.Fatal(w.BytesWritten(), w.SawError())
	}
}
''')
bug('c14-failed-push-is-error','C14',[('response/writer.go','''		return x.Push(url, opts)
	}
''','''		err := x.Push(url, opts)
		if err != nil {
			w.sawError = true
		}
		return err
	}
''')],"a push that the connection refuses, as with http.ErrNotSupported","SawError reports an error although everything was sent and no write failed",
'response',f'net/http net/http/httptest testing {R}',RW+PUSH+'''
func TestDemo(t *testing.T) {
	c := &pconn{conn: newConn(), perr: http.ErrNotSupported}
	w := response.NewWriter(c, httptest.NewRequest("GET", "/", nil))
	if err := w.Push("/a.css", nil); err != http.ErrNotSupported {
		t.Fatal(err)
	}
	w.Write([]byte("hello"))
	if w.SawError() {
		t.Fatal("SawError")
	}
}
''')
bug('c15-readfrom-sends-204-body','C15',[('response/writer.go','''	if w.isHEAD || w.status == http.StatusNoContent {
		return io.Copy(io.Discard, r)
	}
''','''	if w.isHEAD {
		return io.Copy(io.Discard, r)
	}
''')],"a 204 response whose body is sent through ReadFrom","body bytes of a 204 response reach the connection",
'response',f'bufio io net net/http net/http/httptest strings testing {R}',RW+FANCY+'''
func TestDemo(t *testing.T) {
	c := &fconn{newConn()}
	w := response.NewWriter(c, httptest.NewRequest("GET", "/", nil))
	w.WriteHeader(204)
	n, err := w.(io.ReaderFrom).ReadFrom(strings.NewReader("hello, world"))
	if n != 12 || err != nil {
		t.Fatal(n, err)
	}
	if len(c.got) != 0 {
		t.Fatalf("%q", c.got)
	}
}
''')
bug('c15-flush-first','C15',[('response/writer.go','''func (w *flushWriter) Flush() {
	w.MaybeWriteHeader(http.StatusOK)

	w.next.(http.Flusher).Flush()
}
''','''func (w *flushWriter) Flush() {
	w.next.(http.Flusher).Flush()
	if w.status == 0 {
		// Flush has sent the header.
		w.status = http.StatusOK
	}
}
''')],"Flush as the first call","the flush reaches the connection before any status was given to it",
'response',f'net/http net/http/httptest testing {R}',RW+'''
type flconn struct {
	*conn
	early bool
}

func (c *flconn) Flush() {
	if c.code == 0 {
		c.early = true
		c.WriteHeader(200)
	}
}

func TestDemo(t *testing.T) {
	c := &flconn{conn: newConn()}
	w := response.NewWriter(c, httptest.NewRequest("GET", "/", nil))
	w.(http.Flusher).Flush()
	if c.early {
		t.Fatal("flush before the status")
	}
}
''')
bug('c15-head-through-writer-of-writer','C15',[('response/writer.go','''	isHEAD := (r.Method == http.MethodHead)

	if x, ok := w.(Writer); ok {
		return x
	}
''','''	isHEAD := (r.Method == http.MethodHead)

	if x, ok := w.(Writer); ok {
		// Keep the accounting of every layer separate.
		w = x.Unwrap()
	}
''')],"wrapping a Writer that has already sent something in another Writer, as nested handlers do","the second Writer does not know that the status was sent, and sends another",
'response',f'net/http net/http/httptest testing {R}',RW+'''
type counting struct {
	*conn
	n int
}

func (c *counting) WriteHeader(code int) { c.n++; c.conn.WriteHeader(code) }

func TestDemo(t *testing.T) {
	c := &counting{conn: newConn()}
	req := httptest.NewRequest("GET", "/", nil)
	w := response.NewWriter(c, req)
	w.WriteHeader(404)
	w2 := response.NewWriter(w, req)
	w2.MaybeWriteHeader(500)
	if c.n != 1 {
		t.Fatal(c.n, "statuses")
	}
}
''')
bug('c16-full-slice-is-not-a-copy','C16',[('response/util.go','''	dst := make([]string, len(src))
	copy(dst, src)
	return dst
''','''	// Capping the capacity makes appends to the copy reallocate.
	return src[:len(src):len(src)]
''')],"a header value that is changed in place in one of two copies","copies of Builders and Responses share their header values",
'response',f'net/http testing {B} {R}',RW+'''
func TestDemo(t *testing.T) {
	b := response.NewBuilder().WithBody(body.Empty()).WithHeader("X-A", "one", false)
	b2, err := b.Copy()
	if err != nil {
		t.Fatal(err)
	}
	b2.Headers()["X-A"][0] = "two"
	if v := b.Headers().Get("X-A"); v != "one" {
		t.Fatal(v)
	}
	_ = http.StatusOK
}
''')
bug('c16-copy-with-nil-body','C16',[('response/response.go','''	body2, err := copyBody(resp.body)
	if err != nil {
		return nil, err
	}

	out := &Response{
		code: resp.code,
		hdrs: resp.hdrs,
		body: body2,
		err:  resp.err,
	}
	return out, nil
''','''	out := *resp
	if bodyLen := resp.body.BytesRemaining(); bodyLen != 0 {
		body2, err := copyBody(resp.body)
		if err != nil {
			return nil, err
		}
		out.body = body2
	}
	return &out, nil
''')],"Copy of a Response whose body has no bytes left","the two share one body: closing or serving one closes the other's",
'response',f'errors io net/http testing {B} {R}',RW+SRC+'''
func TestDemo(t *testing.T) {
	s := &src{}
	b, err := body.FromReaderAndLength(s, 0)
	if err != nil {
		t.Fatal(err)
	}
	r := response.NewBuilder().WithBody(b).Build()
	r2, err := r.Copy()
	if err != nil {
		t.Fatal(err)
	}
	if err := r2.Serve(newConn()); err != nil {
		t.Fatal(err)
	}
	if s.closed != 0 {
		t.Fatal("closed by the copy")
	}
	if err := r.Serve(newConn()); err != nil {
		t.Fatal(err)
	}
	_ = errors.New
}
''')
bug('c16-builder-copy-forgets-error','C16',[('response/builder.go','''		body: body2,
		err:  builder.err,
	}
	return out, nil''','''		body: body2,
	}
	if builder.code >= 400 {
		out.err = builder.err
	}
	return out, nil''')],"Copy of a Builder that has an error but no error status yet","the copy has lost the error",
'response',f'errors net/http testing {B} {R}',RW+'''
func TestDemo(t *testing.T) {
	boom := errors.New("boom")
	b := response.NewBuilder().WithBody(body.Empty()).WithError(boom)
	b2, err := b.Copy()
	if err != nil {
		t.Fatal(err)
	}
	if b2.Err() != boom {
		t.Fatal(b2.Err())
	}
	_ = http.StatusOK
}
''')
bug('c17-error-stays-in-builder','C17',[('response/builder.go','''	builder.body = nil
	builder.err = nil

	if code == 0 {
		code = http.StatusOK
	}
''','''	builder.body = nil

	if code == 0 {
		code = http.StatusOK
	}
	if code >= 400 {
		builder.err = nil
	}
''')],"a Builder that is used again after building a response with an error but a status below 400","the error turns up in the next Response",
'response',f'errors net/http testing {B} {R}',RW+'''
func TestDemo(t *testing.T) {
	b := response.NewBuilder().WithBody(body.Empty()).WithError(errors.New("boom"))
	b.Build()
	if r := b.WithBody(body.Empty()).Build(); r.Err() != nil {
		t.Fatal(r.Err())
	}
	_ = http.StatusOK
}
''')
bug('c17-empty-body-without-length','C17',[('response/builder.go','	if bodyLen >= 0 {\n','	if bodyLen > 0 {\n')],"a body of length 0","Content-Length: 0 is missing, although the length is known",
'response',f'net/http testing {B} {R}',RW+'''
func TestDemo(t *testing.T) {
	r := response.NewBuilder().WithBody(body.Empty()).Build()
	if v := r.Headers().Get("Content-Length"); v != "0" {
		t.Fatalf("%q", v)
	}
	_ = http.StatusOK
}
''')
bug('c17-cached-length','C17',[('response/builder.go','''	assert.NotNil(&b)
	builder.body = b
	return builder
''','''	assert.NotNil(&b)
	builder.body = b
	builder.blen = b.BytesRemaining()
	return builder
'''),('response/builder.go','''	body body.Body
	err  error
}

// PageGenerator returns''','''	body body.Body
	blen int64 // length of body when it was given to us, or 0 if not looked at
	err  error
}

// PageGenerator returns'''),('response/builder.go','''	bodyLen := body.BytesRemaining()
''','''	bodyLen := builder.blen
	builder.blen = 0
	if bodyLen <= 0 {
		bodyLen = body.BytesRemaining()
	}
''')],"a body of which bytes are consumed, or a Builder that gets another kind of body, after WithBody","Content-Length is the length at the time of WithBody, not what serving delivers",
'response',f'io net/http testing {B} {R}',RW+'''
func TestDemo(t *testing.T) {
	b := response.NewBuilder().WithBody(body.FromString("something long")).WithJSON(1)
	r := b.Build()
	if v := r.Headers().Get("Content-Length"); v != "2" {
		t.Fatalf("%q", v)
	}
	_, _ = http.StatusOK, io.EOF
}
''')
bug('c17-shares-headers-argument','C17',[('response/builder.go','''	builder.hdrs = copyHeaders(hdrs)
	return builder
''','''	out := builder.Headers()
	for k := range out {
		delete(out, k)
	}
	for k, vlist := range hdrs {
		if len(vlist) == 1 {
			out[k] = vlist
			continue
		}
		out[k] = copyStrings(vlist)
	}
	return builder
''')],"a caller that changes a single header value in place after WithHeaders","the change shows in the Builder and the Response",
'response',f'net/http testing {B} {R}',RW+'''
func TestDemo(t *testing.T) {
	h := http.Header{"X-A": {"one"}}
	b := response.NewBuilder().WithBody(body.Empty()).WithHeaders(h)
	h["X-A"][0] = "two"
	if v := b.Build().Headers().Get("X-A"); v != "one" {
		t.Fatal(v)
	}
}
''')
AD='''
func value(t *testing.T, name, code string) float64 {
	fs, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		t.Fatal(err)
	}
	total := 0.0
	for _, f := range fs {
		if f.GetName() != name {
			continue
		}
		for _, m := range f.GetMetric() {
			ok := code == ""
			for _, l := range m.GetLabel() {
				if l.GetValue() == code {
					ok = true
				}
			}
			if ok {
				total += m.GetCounter().GetValue()
			}
		}
	}
	return total
}
'''
P='github.com/prometheus/client_golang/prometheus'
bug('c18-wall-clock','C18',[('handler/adaptor.go','''		elapsedDuration := time.Since(startTime)
''','''		elapsedDuration := time.Duration(time.Now().UnixNano() - startTime.UnixNano())
''')],"the wall clock being set back while a request is handled","elapsed time is negative and the latency counter panics, so that the request is counted only in part",
'handler',f'os os/exec path/filepath strings testing','''
// The clock cannot be set here, so look at what the binary measures: the
// program below runs the Adaptor with time.Now replaced.
func TestDemo(t *testing.T) {
	wd, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	repo := filepath.Dir(wd)
	tmp := t.TempDir()
	src, err := os.ReadFile(filepath.Join(wd, "adaptor.go"))
	if err != nil {
		t.Fatal(err)
	}
	fake := strings.ReplaceAll(strings.ReplaceAll(string(src), "time.Now()", "fakeNow()"), "time.Since(", "fakeSince(")
	fake += `
var fakeSteps int

// The wall clock goes back by an hour between the first and the second look;
// the monotonic clock goes on.
func fakeNow() time.Time {
	fakeSteps++
	t := time.Now()
	if fakeSteps > 1 {
		t = t.Round(0).Add(-time.Hour)
	}
	return t
}
func fakeSince(t time.Time) time.Duration { return time.Since(t) }
`
	os.WriteFile(filepath.Join(tmp, "adaptor.go"), []byte(fake), 0o644)
	test := `package handler_test

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
)

func TestInner(t *testing.T) {
	h := handler.Adaptor{Inner: handler.HandlerFunc(func(*http.Request) response.Response {
		return *response.NewBuilder().WithBody(body.FromString("hello")).Build()
	})}
	h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
}
`
	os.WriteFile(filepath.Join(tmp, "inner_test.go"), []byte(test), 0o644)
	overlay := `{"Replace": {"` + wd + `/adaptor.go": "` + tmp + `/adaptor.go", "` + wd + `/zz_inner_test.go": "` + tmp + `/inner_test.go"}}`
	os.WriteFile(filepath.Join(tmp, "overlay.json"), []byte(overlay), 0o644)
	cmd := exec.Command("go", "test", "-vet=off", "-count=1", "-overlay", filepath.Join(tmp, "overlay.json"), "-run", "TestInner", "./handler")
	cmd.Dir = repo
	out, err := cmd.CombinedOutput()
	if err != nil {
		t.Fatalf("%v\\n%s", err, out)
	}
}
''')
bug('c18-unsynchronised-label-cache','C18',[('handler/adaptor.go','''		PromRequestsTotal.With(labels).Inc()
''','''		if code != lastCode {
			lastCode = code
			lastRequests = PromRequestsTotal.With(labels)
		}
		lastRequests.Inc()
'''),('handler/adaptor.go','''type Adaptor struct {
''','''// Most requests end with the same code as the one before.
var (
	lastCode     string
	lastRequests prometheus.Counter
)

type Adaptor struct {
''')],"two requests with different codes that end at the same time","a request is counted under the code of another one (and the race detector complains)",
'handler',f'net/http net/http/httptest sync testing {B} {R} {H} {P}',AD+'''
func TestDemo(t *testing.T) {
	h := handler.Adaptor{Inner: handler.HandlerFunc(func(r *http.Request) response.Response {
		code := 200
		if r.Method == "PUT" {
			code = 201
		}
		return *response.NewBuilder().WithStatus(code).WithBody(body.Empty()).Build()
	})}
	var wg sync.WaitGroup
	const n = 30000
	for _, m := range []string{"GET", "PUT", "GET", "PUT"} {
		wg.Add(1)
		go func(m string) {
			defer wg.Done()
			for i := 0; i < n; i++ {
				h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest(m, "/", nil))
			}
		}(m)
	}
	wg.Wait()
	if a, b := value(t, "http_requests_total", "200"), value(t, "http_requests_total", "201"); a != 2*n || b != 2*n {
		t.Fatal(a, b)
	}
}
''',race=True)
bug('c18-bytes-of-failed-not-counted','C18',[('handler/adaptor.go','''		sendBytes := float64(ww.BytesWritten())
''','''		sendBytes := float64(ww.BytesWritten())
		if ww.SawError() {
			// We do not know what has arrived.
			sendBytes = 0
		}
''')],"a client that disconnects in the middle of the body","the bytes that were sent are not counted",
'handler',f'errors net/http net/http/httptest testing {B} {R} {H} {P}',AD+RW+'''
func TestDemo(t *testing.T) {
	h := handler.Adaptor{Inner: handler.HandlerFunc(func(r *http.Request) response.Response {
		return *response.NewBuilder().WithBody(body.FromString("hello")).Build()
	})}
	c := newConn()
	c.limit, c.err = 3, errors.New("gone")
	h.ServeHTTP(c, httptest.NewRequest("GET", "/", nil))
	if n := value(t, "http_send_bytes_total", "200"); n != 3 {
		t.Fatal(n)
	}
}
''')
bug('c19-abort-not-reported','C19',[('handler/adaptor.go','''		if panicValue != nil {
			err, ok''','''		if panicValue != nil && panicValue != http.ErrAbortHandler {
			err, ok''')],"a handler that panics with http.ErrAbortHandler","OnPanic is not called for it",
'handler',f'net/http net/http/httptest testing {R} {H}','''
func TestDemo(t *testing.T) {
	n := 0
	handler.OnPanic = func(error) { n++ }
	h := handler.Adaptor{Inner: handler.HandlerFunc(func(r *http.Request) response.Response { panic(http.ErrAbortHandler) })}
	h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
	if n != 1 {
		t.Fatal(n)
	}
}
''')
bug('c19-headers-before-push','C19',[('response/response.go','''	if x, ok := w.(http.Pusher); ok {
		vlist''','''	for k := range resp.hdrs {
		if k != headerPush {
			// Announce what is to come.
			w.Header()[k] = resp.hdrs[k]
		}
	}

	if x, ok := w.(http.Pusher); ok {
		vlist''')],"a push that fails, before the status is sent","the client gets status 500 together with the headers of the failed response, such as its Content-Length",
'handler',f'errors net/http net/http/httptest testing {B} {R} {H}',RW+PUSH+'''
func TestDemo(t *testing.T) {
	h := handler.Adaptor{Inner: handler.HandlerFunc(func(r *http.Request) response.Response {
		return *response.NewBuilder().WithBody(body.FromString("hello")).WithHeader("Push", "/a.css", true).Build()
	})}
	c := &pconn{conn: newConn(), perr: errors.New("no")}
	h.ServeHTTP(c, httptest.NewRequest("GET", "/", nil))
	if c.code != 500 || c.sent.Get("Content-Length") != "" {
		t.Fatal(c.code, c.sent)
	}
}
''')
bug('c19-hook-before-metrics','C19',[('handler/adaptor.go','''		if panicValue != nil {
			PromPanicsTotal.Inc()
		}
''','''		if panicValue != nil {
			PromPanicsTotal.Inc()
			defer func(n int64) {
				if n != ww.BytesWritten() {
					PromSendBytesHist.Observe(0)
				}
			}(ww.BytesWritten())
			if err, ok := panicValue.(error); ok {
				OnPanic(err)
				panicValue = nil
			}
		}
''')],"a failing request while somebody looks at the metrics from OnPanic","OnPanic is called before the metrics are updated",
'handler',f'errors net/http net/http/httptest testing {R} {H} {P}',AD+'''
func TestDemo(t *testing.T) {
	seen := -1.0
	handler.OnPanic = func(error) { seen = value(t, "http_requests_total", "500") }
	h := handler.Adaptor{Inner: handler.HandlerFunc(func(r *http.Request) response.Response { panic(errors.New("boom")) })}
	h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
	if seen != 1 {
		t.Fatal(seen)
	}
}
''')
