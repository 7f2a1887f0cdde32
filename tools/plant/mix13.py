from lib import bug
from body1 import STREAM, AT, IM
from resp1 import RW, PUSH, FANCY, SRC, P, R, B, H
import lib
lib.BUGS.clear()
CAP='''
// cap is a client connection with everything net/http offers.
type capConn struct {
	*conn
	flushes  int
	notify   chan bool
	hijacks  int
	readFrom int
}

func newCap() *capConn { return &capConn{conn: newConn(), notify: make(chan bool, 1)} }

func (c *capConn) Flush() {
	if c.code == 0 {
		c.WriteHeader(200)
	}
	c.flushes++
}
func (c *capConn) CloseNotify() <-chan bool { return c.notify }
func (c *capConn) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	c.hijacks++
	return nil, nil, errors.New("mine")
}
func (c *capConn) ReadFrom(r io.Reader) (int64, error) {
	c.readFrom++
	p, err := io.ReadAll(r)
	n, werr := c.Write(p)
	if werr != nil {
		err = werr
	}
	return int64(n), err
}

func capReq(method string) *http.Request {
	req, _ := http.NewRequest(method, "/", nil)
	return req
}
'''
IMPS=f'bufio errors io net net/http strings testing {R}'
USE='''
var _ = strings.NewReader
'''
FL='''	w.next.(http.Flusher).Flush()
}

type fancy interface {'''
bug('c27-flush-not-after-error','C27',[('response/writer.go','''func (w *fancyWriter) Flush() {
	w.MaybeWriteHeader(http.StatusOK)

	w.next''','''func (w *fancyWriter) Flush() {
	w.MaybeWriteHeader(http.StatusOK)
	if w.sawError {
		return // nobody is listening
	}

	w.next''')],"a Writer that saw an error, then Flush","what the client buffered stays there",
'response',IMPS,CAP+RW+USE+'''
func TestDemo(t *testing.T) {
	c := newCap()
	w := response.NewWriter(c, capReq("GET"))
	c.limit, c.err = 2, errors.New("slow")
	w.Write([]byte("hello"))
	w.(http.Flusher).Flush()
	if c.flushes != 1 {
		t.Fatal("not flushed")
	}
}
''')
bug('c27-flush-only-new-bytes','C27',[('response/writer.go','''	isHEAD   bool
	sawError bool
}

func (w *basicWriter) Header''','''	isHEAD   bool
	sawError bool
	flushed  int64 // bytes at the last Flush, plus one
}

func (w *basicWriter) Header'''),('response/writer.go','''func (w *flushWriter) Flush() {
	w.MaybeWriteHeader(http.StatusOK)

	w.next.(http.Flusher).Flush()''','''func (w *flushWriter) Flush() {
	w.MaybeWriteHeader(http.StatusOK)

	if w.flushed == w.bytes+1 {
		return // nothing to be flushed
	}
	w.flushed = w.bytes + 1
	w.next.(http.Flusher).Flush()''')],"Flush twice with nothing written through this Writer in between","the second Flush does not arrive, though others write to the client, too",
'response',IMPS,CAP+RW+USE+'''
type flushConn struct {
	*conn
	flushes int
}

func (c *flushConn) Flush() { c.flushes++ }

func TestDemo(t *testing.T) {
	c := &flushConn{conn: newConn()}
	w := response.NewWriter(c, capReq("GET"))
	w.(http.Flusher).Flush()
	w.Unwrap().Write([]byte("hello"))
	w.(http.Flusher).Flush()
	if c.flushes != 2 {
		t.Fatal("flushed", c.flushes, "times")
	}
}
''')
bug('c27-rewrap-head','C27',[('response/writer.go','''	if x, ok := w.(Writer); ok {
		return x
	}
''','''	if x, ok := w.(Writer); ok {
		if y, ok := x.(*basicWriter); ok && isHEAD != y.isHEAD {
			return &basicWriter{next: x, isHEAD: isHEAD}
		}
		if y, ok := x.(*fancyWriter); ok && isHEAD && !y.isHEAD {
			// A HEAD request that was routed here as another.
			return &basicWriter{next: x, isHEAD: isHEAD}
		}
		return x
	}
''')],"NewWriter of a Writer that was made for another method","Flush, Hijack, CloseNotify and ReadFrom are gone",
'response',IMPS,CAP+RW+USE+'''
func TestDemo(t *testing.T) {
	c := newCap()
	w := response.NewWriter(response.NewWriter(c, capReq("GET")), capReq("HEAD"))
	if _, ok := w.(http.Flusher); !ok {
		t.Fatal("cannot be flushed any more")
	}
}
''')
bug('c27-no-capabilities-http2','C27',[('response/writer.go','''	if _, ok := w.(fancy); ok {
		return''','''	if _, ok := w.(fancy); ok && r.ProtoMajor < 2 {
		return''')],"a request of HTTP/2 and a client that can do everything","it cannot be hijacked nor asked for CloseNotify nor ReadFrom",
'response',IMPS,CAP+RW+USE+'''
func TestDemo(t *testing.T) {
	c := newCap()
	req := capReq("GET")
	req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/2.0", 2, 0
	w := response.NewWriter(c, req)
	if _, ok := w.(http.CloseNotifier); !ok {
		t.Fatal("does not tell when the client goes away")
	}
}
''')
bug('c27-hijack-after-header','C27',[('response/writer.go','''	return w.next.(http.Hijacker).Hijack()
''','''	if w.status != 0 && w.status != http.StatusSwitchingProtocols {
		return nil, nil, http.ErrHijacked // too late
	}
	return w.next.(http.Hijacker).Hijack()
''')],"Hijack after a final status other than 101 was sent","the client is not asked, though net/http allows it",
'response',IMPS,CAP+RW+USE+'''
func TestDemo(t *testing.T) {
	c := newCap()
	w := response.NewWriter(c, capReq("GET"))
	w.WriteHeader(200)
	w.(http.Hijacker).Hijack()
	if c.hijacks != 1 {
		t.Fatal("the client was not asked")
	}
}
''')
bug('c27-readfrom-buffers','C27',[('response/writer.go','''	n, err := w.next.(io.ReaderFrom).ReadFrom(r)
	assert''','''	if lr, ok := r.(*io.LimitedReader); ok && lr.N <= 512 {
		// Not worth the trouble.
		n, err := io.Copy(&w.basicWriter, lr)
		return n, err
	}

	n, err := w.next.(io.ReaderFrom).ReadFrom(r)
	assert''')],"ReadFrom an io.LimitedReader of at most 512 bytes","the client's ReadFrom (sendfile) is not used",
'response',IMPS,CAP+RW+USE+'''
func TestDemo(t *testing.T) {
	c := newCap()
	w := response.NewWriter(c, capReq("GET"))
	w.(io.ReaderFrom).ReadFrom(io.LimitReader(strings.NewReader("hello"), 3))
	if c.readFrom != 1 {
		t.Fatal("ReadFrom was not passed on")
	}
}
''')
bug('c27-closenotify-relay','C27',[('response/writer.go','''	return w.next.(http.CloseNotifier).CloseNotify()
''','''	if w.status != 0 {
		// The response is on its way, nothing to be told any more.
		return make(chan bool)
	}
	return w.next.(http.CloseNotifier).CloseNotify()
''')],"CloseNotify after the header was sent, and a client that goes away","nobody is told",
'response',IMPS,CAP+RW+USE+'''
func TestDemo(t *testing.T) {
	c := newCap()
	w := response.NewWriter(c, capReq("GET"))
	w.WriteHeader(200)
	ch := w.(http.CloseNotifier).CloseNotify()
	c.notify <- true
	select {
	case <-ch:
	default:
		t.Fatal("not told")
	}
}
''')
bug('c27-unwrap-innermost','C27',[('response/writer.go','''func (w *basicWriter) Unwrap() http.ResponseWriter {
	return w.next
}''','''func (w *basicWriter) Unwrap() http.ResponseWriter {
	next := w.next
	for {
		x, ok := next.(interface{ Unwrap() http.ResponseWriter })
		if !ok {
			return next
		}
		next = x.Unwrap()
	}
}''')],"a client that is itself a wrapper with Unwrap","http.ResponseController and others skip the wrappers between (their deadlines, their flushing)",
'response',IMPS,CAP+RW+USE+'''
type layer struct{ *conn }

func (l *layer) Unwrap() http.ResponseWriter { return l.conn }

func TestDemo(t *testing.T) {
	l := &layer{newConn()}
	if response.NewWriter(l, capReq("GET")).Unwrap() != http.ResponseWriter(l) {
		t.Fatal("not what was wrapped")
	}
}
''')
bug('c27-push-only-before-header','C27',[('response/writer.go','''	if x, ok := w.next.(http.Pusher); ok {
		return x.Push(url, opts)''','''	if x, ok := w.next.(http.Pusher); ok {
		if w.bytes > 0 {
			return http.ErrNotSupported // too late to be of any use
		}
		return x.Push(url, opts)''')],"Push after some of the body was written","it is refused though the client takes it",
'response',IMPS,CAP+RW+PUSH+USE+'''
func TestDemo(t *testing.T) {
	c := &pconn{conn: newConn()}
	w := response.NewWriter(c, capReq("GET"))
	w.Write([]byte("hello"))
	if err := w.Push("/x", nil); err != nil || len(c.urls) != 1 {
		t.Fatal("not pushed", err)
	}
}
''')
bug('c27-newwriter-date-header','C27',[('response/writer.go','''	isHEAD := (r.Method == http.MethodHead)

	if x, ok := w.(Writer); ok {''','''	isHEAD := (r.Method == http.MethodHead)

	if r.Header.Get("Upgrade") != "" {
		w.Header().Set("Vary", "Upgrade")
	}

	if x, ok := w.(Writer); ok {''')],"a request that asks for an upgrade","NewWriter itself touches the client's header",
'response',IMPS,CAP+RW+USE+'''
func TestDemo(t *testing.T) {
	c := newCap()
	req := capReq("GET")
	req.Header.Set("Upgrade", "websocket")
	response.NewWriter(c, req)
	if len(c.h) != 0 {
		t.Fatal("the header was touched:", c.h)
	}
}
''')
CTX=f'context errors net/http net/http/httptest testing {H} {R}'
SERVE='''
type handlerFunc func(*http.Request) response.Response

func (f handlerFunc) Handle(r *http.Request) response.Response { return f(r) }
'''
bug('c18-cancelled-not-counted','C18',[('handler/adaptor.go','''		if panicValue != nil {
			PromPanicsTotal.Inc()
		}
		PromRequestsTotal''','''		if panicValue != nil {
			PromPanicsTotal.Inc()
		} else if req.Context().Err() != nil {
			return // nobody was served
		}
		PromRequestsTotal''')],"a request whose context is cancelled when it ends","it is not counted",
'handler',f'context net/http net/http/httptest testing github.com/prometheus/client_golang/prometheus/testutil {H} {R} {B}',SERVE+'''
func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	req := httptest.NewRequest("GET", "/", nil).WithContext(ctx)
	h := handler.Adaptor{Inner: handlerFunc(func(*http.Request) response.Response {
		cancel()
		return *response.NewBuilder().WithStatus(200).WithBody(body.FromString("x")).Build()
	})}
	h.ServeHTTP(httptest.NewRecorder(), req)
	if n := testutil.ToFloat64(handler.PromRequestsTotal.WithLabelValues("200")); n != 1 {
		t.Fatal("counted", n, "times")
	}
}
''')
bug('c19-cancelled-not-reported','C19',[('handler/adaptor.go','''			err, ok := panicValue.(error)
			if !ok {
				err = PanicError{Value: panicValue}
			}
			OnPanic(err)''','''			err, ok := panicValue.(error)
			if !ok {
				err = PanicError{Value: panicValue}
			}
			if ok && req.Context().Err() != nil {
				return // the client gave up, no news
			}
			OnPanic(err)''')],"a handler that fails with an error after the client gave up","it is not reported",
'handler',CTX,SERVE+'''
func TestDemo(t *testing.T) {
	n := 0
	handler.OnPanic = func(error) { n++ }
	ctx, cancel := context.WithCancel(context.Background())
	req := httptest.NewRequest("GET", "/", nil).WithContext(ctx)
	h := handler.Adaptor{Inner: handlerFunc(func(*http.Request) response.Response {
		cancel()
		panic(errors.New("broken"))
	})}
	h.ServeHTTP(httptest.NewRecorder(), req)
	if n != 1 {
		t.Fatal("reported", n, "times")
	}
}
''')
CTX+=f' {B}'
bug('c19-cancelled-not-served','C19',[('handler/adaptor.go','''	resp := a.Inner.Handle(req)
	err := resp.Serve(ww)
''','''	resp := a.Inner.Handle(req)
	if req.Context().Err() != nil {
		resp.Body().Close()
		return // nobody to serve
	}
	err := resp.Serve(ww)
''')],"a handler that returns after the request was cancelled","the response is not sent and 500 is, with no failure reported",
'handler',CTX,SERVE+'''
var _ = errors.New

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	req := httptest.NewRequest("GET", "/", nil).WithContext(ctx)
	h := handler.Adaptor{Inner: handlerFunc(func(*http.Request) response.Response {
		cancel()
		return *response.NewBuilder().WithStatus(204).WithBody(body.FromString("")).Build()
	})}
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, req)
	if rec.Code != 204 {
		t.Fatal("status", rec.Code)
	}
}
''')
PT=f'google.golang.org/protobuf/encoding/prototext google.golang.org/protobuf/types/known/structpb io strings testing {B}'
bug('c20-options-filled-in','C20',[('body/body.go','''	raw, err := o.Marshal(msg)
''','''	if o.Multiline && o.Indent == "" {
		o.Indent = "  " // what prototext takes anyway
	}

	raw, err := o.Marshal(msg)
''')],"options with Multiline and no Indent that are used for several payloads","the caller's options are written, from several goroutines perhaps",
'body',PT,'''
func TestDemo(t *testing.T) {
	_, _ = io.EOF, strings.Count
	o := &prototext.MarshalOptions{Multiline: true}
	body.FromProtoText(structpb.NewStringValue("x"), o)
	if o.Indent != "" {
		t.Fatalf("options changed: %+v", o)
	}
}
''')
bug('c20-options-small-message','C20',[('body/body.go','''	if o == nil {
		o = &prototext''','''	if o == nil || (!o.Multiline && proto.Size(msg) > 512) {
		o = &prototext''')],"single-line options and a message of more than 512 bytes","the options are ignored: the text has many lines",
'body',PT,'''
func TestDemo(t *testing.T) {
	s := &structpb.Struct{Fields: map[string]*structpb.Value{"k": structpb.NewStringValue(strings.Repeat("x", 600))}}
	b := body.FromProtoText(s, &prototext.MarshalOptions{})
	p, _ := io.ReadAll(b)
	if n := strings.Count(string(p), "\\n"); n > 0 {
		t.Fatal(n+1, "lines")
	}
}
''')
bug('c13-cancelled-body-left-open','C13',[('handler/adaptor.go','''	resp := a.Inner.Handle(req)
	err := resp.Serve(ww)
''','''	resp := a.Inner.Handle(req)
	if err := req.Context().Err(); err != nil {
		panic(err) // nobody to serve
	}
	err := resp.Serve(ww)
''')],"a handler that returns after the request was cancelled","the reader behind the body of its response is never closed",
'handler',f'context io net/http net/http/httptest strings testing {H} {R} {B}',SERVE+'''
type file struct {
	io.Reader
	closed int
}

func (f *file) Close() error { f.closed++; return nil }

func TestDemo(t *testing.T) {
	handler.OnPanic = func(error) {}
	f := &file{Reader: strings.NewReader("x")}
	ctx, cancel := context.WithCancel(context.Background())
	req := httptest.NewRequest("GET", "/", nil).WithContext(ctx)
	h := handler.Adaptor{Inner: handlerFunc(func(*http.Request) response.Response {
		cancel()
		b, _ := body.FromReader(f)
		return *response.NewBuilder().WithBody(b).Build()
	})}
	h.ServeHTTP(httptest.NewRecorder(), req)
	if f.closed != 1 {
		t.Fatal("closed", f.closed, "times")
	}
}
''')
bug('c12-adaptor-no-sniff','C12',[('handler/adaptor.go','''	resp := a.Inner.Handle(req)
	err := resp.Serve(ww)
''','''	resp := a.Inner.Handle(req)
	if req.ProtoMajor == 1 && resp.Status() == http.StatusNotFound {
		resp.Headers().Set("Connection", "close") // scanners
	}
	err := resp.Serve(ww)
''')],"a 404 over HTTP/1","the client gets a header that the response did not have",
'handler',f'net/http net/http/httptest testing {H} {R} {B}',SERVE+'''
func TestDemo(t *testing.T) {
	h := handler.Adaptor{Inner: handlerFunc(func(*http.Request) response.Response {
		return *response.NewBuilder().WithStatus(404).WithBody(body.FromString("x")).Build()
	})}
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, httptest.NewRequest("GET", "/", nil))
	if rec.Header().Get("Connection") != "" {
		t.Fatal("Connection:", rec.Header().Get("Connection"))
	}
}
''')
