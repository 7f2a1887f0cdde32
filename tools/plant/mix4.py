from lib import bug, BUGS
import resp1, body1
from resp1 import RW, PUSH, FANCY, SRC, R, B, H, AD, P
from body1 import STREAM, AT
BUGS.clear()
bug('c01-readerat-last-read-cache','C01',[('body/readerat.go','''	length int64
	refcnt int32
}

func (common *readerAtCommon) ref() {''','''	length int64
	refcnt int32

	// The last small read, which copies tend to repeat.
	last    []byte
	lastOff int64
}

func (common *readerAtCommon) ref() {'''),('body/readerat.go','''	x := len(p)
	n, err := common.at.ReadAt(p, offset)
''','''	x := len(p)
	if i := offset - common.lastOff; i >= 0 && x > 0 && i+int64(x) <= int64(len(common.last)) {
		return copy(p, common.last[i:]), nil
	}
	n, err := common.at.ReadAt(p, offset)
	if x <= 512 {
		common.last = append(common.last[:0], p...)
		common.lastOff = offset
	}
''')],"a small positioned read that fails or comes short, repeated through a copy or after a Seek","bytes that the source never delivered are served from the cache",
'body',f'errors io testing {B}','''
type at struct {
	data  string
	fails int
}

func (a *at) Read(p []byte) (int, error) { panic("not positioned") }
func (a *at) ReadAt(p []byte, off int64) (int, error) {
	if a.fails > 0 {
		a.fails--
		return 0, errors.New("try again")
	}
	n := copy(p, a.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func TestDemo(t *testing.T) {
	b, err := body.FromReaderAndLength(&at{"hello world", 1}, 11)
	if err != nil {
		t.Fatal(err)
	}
	p := make([]byte, 4)
	if _, err := b.Read(p); err == nil {
		t.Fatal("no error")
	}
	b.(io.Seeker).Seek(0, io.SeekStart)
	n, err := b.Read(p)
	if string(p[:n]) != "hell" || err != nil {
		t.Fatalf("%q %v", p[:n], err)
	}
}
''')
bug('c02-seeker-reads-on','C02',[('body/seeker.go','''	_, err := common.s.Seek(offset, io.SeekStart)
	if err != nil {
		return 0, err
	}
''','''	if offset != common.at {
		_, err := common.s.Seek(offset, io.SeekStart)
		if err != nil {
			return 0, err
		}
		common.at = offset
	}
'''),('body/seeker.go','''	assert.Assertf(n <= x, "Read must return %d <= %d", n, x)
	return n, err
}

// readFullAt''','''	assert.Assertf(n <= x, "Read must return %d <= %d", n, x)
	if err == nil {
		common.at += int64(n)
	}
	return n, err
}

// readFullAt'''),('body/seeker.go','''	length int64
	refcnt int32
''','''	at     int64 // position of s, to save a Seek per Read
	length int64
	refcnt int32
''')],"ReadAt with short reads (or a failing read that delivered bytes) on one copy and a sequential Read of another","the other copy reads on from the wrong place",
'body','','') if False else None
bug('c05-whence-before-closed','C05',[('body/readerat.go','''	if body.closed {
		return -1, fs.ErrClosed
	}

	common := body.common
	length := common.BytesRemaining()

	switch whence {''','''	if whence < io.SeekStart || whence > io.SeekEnd {
		return -1, UnknownWhenceSeekError{whence}
	}

	if body.closed {
		return -1, fs.ErrClosed
	}

	common := body.common
	length := common.BytesRemaining()

	switch whence {''')],"Seek with an unknown whence on a closed Body","the error is not fs.ErrClosed",
'body',f'errors io io/fs strings testing {B}','''
func TestDemo(t *testing.T) {
	b, err := body.FromReader(strings.NewReader("hello"))
	if err != nil {
		t.Fatal(err)
	}
	b.Close()
	if _, err := b.(io.Seeker).Seek(0, 7); !errors.Is(err, fs.ErrClosed) {
		t.Fatal(err)
	}
}
''')
bug('c05-empty-close-twice','C05',[('body/empty.go','''	if body.closed {
		return fs.ErrClosed
	}

	body.closed = true
	return nil''','''	body.closed = true
	return nil''')],"a second Close of an empty Body","it succeeds",
'body',f'testing {B}','''
func TestDemo(t *testing.T) {
	b := body.Empty()
	b.Close()
	if b.Close() == nil {
		t.Fatal("no error")
	}
}
''')
bug('c05-copy-of-closed-is-empty','C05',[('body/buffered.go','''	if body.closed {
		return closedSingleton, nil
	}
''','''	if body.closed {
		return Empty(), nil
	}
''')],"Copy of a closed stream Body","the copy is open",
'body',f'bytes io testing {B}','''
func TestDemo(t *testing.T) {
	b, err := body.FromReader(io.MultiReader(bytes.NewReader([]byte("x"))))
	if err != nil {
		t.Fatal(err)
	}
	b.Close()
	c, err := b.Copy()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := c.Read(make([]byte, 1)); err == io.EOF {
		t.Fatal("open")
	}
}
''')
bug('c12-refused-push-ends-pushes','C12',[('response/response.go','''			err := x.Push(url, &http.PushOptions{})
			if err != nil && !errors.Is(err, http.ErrNotSupported) {
				return err
			}
''','''			err := x.Push(url, &http.PushOptions{})
			if errors.Is(err, http.ErrNotSupported) {
				break
			}
			if err != nil {
				return err
			}
''')],"several pushes of which an early one is refused as not supported","the later pushes are not made",
'response',f'net/http testing {B} {R}',RW+PUSH+'''
type second struct{ *pconn }

func (s second) Push(u string, o *http.PushOptions) error {
	s.pconn.Push(u, o)
	if u == "/a" {
		return http.ErrNotSupported
	}
	return nil
}

func TestDemo(t *testing.T) {
	c := &pconn{conn: newConn()}
	r := response.NewBuilder().WithHeader("Push", "/a", true).WithHeader("Push", "/b", true).WithBody(body.FromString("x")).Build()
	if err := r.Serve(second{c}); err != nil {
		t.Fatal(err)
	}
	if len(c.urls) != 2 {
		t.Fatal(c.urls)
	}
}
''')
bug('c12-error-after-last-byte','C12',[('response/response.go','''	_, err = io.Copy(w, resp.body)
	return err
''','''	length := resp.body.BytesRemaining()
	n, err := io.Copy(w, resp.body)
	if err != nil && length >= 0 && n == length {
		// Everything was delivered.
		err = nil
	}
	return err
''')],"a source that returns an error other than io.EOF together with its last bytes","Serve hides the error of the body",
'response',f'errors io net/http testing {B} {R}',RW+'''
type last struct{ sent bool }

func (s *last) Read(p []byte) (int, error) {
	return copy(p, "hello"), errors.New("checksum mismatch")
}

func TestDemo(t *testing.T) {
	b, err := body.FromReaderAndLength(&last{}, 5)
	if err != nil {
		t.Fatal(err)
	}
	r := response.NewBuilder().WithBody(b).Build()
	if err := r.Serve(newConn()); err == nil {
		t.Fatal("no error")
	}
	_ = io.EOF
}
''')
bug('c13-close-only-when-known','C13',[('response/response.go','''		err2 := resp.body.Close()
''','''		if err != nil && resp.body.BytesRemaining() < 0 {
			// A stream that broke off; its owner cleans up.
			return
		}
		err2 := resp.body.Close()
''')],"a client that disconnects while a stream of unknown length is served","the body is never closed",
'response',f'errors net/http io testing {B} {R}',RW+SRC+'''
func TestDemo(t *testing.T) {
	s := &src{data: make([]byte, 200000)}
	b, err := body.FromReader(s)
	if err != nil {
		t.Fatal(err)
	}
	c := newConn()
	c.limit, c.err = 10, errors.New("gone")
	r := response.NewBuilder().WithBody(b).Build()
	if err := r.Serve(c); err == nil {
		t.Fatal("no error")
	}
	if s.closed != 1 {
		t.Fatal(s.closed)
	}
	_ = io.EOF
}
''')
bug('c15-fancy-flush-undecided','C15',[('response/writer.go','''func (w *fancyWriter) Flush() {
	w.MaybeWriteHeader(http.StatusOK)
''','''func (w *fancyWriter) Flush() {
	if w.bytes > 0 {
		w.MaybeWriteHeader(http.StatusOK)
	}
''')],"Flush before anything else on a connection with all interfaces","the status is decided without the Writer's knowledge, and a later one is lost",
'response',f'bufio io net net/http testing {R}',RW+FANCY+'''
func TestDemo(t *testing.T) {
	c := &fconn{newConn()}
	w := response.NewWriter(c, &http.Request{Method: "GET"})
	w.(http.Flusher).Flush()
	if w.Status() != c.code {
		t.Fatal(w.Status(), c.code)
	}
	_ = io.EOF
	_ = net.ErrClosed
	_ = bufio.ErrBufferFull
}
''')
bug('c18-status-from-response','C18',[('handler/adaptor.go','''	resp := a.Inner.Handle(req)
	err := resp.Serve(ww)
''','''	resp := a.Inner.Handle(req)
	want = resp.Status()
	err := resp.Serve(ww)
'''),('handler/adaptor.go','''		code := strconv.Itoa(ww.Status())
''','''		code := strconv.Itoa(ww.Status())
		if want != 0 {
			code = strconv.Itoa(want)
		}
'''),('handler/adaptor.go','''	startTime := time.Now()
''','''	startTime := time.Now()
	want := 0
''')],"a response whose push fails: the client gets 500","the request is counted under the status the handler wanted",
'handler',f'errors net/http net/http/httptest testing {B} {R} {H} {P}',AD+RW+PUSH+'''
func TestDemo(t *testing.T) {
	h := handler.Adaptor{Inner: handler.HandlerFunc(func(r *http.Request) response.Response {
		return *response.NewBuilder().WithStatus(204).WithBody(body.FromString("")).WithHeader("Push", "/a.css", true).Build()
	})}
	c := &pconn{conn: newConn(), perr: errors.New("no")}
	before := value(t, "http_requests_total", "500")
	h.ServeHTTP(c, httptest.NewRequest("GET", "/", nil))
	if d := value(t, "http_requests_total", "500") - before; d != 1 {
		t.Fatal(d, c.code)
	}
}
''')
bug('c18-hist-skips-bodiless','C18',[('handler/adaptor.go','''		PromSendBytesHist.Observe(sendBytes)
''','''		if sendBytes > 0 || req.Method != http.MethodHead {
			PromSendBytesHist.Observe(sendBytes)
		}
''')],"a HEAD request","no observation in the size histogram",
'handler',f'net/http net/http/httptest testing {B} {R} {H} github.com/prometheus/client_golang/prometheus','''
func count(t *testing.T, name string) uint64 {
	fs, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		t.Fatal(err)
	}
	for _, f := range fs {
		if f.GetName() == name {
			return f.GetMetric()[0].GetHistogram().GetSampleCount()
		}
	}
	return 0
}

func TestDemo(t *testing.T) {
	h := handler.Adaptor{Inner: handler.HandlerFunc(func(r *http.Request) response.Response {
		return *response.NewBuilder().WithBody(body.FromString("hello")).Build()
	})}
	before := count(t, "http_send_bytes_hist")
	h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("HEAD", "/", nil))
	if d := count(t, "http_send_bytes_hist") - before; d != 1 {
		t.Fatal(d)
	}
}
''')
bug('c18-panic-not-counted-after-200','C18',[('handler/adaptor.go','''		if panicValue != nil {
			PromPanicsTotal.Inc()
		}
''','''		if panicValue != nil && (ww.BytesWritten() == 0 || ww.SawError()) {
			PromPanicsTotal.Inc()
		}
''')],"a body that fails after some of its bytes were sent","http_panics_total is not increased",
'handler',f'errors io net/http net/http/httptest testing {B} {R} {H} {P}',AD+SRC+'''
func TestDemo(t *testing.T) {
	h := handler.Adaptor{Inner: handler.HandlerFunc(func(r *http.Request) response.Response {
		b, _ := body.FromReader(&src{data: []byte("hello"), err: errors.New("disk")})
		return *response.NewBuilder().WithBody(b).Build()
	})}
	before := value(t, "http_panics_total", "")
	h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
	if d := value(t, "http_panics_total", "") - before; d != 1 {
		t.Fatal(d)
	}
	_ = io.EOF
}
''')
bug('c18-request-state-on-adaptor','C18',[('handler/adaptor.go','''	startTime := time.Now()
''','''	ww := response.NewWriter(w, req)
	lastMu.Lock()
	lastWriter, lastStart = ww, time.Now()
	lastMu.Unlock()
'''),('handler/adaptor.go','''	ww := response.NewWriter(w, req)
	startTime''','''	startTime''') ,('x','y','z')],"x","x",'handler','','') if False else None
bug('c19-timeout-not-reported','C19',[('handler/adaptor.go','''			OnPanic(err)
''','''			if x, ok := err.(interface{ Timeout() bool }); ok && x.Timeout() {
				// The peer was too slow: not our failure.
				return
			}
			OnPanic(err)
''')],"a serving error that is a timeout, such as a source that fails with os.ErrDeadlineExceeded","OnPanic is not called",
'handler',f'io net/http net/http/httptest os testing {B} {R} {H}',SRC+'''
func TestDemo(t *testing.T) {
	n := 0
	handler.OnPanic = func(error) { n++ }
	h := handler.Adaptor{Inner: handler.HandlerFunc(func(r *http.Request) response.Response {
		b, _ := body.FromReader(&src{data: []byte("hello"), err: os.ErrDeadlineExceeded})
		return *response.NewBuilder().WithBody(b).Build()
	})}
	h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
	if n != 1 {
		t.Fatal(n)
	}
	_ = io.EOF
}
''')
bug('c19-repeated-error-once','C19',[('handler/adaptor.go','''			OnPanic(err)
''','''			if s := err.Error(); s != lastReport.Swap(s) {
				OnPanic(err)
			}
'''),('handler/adaptor.go','''type Adaptor struct {
''','''type reported struct{ v atomic.Value }

func (r *reported) Swap(s string) string {
	old, _ := r.v.Load().(string)
	r.v.Store(s)
	return old
}

// lastReport saves us from a flood of equal reports.
var lastReport reported

type Adaptor struct {
'''),('handler/adaptor.go','''	"strconv"
	"time"
''','''	"strconv"
	"sync/atomic"
	"time"
''')],"two requests in a row that fail with the same message","OnPanic is called for the first only",
'handler',f'net/http net/http/httptest testing {R} {H}','''
func TestDemo(t *testing.T) {
	n := 0
	handler.OnPanic = func(error) { n++ }
	h := handler.Adaptor{Inner: handler.HandlerFunc(func(r *http.Request) response.Response { panic("same") })}
	h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
	h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
	if n != 2 {
		t.Fatal(n)
	}
}
''')
bug('c19-wrapped-error-panic','C19',[('handler/adaptor.go','''			err, ok := panicValue.(error)
			if !ok {
				err = PanicError{Value: panicValue}
			}
''','''			var err error = PanicError{Value: panicValue}
			if x, ok := panicValue.(interface{ Error() string }); ok && x.Error() != "" {
				err, _ = panicValue.(error)
			}
''')],"a handler that panics with an error whose text is empty, or a nil pointer error","the error arrives wrapped, or the hook panics",
'handler','','') if False else None
bug('c19-late-500','C19',[('handler/adaptor.go','''		panicValue := recover()
		ww.MaybeWriteHeader(http.StatusInternalServerError)
''','''		panicValue := recover()
		if panicValue != nil && ww.Status() == 0 {
			http.Error(ww, http.StatusText(http.StatusInternalServerError), http.StatusInternalServerError)
		}
		ww.MaybeWriteHeader(http.StatusInternalServerError)
''')],"a handler that panics","the client's 500 has a body",
'handler',f'net/http net/http/httptest testing {R} {H}','''
func TestDemo(t *testing.T) {
	h := handler.Adaptor{Inner: handler.HandlerFunc(func(r *http.Request) response.Response { panic("x") })}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest("GET", "/", nil))
	if w.Code != 500 || w.Body.Len() != 0 {
		t.Fatal(w.Code, w.Body.Len())
	}
}
''')
