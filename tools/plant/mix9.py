from lib import bug
from body1 import STREAM, AT, IM
from resp1 import RW, PUSH, FANCY, SRC, AD, P, R, B, H
import lib
lib.BUGS.clear()

ENDLESS='''
// counting is a long stream that knows how much of it has been read.
type counting struct{ n, most int64 }

func (c *counting) Read(p []byte) (int, error) {
	if c.n >= c.most {
		return 0, io.EOF
	}
	if int64(len(p)) > c.most-c.n {
		p = p[:c.most-c.n]
	}
	c.n += int64(len(p))
	return len(p), nil
}

func heap() int64 {
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}
'''

bug('c24-laggard-closed-keeps-buffer','C24',[('body/buffered.go','''			common.refcnt--
			if common.refcnt <= 0 {
				common.updateStart()
			}
		}
		return nil
''','''			common.refcnt--
		}
		return nil
''')],"the copy that is furthest behind is closed and the others read on","what it had not read is never given up, nor is anything that is read later: memory grows with the stream",
'body',f'io runtime testing {B}',ENDLESS+'''
func TestDemo(t *testing.T) {
	a, _ := body.FromReader(&counting{most: 64 << 20})
	b, _ := a.Copy()
	p := make([]byte, 1<<16)
	b.Read(p)
	a.Close()
	before := heap()
	for {
		if _, err := b.Read(p); err != nil {
			break
		}
	}
	if d := heap() - before; d > 32<<20 {
		t.Fatalf("%d bytes kept", d)
	}
	runtime.KeepAlive(b)
}
''')

bug('c24-copy-counted-as-slowest','C24',[('body/buffered.go','''	common.bodies[body] = struct{}{}
	if body.offset == common.start {
		common.refcnt++
	}
''','''	common.bodies[body] = struct{}{}
	common.refcnt++
''')],"a copy is made of a body that is not the slowest","the count of slowest copies never falls to zero again: the buffer grows with the stream",
'body',f'io runtime testing {B}',ENDLESS+'''
func TestDemo(t *testing.T) {
	a, _ := body.FromReader(&counting{most: 64 << 20})
	b, _ := a.Copy()
	p := make([]byte, 1<<16)
	b.Read(p[:10])
	c, _ := b.Copy()
	a.Close()
	before := heap()
	for {
		b.Read(p)
		if _, err := c.Read(p); err != nil {
			break
		}
	}
	if d := heap() - before; d > 32<<20 {
		t.Fatalf("%d bytes kept", d)
	}
	runtime.KeepAlive(b)
}
''')

bug('c24-serve-from-copy','C24',[('response/response.go','''	_, err = io.Copy(w, resp.body)
	return err
''','''	b, err := resp.body.Copy()
	if err != nil {
		return err
	}
	defer b.Close()

	_, err = io.Copy(w, b)
	return err
''')],"a long stream is served","the Response's own body stays at the beginning, so all that is served stays in memory until the end",
'response',f'io net/http runtime testing {B} {R}',ENDLESS+'''
type sink struct {
	h    http.Header
	n    int64
	most int64
}

func (s *sink) Header() http.Header { return s.h }
func (s *sink) WriteHeader(int)     {}
func (s *sink) Write(p []byte) (int, error) {
	if s.n < 40<<20 && s.n+int64(len(p)) >= 40<<20 {
		s.most = heap()
	}
	s.n += int64(len(p))
	return len(p), nil
}

func TestDemo(t *testing.T) {
	b, _ := body.FromReader(&counting{most: 48 << 20})
	r := response.NewBuilder().WithBody(b).Build()
	before := heap()
	s := &sink{h: http.Header{}}
	r.Serve(s)
	if d := s.most - before; d > 24<<20 {
		t.Fatalf("%d bytes kept", d)
	}
}
''')

bug('c24-adaptive-block','C24',[('body/buffered.go','''		numToRead = int64(uint64(numToRead+blockSize-1) &^ uint64(blockSize-1))
''','''		if common.block == 0 {
			common.block = blockSize
		}
		numToRead = (numToRead + common.block - 1) / common.block * common.block
		common.block *= 2
'''),('body/buffered.go','''	start  int64
	refcnt int32
''','''	start  int64
	block  int64
	refcnt int32
''')],"a stream is read for long","every block is twice the size of the one before: most of the stream is read ahead of what anyone asked for, into memory",
'body',f'io runtime testing {B}',ENDLESS+'''
func TestDemo(t *testing.T) {
	c := &counting{most: 1 << 30}
	a, _ := body.FromReader(c)
	p := make([]byte, 1<<16)
	at := int64(0)
	for i := 0; i < 300; i++ {
		n, _ := io.ReadFull(a, p)
		at += int64(n)
		if c.n-at > 8<<20 {
			t.Fatalf("%d bytes read ahead", c.n-at)
		}
	}
	runtime.KeepAlive(heap)
}
''')

bug('c24-drain-when-client-gone','C24',[('response/response.go','''	_, err = io.Copy(w, resp.body)
	return err
''','''	n, err := io.Copy(w, resp.body)
	if err != nil && n > 0 {
		// Let the producer finish, so that it is not left blocked.
		_, _ = io.Copy(io.Discard, resp.body)
	}
	return err
''')],"the client goes away in the middle of a long stream","the rest of the stream is read although nobody is there to take it",
'response',f'errors io net/http runtime testing {B} {R}',ENDLESS+'''
type sink struct {
	h http.Header
	n int64
}

func (s *sink) Header() http.Header { return s.h }
func (s *sink) WriteHeader(int)     {}
func (s *sink) Write(p []byte) (int, error) {
	s.n += int64(len(p))
	if s.n > 1<<20 {
		return 0, errors.New("gone")
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	c := &counting{most: 48 << 20}
	b, _ := body.FromReader(c)
	r := response.NewBuilder().WithBody(b).Build()
	r.Serve(&sink{h: http.Header{}})
	if c.n > 8<<20 {
		t.Fatalf("%d bytes were read", c.n)
	}
	_ = runtime.NumGoroutine()
	_ = heap
}
''')

bug('c18-same-request-once','C18',[('handler/adaptor.go','''	ww := response.NewWriter(w, req)
	startTime := time.Now()

	defer func() {
''','''	ww := response.NewWriter(w, req)
	startTime := time.Now()
	_, nested := inFlight.LoadOrStore(req, true)

	defer func() {
		if !nested {
			inFlight.Delete(req)
		}
'''),('handler/adaptor.go','''		PromRequestsTotal.With(labels).Inc()
''','''		if !nested {
			PromRequestsTotal.With(labels).Inc()
		}
'''),('handler/adaptor.go','''type Adaptor struct {
''','''// inFlight has the requests being served: one that an Adaptor passes on to
// another Adaptor is only counted by the outer one.
var inFlight sync.Map

type Adaptor struct {
'''),('handler/adaptor.go','''	"strconv"
''','''	"strconv"
	"sync"
''')],"the same *http.Request is served twice at a time (a handler that asks another Adaptor, two servers that share it)","only one of them is counted",
'handler',f'net/http net/http/httptest testing {P} {H} {R} github.com/prometheus/client_model/go'.replace('github.com/prometheus/client_model/go',B),'''
func count(t *testing.T) float64 {
	ch := make(chan prometheus.Metric, 100)
	handler.PromRequestsTotal.Collect(ch)
	close(ch)
	n := 0
	for range ch {
		n++
	}
	return float64(n)
}

type hf func(*http.Request) response.Response

func (f hf) Handle(r *http.Request) response.Response { return f(r) }

func TestDemo(t *testing.T) {
	ok := func(code int) response.Response {
		return *response.NewBuilder().WithStatus(code).WithBody(body.Empty()).Build()
	}
	inner := handler.Adaptor{Inner: hf(func(r *http.Request) response.Response { return ok(271) })}
	outer := handler.Adaptor{Inner: hf(func(r *http.Request) response.Response {
		rec := httptest.NewRecorder()
		inner.ServeHTTP(rec, r)
		return ok(272)
	})}
	before := count(t)
	outer.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
	if d := count(t) - before; d != 2 {
		t.Fatalf("%v of 2 codes counted", d)
	}
}
''')

bug('c12-pipelined-copy','C12',[('response/response.go','''	_, err = io.Copy(w, resp.body)
	return err
''','''	_, err = copyPipelined(w, resp.body)
	return err
'''),('response/response.go','''// Serve serves the Response''','''// copyPipelined is io.Copy that reads the next piece while one is being sent.
func copyPipelined(w io.Writer, r io.Reader) (int64, error) {
	type piece struct {
		p   []byte
		err error
	}
	var bufs [2][32768]byte
	ch := make(chan piece, 1)
	stop := make(chan struct{})
	done := make(chan struct{})
	defer func() {
		close(stop)
		<-done
	}()
	go func() {
		defer close(done)
		defer close(ch)
		for i := 0; ; i++ {
			buf := bufs[i%2][:]
			n, err := r.Read(buf)
			select {
			case ch <- piece{buf[:n], err}:
			case <-stop:
				return
			}
			if err != nil {
				return
			}
		}
	}()
	total := int64(0)
	for x := range ch {
		if len(x.p) > 0 {
			n, err := w.Write(x.p)
			total += int64(n)
			if err != nil {
				return total, err
			}
		}
		if x.err == io.EOF {
			break
		}
		if x.err != nil {
			return total, x.err
		}
	}
	return total, nil
}

// Serve serves the Response''')],"a body of more than two pieces and a client slower than the source","two buffers are one too few: a piece waiting in the channel and the one being sent are overwritten by a third",
'response',f'io net/http testing time {B} {R}','''
type slow struct {
	h   http.Header
	got []byte
}

func (s *slow) Header() http.Header { return s.h }
func (s *slow) WriteHeader(int)     {}
func (s *slow) Write(p []byte) (int, error) {
	time.Sleep(20 * time.Millisecond)
	s.got = append(s.got, p...)
	return len(p), nil
}

type src struct{ n int }

func (s *src) Read(p []byte) (int, error) {
	if s.n == 10 {
		return 0, io.EOF
	}
	for i := range p {
		p[i] = byte(s.n)
	}
	s.n++
	return len(p), nil
}

func TestDemo(t *testing.T) {
	b, _ := body.FromReader(&src{})
	want := []byte{}
	c, _ := b.Copy()
	want, _ = io.ReadAll(c)
	c.Close()
	r := response.NewBuilder().WithBody(b).Build()
	s := &slow{h: http.Header{}}
	r.Serve(s)
	if string(s.got) != string(want) {
		t.Fatal("wrong bytes")
	}
}
''')

bug('c01-prefetch-after-eof','C03',[('body/readerat.go','''		if err == io.EOF && offset < common.length {
			common.length = offset
		}
	}

	return n, err
}

func (body *readerAtBody) Close''','''		if errors.Is(err, io.EOF) && offset < common.length {
			common.length = offset
			err = io.EOF
			body.err = err
		}
	}

	return n, err
}

func (body *readerAtBody) Close'''),('body/readerat.go','''import (
	"fmt"
''','''import (
	"errors"
	"fmt"
''')],"a ReaderAt whose failure wraps io.EOF (a lost connection, say)","the failure is taken for the end of the data, for this copy and all others",
'body',f'fmt io strings testing {B}','''
type lossy struct{ *strings.Reader }

func (l lossy) ReadAt(p []byte, off int64) (int, error) {
	return 0, fmt.Errorf("connection lost: %w", io.EOF)
}

func TestDemo(t *testing.T) {
	b, _ := body.FromReader(lossy{strings.NewReader("hello")})
	p := make([]byte, 3)
	if _, err := b.Read(p); err == io.EOF || err == nil {
		t.Fatal(err)
	}
}
''')

bug('c07-lazy-position-shared','C02',[('body/seeker.go','''	_, err := common.s.Seek(offset, io.SeekStart)
	if err != nil {
		return 0, err
	}

	x := len(p)
	n, err := common.s.Read(p)
	assert.Assertf(n >= 0, "Read must return %d >= 0", n)
	assert.Assertf(n <= x, "Read must return %d <= %d", n, x)
	return n, err
''','''	if common.at != offset {
		_, err := common.s.Seek(offset, io.SeekStart)
		if err != nil {
			return 0, err
		}
		common.at = offset
	}

	x := len(p)
	n, err := common.s.Read(p)
	assert.Assertf(n >= 0, "Read must return %d >= 0", n)
	assert.Assertf(n <= x, "Read must return %d <= %d", n, x)
	common.at += int64(n)
	return n, err
'''),('body/seeker.go','''	length int64
	refcnt int32
}
''','''	length int64
	at     int64 // where s is
	refcnt int32
}
''')],"a ReadAt that the source serves in several short reads, followed by a read at the place where its first one ended (or a Reader given with its position not at 0)","the reads that follow the first are not counted in the remembered position: the next read continues from the wrong place",
'body',f'io strings testing {B}','''
type short struct{ *strings.Reader }

func (s short) Read(p []byte) (int, error) {
	if len(p) > 2 {
		p = p[:2]
	}
	return s.Reader.Read(p)
}

type seeker struct{ s short }

func (s seeker) Read(p []byte) (int, error)                { return s.s.Read(p) }
func (s seeker) Seek(o int64, w int) (int64, error) { return s.s.Seek(o, w) }

func TestDemo(t *testing.T) {
	b, _ := body.FromReader(seeker{short{strings.NewReader("abcdefghij")}})
	p := make([]byte, 6)
	if n, _ := b.(io.ReaderAt).ReadAt(p, 0); n != 6 {
		t.Fatal(n)
	}
	b.(io.Seeker).Seek(2, io.SeekStart)
	n, _ := b.Read(p)
	if string(p[:n]) != "cd" {
		t.Fatal(string(p[:n]))
	}
}
''')

bug('c16-builder-copy-lazy-body','C16',[('response/builder.go','''	body2, err := copyBody(builder.body)
	if err != nil {
		return nil, err
	}

	hdrs2 := copyHeaders(builder.hdrs)
''','''	body2 := builder.body
	if body2 != nil && body2.BytesRemaining() != 0 {
		var err error
		body2, err = copyBody(body2)
		if err != nil {
			return nil, err
		}
	}

	hdrs2 := copyHeaders(builder.hdrs)
''')],"a Builder whose Body happens to have nothing left is copied, and the original is built and served (or its Body rewound)","both have the same Body: closing one closes the other",
'response',f'io io/fs net/http testing {B} {R}','''
func TestDemo(t *testing.T) {
	b := body.FromString("hello")
	io.Copy(io.Discard, b)
	a := response.NewBuilder().WithBody(b)
	c, _ := a.Copy()
	a.Body().Close()
	if _, err := c.Body().Read(make([]byte, 1)); err == fs.ErrClosed {
		t.Fatal("the copy's body was closed")
	}
	_ = http.StatusOK
}
''')

bug('c13-close-once-per-response','C13',[('response/response.go','''		err2 := resp.body.Close()
		if err == nil {
			err = err2
		}
''','''		b := resp.body
		resp.body = nil
		if b == body.Empty() {
			return
		}
		err2 := b.Close()
		if err == nil {
			err = err2
		}
''')],"x","x",'response',f'testing','''
func TestDemo(t *testing.T) { t.Log("x") }
''') if False else None

bug('c17-length-at-withbody','C17',[('response/builder.go','''	assert.NotNil(&b)
	builder.body = b
	return builder
''','''	assert.NotNil(&b)
	builder.body = b
	builder.length = b.BytesRemaining()
	return builder
'''),('response/builder.go','''	bodyLen := body.BytesRemaining()
	if bodyLen >= 0 {
''','''	bodyLen := body.BytesRemaining()
	if bodyLen < 0 {
		bodyLen = builder.length // what was known when the Body was given
	}
	if bodyLen > 0 || bodyLen == 0 && body.BytesRemaining() == 0 {
'''),('response/builder.go','''	hdrs http.Header
	body body.Body
	err  error
}
''','''	hdrs http.Header
	body body.Body
	err  error

	length int64
}
''')],"a Builder that is used again: a Body of known length was given first, and one of unknown length comes without WithBody (a page generator's)","the response has the Content-Length of another Body",
'response',f'io net/http strings testing {B} {R}','''
type gen struct{}

func (gen) GenerateRedirectPage(code int, l string) (http.Header, body.Body) {
	b, _ := body.FromReader(struct{ io.Reader }{strings.NewReader("a longer page")})
	return http.Header{}, b
}
func (gen) GenerateErrorPage(code int, err error) (http.Header, body.Body) {
	return gen{}.GenerateRedirectPage(code, "")
}

func TestDemo(t *testing.T) {
	r := response.NewBuilder().WithPageGenerator(gen{}).WithBody(body.FromString("abc")).RedirectPage(302, "/x").Build()
	if v := r.Headers()["Content-Length"]; v != nil {
		t.Fatal(v)
	}
}
''')

bug('c20-shared-encoder-buffer-panic','C20',[('body/body.go','''	buf := bufferpool.Get()
	defer bufferpool.Put(buf)

	e := json.NewEncoder(buf)
''','''	buf := spare.Swap(nil)
	if buf == nil {
		buf = bufferpool.Get()
	}
	defer func() {
		if spare.CompareAndSwap(nil, buf) {
			return
		}
		bufferpool.Put(buf)
	}()
	buf.Reset()

	e := json.NewEncoder(buf)
'''),('body/body.go','''	src := buf.Bytes()
	var dst []byte
	if isPretty {''','''	src := buf.Bytes()
	var dst []byte
	if buf.Cap()-len(src) < len(src)/8 {
		// Nearly full: it would only grow on its next use; keep it as it is.
		dst = src[:len(src):len(src)]
		buf = bufferpool.Get()
	} else if isPretty {''')],"x","x",'body','testing','''
func TestDemo(t *testing.T) {}
''') if False else None
