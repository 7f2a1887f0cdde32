from lib import bug
from body1 import STREAM, AT, IM
from resp1 import RW, PUSH, FANCY, SRC, AD, P, R, B, H
import lib
lib.BUGS.clear()
PKG='github.com/chronos-tachyon/morehttp/body'

bug('c10-copies-share-lock','C10',[('body/bytes.go','''	mu     sync.Mutex
	data   []byte''','''	mu     *sync.Mutex
	data   []byte'''),('body/bytes.go','''	dupe := &bytesBody{
''','''	dupe := &bytesBody{
		mu:     body.mu,
'''),('body/body.go','''	return &bytesBody{data: data}
''','''	return &bytesBody{mu: new(sync.Mutex), data: data}
'''),('body/body.go','''	return &bytesBody{data: raw}
''','''	return &bytesBody{mu: new(sync.Mutex), data: raw}
'''),('body/body.go','''	"io/fs"
''','''	"io/fs"
	"sync"
''')],"a writer that, while WriteTo writes to it, uses a copy of the body","the copy's lock is held: the writer waits for ever",
'body',f'testing time {PKG}','''
type comparing struct {
	other body.Body
	same  bool
}

func (c *comparing) Write(p []byte) (int, error) {
	q := make([]byte, len(p))
	n, _ := c.other.Read(q)
	c.same = string(q[:n]) == string(p)
	return len(p), nil
}

func TestDemo(t *testing.T) {
	a := body.FromString("hello, world")
	b, _ := a.Copy()
	c := &comparing{other: b}
	done := make(chan bool)
	go func() {
		a.(interface {
			WriteTo(w interface{ Write([]byte) (int, error) }) (int64, error)
		}).WriteTo(c)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("deadlock")
	}
}
'''.replace('''		a.(interface {
			WriteTo(w interface{ Write([]byte) (int, error) }) (int64, error)
		}).WriteTo(c)
''','''		a.(io.WriterTo).WriteTo(c)
''').replace('package','package'))
lib.BUGS[-1]['imports'].insert(0,'io')

bug('c10-package-wide-scratch','C10',[('body/buffered.go','''		bufNew := make([]byte, bufCap)
		copy(bufNew[0:bufLen], common.bytes[0:bufLen])
		common.bytes = bufNew[0:bufLen]

		for numToRead > 0 {
			i := bufLen
			x := numToRead
			j := i + x

			n, err := common.r.Read(bufNew[i:j])
''','''		bufNew := make([]byte, bufLen, bufCap)
		copy(bufNew, common.bytes[0:bufLen])
		common.bytes = bufNew

		for numToRead > 0 {
			x := numToRead
			if x > blockSize {
				x = blockSize
			}

			scratchMu.Lock()
			n, err := common.r.Read(scratch[0:x])
			if n > 0 && int64(n) <= x {
				bufNew = append(bufNew, scratch[0:n]...)
			}
			scratchMu.Unlock()
'''),('body/buffered.go','''const blockSize = 65536
''','''const blockSize = 65536

var (
	scratchMu sync.Mutex
	scratch   [blockSize]byte
)
''')],"a stream whose Reader is itself layered over another stream's Body (or panics)","the read waits for ever for the scratch buffer it holds",
'body',f'io strings testing time {PKG}','''
type plain struct{ io.Reader }

func TestDemo(t *testing.T) {
	inner, _ := body.FromReader(plain{strings.NewReader("hello, world")})
	outer, _ := body.FromReader(plain{io.LimitReader(inner, 5)})
	done := make(chan string)
	go func() {
		p, _ := io.ReadAll(outer)
		done <- string(p)
	}()
	select {
	case s := <-done:
		if s != "hello" {
			t.Fatal(s)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("deadlock")
	}
}
''')

bug('c04-close-in-background','C04',[('body/readerat.go','''	var err error
	if c, cOK := common.r.(io.Closer); cOK {
		err = c.Close()
	}

	common.r = nil
''','''	var err error
	if c, cOK := common.r.(io.Closer); cOK {
		closed := make(chan error, 1)
		go func() { closed <- c.Close() }()
		t := time.NewTimer(time.Second)
		select {
		case err = <-closed:
		case <-t.C:
		}
		t.Stop()
	}

	common.r = nil
'''),('body/readerat.go','''	"sync"
''','''	"sync"
	"time"
''')],"a Reader whose Close takes longer than a second and fails","the last Close returns nil before the Reader is closed",
'body',f'errors strings testing time {PKG}','''
type slow struct {
	*strings.Reader
}

var errSlow = errors.New("slow")

func (s slow) Close() error { time.Sleep(1500 * time.Millisecond); return errSlow }

func TestDemo(t *testing.T) {
	b, _ := body.FromReader(slow{strings.NewReader("hello")})
	if err := b.Close(); err != errSlow {
		t.Fatal(err)
	}
}
''')

bug('c04-read-ahead-after-close','C04',[('body/buffered.go','''	i := int(beginOffset - beginBuffer)
	j := int(endOffset - beginBuffer)
	n := (j - i)
	copy(p[0:n], common.bytes[i:j])
	body.offset = endOffset
	common.advance(beginOffset, endOffset)
	return n, err
''','''	i := int(beginOffset - beginBuffer)
	j := int(endOffset - beginBuffer)
	n := (j - i)
	copy(p[0:n], common.bytes[i:j])
	body.offset = endOffset
	common.advance(beginOffset, endOffset)
	if n > 0 && err == nil && common.err == nil && common.length < 0 && len(common.bytes) == 0 {
		go common.readAhead()
	}
	return n, err
'''),('body/buffered.go','''type bufferedBody struct {
''','''// readAhead has the first byte of the next block ready, so that a Read that
// comes a little later need not wait for it.
func (common *bufferedCommon) readAhead() {
	common.mu.Lock()
	r := common.r
	if r == nil || common.err != nil || len(common.bytes) != 0 {
		common.mu.Unlock()
		return
	}
	common.mu.Unlock()
	var p [1]byte
	n, err := r.Read(p[:])
	common.mu.Lock()
	defer common.mu.Unlock()
	if common.bodies == nil {
		return
	}
	common.bytes = append(common.bytes, p[:n]...)
	if err != nil {
		common.length = common.start + int64(len(common.bytes))
		common.err = err
	}
}

type bufferedBody struct {
''')],"a read ahead that is still under way (it starts when a whole block has been consumed) when the body is read again or closed","the Reader is entered twice at a time, or used after its Close",
'body',f'sync testing time {PKG}','''
type watched struct {
	mu     sync.Mutex
	inside int
	bad    bool
	closed bool
	n      int
}

func (w *watched) enter(d int) {
	w.mu.Lock()
	w.inside += d
	if w.inside > 1 || w.closed && d > 0 {
		w.bad = true
	}
	w.mu.Unlock()
}
func (w *watched) Read(p []byte) (int, error) {
	w.enter(1)
	if w.n > 0 {
		time.Sleep(50 * time.Millisecond)
	}
	w.enter(-1)
	w.n++
	return len(p), nil
}
func (w *watched) Close() error { w.enter(1); w.closed = true; w.enter(-1); return nil }

func TestDemo(t *testing.T) {
	w := &watched{}
	b, _ := body.FromReader(w)
	b.Read(make([]byte, 65536))
	time.Sleep(20 * time.Millisecond)
	b.Close()
	time.Sleep(100 * time.Millisecond)
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.bad {
		t.Fatal("the reader was used concurrently or after Close")
	}
}
''')

bug('c13-close-in-goroutine','C13',[('response/response.go','''		err2 := resp.body.Close()
		if err == nil {
			err = err2
		}
	}()
''','''		if resp.body.BytesRemaining() > 0 {
			// Nobody waits for what was not sent.
			go resp.body.Close()
			return
		}
		err2 := resp.body.Close()
		if err == nil {
			err = err2
		}
	}()
''')],"a client that disconnects before the end of the body","Serve returns before the body is closed",
'response',f'errors io net/http strings testing time {R} {B}',RW+'''
type slowClose struct {
	io.Reader
	closed chan bool
}

func (s slowClose) Close() error { time.Sleep(200 * time.Millisecond); close(s.closed); return nil }

func TestDemo(t *testing.T) {
	c := newConn()
	c.limit, c.err = 2, errors.New("gone")
	s := slowClose{strings.NewReader("hello, world"), make(chan bool)}
	b, _ := body.FromReaderAndLength(s, 12)
	if err := new(response.Builder).WithBody(b).Build().Serve(c); err == nil {
		t.Fatal("no error")
	}
	select {
	case <-s.closed:
	default:
		t.Fatal("not closed when Serve returned")
	}
}
''')

bug('c19-hook-in-goroutine','C19',[('handler/adaptor.go','''			OnPanic(err)
		}
''','''			done := make(chan struct{})
			go func() {
				defer close(done)
				OnPanic(err)
			}()
			select {
			case <-done:
			case <-time.After(time.Second):
			}
		}
''')],"an OnPanic that takes longer than a second","ServeHTTP returns before OnPanic has dealt with the error, and a panic of OnPanic ends the process",
'handler',f'net/http net/http/httptest testing time {R} {H}','''
func TestDemo(t *testing.T) {
	over := false
	handler.OnPanic = func(error) { time.Sleep(1500 * time.Millisecond); over = true }
	a := handler.Adaptor{Inner: handler.HandlerFunc(func(*http.Request) response.Response { panic("x") })}
	a.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
	if !over {
		t.Fatal("ServeHTTP returned while OnPanic was running")
	}
}
''')

bug('c18-one-request-at-a-time','C18',[('handler/adaptor.go','''	ww := response.NewWriter(w, req)
	startTime := time.Now()

	defer func() {
		panicValue := recover()
''','''	ww := response.NewWriter(w, req)
	startTime := time.Now()
	first := inFlight.add(req)

	defer func() {
		panicValue := recover()
		if !inFlight.remove(req, first) {
			// Handled again within a handler: the outer call counts it.
			return
		}
'''),('handler/adaptor.go','''type Adaptor struct {
''','''type requestSet struct {
	mu sync.Mutex
	m  map[string]int
}

func requestKey(req *http.Request) string {
	return req.Method + " " + req.RemoteAddr + " " + req.URL.String()
}

func (s *requestSet) add(req *http.Request) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := requestKey(req)
	s.m[k]++
	return s.m[k] == 1
}

func (s *requestSet) remove(req *http.Request, first bool) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := requestKey(req)
	s.m[k]--
	if s.m[k] == 0 {
		delete(s.m, k)
	}
	return first
}

// inFlight recognises requests that pass through more than one Adaptor.
var inFlight = requestSet{m: make(map[string]int)}

type Adaptor struct {
'''),('handler/adaptor.go','''	"strconv"
''','''	"strconv"
	"sync"
''')],"two requests for the same URL from the same client at the same time","only one of them is counted",
'handler',f'net/http net/http/httptest testing {B} {R} {H} {P}',AD+'''
func TestDemo(t *testing.T) {
	before := value(t, "http_requests_total", "226")
	var a handler.Adaptor
	depth := 0
	a = handler.Adaptor{Inner: handler.HandlerFunc(func(*http.Request) response.Response {
		depth++
		if depth < 2 {
			a.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
		}
		return *new(response.Builder).WithStatus(226).WithBody(body.Empty()).Build()
	})}
	a.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
	if d := value(t, "http_requests_total", "226") - before; d != 2 {
		t.Fatal(d)
	}
}
''')

bug('c21-two-step-index','C21',[('internal/mockreader/mockreader.go','''	r.mu.Lock()
	defer r.mu.Unlock()

	index := r.index
	length := uint(len(r.expect))
	if index >= length {
		return length, Expectation{}
	}

	r.index++
	return index, r.expect[index]
''','''	length := uint64(len(r.expect))
	index := atomic.AddUint64(&r.index, 1) - 1
	if index >= length {
		atomic.StoreUint64(&r.index, length)
		return uint(length), Expectation{}
	}

	return uint(index), r.expect[index]
'''),('internal/mockreader/mockreader.go','''	mu     sync.Mutex
	expect []Expectation
	index  uint
''','''	expect []Expectation
	index  uint64
'''),('internal/mockreader/mockreader.go','''	"sync"
''','''	"sync/atomic"
''')],"",'','internal/mockreader','testing','')
lib.BUGS.pop()

bug('c09-writeto-lets-others-in','C09',[('body/bytes.go','''	i := body.offset
	j := len(body.data)
	avail := (j - i)
	n, err := w.Write(body.data[i:j])
''','''	i := body.offset
	j := len(body.data)
	avail := (j - i)
	data := body.data[i:j]

	// A slow writer must not block everybody else.
	body.mu.Unlock()
	n, err := w.Write(data)
	body.mu.Lock()

'''),('body/bytes.go','''	body.offset += int(n)
	body.eof = (err == nil)
	return int64(n), err
''','''	body.offset = i + n
	body.eof = (err == nil)
	return int64(n), err
''')],"a Read or Seek or Close of the same body while WriteTo waits for its writer","bytes are delivered twice, or a closed body comes back to life",
'body',f'io testing {PKG}','''
type reading struct{ b body.Body }

func (r reading) Write(p []byte) (int, error) {
	done := make(chan bool)
	go func() { r.b.Close(); close(done) }()
	select {
	case <-done:
	case <-time.After(300 * time.Millisecond):
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	b := body.FromString("hello, world")
	b.(io.WriterTo).WriteTo(reading{b})
	time.Sleep(50 * time.Millisecond)
	if n := b.BytesRemaining(); n != 0 {
		t.Fatal(n)
	}
	if _, err := b.Read(make([]byte, 1)); err != fs.ErrClosed {
		t.Fatal(err)
	}
	if p, ok := b.(io.Seeker); ok {
		if n, _ := p.Seek(0, io.SeekCurrent); n > 0 {
			t.Fatal(n)
		}
	}
	c, _ := b.Copy()
	if c != body.AlreadyClosed() {
		t.Fatal(c)
	}
}
''')
lib.BUGS.pop()

bug('c08-position-after-failed-seek','C08',[('body/seeker.go','''	_, err := common.s.Seek(offset, io.SeekStart)
	if err != nil {
		return 0, err
	}

	x := len(p)
	n, err := common.s.Read(p)
''','''	if !common.known || common.at != offset {
		common.known = false
		_, err := common.s.Seek(offset, io.SeekStart)
		if err != nil {
			return 0, err
		}
		common.known = true
		common.at = offset
	}

	x := len(p)
	n, err := common.s.Read(p)
	if n > 0 {
		common.at += int64(n)
	}
'''),('body/seeker.go','''	length int64
	refcnt int32
}

func (common *seekerCommon) ref''','''	length int64
	at     int64 // position of s
	known  bool
	refcnt int32
}

func (common *seekerCommon) ref''')],"a positioned read that took more than one call of the Reader (a short read), then a read where the first of these calls ended","the later read takes its bytes from the wrong place",
'body',f'io testing {PKG}',STREAM+'''
func TestDemo(t *testing.T) {
	f := &file{stream{data: pattern(100), steps: []step{{n: 4}}}}
	b, _ := body.FromReader(f)
	p := make([]byte, 10)
	b.(io.ReaderAt).ReadAt(p, 0)
	q := make([]byte, 3)
	b.(io.ReaderAt).ReadAt(q, 4)
	if string(q) != string(pattern(100)[4:7]) {
		t.Fatal(q)
	}
}
''')

bug('c12-pushes-deduplicated','C12',[('response/response.go','''		for _, url := range vlist {
			err := x.Push''','''		pushed := make(map[string]struct{}, len(vlist))
		for _, url := range vlist {
			pushed[url] = struct{}{}
		}
		for url := range pushed {
			err := x.Push''')],"a response with two or more pushes","the pushes are not made in order, and one that is listed twice is made once",
'response',f'fmt net/http testing {R} {B}',RW+PUSH+'''
func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		c := &pconn{conn: newConn()}
		b := new(response.Builder).WithBody(body.FromString("hello"))
		for k := 0; k < 6; k++ {
			b.WithHeader("Push", fmt.Sprint("/", k), true)
		}
		b.Build().Serve(c)
		if fmt.Sprint(c.urls) != "[/0 /1 /2 /3 /4 /5]" {
			t.Fatal(c.urls)
		}
	}
}
''')

bug('c07-end-of-declared','C07',[('body/readerat.go','''	common := body.common
	length := common.BytesRemaining()

	switch whence {
	case io.SeekStart:
		if offset < 0 {
			return -1, NegativeStartOffsetSeekError{offset}
		}
	case io.SeekCurrent:
		offset += body.offset
	case io.SeekEnd:
		offset += length
''','''	common := body.common
	length := common.BytesRemaining()

	switch whence {
	case io.SeekStart:
		if offset < 0 {
			return -1, NegativeStartOffsetSeekError{offset}
		}
	case io.SeekCurrent:
		if body.err == io.EOF {
			offset += length
		} else {
			offset += body.offset
		}
	case io.SeekEnd:
		offset += length
''')],"a body that has met an end before the length (a source that shrank), after another copy has found an even earlier end, and a seek relative to the current position","the seek starts from the other copy's end",'body','testing','')
lib.BUGS.pop()
