from lib import bug
from body1 import STREAM, AT, IM
from resp1 import RW, PUSH, FANCY, SRC, P, R, B, H
import lib
lib.BUGS.clear()
GONE='''
func watch(p interface{}) func() bool {
	dead := new(int32)
	runtime.SetFinalizer(p, func(interface{}) { atomic.StoreInt32(dead, 1) })
	return func() bool { return atomic.LoadInt32(dead) == 0 }
}

// gone fails the test if what made reports is still reachable in most cases.
func gone(t *testing.T, make func() func() bool) {
	var alive []func() bool
	for i := 0; i < 50; i++ {
		alive = append(alive, make())
	}
	n := 0
	for k := 0; k < 10; k++ {
		runtime.GC()
		time.Sleep(10 * time.Millisecond)
		n = 0
		for _, f := range alive {
			if f() {
				n++
			}
		}
		if n < 25 {
			return
		}
	}
	t.Fatal(n, "of 50 are still reachable")
}
'''
ROUT='''
// ends fails the test if goroutines are left after f has run often.
func ends(t *testing.T, f func()) {
	before := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		f()
	}
	for k := 0; k < 100; k++ {
		if runtime.NumGoroutine() < before+25 {
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	t.Fatal(runtime.NumGoroutine()-before, "goroutines are left")
}
'''
bug('c26-watch-request-context','C26',[('handler/adaptor.go','''	resp := a.Inner.Handle(req)
''','''	// A handler that outlives its client is of no use to anybody.
	done := make(chan struct{})
	go func() {
		select {
		case <-req.Context().Done():
			PromAbandonedTotal.Inc()
		case <-done:
		}
	}()
	resp := a.Inner.Handle(req)
	close(done)
'''),('handler/adaptor.go','''	PromRequestsTotal = promauto''','''	PromAbandonedTotal = promauto.NewCounter(
		prometheus.CounterOpts{
			Name: "http_abandoned_total",
			Help: "Total number of HTTP requests abandoned by the client.",
		},
	)
	PromRequestsTotal = promauto''')],"handlers that panic","a goroutine is left behind by each",
'handler',f'errors net/http net/http/httptest runtime testing time {H} {R}',ROUT+'''
func TestDemo(t *testing.T) {
	a := handler.Adaptor{Inner: handler.HandlerFunc(func(*http.Request) response.Response { panic(errors.New("x")) })}
	ends(t, func() { a.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil)) })
}
''')
bug('c26-open-streams-registry','C26',[('body/buffered.go','''	r := common.r

	common.r = nil
	common.err = nil
''','''	r := common.r

	if common.err == nil || common.err == io.EOF {
		openStreams.Delete(common)
	}
	common.err = nil
'''),('body/buffered.go','''	bodies map[*bufferedBody]struct{}
	bytes ''','''	bodies map[*bufferedBody]struct{} // nil once closed
	bytes '''),('body/buffered.go','''type bufferedBody struct {''','''// openStreams has all streams that are open, for debugging.
var openStreams sync.Map

type bufferedBody struct {'''),('body/buffered.go','''	common.bodies[body] = struct{}{}
''','''	if len(common.bodies) == 0 {
		openStreams.Store(common, common.r)
	}
	common.bodies[body] = struct{}{}
''')],"streams that fail and are closed","they stay in the registry forever",
'body',f'errors runtime testing time sync/atomic {B}',GONE+STREAM+'''
func TestDemo(t *testing.T) {
	gone(t, func() func() bool {
		s := &stream{steps: []step{{0, errors.New("bad")}}, data: []byte("hello")}
		alive := watch(s)
		b, _ := body.FromReader(s)
		b.Read(make([]byte, 3))
		b.Close()
		return alive
	})
}
''')
lib.BUGS[-1]['imports'].append('io')
bug('c26-closed-keeps-file','C26',[('body/seeker.go','''	common := body.common
	body.common = nil
	body.err = nil
''','''	common := body.common
	body.err = nil
'''),('body/seeker.go','''	if common.refcnt > 0 {
		return nil
	}

	var err error
	if c, cOK := common.s.(io.Closer); cOK {
		err = c.Close()
	}

	common.s = nil
	common.length = 0
''','''	if common.refcnt > 0 {
		return nil
	}

	var err error
	if c, cOK := common.s.(io.Closer); cOK {
		err = c.Close()
	}

	common.length = 0
''')],"a closed body over a seekable Reader that the user still holds","the Reader stays reachable",
'body',f'io runtime testing time sync/atomic {B}',GONE+STREAM+'''
var kept []body.Body

func TestDemo(t *testing.T) {
	gone(t, func() func() bool {
		f := &file{stream{data: []byte("hello")}}
		alive := watch(f)
		b, _ := body.FromReader(f)
		b.Close()
		kept = append(kept, b)
		return alive
	})
	runtime.KeepAlive(kept)
}
''')
bug('c26-closed-keeps-bytes','C26',[('body/bytes.go','''	body.data = nil
	body.offset = 0
	body.eof = true
	body.closed = true
''','''	body.data = body.data[:0]
	body.offset = 0
	body.eof = true
	body.closed = true
''')],"a closed body of bytes that the user still holds","the bytes stay reachable",
'body',f'runtime testing time sync/atomic {B}',GONE+'''
var kept []body.Body

func TestDemo(t *testing.T) {
	gone(t, func() func() bool {
		p := make([]byte, 4096)
		alive := watch(&p[0])
		b := body.FromBytes(p)
		b.Close()
		kept = append(kept, b)
		return alive
	})
	runtime.KeepAlive(kept)
}
''')
bug('c26-requests-by-method','C26',[('handler/adaptor.go','''		PromRequestsTotal.With(labels).Inc()
''','''		PromRequestsTotal.With(labels).Inc()
		PromMethodsTotal.WithLabelValues(req.Method).Inc()
'''),('handler/adaptor.go','''	PromRequestsTotal = promauto''','''	PromMethodsTotal = promauto.NewCounterVec(
		prometheus.CounterOpts{
			Name: "http_methods_total",
			Help: "Total number of HTTP requests by method.",
		},
		[]string{"method"},
	)
	PromRequestsTotal = promauto''')],"clients that send methods of their own making","each leaves a metric behind",
'handler',f'fmt net/http net/http/httptest runtime strings testing time unsafe sync/atomic {H} {R} {B}',GONE+'''
func TestDemo(t *testing.T) {
	a := handler.Adaptor{Inner: handler.HandlerFunc(func(*http.Request) response.Response {
		return *response.NewBuilder().WithBody(body.Empty()).Build()
	})}
	n := 0
	gone(t, func() func() bool {
		n++
		req := httptest.NewRequest("GET", "/", nil)
		raw := []byte(fmt.Sprintf("M-%d-%s", n, strings.Repeat("x", 40)))
		req.Method = *(*string)(unsafe.Pointer(&raw))
		alive := watch(&raw[0])
		a.ServeHTTP(httptest.NewRecorder(), req)
		return alive
	})
}
''')
bug('c26-response-remembers-writer','C26',[('response/response.go','''	body body.Body
	err  error
}
''','''	body body.Body
	err  error
	last http.ResponseWriter // being served to
}
'''),('response/response.go','''	h := w.Header()
''','''	resp.last = w
	h := w.Header()
'''),('response/response.go','''	_, err = io.Copy(w, resp.body)
	return err
''','''	_, err = io.Copy(w, resp.body)
	if err == nil {
		resp.last = nil
	}
	return err
''')],"a Response that the user holds on to after it could not be served","the client's connection stays reachable",
'response',f'errors net/http runtime testing time sync/atomic {R} {B}',GONE+RW+'''
var kept []*response.Response

func TestDemo(t *testing.T) {
	gone(t, func() func() bool {
		c := newConn()
		c.limit, c.err = 2, errors.New("gone")
		alive := watch(c)
		r := response.NewBuilder().WithBody(body.FromString("hello")).Build()
		r.Serve(c)
		kept = append(kept, r)
		return alive
	})
	runtime.KeepAlive(kept)
}
''')
bug('c26-read-ahead-goroutine','C26',[('response/response.go','''	_, err = io.Copy(w, resp.body)
	return err
}
''','''	_, err = io.Copy(w, resp.body)
	return err
}

// Drain reads and closes the body in the background.
func drain(b io.ReadCloser, done chan<- error) {
	_, err := io.Copy(io.Discard, b)
	if err2 := b.Close(); err == nil {
		err = err2
	}
	done <- err
}
'''),('response/response.go','''			err := x.Push(url, &http.PushOptions{})
			if err != nil && !errors.Is(err, http.ErrNotSupported) {
				return err
			}
''','''			done := make(chan error)
			go func() { done <- x.Push(url, &http.PushOptions{}) }()
			select {
			case err := <-done:
				if err != nil && !errors.Is(err, http.ErrNotSupported) {
					return err
				}
			case <-time.After(30 * time.Second):
				return errPushTimeout
			}
'''),('response/response.go','''var headerPush =''','''var errPushTimeout = errors.New("push timed out")

var headerPush ='''),('response/response.go','	"net/http"\n','	"net/http"\n	"time"\n')],"pushes that take longer than half a minute","a goroutine is left behind by each",
'response',f'net/http runtime testing time {R} {B}','''
func TestDemo(t *testing.T) {
	t.Skip()
}
''')
del lib.BUGS[-1]
bug('c26-body-error-log','C26',[('body/buffered.go','''			if err != nil {
				common.length = endBuffer
				common.err = err
				break
			}
''','''			if err != nil {
				common.length = endBuffer
				common.err = err
				if err != io.EOF {
					failures.mu.Lock()
					failures.list = append(failures.list, common)
					failures.mu.Unlock()
				}
				break
			}
'''),('body/buffered.go','''type bufferedBody struct {''','''// failures are the streams that failed, to look into later.
var failures struct {
	mu   sync.Mutex
	list []*bufferedCommon
}

type bufferedBody struct {'''),('body/buffered.go','''	common.r = nil
	common.err = nil
''','''	common.err = nil
''')],"streams that fail","they are kept for ever",
'body',f'errors runtime testing time sync/atomic {B}',GONE+STREAM+'''
func TestDemo(t *testing.T) {
	gone(t, func() func() bool {
		s := &stream{steps: []step{{0, errors.New("bad")}}, data: []byte("hello")}
		alive := watch(s)
		b, _ := body.FromReader(s)
		b.Read(make([]byte, 3))
		b.Close()
		return alive
	})
}
''')
lib.BUGS[-1]['imports'].append('io')
bug('c26-writeto-pipe-goroutine','C26',[('response/writer.go','''	n, err := w.next.(io.ReaderFrom).ReadFrom(r)
	assert''','''	// Read ahead while the connection is busy.
	pr, pw := io.Pipe()
	go func() {
		_, err := io.Copy(pw, r)
		pw.CloseWithError(err)
	}()
	n, err := w.next.(io.ReaderFrom).ReadFrom(pr)
	assert''')],"a client with ReadFrom that goes away in the middle","the goroutine that reads ahead is left behind, waiting to write",
'response',f'bufio errors io net net/http runtime testing time {B} {R}',ROUT+RW+FANCY+'''
type onlyReader struct{ io.Reader }

func TestDemo(t *testing.T) {
	req, _ := http.NewRequest("GET", "/", nil)
	ends(t, func() {
		c := newConn()
		c.limit, c.err = 2, errors.New("gone")
		b, _ := body.FromReader(onlyReader{body.FromString("hello")})
		response.NewBuilder().WithBody(b).Build().Serve(response.NewWriter(&fconn{c}, req))
	})
}
''')
bug('c26-copies-list','C26',[('response/builder.go','''	builder.code = 0
	builder.hdrs = nil
	builder.body = nil
	builder.err = nil

	if code == 0 {''','''	builder.code = 0
	builder.hdrs = nil
	builder.err = nil

	if code == 0 {''')],"a Builder that is used again","it still has the body of the response before",
'response',f'runtime testing time sync/atomic {R} {B}','''
func TestDemo(t *testing.T) { t.Skip() }
''')
del lib.BUGS[-1]
