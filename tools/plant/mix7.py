from lib import bug
from resp1 import RW, PUSH, FANCY, SRC, AD, P, R, B, H
import lib
lib.BUGS.clear()
bug('c12-loop-misses-short-write','C12',[('response/response.go','''	_, err = io.Copy(w, resp.body)
	return err
''','''	buf := make([]byte, 16384)
	for {
		n, err := resp.body.Read(buf)
		if n > 0 {
			if _, err := w.Write(buf[:n]); err != nil {
				return err
			}
		}
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
	}
''')],"a ResponseWriter that takes a part of a write without reporting an error","Serve reports success although bytes are missing",
'response',f'net/http testing {R} {B}',RW+'''
type half struct{ *conn }

func (h half) Write(p []byte) (int, error) {
	if len(p) > 4 {
		p = p[:4]
	}
	return h.conn.Write(p)
}

func TestDemo(t *testing.T) {
	c := half{newConn()}
	err := new(response.Builder).WithBody(body.FromString("hello, world")).Build().Serve(c)
	if err == nil && string(c.got) != "hello, world" {
		t.Fatalf("%q", c.got)
	}
}
''')
bug('c12-suppressed-headers','C12',[('response/response.go','''		if k != headerPush {
			h[k] = ''','''		if k != headerPush && len(vlist) != 0 {
			h[k] = ''')],"a response with a header that has no values, the way to suppress net/http's own Date or Content-Type","the header is not handed over and net/http adds its own",
'response',f'net/http testing {R} {B}',RW+'''
func TestDemo(t *testing.T) {
	c := newConn()
	b := new(response.Builder).WithBody(body.FromString("hello"))
	b.Headers()["Date"] = nil
	b.Build().Serve(c)
	if _, found := c.sent["Date"]; !found {
		t.Fatal(c.sent)
	}
}
''')
bug('c12-canonical-keys','C12',[('response/response.go','''	for k, vlist := range resp.hdrs {
		if k != headerPush {
			h[k] = copyStrings(vlist)
		}
	}
''','''	for k, vlist := range resp.hdrs {
		k = http.CanonicalHeaderKey(k)
		if k != headerPush {
			h[k] = copyStrings(vlist)
		}
	}
''')],"a response with a header whose name is not in canonical form, set directly in Headers()","the name is changed, and of two spellings one replaces the other",
'response',f'net/http testing {R} {B}',RW+'''
func TestDemo(t *testing.T) {
	c := newConn()
	b := new(response.Builder).WithBody(body.FromString("hello"))
	b.Headers()["x-lower"] = []string{"a"}
	b.Build().Serve(c)
	if v := c.sent["x-lower"]; len(v) != 1 {
		t.Fatal(c.sent)
	}
}
''')
bug('c14-bytes-int32','C14',[('response/writer.go','''	bytes    int64
	status   int
''','''	bytes    uint32
	status   int
'''),('response/writer.go','''	w.bytes += int64(n)
''','''	w.bytes += uint32(n)
'''),('response/writer.go','''	return w.bytes
''','''	return int64(w.bytes)
'''),('response/writer.go','''	w.bytes += n
''','''	w.bytes += uint32(n)
''')],"a response of more than 4 GiB","BytesWritten wraps around",
'response',f'net net/http testing bufio io {R}',RW+FANCY+'''
type huge struct{ *fconn }

func (huge) ReadFrom(r io.Reader) (int64, error) { return 5 << 30, nil }

func TestDemo(t *testing.T) {
	req, _ := http.NewRequest("GET", "/", nil)
	w := response.NewWriter(huge{&fconn{newConn()}}, req)
	w.(io.ReaderFrom).ReadFrom(nil)
	if n := w.BytesWritten(); n != 5<<30 {
		t.Fatal(n)
	}
}
''')
bug('c14-only-last-error','C14',[('response/writer.go','''	n, err := w.next.Write(p)
	assert.Assertf(n >= 0, "%d >= 0", n)
	w.bytes += int64(n)
	if err != nil {
		w.sawError = true
	}
''','''	n, err := w.next.Write(p)
	assert.Assertf(n >= 0, "%d >= 0", n)
	w.bytes += int64(n)
	w.sawError = (err != nil)
''')],"a write that fails and another one afterwards that succeeds","SawError forgets the failure",
'response',f'net/http testing errors {R}',RW+'''
type flaky struct {
	*conn
	n int
}

func (f *flaky) Write(p []byte) (int, error) {
	f.n++
	if f.n == 2 {
		return 0, errors.New("no")
	}
	return f.conn.Write(p)
}

func TestDemo(t *testing.T) {
	req, _ := http.NewRequest("GET", "/", nil)
	w := response.NewWriter(&flaky{conn: newConn()}, req)
	for i := 0; i < 3; i++ {
		w.Write([]byte("hello"))
	}
	if !w.SawError() {
		t.Fatal("forgotten")
	}
}
''')
bug('c15-head-readfrom-zero','C15',[('response/writer.go','''		return io.Copy(io.Discard, r)
''','''		return 0, nil
''')],"a HEAD or 204 response whose body is handed to ReadFrom","the caller is told that no bytes were taken",
'response',f'net net/http testing bufio io strings {R}',RW+FANCY+'''
func TestDemo(t *testing.T) {
	req, _ := http.NewRequest("HEAD", "/", nil)
	w := response.NewWriter(&fconn{newConn()}, req)
	n, err := w.(io.ReaderFrom).ReadFrom(strings.NewReader("hello"))
	if n != 5 || err != nil {
		t.Fatal(n, err)
	}
}
''')
bug('c15-bodiless-by-writeheader','C15',[('response/writer.go','''	isHEAD   bool
	sawError bool
''','''	isHEAD   bool
	noBody   bool
	sawError bool
'''),('response/writer.go','''		return
	}
	w.writeHeaderImpl(status)
}

func (w *basicWriter) Write(p''','''		return
	}
	w.noBody = w.isHEAD || status == http.StatusNoContent
	w.writeHeaderImpl(status)
}

func (w *basicWriter) Write(p'''),('response/writer.go','''	if w.isHEAD || w.status == http.StatusNoContent {
		return len(p), nil
	}
''','''	if w.isHEAD || w.noBody {
		return len(p), nil
	}
''')],"a 204 status that is set through MaybeWriteHeader, and a body","the body of the 204 response is sent",
'response',f'net/http testing {R}',RW+'''
func TestDemo(t *testing.T) {
	req, _ := http.NewRequest("GET", "/", nil)
	c := newConn()
	w := response.NewWriter(c, req)
	w.MaybeWriteHeader(204)
	n, err := w.Write([]byte("hello"))
	if n != 5 || err != nil || len(c.got) != 0 {
		t.Fatal(n, err, c.got)
	}
}
''')
bug('c18-panic-is-500','C18',[('handler/adaptor.go','''		code := strconv.Itoa(ww.Status())
''','''		status := ww.Status()
		if panicValue != nil && !ww.SawError() {
			status = http.StatusInternalServerError
		}
		code := strconv.Itoa(status)
''')],"a body whose source fails after the status was sent","the request is counted as 500 although the client saw another status",
'handler',f'errors net/http testing {B} {R} {H} {P}',RW.replace('@','@')+SRC.replace('io.EOF','errEOF').replace('errEOF','io.EOF')+AD+'''
type h struct{}

func (h) Handle(req *http.Request) response.Response {
	b, err := body.FromReader(&src{data: []byte("hello"), err: errors.New("disk")})
	if err != nil {
		panic(err)
	}
	return *new(response.Builder).WithStatus(203).WithBody(b).Build()
}

func TestDemo(t *testing.T) {
	req, _ := http.NewRequest("GET", "/", nil)
	handler.Adaptor{Inner: h{}}.ServeHTTP(newConn(), req)
	if n := value(t, "http_requests_total", "203"); n != 1 {
		t.Fatal(n)
	}
}
''')
lib.BUGS[-1]['imports']+=['io']
bug('c18-latency-of-handler-only','C18',[('handler/adaptor.go','''	startTime := time.Now()

	defer func() {
''','''	startTime := time.Now()
	var elapsedDuration time.Duration

	defer func() {
'''),('handler/adaptor.go','''		elapsedDuration := time.Since(startTime)
''','''		if elapsedDuration == 0 {
			elapsedDuration = time.Since(startTime)
		}
'''),('handler/adaptor.go','''	resp := a.Inner.Handle(req)
''','''	resp := a.Inner.Handle(req)
	elapsedDuration = time.Since(startTime)
''')],"a slow client","only the handler's time is counted, not that of serving",
'handler',f'net/http time testing {B} {R} {H} {P}',RW+AD+'''
type h struct{}

func (h) Handle(req *http.Request) response.Response {
	return *new(response.Builder).WithStatus(204+2).WithBody(body.FromString("hello")).Build()
}

type slow struct{ *conn }

func (s slow) Write(p []byte) (int, error) {
	time.Sleep(300 * time.Millisecond)
	return s.conn.Write(p)
}

func TestDemo(t *testing.T) {
	req, _ := http.NewRequest("GET", "/", nil)
	handler.Adaptor{Inner: h{}}.ServeHTTP(slow{newConn()}, req)
	if n := value(t, "http_latency_total", "206"); n < 0.25 {
		t.Fatal(n)
	}
}
''')
bug('c19-error-text','C19',[('handler/adaptor.go','''		ww.MaybeWriteHeader(http.StatusInternalServerError)
''','''		if panicValue != nil && ww.Status() == 0 {
			http.Error(ww, http.StatusText(http.StatusInternalServerError), http.StatusInternalServerError)
		}
		ww.MaybeWriteHeader(http.StatusInternalServerError)
''')],"a handler that panics, or a push that fails","the 500 response has a body",
'handler',f'net/http testing {R} {H}',RW+'''
type h struct{}

func (h) Handle(req *http.Request) response.Response { panic("no") }

func TestDemo(t *testing.T) {
	req, _ := http.NewRequest("GET", "/", nil)
	c := newConn()
	handler.Adaptor{Inner: h{}}.ServeHTTP(c, req)
	if c.code != 500 || len(c.got) != 0 {
		t.Fatal(c.code, string(c.got))
	}
}
''')
bug('c20-large-buffer-kept','C20',[('body/body.go','''	var dst []byte
	if isPretty {
''','''	if len(src) >= 8192 && !isPretty {
		// Too large to be worth a copy.
		return FromBytes(src)
	}

	var dst []byte
	if isPretty {
''')],"a JSON payload of 8 KiB or more, and another payload built from the same pooled buffer","the bytes of the first body are overwritten",
'body',f'io strings testing {B}','''
func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		b := body.FromJSON(strings.Repeat("a", 10000))
		for k := 0; k < 20; k++ {
			body.FromJSON(strings.Repeat("b", 10000)).Close()
		}
		got, _ := io.ReadAll(b)
		if strings.Contains(string(got), "b") {
			t.Fatal("changed")
		}
	}
}
''')
bug('c13-closed-on-write-error-too','C13',[('response/response.go','''	_, err = io.Copy(w, resp.body)
	return err
''','''	_, err = io.Copy(w, resp.body)
	if err != nil {
		// Nobody reads on: release the source at once.
		resp.body.Close()
	}
	return err
''')],"a body or client that fails while the response is served","the body is closed twice",
'response',f'errors net/http testing {R} {B}',RW+'''
type tb struct {
	body.Body
	closes int
}

func (b *tb) Close() error { b.closes++; return b.Body.Close() }

func TestDemo(t *testing.T) {
	c := newConn()
	c.limit, c.err = 3, errors.New("gone")
	b := &tb{Body: body.FromString("hello")}
	err := new(response.Builder).WithBody(b).Build().Serve(c)
	if b.closes != 1 || err == nil {
		t.Fatal(b.closes, err)
	}
}
''')
