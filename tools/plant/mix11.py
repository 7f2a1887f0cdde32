from lib import bug
from body1 import STREAM, AT, IM
from resp1 import RW, PUSH, FANCY, SRC, P, R, B, H
import lib
lib.BUGS.clear()
GATE='''
// gate is a writer whose first write waits to be let go.
type gate struct {
	in, out chan struct{}
	got     []byte
	once    bool
}

func newGate() *gate { return &gate{in: make(chan struct{}), out: make(chan struct{})} }
func (g *gate) Write(p []byte) (int, error) {
	if !g.once {
		g.once = true
		close(g.in)
		<-g.out
	}
	g.got = append(g.got, p...)
	return len(p), nil
}

// soon fails the test if f takes long.
func soon(t *testing.T, what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal(what, "waits for somebody else")
	}
}
'''
CONN='''
// gconn is a client connection whose first write waits.
type gconn struct {
	*gate
	h http.Header
}

func newGconn() *gconn                 { return &gconn{newGate(), http.Header{}} }
func (c *gconn) Header() http.Header   { return c.h }
func (c *gconn) WriteHeader(code int)  {}
'''
bug('c25-bytes-writeto-one-lock','C25',[('body/bytes.go','''type bytesBody struct {
	mu     sync.Mutex
	data ''','''type bytesBody struct {
	mu     sync.Mutex
	wr     *sync.Mutex // the copies write the same array
	data '''),('body/bytes.go','''	avail := (j - i)
	n, err := w.Write(body.data[i:j])
''','''	avail := (j - i)
	if body.wr != nil {
		body.wr.Lock()
		defer body.wr.Unlock()
	}
	n, err := w.Write(body.data[i:j])
'''),('body/bytes.go','''	dupe := &bytesBody{
		data:   body.data,
''','''	if body.wr == nil {
		body.wr = new(sync.Mutex)
	}
	dupe := &bytesBody{
		wr:     body.wr,
		data:   body.data,
''')],"two copies of a body of bytes are written at the same time, and one of the writers stalls","the other copy waits for the slow writer",
'body',f'testing time {B}',GATE+'''
func TestDemo(t *testing.T) {
	b := body.FromString("hello")
	c, _ := b.Copy()
	g := newGate()
	go io.Copy(g, b)
	<-g.in
	soon(t, "a copy", func() { io.Copy(io.Discard, c) })
	close(g.out)
}
'''.replace('io.Copy','io.Copy'))
lib.BUGS[-1]['imports'].append('io')

bug('c25-stream-writeto-holds-reader','C25',[('body/buffered.go','''func (body *bufferedBody) Close() error {
''','''// WriteTo passes on what has been buffered without copying it first.
func (body *bufferedBody) WriteTo(w io.Writer) (int64, error) {
	var total int64
	var tmp []byte
	for {
		n, ok, err := body.writeBuffered(w)
		total += n
		if err != nil {
			return total, err
		}
		if ok {
			continue
		}
		if tmp == nil {
			tmp = make([]byte, 32768)
		}
		m, err := body.Read(tmp)
		if m > 0 {
			k, werr := w.Write(tmp[:m])
			total += int64(k)
			if werr == nil && k < m {
				werr = io.ErrShortWrite
			}
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func (body *bufferedBody) writeBuffered(w io.Writer) (int64, bool, error) {
	body.mu.Lock()
	defer body.mu.Unlock()

	if body.closed || body.eof {
		return 0, false, nil
	}

	common := body.common
	common.mu.Lock()
	defer common.mu.Unlock()

	i := body.offset - common.start
	if i >= int64(len(common.bytes)) {
		return 0, false, nil
	}
	n, err := w.Write(common.bytes[i:])
	if err == nil && n < len(common.bytes[i:]) {
		err = io.ErrShortWrite
	}
	oldOffset := body.offset
	body.offset += int64(n)
	common.advance(oldOffset, body.offset)
	return int64(n), err == nil, err
}

func (body *bufferedBody) Close() error {
''')],"a copy of a stream body that finds buffered data is written to a writer that stalls, while another copy is used","the other copies wait for the slow writer",
'body',f'io testing time {B}',GATE+STREAM+'''
func TestDemo(t *testing.T) {
	b, _ := body.FromReader(&stream{data: []byte("hello")})
	c, _ := b.Copy()
	d, _ := b.Copy()
	c.Read(make([]byte, 3))
	g := newGate()
	go io.Copy(g, b)
	<-g.in
	soon(t, "a copy", func() { d.Read(make([]byte, 3)) })
	close(g.out)
}
''')

bug('c25-hook-one-at-a-time','C25',[('handler/adaptor.go','''			OnPanic(err)
''','''			reportPanic(err)
'''),('handler/adaptor.go','''var _ http.Handler = Adaptor{}
''','''var reportMu sync.Mutex

// reportPanic calls OnPanic for one panic at a time, so that hooks need no
// locking of their own.
func reportPanic(err error) {
	reportMu.Lock()
	defer reportMu.Unlock()
	OnPanic(err)
}

var _ http.Handler = Adaptor{}
'''),('handler/adaptor.go','	"strconv"\n','	"strconv"\n	"sync"\n')],"two requests fail at the same time, and OnPanic takes long for the first","the second request waits for the hook of the first",
'handler',f'errors net/http net/http/httptest testing time {H} {R}',GATE+'''
func TestDemo(t *testing.T) {
	g := newGate()
	handler.OnPanic = func(err error) {
		if err.Error() == "slow" {
			g.Write(nil)
		}
	}
	serve := func(err error) {
		a := handler.Adaptor{Inner: handler.HandlerFunc(func(*http.Request) response.Response { panic(err) })}
		a.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
	}
	go serve(errors.New("slow"))
	<-g.in
	soon(t, "a request", func() { serve(errors.New("fast")) })
	close(g.out)
}
''')

bug('c25-two-handlers-at-a-time','C25',[('handler/adaptor.go','''	resp := a.Inner.Handle(req)
''','''	admit <- struct{}{}
	defer func() { <-admit }()
	resp := a.Inner.Handle(req)
'''),('handler/adaptor.go','''var _ http.Handler = Adaptor{}
''','''// admit bounds the load: no more requests are handled at a time.
var admit = make(chan struct{}, 2)

var _ http.Handler = Adaptor{}
''')],"two requests are stalled in their handlers or by their clients, and a third one arrives","it waits",
'handler',f'net/http net/http/httptest testing time {H} {R} {B}',GATE+'''
func TestDemo(t *testing.T) {
	g1, g2 := newGate(), newGate()
	serve := func(g *gate) {
		a := handler.Adaptor{Inner: handler.HandlerFunc(func(*http.Request) response.Response {
			if g != nil {
				g.Write(nil)
			}
			return *response.NewBuilder().WithBody(body.FromString("x")).Build()
		})}
		a.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
	}
	go serve(g1)
	go serve(g2)
	<-g1.in
	<-g2.in
	soon(t, "a request", func() { serve(nil) })
	close(g1.out)
	close(g2.out)
}
''')

bug('c25-response-copies-in-turn','C25',[('response/response.go','''	body body.Body
	err  error
}
''','''	body body.Body
	err  error
	turn *turn
}

// turn lets the copies of a Response be served one after the other: they share
// their headers.
type turn struct{ mu sync.Mutex }
'''),('response/response.go','''	out := &Response{
		code: resp.code,
''','''	if resp.turn == nil {
		resp.turn = new(turn)
	}
	out := &Response{
		turn: resp.turn,
		code: resp.code,
'''),('response/response.go','''	w.WriteHeader(resp.code)

''','''	if resp.turn != nil {
		resp.turn.mu.Lock()
		defer resp.turn.mu.Unlock()
	}

	w.WriteHeader(resp.code)

'''),('response/response.go','	"net/http"\n','	"net/http"\n	"sync"\n')],"copies of a Response are served to several clients, one of which stalls","the other clients wait for it",
'response',f'net/http testing time {B} {R}',GATE+CONN+RW+'''
func TestDemo(t *testing.T) {
	r := response.NewBuilder().WithBody(body.FromString("hello")).Build()
	r2, _ := r.Copy()
	c := newGconn()
	go r.Serve(c)
	<-c.in
	soon(t, "a client", func() { r2.Serve(newConn()) })
	close(c.out)
}
''')

bug('c25-one-json-encoder','C25',[('body/body.go','''	buf := bufferpool.Get()
	defer bufferpool.Put(buf)

	e := json.NewEncoder(buf)
''','''	jsonMu.Lock()
	defer jsonMu.Unlock()

	buf := &jsonBuf
	buf.Reset()

	e := json.NewEncoder(buf)
'''),('body/body.go','''func fromJSONImpl(''','''// jsonBuf is reused by one encoding after the other.
var (
	jsonMu  sync.Mutex
	jsonBuf bytes.Buffer
)

func fromJSONImpl('''),('body/body.go','	"io/fs"\n','	"io/fs"\n	"sync"\n'),('body/body.go','	"github.com/chronos-tachyon/bufferpool"\n','')],"two values are encoded at the same time, and a marshaler of the first takes long","the second waits for the marshaler of the first",
'body',f'testing time {B}',GATE+'''
type slow struct{ g *gate }

func (s slow) MarshalJSON() ([]byte, error) {
	s.g.Write(nil)
	return []byte("1"), nil
}

func TestDemo(t *testing.T) {
	g := newGate()
	go body.FromJSON(slow{g})
	<-g.in
	soon(t, "an encoding", func() { body.FromJSON(2) })
	close(g.out)
}
''')

bug('c25-stat-under-lock','C25',[('body/body.go','''	if fOK && length < 0 {
		fi, err := f.Stat()
''','''	if fOK && length < 0 {
		// Not every file may be asked from several goroutines.
		statMu.Lock()
		fi, err := f.Stat()
		statMu.Unlock()
'''),('body/body.go','''// FromReaderAndLength returns''','''var statMu sync.Mutex

// FromReaderAndLength returns'''),('body/body.go','	"io/fs"\n','	"io/fs"\n	"sync"\n')],"two bodies are made of files at the same time, and the Stat of the first stalls","the second waits for the file of the first",
'body',f'io/fs testing time {B}',GATE+'''
type slow struct {
	fs.File
	g *gate
}

func (s slow) Stat() (fs.FileInfo, error) {
	if s.g != nil {
		s.g.Write(nil)
	}
	return s.File.Stat()
}

func TestDemo(t *testing.T) {
	m := fstest.MapFS{"a": &fstest.MapFile{Data: []byte("x")}}
	f, _ := m.Open("a")
	f2, _ := m.Open("a")
	g := newGate()
	go body.FromReader(slow{f, g})
	<-g.in
	soon(t, "a construction", func() { body.FromReader(slow{f2, nil}) })
	close(g.out)
}
''')
lib.BUGS[-1]['imports'].append('testing/fstest')

bug('c25-close-of-seeker-copies','C25',[('body/seeker.go','''	common := body.common
	length := common.BytesRemaining()

	switch whence {''','''	seekMu.Lock()
	defer seekMu.Unlock()
	common := body.common
	length := common.BytesRemaining()

	switch whence {'''),('body/seeker.go','''type seekerBody struct {''','''// seekMu orders changes of the position.
var seekMu sync.RWMutex

type seekerBody struct {''')],"Seek of one body while the Reader of its family stalls, and Seek of an unrelated body","the unrelated body waits for the Reader of the first",
'body',f'io testing time {B}',GATE+STREAM+'''
type slowFile struct {
	file
	g *gate
}

func (s *slowFile) Read(p []byte) (int, error) {
	if s.g != nil {
		s.g.Write(nil)
	}
	return s.file.Read(p)
}

func TestDemo(t *testing.T) {
	g := newGate()
	s1 := &slowFile{file{stream{data: []byte("hello")}}, g}
	s2 := &slowFile{file{stream{data: []byte("hello")}}, nil}
	b, _ := body.FromReaderAndLength(s1, 5)
	c, _ := b.Copy()
	d, _ := body.FromReaderAndLength(s2, 5)
	go b.Read(make([]byte, 3))
	<-g.in
	go c.(io.Seeker).Seek(1, io.SeekStart)
	time.Sleep(200 * time.Millisecond)
	soon(t, "a seek", func() { d.(io.Seeker).Seek(1, io.SeekStart) })
	close(g.out)
}
''')

bug('c25-writer-registry','C25',[('response/writer.go','''func (w *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
''','''// copying keeps the number of large copies low.
var copying sync.Mutex

func (w *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
	copying.Lock()
	defer copying.Unlock()
'''),('response/writer.go','	"net/http"\n','	"net/http"\n	"sync"\n')],"two responses are passed on by ReadFrom at the same time, and the first client stalls","the second client waits for the first",
'response',f'bufio io net net/http testing time {B} {R}',GATE+CONN+RW+FANCY+'''
type gfconn struct {
	*fconn
	g *gate
}

func (c gfconn) ReadFrom(r io.Reader) (int64, error) {
	if c.g != nil {
		c.g.Write(nil)
	}
	return c.fconn.ReadFrom(r)
}

func TestDemo(t *testing.T) {
	g := newGate()
	req, _ := http.NewRequest("GET", "/", nil)
	serve := func(g *gate) {
		b, _ := body.FromReader(onlyReader{body.FromString("hello")})
		response.NewBuilder().WithBody(b).Build().Serve(response.NewWriter(gfconn{&fconn{newConn()}, g}, req))
	}
	go serve(g)
	<-g.in
	soon(t, "a client", func() { serve(nil) })
	close(g.out)
}

type onlyReader struct{ io.Reader }
''')
