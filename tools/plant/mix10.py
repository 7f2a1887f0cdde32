from lib import bug
from body1 import STREAM, AT, IM
from resp1 import RW, PUSH, FANCY, SRC, AD, P, R, B, H
import lib
lib.BUGS.clear()

bug('c04-finished-copy-detached','C04',[('body/buffered.go','''	dupe := &bufferedBody{
''','''	if body.eof && body.common.err == io.EOF {
		return &emptyBody{eof: true}, nil // nothing is left to share
	}

	dupe := &bufferedBody{
''')],"a copy made from a stream body that has met the end, and that body closed before the copy","the reader is closed although a copy is still open, and Unwrap of that copy is nil",
'body',f'io testing {B}',STREAM+'''
func TestDemo(t *testing.T) {
	s := &stream{data: []byte("hello")}
	b, _ := body.FromReader(s)
	p := make([]byte, 10)
	for {
		if _, err := b.Read(p); err == io.EOF {
			break
		}
	}
	c, _ := b.Copy()
	b.Close()
	if s.closed != 0 {
		t.Fatal("the reader was closed although a copy is open")
	}
	c.Close()
	if s.closed != 1 {
		t.Fatal("the reader was not closed")
	}
}
''')

bug('c04-declared-empty-not-attached','C04',[('body/body.go','''	f, fOK := r.(fs.File)
''','''	if length == 0 {
		return Empty(), nil // there is nothing to read
	}

	f, fOK := r.(fs.File)
''')],"a reader whose declared length is 0","it is never closed",
'body',f'io testing {B}',STREAM+'''
func TestDemo(t *testing.T) {
	s := &stream{data: []byte("hello")}
	b, _ := body.FromReaderAndLength(s, 0)
	b.Close()
	if s.closed != 1 {
		t.Fatal("the reader was not closed")
	}
}
''')

bug('c07-seek-end-asks-source','C07',[('body/seeker.go','''	case io.SeekEnd:
		offset += length
''','''	case io.SeekEnd:
		// The file may have grown or shrunk in the meantime.
		common.mu.Lock()
		end, err := common.s.Seek(0, io.SeekEnd)
		common.mu.Unlock()
		if err != nil {
			return -1, err
		}
		offset += end
''')],"a seekable source that is longer than its declared length, and a seek relative to the end","the seek goes relative to the end of the source and not of the body",
'body',f'io testing {B}',STREAM+'''
func TestDemo(t *testing.T) {
	s := &file{stream{data: []byte("hello, world")}}
	b, _ := body.FromReaderAndLength(s, 5)
	n, err := b.(io.Seeker).Seek(-2, io.SeekEnd)
	if n != 3 || err != nil {
		t.Fatal(n, err)
	}
}
''')

bug('c12-implicit-200','C12',[('response/response.go','''	w.WriteHeader(resp.code)

''','''	// The first byte brings a 200 of its own.
	if resp.code != http.StatusOK || resp.body.BytesRemaining() == 0 {
		w.WriteHeader(resp.code)
	}

''')],"a 200 response of which no byte can be read: a body of unknown length that turns out empty, or one that fails at once","the status is never sent",
'response',f'io net/http testing {R} {B}',STREAM+RW+'''
func TestDemo(t *testing.T) {
	b, _ := body.FromReader(&stream{})
	c := newConn()
	if err := response.NewBuilder().WithStatus(200).WithBody(b).Build().Serve(c); err != nil {
		t.Fatal(err)
	}
	if c.code != 200 {
		t.Fatal("no status was sent")
	}
}
''')

bug('c20-encoder-pool-indent','C20',[('body/body.go','''	buf := bufferpool.Get()
	defer bufferpool.Put(buf)

	e := json.NewEncoder(buf)
	e.SetEscapeHTML(false)
	e.SetIndent(prefix, indent)

	err := e.Encode(v)
''','''	je := encoders.Get().(*jsonEncoder)
	defer encoders.Put(je)

	buf, e := &je.buf, je.enc
	buf.Reset()
	if indent != "" {
		e.SetIndent(prefix, indent)
	}

	err := e.Encode(v)
'''),('body/body.go','''func fromJSONImpl(''','''type jsonEncoder struct {
	buf bytes.Buffer
	enc *json.Encoder
}

var encoders = sync.Pool{New: func() interface{} {
	je := &jsonEncoder{}
	je.enc = json.NewEncoder(&je.buf)
	je.enc.SetEscapeHTML(false)
	return je
}}

func fromJSONImpl('''),('body/body.go','''	"github.com/chronos-tachyon/bufferpool"
''',''),('body/body.go','''	"io/fs"
''','''	"io/fs"
	"sync"
''')],"FromJSON with an encoder that FromPrettyJSON has used before","the payload is indented",
'body',f'io testing runtime {B}','''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	for i := 0; i < 20; i++ {
		body.FromPrettyJSON(map[string]int{"a": 1})
		d, _ := io.ReadAll(body.FromJSON(map[string]int{"a": 1}))
		if string(d) != "{\\"a\\":1}\\n" {
			t.Fatalf("%q", d)
		}
	}
}
''')

bug('c10-empty-body-unlocked','C10',[('body/empty.go','''func (body *emptyBody) Read(p []byte) (int, error) {
	body.mu.Lock()
	defer body.mu.Unlock()

''','''func (body *emptyBody) Read(p []byte) (int, error) {
''')],"two goroutines that use one empty body","a data race between Read and Read, Seek, Copy or Close",
'body',f'sync testing {B}','''
func TestDemo(t *testing.T) {
	b := body.Empty()
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); b.Read(make([]byte, 1)) }()
	}
	wg.Wait()
}
''',race=True)

bug('c03-error-with-last-byte','C03',[('body/buffered.go','''		if eof && common.err == nil {
''','''		if eof && numToRead <= 0 {
''')],"a stream of known length that fails together with its last byte","the failure is taken for the end",
'body',f'io errors testing {B}',STREAM+'''
func TestDemo(t *testing.T) {
	bad := errors.New("checksum mismatch")
	s := &stream{data: []byte("hello"), steps: []step{{5, bad}}}
	b, _ := body.FromReaderAndLength(s, 5)
	_, err := io.ReadAll(b)
	if err != bad {
		t.Fatal(err)
	}
}
''')

bug('c12-bufio-flush-lost','C12',[('response/response.go','''	_, err = io.Copy(w, resp.body)
	return err
''','''	// Fewer, larger writes.
	bw := bufio.NewWriterSize(w, 4096)
	defer bw.Flush()
	_, err = io.Copy(bw, resp.body)
	return err
'''),('response/response.go','''import (
''','''import (
	"bufio"
''')],"a client that fails within the last 4 KiB","Serve returns nil",
'response',f'io errors net/http testing {R} {B}',STREAM+RW+'''
func TestDemo(t *testing.T) {
	b, _ := body.FromReader(&stream{data: []byte("hello, world")})
	c := newConn()
	c.limit, c.err = 3, errors.New("gone")
	if err := response.NewBuilder().WithStatus(200).WithBody(b).Build().Serve(c); err == nil {
		t.Fatal("Serve hid that the client is gone")
	}
}
''')

bug('c18-metrics-in-goroutine','C18',[('handler/adaptor.go','''		PromLatencyTotal.With(labels).Add(elapsed)
		PromRecvBytesTotal.With(labels).Add(recvBytes)
		PromSendBytesTotal.With(labels).Add(sendBytes)
		PromLatencyHist.Observe(elapsed)
		PromRecvBytesHist.Observe(recvBytes)
		PromSendBytesHist.Observe(sendBytes)
''','''		PromLatencyTotal.With(labels).Add(elapsed)
		PromRecvBytesTotal.With(labels).Add(recvBytes)
		PromSendBytesTotal.With(labels).Add(sendBytes)
		select {
		case samples <- sample{elapsed, recvBytes, sendBytes}:
		default:
		}
'''),('handler/adaptor.go','''type Adaptor struct {
''','''// The histograms are kept off the requests' path.
type sample struct{ elapsed, recv, send float64 }

var samples = make(chan sample, 16)

func init() {
	go func() {
		for s := range samples {
			PromLatencyHist.Observe(s.elapsed)
			PromRecvBytesHist.Observe(s.recv)
			PromSendBytesHist.Observe(s.send)
		}
	}()
}

type Adaptor struct {
''')],"more requests at a time than the queue holds, or a look at the histograms right after a request","requests are missing in the histograms",
'handler',f'net/http net/http/httptest runtime testing {P} {H} {R} {B}','''
func count() uint64 {
	fams, _ := prometheus.DefaultGatherer.Gather()
	for _, f := range fams {
		if f.GetName() == "http_latency_seconds_hist" {
			return f.Metric[0].Histogram.GetSampleCount()
		}
	}
	return 0
}

func TestDemo(t *testing.T) {
	_ = handler.PromLatencyHist
	runtime.GOMAXPROCS(1)
	h := handler.Adaptor{Inner: handler.HandlerFunc(func(*http.Request) response.Response {
		return *response.NewBuilder().WithBody(body.FromString("x")).Build()
	})}
	was := count()
	for i := 0; i < 200; i++ {
		h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
	}
	if n := count() - was; n != 200 {
		t.Fatal(n)
	}
}
''')

bug('c19-hook-rate-limited','C19',[('handler/adaptor.go','''			OnPanic(err)
''','''			if reportable(time.Now()) {
				OnPanic(err)
			}
'''),('handler/adaptor.go','''type Adaptor struct {
''','''var (
	reportMu   sync.Mutex
	lastReport time.Time
	burst      int
)

// reportable keeps a storm of panics from flooding the logs.
func reportable(now time.Time) bool {
	reportMu.Lock()
	defer reportMu.Unlock()
	if now.Sub(lastReport) >= time.Second {
		lastReport, burst = now, 0
	}
	burst++
	return burst <= 4
}

type Adaptor struct {
'''),('handler/adaptor.go','''	"strconv"
''','''	"strconv"
	"sync"
''')],"more than four failures within a second","the others are not reported",
'handler',f'net/http net/http/httptest testing {H} {R}','''
func TestDemo(t *testing.T) {
	n := 0
	handler.OnPanic = func(error) { n++ }
	h := handler.Adaptor{Inner: handler.HandlerFunc(func(*http.Request) response.Response {
		panic("oops")
	})}
	for i := 0; i < 10; i++ {
		h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
	}
	if n != 10 {
		t.Fatal(n)
	}
}
''')

bug('c08-parallel-halves','C08',[('body/readerat.go','''	var n int
	var err error
	if avail > 0 {
		n, err = common.readAt(p[0:x], offset)
	}
	if eof && err == nil {
		err = io.EOF
	}

	return n, err
}

func (body *readerAtBody) Copy()''','''	var n int
	var err error
	if x > 32768 {
		n, err = common.readHalves(p[0:x], offset)
	} else if avail > 0 {
		n, err = common.readAt(p[0:x], offset)
	}
	if eof && err == nil {
		err = io.EOF
	}

	return n, err
}

// readHalves fetches a large range with two requests at a time.
func (common *readerAtCommon) readHalves(p []byte, offset int64) (int, error) {
	half := len(p) / 2
	type result struct {
		n   int
		err error
	}
	ch := make(chan result, 1)
	go func() {
		n, err := common.readAt(p[half:], offset+int64(half))
		ch <- result{n, err}
	}()
	n, err := common.readAt(p[:half], offset)
	second := <-ch
	if err == nil || err == io.EOF {
		n += second.n
		err = second.err
	}
	return n, err
}

func (body *readerAtBody) Copy()''')],"a positioned read of more than 32 KiB whose first half comes short with io.EOF","bytes are reported as read that were not",
'body',f'io testing {B} sync',STREAM+AT+'''
// shrinking is found to end at 10000 by its first read.
type shrinking struct {
	at
	mu sync.Mutex
}

func (s *shrinking) ReadAt(p []byte, off int64) (int, error) {
	const end = 10000
	n := 0
	for n < len(p) && off+int64(n) < end {
		p[n] = 'x'
		n++
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func TestDemo(t *testing.T) {
	s := &shrinking{}
	s.data = make([]byte, 100000)
	for i := range s.data {
		s.data[i] = 'x'
	}
	b, _ := body.FromReaderAndLength(s, 100000)
	p := make([]byte, 40000)
	n, _ := b.(io.ReaderAt).ReadAt(p, 0)
	if n > 10000 {
		t.Fatal(n)
	}
}
''')
