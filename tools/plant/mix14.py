from lib import bug
from body1 import STREAM, AT, IM
from resp1 import RW, PUSH, FANCY, SRC, P, R, B, H
import lib
lib.BUGS.clear()
SERVE='''
type handlerFunc func(*http.Request) response.Response

func (f handlerFunc) Handle(r *http.Request) response.Response { return f(r) }
'''
bug('c09-chunks-of-large-bytes','C09',[('body/bytes.go','''	avail := (j - i)
	n, err := w.Write(body.data[i:j])
	assert.Assertf(n >= 0, "Write must return %d >= 0", n)
	assert.Assertf(n <= avail, "Write must return %d <= %d", n, avail)
''','''	avail := (j - i)
	n := 0
	var err error
	for avail-n > 1<<20 && err == nil { // not too much at once
		var k int
		k, err = w.Write(body.data[i+n : i+n+1<<20])
		n += k
	}
	if err == nil {
		var k int
		k, err = w.Write(body.data[i+n : j])
		n += k
	}
	if n == avail {
		err = nil
	}
	assert.Assertf(n >= 0, "Write must return %d >= 0", n)
	assert.Assertf(n <= avail, "Write must return %d <= %d", n, avail)
''')],"more than 1 MiB of bytes and a writer that fails with a full count, or takes less than it is given without an error","the error is lost",
'body',f'errors testing {B} io','''
type fails struct {
	n   int
	err error
}

func (f *fails) Write(p []byte) (int, error) {
	f.n += len(p)
	if f.n == 1<<20+100 {
		return len(p), f.err
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	b := body.FromBytes(make([]byte, 1<<20+100))
	if _, err := b.(io.WriterTo).WriteTo(&fails{err: errors.New("disk")}); err == nil {
		t.Fatal("the error is lost")
	}
}
''')
bug('c01-large-read-ahead','C01',[('body/buffered.go','''		bufLen := (endBuffer - beginBuffer)
		bufCap := bufLen
''','''		if numToRead > 1<<20 {
			numToRead = 1 << 20
			eof = false
			endOffset = endBuffer + numToRead
		}

		bufLen := (endBuffer - beginBuffer)
		bufCap := bufLen
''')],"a Read of more than 1 MiB from a stream, by a body that lags","bytes are missing or the read panics",
'body',f'bytes io testing {B}',STREAM+'''
func TestDemo(t *testing.T) {
	data := pattern(3 << 20)
	b, _ := body.FromReader(&stream{data: data})
	c, _ := b.Copy()
	io.ReadFull(c, make([]byte, 300000))
	var got []byte
	p := make([]byte, 2<<20)
	for {
		n, err := b.Read(p)
		got = append(got, p[:n]...)
		if err != nil {
			break
		}
	}
	if !bytes.Equal(got, data) {
		t.Fatal("got", len(got), "bytes")
	}
}
''')
bug('c14-large-writes-in-parts','C14',[('response/writer.go','''	n, err := w.next.Write(p)
	assert.Assertf(n >= 0, "%d >= 0", n)
	w.bytes += int64(n)
''','''	total := 0
	for len(p) > 1<<18 { // keep the frames small
		n, err := w.next.Write(p[:1<<18])
		total += n
		if err != nil {
			w.sawError = true
			return total, err
		}
		w.bytes += int64(n)
		p = p[1<<18:]
	}

	n, err := w.next.Write(p)
	assert.Assertf(n >= 0, "%d >= 0", n)
	w.bytes += int64(n)
	n += total
''')],"a single Write of more than 256 KiB to a client that fails within it","the bytes that the client took of the failed part are not counted",
'response',f'errors net/http testing {R}',RW+'''
func TestDemo(t *testing.T) {
	c := newConn()
	c.limit, c.err = 100000, errors.New("gone")
	req, _ := http.NewRequest("GET", "/", nil)
	w := response.NewWriter(c, req)
	w.Write(make([]byte, 300000))
	if w.BytesWritten() != 100000 {
		t.Fatal(w.BytesWritten(), "bytes")
	}
}
''')
bug('c12-large-body-limit','C12',[('response/response.go','''	_, err = io.Copy(w, resp.body)
	return err''','''	if n := resp.body.BytesRemaining(); n > 1<<20 {
		// What is known to be large goes out in parts, with a Flush in between.
		for n > 0 && err == nil {
			_, err = io.CopyN(w, resp.body, 1<<20)
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
			n -= 1 << 20
		}
		if err == io.EOF {
			err = nil
		}
		return err
	}

	_, err = io.Copy(w, resp.body)
	return err''')],"a body of more than 1 MiB that fails with an error io.EOF, or a client that returns one","Serve returns nil though the client did not get everything",
'response',f'io net/http testing {R} {B}',RW+'''
func TestDemo(t *testing.T) {
	c := newConn()
	c.limit, c.err = 1000, io.EOF
	err := response.NewBuilder().WithBody(body.FromBytes(make([]byte, 2<<20))).Build().Serve(c)
	if err == nil {
		t.Fatal("no error though the client got", len(c.got))
	}
	_ = http.StatusOK
}
''')
bug('c20-large-json-buffer','C20',[('body/body.go','''	src := buf.Bytes()
	var dst []byte
	if isPretty {''','''	src := buf.Bytes()
	var dst []byte
	if !isPretty && len(src) > 1<<19 {
		dst = src // too large to be copied
	} else if isPretty {''')],"a JSON payload of more than 512 KiB, and another payload built later","the bytes are those of the later payload",
'body',f'io strings testing {B}','''
func TestDemo(t *testing.T) {
	b := body.FromJSON(strings.Repeat("a", 600000))
	for i := 0; i < 200; i++ {
		body.FromJSON(strings.Repeat("b", 600000))
	}
	p, _ := io.ReadAll(b)
	if strings.Contains(string(p), "b") {
		t.Fatal("overwritten")
	}
}
''')
bug('c18-large-response-latency','C18',[('handler/adaptor.go','''		PromLatencyTotal.With(labels).Add(elapsed)
''','''		if sendBytes < 1<<20 { // long transfers would spoil the mean
			PromLatencyTotal.With(labels).Add(elapsed)
		}
''')],"a response of 1 MiB or more","its time is not counted",
'handler',f'net/http net/http/httptest testing time github.com/prometheus/client_golang/prometheus/testutil {H} {R} {B}',SERVE+'''
func TestDemo(t *testing.T) {
	h := handler.Adaptor{Inner: handlerFunc(func(*http.Request) response.Response {
		time.Sleep(20 * time.Millisecond)
		return *response.NewBuilder().WithStatus(200).WithBody(body.FromBytes(make([]byte, 1<<20))).Build()
	})}
	h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
	if v := testutil.ToFloat64(handler.PromLatencyTotal.WithLabelValues("200")); v < 0.02 {
		t.Fatal("latency", v)
	}
}
''')
