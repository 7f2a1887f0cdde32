from lib import bug, BUGS
import resp1, body1
from resp1 import RW, PUSH, FANCY, SRC, R, B, H, AD
from body1 import STREAM, AT, IM
BUGS.clear()
bug('c01-readerat-last-block-cache','C01',[('body/readerat.go','''	length int64
	refcnt int32
}

func (common *readerAtCommon) ref() {''','''	length int64
	refcnt int32

	// The last small read, which copies tend to repeat.
	tail    []byte
	tailOff int64
}

func (common *readerAtCommon) ref() {'''),('body/readerat.go','''	x := len(p)
	n, err := common.at.ReadAt(p, offset)
''','''	x := len(p)
	if i := offset - common.tailOff; i >= 0 && x > 0 && i+int64(x) <= int64(len(common.tail)) {
		return copy(p, common.tail[i:]), nil
	}
	n, err := common.at.ReadAt(p, offset)
	if n >= 0 && n <= x && n <= 512 {
		common.tail = append(common.tail[:0], p...)
		common.tailOff = offset
	}
''')],"a failed or short ReadAt of a small range, repeated through a copy (or after a Seek)","bytes that the source never delivered are served from the cache",
'body',IM if isinstance(IM,str) else '','') if False else None

bug('c11-empty-file-not-seekable','C11',[('body/body.go','''	if atOK && length >= 0 {''','''	if atOK && length > 0 {''')],"an empty source with positioned reads whose length is declared or comes from Stat","the Body offers neither ReadAt nor Seek",
'body',f'bytes io io/fs testing testing/fstest {B}','''
type file struct {
	fs.File
	r *bytes.Reader
}

func (f file) ReadAt(p []byte, off int64) (int, error) { return f.r.ReadAt(p, off) }

func TestDemo(t *testing.T) {
	f, err := fstest.MapFS{"empty": &fstest.MapFile{}}.Open("empty")
	if err != nil {
		t.Fatal(err)
	}
	b, err := body.FromReader(file{onlyFile{f}, bytes.NewReader(nil)})
	if err != nil {
		t.Fatal(err)
	}
	_, isAt := b.(io.ReaderAt)
	_, isSeek := b.(io.Seeker)
	if !isAt || !isSeek {
		t.Fatal("no ReadAt or Seek", isAt, isSeek)
	}
}

type onlyFile struct{ f fs.File }

func (o onlyFile) Stat() (fs.FileInfo, error) { return o.f.Stat() }
func (o onlyFile) Read(p []byte) (int, error) { return o.f.Read(p) }
func (o onlyFile) Close() error               { return o.f.Close() }
''')
bug('c11-declared-length-probed','C11',[('body/body.go','''	if sOK && length < 0 {
		var err error
		length, err = s.Seek(0, io.SeekEnd)
''','''	if sOK && length <= 0 {
		var err error
		length, err = s.Seek(0, io.SeekEnd)
''')],"a seekable source with declared length 0","the declared length is replaced by the source's own",
'body',f'strings testing {B}','''
func TestDemo(t *testing.T) {
	b, err := body.FromReaderAndLength(strings.NewReader("hello"), 0)
	if err != nil {
		t.Fatal(err)
	}
	if n := b.BytesRemaining(); n != 0 {
		t.Fatal(n)
	}
}
''')
bug('c10-readerat-seek-keeps-lock','C10',[('body/readerat.go','''	body.mu.Lock()
	defer body.mu.Unlock()

	if body.closed {
		return -1, fs.ErrClosed
	}

	common := body.common
	length := common.BytesRemaining()

	switch whence {
	case io.SeekStart:
		if offset < 0 {
			return -1, NegativeStartOffsetSeekError{offset}
		}
	case io.SeekCurrent:
		offset += body.offset
	case io.SeekEnd:
		offset += length
	default:
		return -1, UnknownWhenceSeekError{whence}
	}

	if offset < 0 {
		return -1, NegativeComputedOffsetSeekError{offset}
	}

	if offset > length {
		offset = length
	}

	body.err = nil
	body.offset = offset
	return offset, nil
''','''	body.mu.Lock()

	if body.closed {
		body.mu.Unlock()
		return -1, fs.ErrClosed
	}

	common := body.common
	length := common.BytesRemaining()

	switch whence {
	case io.SeekStart:
		if offset < 0 {
			body.mu.Unlock()
			return -1, NegativeStartOffsetSeekError{offset}
		}
	case io.SeekCurrent:
		offset += body.offset
	case io.SeekEnd:
		offset += length
	default:
		body.mu.Unlock()
		return -1, UnknownWhenceSeekError{whence}
	}

	if offset < 0 {
		return -1, NegativeComputedOffsetSeekError{offset}
	}

	if offset > length {
		offset = length
	}

	body.err = nil
	body.offset = offset
	body.mu.Unlock()
	return offset, nil
''')],"a relative Seek to before the start, then any other operation on the Body","the later operation never completes",
'body',f'io strings testing time {B}','''
type at struct{ *strings.Reader }

func TestDemo(t *testing.T) {
	b, err := body.FromReader(at{strings.NewReader("hello")})
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan int)
	go func() {
		b.(io.Seeker).Seek(-1, io.SeekCurrent)
		b.BytesRemaining()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("stuck")
	}
}
''')
bug('c10-remaining-reads-common-unlocked','C10',[('body/readerat.go','''	common.mu.Lock()
	length := common.length
	common.mu.Unlock()
	return length
''','''	return common.length
''')],"BytesRemaining or Seek of one copy while another copy finds the real end of the source","a data race on the shared length",
'body',f'io strings sync testing {B}','''
type at struct{ *strings.Reader }

func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		b, err := body.FromReaderAndLength(at{strings.NewReader("hello")}, 50)
		if err != nil {
			t.Fatal(err)
		}
		c, _ := b.Copy()
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); io.Copy(io.Discard, b) }()
		go func() {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				c.BytesRemaining()
			}
		}()
		wg.Wait()
	}
}
''',True)
bug('c12-only-first-push','C12',[('response/response.go','''			err := x.Push(url, &http.PushOptions{})
			if err != nil && !errors.Is(err, http.ErrNotSupported) {
				return err
			}
''','''			err := x.Push(url, &http.PushOptions{})
			if errors.Is(err, http.ErrNotSupported) {
				break
			}
			if err != nil {
				return err
			}
''')],"several pushes of which an early one is refused as not supported (recursive push)","the later pushes are not made",
'response',f'net/http testing {B} {R}','') if False else None
bug('c12-swallow-closed-pipe','C12',[('response/response.go','''	_, err = io.Copy(w, resp.body)
	return err
''','''	n, err := io.Copy(w, resp.body)
	if err == http.ErrBodyNotAllowed && n == 0 {
		// Nothing was expected anyway.
		err = nil
	}
	return err
''')],"a status without a body (304) and a non-empty body","Serve returns nil although no body byte was accepted",
'response',f'net/http net/http/httptest testing {B} {R}',RW+'''
func TestDemo(t *testing.T) {
	c := newConn()
	c.limit, c.err = 0, http.ErrBodyNotAllowed
	r := response.NewBuilder().WithStatus(304).WithBody(body.FromString("x")).Build()
	if err := r.Serve(c); err == nil {
		t.Fatal("no error")
	}
	_ = httptest.NewRecorder
}
''')
bug('c12-read-error-after-all','C12',[('response/response.go','''	_, err = io.Copy(w, resp.body)
	return err
''','''	length := resp.body.BytesRemaining()
	n, err := io.Copy(w, resp.body)
	if err != nil && length >= 0 && n == length {
		// Everything was delivered.
		err = nil
	}
	return err
''')],"a body of known length whose source returns an error together with (or after) its last bytes","Serve hides the error of the body",
'response','','') if False else None
bug('c12-header-join','C12',[('response/response.go','''			h[k] = copyStrings(vlist)
''','''			h[k] = nil
			for _, v := range vlist {
				if len(h[k]) > 0 && v == h[k][len(h[k])-1] {
					continue
				}
				h.Add(k, v)
			}
''')],"a header with the same value twice in a row, or a header with an empty list of values","the headers sent are not exactly those of the response",
'response',f'net/http testing {B} {R}',RW.replace('','')+'''
func TestDemo(t *testing.T) {
	c := newConn()
	r := response.NewBuilder().WithHeader("X-A", "v", true).WithHeader("X-A", "v", true).WithBody(body.FromString("x")).Build()
	if err := r.Serve(c); err != nil {
		t.Fatal(err)
	}
	if n := len(c.sent["X-A"]); n != 2 {
		t.Fatal(n)
	}
}
'''.replace('testing','testing'))
bug('c13-recover-swallows','C13',[('response/response.go','''		if resp.body == nil {
			return
		}
		err2''','''		if resp.body == nil {
			return
		}
		if resp.body.BytesRemaining() == 0 && err == nil {
			// Fully sent: nothing is held any more.
			return
		}
		err2''')],"a response that was served completely with a body of known length","the body is never closed",
'response',f'io strings testing {B} {R}',RW.replace('"net/http"','')+'''
type cl struct {
	*strings.Reader
	closed int
}

func (c *cl) Close() error { c.closed++; return nil }

func TestDemo(t *testing.T) {
	s := &cl{Reader: strings.NewReader("hello")}
	b, _ := body.FromReader(s)
	r := response.NewBuilder().WithBody(b).Build()
	if err := r.Serve(newConn()); err != nil {
		t.Fatal(err)
	}
	if s.closed != 1 {
		t.Fatal(s.closed)
	}
	_ = io.EOF
}
''') if False else None
bug('c13-panic-skips-close','C13',[('response/response.go','''	h := w.Header()
	for k''','''	if resp.code == http.StatusNoContent {
		// No body to be sent.
		b := resp.body
		resp.body = nil
		defer func() { err = b.Close() }()
		w.Header().Del("Content-Length")
		w.WriteHeader(resp.code)
		return nil
	}

	h := w.Header()
	for k''')],"x","x",'response','','') if False else None
bug('c14-head-bytes-counted','C14',[('response/writer.go','''	if w.isHEAD || w.status == http.StatusNoContent {
		return len(p), nil
	}
''','''	if w.isHEAD || w.status == http.StatusNoContent {
		w.bytes += int64(len(p))
		return len(p), nil
	}
''')],"a HEAD request or a 204 response with a body","BytesWritten counts bytes that were never sent",
'response',f'net/http testing {R}',RW+'''
func TestDemo(t *testing.T) {
	w := response.NewWriter(newConn(), &http.Request{Method: "HEAD"})
	w.Write([]byte("hello"))
	if n := w.BytesWritten(); n != 0 {
		t.Fatal(n)
	}
}
''')
bug('c14-retry-write','C14',[('response/writer.go','''	n, err := w.next.Write(p)
	assert''','''	n, err := w.next.Write(p)
	if n > 0 && n < len(p) && err == io.ErrShortWrite {
		// Try to get rid of the rest.
		var m int
		m, err = w.next.Write(p[n:])
		_ = m
	}
	assert''')],"a downstream writer that takes a part and returns io.ErrShortWrite, and then takes more","the bytes of the second attempt are not counted and the result is not the downstream's",
'response',f'io net/http testing {R}',RW+'''
type shorty struct{ *conn }

func (s shorty) Write(p []byte) (int, error) {
	if len(s.got) == 0 && len(p) > 2 {
		s.got = append(s.got, p[:2]...)
		return 2, io.ErrShortWrite
	}
	return s.conn.Write(p)
}

func TestDemo(t *testing.T) {
	c := newConn()
	w := response.NewWriter(shorty{c}, &http.Request{Method: "GET"})
	w.Write([]byte("hello"))
	if n := w.BytesWritten(); n != int64(len(c.got)) {
		t.Fatal(n, len(c.got))
	}
}
''')
bug('c15-first-write-empty','C15',[('response/writer.go','''func (w *basicWriter) Write(p []byte) (int, error) {
	w.MaybeWriteHeader(http.StatusOK)
''','''func (w *basicWriter) Write(p []byte) (int, error) {
	if len(p) > 0 {
		w.MaybeWriteHeader(http.StatusOK)
	}
''')],"an empty Write before anything else, then another status","the empty Write does not decide the status",
'response',f'net/http testing {R}',RW+'''
func TestDemo(t *testing.T) {
	c := newConn()
	w := response.NewWriter(c, &http.Request{Method: "GET"})
	w.Write(nil)
	if w.Status() != 200 || c.code != 200 {
		t.Fatal(w.Status(), c.code)
	}
}
''')
bug('c15-204-flag-set-late','C15',[('response/writer.go','''	w.next.WriteHeader(status)
}
''','''	w.next.WriteHeader(status)
	if status == http.StatusNoContent {
		w.isHEAD = true
	}
}
'''),('response/writer.go','''	if w.isHEAD || w.status == http.StatusNoContent {
		return io.Copy(io.Discard, r)
	}
''','''	if w.isHEAD {
		return w.next.(io.ReaderFrom).ReadFrom(io.LimitReader(r, 0))
	}
''')],"ReadFrom for a HEAD request or after 204","the writer is not told that its bytes were taken",
'response','','') if False else None
bug('c16-cow-headers','C16',[('response/builder.go','''	hdrs2 := copyHeaders(builder.hdrs)

''','''	hdrs2 := make(http.Header, len(builder.hdrs)+1)
	for k, vlist := range builder.hdrs {
		hdrs2[k] = vlist
	}

'''),],"a header value changed in place (or appended to within capacity) in one of two Builders","the change shows in the other Builder",
'response',f'testing {B} {R}','''
func TestDemo(t *testing.T) {
	a := response.NewBuilder().WithHeader("X-A", "1", false).WithBody(body.FromString("x"))
	b, _ := a.Copy()
	a.Headers()["X-A"][0] = "changed"
	if v := b.Headers().Get("X-A"); v != "1" {
		t.Fatal(v)
	}
}
''')
bug('c16-serve-drops-push','C16',[('response/response.go','''	h := w.Header()
	for k, vlist := range resp.hdrs {
		if k != headerPush {
''','''	h := w.Header()
	delete(resp.hdrs, headerPush)
	for k, vlist := range resp.hdrs {
		if k != headerPush {
''')],"a response with pushes that is served while (or before) a copy of it","the copy has lost its Push headers; concurrent serves race",
'response',f'net/http testing {B} {R}',RW+'''
func TestDemo(t *testing.T) {
	a := response.NewBuilder().WithHeader("Push", "/x", false).WithBody(body.FromString("x")).Build()
	b, _ := a.Copy()
	a.Serve(newConn())
	if v := b.Headers().Get("Push"); v != "/x" {
		t.Fatalf("%q", v)
	}
}
''')
bug('c16-lazy-sorted-keys','C16',[('response/response.go','''	body body.Body
	err  error
}
''','''	body body.Body
	err  error
	keys *[]string // sorted names of the headers, once known
}
'''),('response/response.go','''		body: body2,
		err:  resp.err,
	}
''','''		body: body2,
		err:  resp.err,
		keys: resp.keys,
	}
'''),('response/response.go','''	for k, vlist := range resp.hdrs {
		if k != headerPush {
			h[k] = copyStrings(vlist)
		}
	}
''','''	if resp.keys == nil {
		resp.keys = new([]string)
	}
	if len(*resp.keys) == 0 {
		for k := range resp.hdrs {
			*resp.keys = append(*resp.keys, k)
		}
		sort.Strings(*resp.keys)
	}
	for _, k := range *resp.keys {
		if k != headerPush {
			h[k] = copyStrings(resp.hdrs[k])
		}
	}
'''),('response/response.go','''	"net/http"

''','''	"net/http"
	"sort"

'''),('response/builder.go','''		body: body,
		err:  err,
	}
}''','''		body: body,
		err:  err,
		keys: new([]string),
	}
}''')],"two copies of one response served concurrently for the first time","a data race on the list of names; a client may miss headers or get them twice",
'response',f'net/http sync testing {B} {R}',RW+'''
func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		a := response.NewBuilder().WithHeader("X-A", "/x", false).WithBody(body.FromString("x")).Build()
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			b, _ := a.Copy()
			wg.Add(1)
			go func() { defer wg.Done(); b.Serve(newConn()) }()
		}
		wg.Wait()
	}
}
''',True)
bug('c17-status-stays','C17',[('response/builder.go','''	builder.code = 0
	builder.hdrs = nil
	builder.body = nil
	builder.err = nil

	if code''','''	builder.hdrs = nil
	builder.body = nil
	builder.err = nil

	if code''')],"a Builder used for a second response without setting a status","the second response has the first one's status",
'response',f'testing {B} {R}','''
func TestDemo(t *testing.T) {
	b := response.NewBuilder()
	b.WithStatus(404).WithBody(body.FromString("x")).Build()
	if c := b.WithBody(body.FromString("x")).Build().Status(); c != 200 {
		t.Fatal(c)
	}
}
''')
bug('c17-length-recomputed-for-pages','C17',[('response/builder.go','''		if _, found := hdrs[contentLength]; !found {
''','''		if v := hdrs[contentLength]; len(v) == 0 || v[0] == "0" {
''')],"an explicit Content-Length of 0 (as for a HEAD-like response)","a header that was already set is replaced",
'response',f'testing {B} {R}','''
func TestDemo(t *testing.T) {
	r := response.NewBuilder().WithHeader("Content-Length", "0", false).WithBody(body.FromString("x")).Build()
	if v := r.Headers().Get("Content-Length"); v != "0" {
		t.Fatal(v)
	}
}
''')
bug('c18-status-from-response','C18',[('handler/adaptor.go','''	resp := a.Inner.Handle(req)
	err := resp.Serve(ww)
''','''	resp := a.Inner.Handle(req)
	want = resp.Status()
	err := resp.Serve(ww)
'''),('handler/adaptor.go','''		code := strconv.Itoa(ww.Status())
''','''		code := strconv.Itoa(ww.Status())
		if want != 0 {
			code = strconv.Itoa(want)
		}
'''),('handler/adaptor.go','''	startTime := time.Now()
''','''	startTime := time.Now()
	want := 0
''')],"a response whose push fails: the client gets 500","the request is counted under the status the handler wanted",
'handler','','') if False else None
bug('c18-hist-skips-empty','C18',[('handler/adaptor.go','''		PromSendBytesHist.Observe(sendBytes)
''','''		if sendBytes > 0 || panicValue != nil {
			PromSendBytesHist.Observe(sendBytes)
		}
''')],"a successful response without body bytes (HEAD, 204, empty)","no observation in the size histogram",
'handler','','') if False else None
bug('c19-dedupe-errors','C19',[('handler/adaptor.go','''			OnPanic(err)
''','''			if x, ok := err.(interface{ Timeout() bool }); ok && x.Timeout() {
				// The client was too slow: not our failure.
				return
			}
			OnPanic(err)
''')],"a serving error that is a timeout (net.Error)","OnPanic is not called",
'handler','','') if False else None
