from lib import bug
STREAM='''
// stream is a plain reader; each read takes the next step.
type step struct {
	n   int
	err error
}
type stream struct {
	data   []byte
	pos    int
	steps  []step
	closed int
	cerr   error
	got    int
}

func (s *stream) Read(p []byte) (int, error) {
	n := len(p)
	var err error
	if len(s.steps) > 0 {
		if s.steps[0].n < n {
			n = s.steps[0].n
		}
		err = s.steps[0].err
		s.steps = s.steps[1:]
	}
	if n > len(s.data)-s.pos {
		n = len(s.data) - s.pos
	}
	copy(p[:n], s.data[s.pos:s.pos+n])
	s.pos += n
	s.got += n
	if n == 0 && err == nil && len(p) > 0 && s.pos == len(s.data) {
		err = io.EOF
	}
	return n, err
}
func (s *stream) Close() error { s.closed++; return s.cerr }

// file adds Seek.
type file struct{ stream }

func (f *file) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(f.pos)
	case io.SeekEnd:
		off += int64(len(f.data))
	}
	f.pos = int(off)
	return off, nil
}
func pattern(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i/251)
	}
	return b
}
'''
AT='''
// at adds ReadAt to file, with scripted failures.
type at struct {
	file
	atSteps []step
}

func (a *at) ReadAt(p []byte, off int64) (int, error) {
	n := len(p)
	var err error
	if off > int64(len(a.data)) {
		off = int64(len(a.data))
	}
	if n > len(a.data)-int(off) {
		n = len(a.data) - int(off)
		err = io.EOF
	}
	if len(a.atSteps) > 0 {
		if a.atSteps[0].n < n {
			n = a.atSteps[0].n
		}
		err = a.atSteps[0].err
		a.atSteps = a.atSteps[1:]
	}
	copy(p[:n], a.data[off:])
	return n, err
}
'''
B='github.com/chronos-tachyon/morehttp/body'
IM=f'io testing bytes {B}'
bug('c01-seeker-stale-position','C01',[('body/seeker.go','''	s      io.ReadSeeker
	length int64
''','''	s      io.ReadSeeker
	pos    int64 // where s is, or -1 if not known
	length int64
'''),('body/seeker.go','''	_, err := common.s.Seek(offset, io.SeekStart)
	if err != nil {
		return 0, err
	}

	x := len(p)
	n, err := common.s.Read(p)
''','''	if common.pos != offset {
		_, err := common.s.Seek(offset, io.SeekStart)
		if err != nil {
			return 0, err
		}
		common.pos = offset
	}

	x := len(p)
	n, err := common.s.Read(p)
	common.pos += int64(n)
'''),('body/body.go','''			s:      s,
			length: length,
''','''			s:      s,
			pos:    -1,
			length: length,
''')],"two copies of a seekable body: a ReadAt whose source needs more than one Read, followed by a Read at the place where the first of these ended","the seek that is saved is decided by a position that readFullAt's continuation reads do not update, so a Read at that position delivers bytes from further on",
'body',IM,STREAM+'''
func TestDemo(t *testing.T) {
	want := pattern(100)
	f := &file{stream{data: want}}
	b, err := body.FromReader(f)
	if err != nil {
		t.Fatal(err)
	}
	p := make([]byte, 10)
	if n, err := b.Read(p); n != 10 || err != nil {
		t.Fatal(n, err)
	}
	// ReadAt at 40: the source returns 20 of the 30 bytes first.
	f.steps = []step{{20, nil}}
	q := make([]byte, 30)
	if n, err := b.(io.ReaderAt).ReadAt(q, 40); n != 30 || err != nil || !bytes.Equal(q, want[40:70]) {
		t.Fatal(n, err)
	}
	if _, err := b.(io.Seeker).Seek(60, io.SeekStart); err != nil {
		t.Fatal(err)
	}
	n, err := b.Read(p)
	if err != nil || !bytes.Equal(p[:n], want[60:60+n]) {
		t.Fatalf("read at 60: %v %v, want %v", p[:n], err, want[60:60+n])
	}
}
''')
bug('c01-buffered-data-with-eof','C01',[('body/buffered.go','''			bufLen += n64
			numToRead -= n64

			common.bytes = bufNew[0:bufLen]
			endBuffer = beginBuffer + bufLen

			if err != nil {
				common.length = endBuffer
				common.err = err
				break
			}
''','''			if err != nil {
				common.length = endBuffer
				common.err = err
				if n64 == 0 {
					break
				}
				numToRead = n64
			}

			bufLen += n64
			numToRead -= n64

			common.bytes = bufNew[0:bufLen]
			endBuffer = beginBuffer + bufLen
'''),('body/buffered.go','''	if common.length < 0 {
		return -1
	}

	beginOffset''','''	if common.length < 0 || common.err != nil {
		common.length = common.start + int64(len(common.bytes))
	}

	beginOffset''')],"BytesRemaining on a body whose stream has an unknown length","",
'body',IM,'') if False else None
bug('c01-buffered-block-boundary','C01',[('body/buffered.go','''		bufCap := bufLen
		bufCap += numToRead
		bufNew := make([]byte, bufCap)
		copy(bufNew[0:bufLen], common.bytes[0:bufLen])
		common.bytes = bufNew[0:bufLen]
''','''		bufNew := common.bytes
		if bufCap := bufLen + numToRead; int64(cap(bufNew)) < bufCap {
			bufNew = make([]byte, bufCap)
			copy(bufNew, common.bytes[common.start%blockSize:])
		} else {
			bufNew = bufNew[:bufCap]
		}
		common.bytes = bufNew[0:bufLen]
''')],"a slower copy keeps the buffer from being empty when it has to grow, while the oldest position is not a multiple of 64 KiB","bytes that only the slower copy has not read yet are replaced by later ones",
'body',IM,STREAM+'''
func TestDemo(t *testing.T) {
	want := pattern(70000 * 2)
	s := &stream{data: want}
	b, err := body.FromReader(s)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := io.ReadFull(b, make([]byte, 65000)); err != nil {
		t.Fatal(err)
	}
	c, err := b.Copy()
	if err != nil {
		t.Fatal(err)
	}
	x, err := io.ReadAll(b)
	if err != nil || !bytes.Equal(x, want[65000:]) {
		t.Fatal("first copy", len(x), err)
	}
	x, err = io.ReadAll(c)
	if err != nil || !bytes.Equal(x, want[65000:]) {
		t.Fatal("second copy differs", len(x), err)
	}
}
''')
bug('c02-bytes-scrub-on-close','C02',[('body/bytes.go','''	body.data = nil
	body.offset = 0
	body.eof = true
''','''	// Payloads may be sensitive: do not leave what was delivered in memory.
	for i := range body.data[:body.offset] {
		body.data[i] = 0
	}
	body.data = nil
	body.offset = 0
	body.eof = true
''')],"a copy that is behind (or seeks back) while another copy, partly consumed, is closed","closing one copy zeroes bytes that the other one has still to deliver",
'body',IM,'''
func TestDemo(t *testing.T) {
	b := body.FromString("hello, world")
	c, err := b.Copy()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := io.ReadFull(b, make([]byte, 5)); err != nil {
		t.Fatal(err)
	}
	if err := b.Close(); err != nil {
		t.Fatal(err)
	}
	x, err := io.ReadAll(c)
	if err != nil || !bytes.Equal(x, []byte("hello, world")) {
		t.Fatalf("%q %v", x, err)
	}
}
''')
bug('c02-buffered-trim-by-last-reader','C02',[('body/buffered.go','''		if refcnt <= 0 || body.offset < beginBufferNew {
			beginBufferNew = body.offset
			refcnt = 0
		}
		if body.offset == beginBufferNew {
			refcnt++
		}
''','''		if body.eof {
			// Nothing more to deliver.
			continue
		}
		if refcnt <= 0 || body.offset < beginBufferNew {
			beginBufferNew = body.offset
			refcnt = 0
		}
		if body.offset == beginBufferNew {
			refcnt++
		}
'''),('body/buffered.go','''	beginBufferOld := common.start
	assert.Assertf(beginBufferNew''','''	beginBufferOld := common.start
	if refcnt <= 0 {
		beginBufferNew = beginBufferOld + int64(len(common.bytes))
		refcnt = int32(len(common.bodies))
	}
	assert.Assertf(beginBufferNew'''),
 ('body/buffered.go','''	if body.eof {
		return 0, common.err
	}

	beginBuffer''','''	if body.eof && common.err != nil {
		return 0, common.err
	}

	beginBuffer'''),
 ('body/buffered.go','''		endOffset = endBuffer
		err = common.err
		body.eof = true
''','''		endOffset = endBuffer
		err = common.err
	}
	if common.length >= 0 && endOffset == common.length {
		body.eof = true
''')],"","",'body',IM,'') if False else None
bug('c03-copy-after-failure-is-empty','C03',[('body/buffered.go','''	if body.closed {
		return closedSingleton, nil
	}

	dupe := &bufferedBody{''','''	if body.closed {
		return closedSingleton, nil
	}

	if body.eof {
		// Nothing is left, so there is no need to keep the Reader open.
		return Empty(), nil
	}

	dupe := &bufferedBody{''')],"a plain stream that fails, and a Copy made from a body that has met the failure","the copy reports a clean io.EOF for a truncated stream instead of the failure",
'body','errors '+IM,STREAM+'''
func TestDemo(t *testing.T) {
	boom := errors.New("boom")
	s := &stream{data: pattern(10), steps: []step{{6, nil}, {0, boom}}}
	b, err := body.FromReader(s)
	if err != nil {
		t.Fatal(err)
	}
	x, err := io.ReadAll(b)
	if len(x) != 6 || err != boom {
		t.Fatal(len(x), err)
	}
	c, err := b.Copy()
	if err != nil {
		t.Fatal(err)
	}
	x, err = io.ReadAll(c)
	if !bytes.Equal(x, nil) || err != boom {
		t.Fatalf("copy made after the failure: %d bytes, %v", len(x), err)
	}
}
''')
bug('c03-readerat-failed-read-not-counted','C03',[('body/readerat.go','''	offset += int64(n)
	body.offset = offset

	if err != nil {
		body.err = err

		if err''','''	if err != nil {
		body.err = err
	}

	offset += int64(n)
	if err == nil || err == io.EOF {
		body.offset = offset

		if err''')],"a positioned read that delivers part of the bytes together with an error other than io.EOF, and a retry after Seek(0, io.SeekCurrent)","the delivered part of a failed read is not counted, so the retry delivers it again",
'body','errors '+IM,STREAM+AT+'''
func TestDemo(t *testing.T) {
	want := pattern(20)
	a := &at{file: file{stream{data: want}}, atSteps: []step{{4, errors.New("flaky")}}}
	b, err := body.FromReader(a)
	if err != nil {
		t.Fatal(err)
	}
	p := make([]byte, 8)
	n, err := b.Read(p)
	if n != 4 || err == nil {
		t.Fatal(n, err)
	}
	if _, err := b.(io.Seeker).Seek(0, io.SeekCurrent); err != nil {
		t.Fatal(err)
	}
	x, err := io.ReadAll(b)
	if err != nil || !bytes.Equal(x, want[4:]) {
		t.Fatalf("%v %v, want %v", x, err, want[4:])
	}
}
''')
bug('c03-unexpected-eof-is-eof','C03',[('body/seeker.go','''	x := len(p)
	n, err := common.s.Read(p)
	assert.Assertf(n >= 0, "Read must return %d >= 0", n)
	assert.Assertf(n <= x, "Read must return %d <= %d", n, x)
	return n, err
}
''','''	x := len(p)
	n, err := common.s.Read(p)
	assert.Assertf(n >= 0, "Read must return %d >= 0", n)
	assert.Assertf(n <= x, "Read must return %d <= %d", n, x)
	if n == 0 && errors.Is(err, io.EOF) {
		err = io.EOF
	}
	return n, err
}
'''),('body/seeker.go','import (\n','import (\n\t"errors"\n')],"a seekable reader that fails with an error wrapping io.EOF (a network file whose server went away)","the failure is turned into the end of the data",
'body','fmt '+IM,STREAM+'''
func TestDemo(t *testing.T) {
	want := pattern(20)
	lost := fmt.Errorf("connection lost: %w", io.EOF)
	f := &file{stream{data: want, steps: []step{{4, nil}, {0, lost}}}}
	b, err := body.FromReader(f)
	if err != nil {
		t.Fatal(err)
	}
	x, err := io.ReadAll(b)
	if err != lost || !bytes.Equal(x, want[:4]) {
		t.Fatalf("%v %v", x, err)
	}
}
''')
bug('c04-readerat-close-retry','C04',[('body/readerat.go','''	common := body.common
	body.common = nil
	body.err = nil
	body.offset = 0
	body.closed = true
	return common.unref()
''','''	// Stay open if the Reader could not be closed.
	if err := body.common.unref(); err != nil {
		return err
	}

	body.common = nil
	body.err = nil
	body.offset = 0
	body.closed = true
	return nil
''')],"a reader whose Close fails, and a second Close or any other use of the body","the body stays open although its reader was closed and dropped: a second Close fails instead of returning fs.ErrClosed, and other calls run into the dropped reader",
'body','errors io/fs '+IM,STREAM+AT+'''
func TestDemo(t *testing.T) {
	a := &at{file: file{stream{data: pattern(5), cerr: errors.New("flush failed")}}}
	b, err := body.FromReader(a)
	if err != nil {
		t.Fatal(err)
	}
	if err := b.Close(); err != a.cerr {
		t.Fatal(err)
	}
	if err := b.Close(); err != fs.ErrClosed {
		t.Fatal("second Close:", err)
	}
	if n, err := b.Read(make([]byte, 3)); n != 0 || err != fs.ErrClosed {
		t.Fatal("Read:", n, err)
	}
	_, _ = io.EOF, bytes.Equal
	if a.closed != 1 {
		t.Fatal("closed", a.closed, "times")
	}
}
''')
bug('c04-readerat-copy-race','C04',[('body/readerat.go','''func (body *readerAtBody) Copy() (Body, error) {
	body.mu.Lock()
	defer body.mu.Unlock()

	if body.closed {
		return closedSingleton, nil
	}

	dupe := &readerAtBody{
		common: body.common,
		err:    body.err,
		offset: body.offset,
		closed: body.closed,
	}
	dupe.common.ref()
''','''func (body *readerAtBody) Copy() (Body, error) {
	dupe := body.snapshot()
	if dupe.closed {
		return closedSingleton, nil
	}
	dupe.common.ref()
'''),('body/readerat.go','''func (body *readerAtBody) Unwrap() io.Reader {''','''func (body *readerAtBody) snapshot() *readerAtBody {
	body.mu.Lock()
	defer body.mu.Unlock()

	return &readerAtBody{
		common: body.common,
		err:    body.err,
		offset: body.offset,
		closed: body.closed,
	}
}

func (body *readerAtBody) Unwrap() io.Reader {''')],"Close of the last open body between Copy's look at the fields and its increment of the reference count","Copy hands out an open body whose reader has been closed",
'body','runtime sync '+IM,STREAM+AT+'''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	for i := 0; i < 400000; i++ {
		a := &at{file: file{stream{data: pattern(5)}}}
		b, _ := body.FromReaderAndLength(a, 5)
		var wg sync.WaitGroup
		var c body.Body
		start := make(chan bool)
		wg.Add(2)
		go func() { defer wg.Done(); <-start; c, _ = b.Copy() }()
		go func() { defer wg.Done(); <-start; b.Close() }()
		close(start)
		wg.Wait()
		if u := c.BytesRemaining(); u == 0 && a.closed == 1 {
			// must be a closed body
			if err := c.Close(); err == nil || a.closed > 1 {
				t.Fatalf("run %d: an open copy of a closed reader; closed %d times", i, a.closed)
			}
		}
	}
	_, _ = io.EOF, bytes.Equal
}
''')
bug('c05-bytes-writeto-after-close','C05',[('body/bytes.go','''	if body.closed {
		return 0, fs.ErrClosed
	}

	if body.eof {
		return 0, nil
	}

	i := body.offset
	j := len(body.data)
''','''	if body.eof {
		return 0, nil
	}

	if body.closed {
		return 0, fs.ErrClosed
	}

	i := body.offset
	j := len(body.data)
''')],"WriteTo (or io.Copy) on a bytes body that has been closed","a closed body pretends that everything has been written",
'body','io/fs '+IM,'''
func TestDemo(t *testing.T) {
	b := body.FromString("hello")
	b.Close()
	var buf bytes.Buffer
	if n, err := io.Copy(&buf, b); n != 0 || err != fs.ErrClosed {
		t.Fatal(n, err)
	}
}
''')
bug('c05-unwrap-nil-at-end','C05',[('body/buffered.go','''	if body.closed {
		return nil
	}

	common := body.common
	common.mu.Lock()
	r := common.r''','''	if body.closed || body.eof {
		return nil
	}

	common := body.common
	common.mu.Lock()
	r := common.r''')],"Unwrap on a stream body that is at its end but not closed","Unwrap claims that no open reader is attached",
'body',IM,STREAM+'''
func TestDemo(t *testing.T) {
	s := &stream{data: pattern(9)}
	b, _ := body.FromReader(s)
	x, err := io.ReadAll(b)
	if err != nil || !bytes.Equal(x, s.data) {
		t.Fatal(err)
	}
	if b.Unwrap() != io.Reader(s) {
		t.Fatal("Unwrap", b.Unwrap())
	}
}
''')
bug('c06-readerat-negative-remaining','C06',[('body/readerat.go','''	if offset >= length {
		return 0
	}
	return (length - offset)
}

func (body *readerAtBody) Read(''','''	if body.err == io.EOF {
		return 0
	}
	return (length - offset)
}

func (body *readerAtBody) Read(''')],"a source shorter than declared whose end is found by one copy while another copy stands beyond it (after Seek)","BytesRemaining of the other copy is negative",
'body',IM,STREAM+AT+'''
func TestDemo(t *testing.T) {
	a := &at{file: file{stream{data: pattern(10)}}}
	b, _ := body.FromReaderAndLength(a, 100)
	c, _ := b.Copy()
	c.(io.Seeker).Seek(50, io.SeekStart)
	x, err := io.ReadAll(b)
	if err != nil || !bytes.Equal(x, a.data) {
		t.Fatal(err)
	}
	if n := c.BytesRemaining(); n != 0 {
		t.Fatal("BytesRemaining", n)
	}
}
''')
bug('c06-seeker-last-read-not-counted','C06',[('body/seeker.go','''	offset += int64(n)
	body.offset = offset

	if err != nil {
		body.err = err

		if err == io.EOF && offset < common.length {
			common.length = offset
		}
	}

	return n, err
''','''	if err != nil {
		body.err = err

		if end := offset + int64(n); err == io.EOF && end < common.length {
			common.length = end
		}
		return n, err
	}

	body.offset = offset + int64(n)
	return n, nil
''')],"a read that returns data together with io.EOF or an error","the bytes of that read are not counted: BytesRemaining stays above zero after EOF and Seek(0, io.SeekCurrent) goes back",
'body',IM,STREAM+'''
func TestDemo(t *testing.T) {
	f := &file{stream{data: pattern(10)}}
	b, _ := body.FromReader(f)
	p := make([]byte, 20)
	n, err := b.Read(p)
	if n != 10 || err != io.EOF || !bytes.Equal(p[:n], f.data) {
		t.Fatal(n, err)
	}
	if n := b.BytesRemaining(); n != 0 {
		t.Fatal("BytesRemaining", n)
	}
}
''')
bug('c07-seek-to-same-place-keeps-error','C07',[('body/seeker.go','''	body.err = nil
	body.offset = offset
	return offset, nil
''','''	if offset != body.offset {
		body.err = nil
		body.offset = offset
	}
	return offset, nil
''')],"a read failure of the source and a Seek to the position where the body already is","the failure sticks: the body cannot be read on after Seek(0, io.SeekCurrent)",
'body','errors '+IM,STREAM+'''
func TestDemo(t *testing.T) {
	f := &file{stream{data: pattern(10), steps: []step{{4, nil}, {0, errors.New("flaky")}}}}
	b, _ := body.FromReader(f)
	x, err := io.ReadAll(b)
	if len(x) != 4 || err == nil {
		t.Fatal(len(x), err)
	}
	if pos, err := b.(io.Seeker).Seek(0, io.SeekCurrent); pos != 4 || err != nil {
		t.Fatal(pos, err)
	}
	x, err = io.ReadAll(b)
	if err != nil || !bytes.Equal(x, f.data[4:]) {
		t.Fatal(x, err)
	}
}
''')
bug('c07-failed-relative-seek-moves','C07',[('body/bytes.go','''	case io.SeekCurrent:
		offset += int64(body.offset)
''','''	case io.SeekCurrent:
		body.offset += int(offset)
		offset = int64(body.offset)
''')],"a relative Seek to before the start, followed by more operations","the failed Seek leaves a negative position behind",
'body',IM,'''
func TestDemo(t *testing.T) {
	b := body.FromString("hello")
	s := b.(io.Seeker)
	s.Seek(2, io.SeekStart)
	if _, err := s.Seek(-3, io.SeekCurrent); err == nil {
		t.Fatal("no error")
	}
	if n := b.BytesRemaining(); n != 3 {
		t.Fatal("BytesRemaining", n)
	}
	x, err := io.ReadAll(b)
	if err != nil || !bytes.Equal(x, []byte("llo")) {
		t.Fatalf("%q %v", x, err)
	}
}
''')
bug('c08-readat-learns-wrong-end','C08',[('body/readerat.go','''	if eof && err == nil {
		err = io.EOF
	}

	return n, err
}

func (body *readerAtBody) Copy''','''	if eof && err == nil {
		err = io.EOF
	}
	if err == io.EOF && int64(n) < x {
		// The source is shorter than we thought.
		common.length = offset
	}

	return n, err
}

func (body *readerAtBody) Copy''')],"a source shorter than declared and a ReadAt that straddles its real end","the shared length is set to where the ReadAt began: the bytes from there to the real end are gone for every copy",
'body',IM,STREAM+AT+'''
func TestDemo(t *testing.T) {
	a := &at{file: file{stream{data: pattern(10)}}}
	b, _ := body.FromReaderAndLength(a, 100)
	p := make([]byte, 8)
	n, err := b.(io.ReaderAt).ReadAt(p, 6)
	if n != 4 || err != io.EOF {
		t.Fatal(n, err)
	}
	n, err = b.(io.ReaderAt).ReadAt(p[:3], 6)
	if n != 3 || err != nil || !bytes.Equal(p[:3], a.data[6:9]) {
		t.Fatal(n, err)
	}
}
''')
bug('c08-readat-honours-cursor-error','C08',[('body/readerat.go','''	if offset < 0 {
		return 0, fmt.Errorf("ReadAt error: offset %d is negative", offset)
	}

	common''','''	if offset < 0 {
		return 0, fmt.Errorf("ReadAt error: offset %d is negative", offset)
	}

	if body.err != nil && body.err != io.EOF {
		return 0, body.err
	}

	common''')],"a failed Read before a ReadAt elsewhere on the same body","a failure met by the cursor makes every positioned read fail until the next Seek, although the source has recovered",
'body','errors '+IM,STREAM+AT+'''
func TestDemo(t *testing.T) {
	a := &at{file: file{stream{data: pattern(10)}}, atSteps: []step{{0, errors.New("flaky")}}}
	b, _ := body.FromReader(a)
	p := make([]byte, 4)
	if n, err := b.Read(p); n != 0 || err == nil {
		t.Fatal(n, err)
	}
	n, err := b.(io.ReaderAt).ReadAt(p, 3)
	if n != 4 || err != nil || !bytes.Equal(p, a.data[3:7]) {
		t.Fatal(n, err)
	}
	_ = io.EOF
}
''')
bug('c09-chunked-writeto-count','C09',[('body/bytes.go','''	i := body.offset
	j := len(body.data)
	avail := (j - i)
	n, err := w.Write(body.data[i:j])
''','''	// Do not hand more than 32 KiB at a time to the writer.
	var done int64
	for len(body.data)-body.offset > 32768 {
		n, err := w.Write(body.data[body.offset : body.offset+32768])
		body.offset += n
		done += int64(n)
		if err != nil {
			return done, err
		}
	}

	i := body.offset
	j := len(body.data)
	avail := (j - i)
	n, err := w.Write(body.data[i:j])
'''),('body/bytes.go','''	return int64(n), err
}

func (body *bytesBody) Copy''','''	return done + int64(n), err
}

func (body *bytesBody) Copy''')],"a payload of more than 32 KiB and a writer that takes less than it is given in a chunk without reporting an error, over and over","WriteTo never gives up: a writer that accepts nothing and reports nothing makes it spin for ever instead of returning io.ErrShortWrite",
'body','io/ioutil time '+IM,'''
type zero struct{}

func (zero) Write(p []byte) (int, error) { return 0, nil }

func TestDemo(t *testing.T) {
	b := body.FromBytes(make([]byte, 100000))
	done := make(chan error, 1)
	go func() { _, err := b.(io.WriterTo).WriteTo(zero{}); done <- err }()
	select {
	case err := <-done:
		if err != io.ErrShortWrite {
			t.Fatal(err)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("WriteTo does not return")
	}
	_, _ = bytes.Equal, ioutil.Discard
}
''')
bug('c09-writeto-eof-on-full-count','C09',[('body/bytes.go','''	body.offset += int(n)
''','''	if err != nil {
		// Let the caller start over.
		return int64(n), err
	}
	body.offset += int(n)
''')],"a writer that accepts part of the bytes and then fails, and a retry","the accepted bytes are delivered a second time by the retry",
'body','errors '+IM,'''
type limited struct {
	bytes.Buffer
	left int
}

func (l *limited) Write(p []byte) (int, error) {
	n := len(p)
	var err error
	if n > l.left {
		n, err = l.left, errors.New("full")
	}
	l.left -= n
	l.Buffer.Write(p[:n])
	return n, err
}

func TestDemo(t *testing.T) {
	b := body.FromString("hello, world")
	l := &limited{left: 5}
	if n, err := b.(io.WriterTo).WriteTo(l); n != 5 || err == nil {
		t.Fatal(n, err)
	}
	if n := b.BytesRemaining(); n != 7 {
		t.Fatal("BytesRemaining", n)
	}
}
''')
bug('c10-seeker-readat-unlocked','C10',[('body/seeker.go','''	common := body.common
	common.mu.Lock()
	defer common.mu.Unlock()

	length := common.length
	if offset > length {
		offset = length
	}

	avail := (length - offset)
	x := int64(len(p))
	eof := false
	if x > avail {
		x = avail
		eof = true
	}

	var (
		n   int
		err error
	)
	if avail > 0 {
		n, err = common.readFullAt(''','''	common := body.common
	length := common.BytesRemaining()
	if offset > length {
		offset = length
	}

	avail := (length - offset)
	x := int64(len(p))
	eof := false
	if x > avail {
		x = avail
		eof = true
	}

	var (
		n   int
		err error
	)
	if avail > 0 {
		n, err = common.readFullAt(''')],"a ReadAt on one copy of a seekable body between the Seek and the Read of another copy","the two move the shared reader under each other's feet: wrong bytes are delivered",
'body','sync '+IM,'''
type guard struct {
	mu   sync.Mutex
	busy bool
	t    *testing.T
	pos  int64
	bad  bool
}

func (g *guard) enter() {
	g.mu.Lock()
	if g.busy {
		g.bad = true
	}
	g.busy = true
	g.mu.Unlock()
}
func (g *guard) leave() { g.mu.Lock(); g.busy = false; g.mu.Unlock() }
func (g *guard) Seek(off int64, whence int) (int64, error) {
	g.enter()
	defer g.leave()
	if whence == io.SeekEnd {
		off += 1000
	}
	g.pos = off
	return off, nil
}
func (g *guard) Read(p []byte) (int, error) {
	g.enter()
	defer g.leave()
	for i := range p {
		p[i] = byte((g.pos + int64(i)) * 7)
	}
	g.pos += int64(len(p))
	return len(p), nil
}

func TestDemo(t *testing.T) {
	g := &guard{t: t}
	b, _ := body.FromReader(g)
	c, _ := b.Copy()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		p := make([]byte, 5)
		for i := 0; i < 200000; i++ {
			b.(io.ReaderAt).ReadAt(p, int64(i%900))
		}
	}()
	go func() {
		defer wg.Done()
		p := make([]byte, 5)
		for i := 0; i < 200000; i++ {
			c.(io.ReaderAt).ReadAt(p, int64(i%900))
		}
	}()
	wg.Wait()
	_ = bytes.Equal
	if g.bad {
		t.Fatal("the reader was entered by two goroutines at once")
	}
}
''')
bug('c10-bytes-writeto-unlocked','C10',[('body/bytes.go','''	avail := (j - i)
	n, err := w.Write(body.data[i:j])
''','''	avail := (j - i)
	data := body.data[i:j]

	// The writer may be slow.
	body.mu.Unlock()
	n, err := w.Write(data)
	body.mu.Lock()

''')],"a Read, Seek or Close on the same body while WriteTo's writer is busy","the lock is not held during the write: bytes are delivered twice and the position can run past the end",
'body','sync '+IM,'''
type slow struct {
	bytes.Buffer
	in, out chan bool
}

func (s *slow) Write(p []byte) (int, error) {
	s.in <- true
	<-s.out
	return s.Buffer.Write(p)
}

func TestDemo(t *testing.T) {
	b := body.FromString("hello, world")
	s := &slow{in: make(chan bool), out: make(chan bool)}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); b.(io.WriterTo).WriteTo(s) }()
	<-s.in
	read := make(chan []byte)
	go func() { x := make([]byte, 5); n, _ := b.Read(x); read <- x[:n] }()
	var x []byte
	select {
	case x = <-read:
		s.out <- true
	case s.out <- true:
		x = <-read
	}
	wg.Wait()
	if len(x)+s.Len() != 12 {
		t.Fatalf("%q and %q", x, s.String())
	}
	_ = io.EOF
}
''')
bug('c10-buffered-lock-order','C10',[('body/buffered.go','''			common.updateStart()
		}
	}
}

func (common *bufferedCommon) updateStart() {
	var beginBufferNew int64
	var refcnt int32
	for body := range common.bodies {
''','''			common.updateStart(body)
		}
	}
}

func (common *bufferedCommon) updateStart(self *bufferedBody) {
	var beginBufferNew int64
	var refcnt int32
	for body := range common.bodies {
		if body != self {
			body.mu.Lock()
			defer body.mu.Unlock()
		}
'''),('body/buffered.go','''			if common.refcnt <= 0 {
				common.updateStart()
			}
''','''			if common.refcnt <= 0 {
				common.updateStart(body)
			}
'''),('body/buffered.go','func (common *bufferedCommon) advance(oldOffset','func (common *bufferedCommon) advance(body *bufferedBody, oldOffset'),('body/buffered.go','common.advance(beginOffset','common.advance(body, beginOffset')],"two copies of a stream used at the same time, one of them moving the buffer's start while the other waits for the shared lock","lock order inversion: deadlock",
'body','time '+IM,STREAM+'''
type gate struct {
	stream
	in, out chan bool
}

func (g *gate) Read(p []byte) (int, error) {
	g.in <- true
	<-g.out
	return g.stream.Read(p)
}

func TestDemo(t *testing.T) {
	g := &gate{stream: stream{data: pattern(10)}, in: make(chan bool), out: make(chan bool)}
	b, _ := body.FromReaderAndLength(g, 10)
	c, _ := b.Copy()
	d, _ := b.Copy()
	done := make(chan bool)
	go func() { b.Read(make([]byte, 4)); done <- true }()
	<-g.in
	g.out <- true
	<-done
	d.Close()
	// c is the only one at the start now; let it and b meet.
	for i := 0; i < 20000; i++ {
		s := &stream{data: pattern(10)}
		x, _ := body.FromReaderAndLength(s, 10)
		y, _ := x.Copy()
		f := func(b body.Body) { p := make([]byte, 1); for k := 0; k < 10; k++ { b.Read(p) }; done <- true }
		go f(x)
		go f(y)
		for k := 0; k < 2; k++ {
			select {
			case <-done:
			case <-time.After(20 * time.Second):
				t.Fatal("deadlock")
			}
		}
	}
	_, _, _ = io.EOF, bytes.Equal, c
}
''')
bug('c11-rewind-failure-closes','C11',[('body/body.go','''		_, err = s.Seek(0, io.SeekStart)
		if err != nil {
''','''		_, err = s.Seek(0, io.SeekStart)
		if err != nil {
			if c, cOK := r.(io.Closer); cOK {
				// No use to anybody any more.
				_ = c.Close()
			}
''')],"a seekable reader whose second Seek, the rewind, fails","the failed construction closes the caller's reader",
'body','errors '+IM,STREAM+'''
type norewind struct{ file }

func (f *norewind) Seek(off int64, whence int) (int64, error) {
	if whence == io.SeekStart {
		return 0, errors.New("no rewind")
	}
	return f.file.Seek(off, whence)
}

func TestDemo(t *testing.T) {
	f := &norewind{file{stream{data: pattern(4)}}}
	b, err := body.FromReader(f)
	if b != nil || err == nil {
		t.Fatal(b, err)
	}
	if f.closed != 0 {
		t.Fatal("closed")
	}
	_ = bytes.Equal
}
''')
bug('c11-stat-failure-ignored','C11',[('body/body.go','''		fi, err := f.Stat()
		if err != nil {
			return nil, fmt.Errorf("failed to determine length of body via Stat: %w", err)
		}

		length = fi.Size()
		assert.Assertf(length >= 0, "FileInfo.Size must return %d >= 0", length)
''','''		fi, err := f.Stat()
		switch {
		case err == nil:
			length = fi.Size()
			assert.Assertf(length >= 0, "FileInfo.Size must return %d >= 0", length)
		case !sOK:
			return nil, fmt.Errorf("failed to determine length of body via Stat: %w", err)
		}
''')],"a seekable fs.File whose Stat fails","the Stat error is not returned; the construction goes on with Seek",
'body','errors io/fs '+IM,STREAM+'''
type nostat struct{ file }

func (f *nostat) Stat() (fs.FileInfo, error) { return nil, errors.New("stale handle") }

func TestDemo(t *testing.T) {
	f := &nostat{file{stream{data: pattern(4)}}}
	b, err := body.FromReader(f)
	if b != nil || err == nil {
		t.Fatal(b, err)
	}
	_, _ = bytes.Equal, io.EOF
}
''')
bug('c11-probe-past-declared-length','C11',[('body/buffered.go','''		if eof && common.err == nil {
			common.length''','''		if eof && common.err == nil {
			// See how the stream ends.
			var probe [1]byte
			if n, err := common.r.Read(probe[:]); n == 0 && err != nil {
				common.err = err
			}
		}

		if eof && common.err == nil {
			common.length''')],"a stream that goes on after the declared length (a keep-alive connection)","a byte beyond the declared length is consumed",
'body',IM,STREAM+'''
func TestDemo(t *testing.T) {
	s := &stream{data: pattern(20)}
	b, err := body.FromReaderAndLength(s, 8)
	if err != nil {
		t.Fatal(err)
	}
	x, err := io.ReadAll(b)
	if err != nil || !bytes.Equal(x, s.data[:8]) {
		t.Fatal(x, err)
	}
	if s.got != 8 {
		t.Fatal(s.got, "bytes consumed")
	}
}
''')
