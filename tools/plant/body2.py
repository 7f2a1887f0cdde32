from lib import bug
from body1 import STREAM, AT, IM
import lib
lib.BUGS.clear()
bug('c01-buffered-empty-read','C01',[('body/buffered.go','''			if err != nil {
				common.length = endBuffer
				common.err = err
				break
			}
''','''			if err != nil {
				common.length = endBuffer
				common.err = err
			}
			if err != nil || n == 0 {
				break
			}
''')],"a stream that returns an empty read (0, nil) when nothing was read before it in the same call","the body takes itself to be at its end without an error, and delivers nothing any more",
'body',IM,STREAM+'''
func TestDemo(t *testing.T) {
	s := &stream{data: pattern(20), steps: []step{{5, nil}, {0, nil}}}
	b, err := body.FromReader(s)
	if err != nil {
		t.Fatal(err)
	}
	var got []byte
	for i := 0; i < 100; i++ {
		p := make([]byte, 8)
		n, err := b.Read(p)
		got = append(got, p[:n]...)
		if err == io.EOF {
			break
		}
	}
	if !bytes.Equal(got, s.data) {
		t.Fatal(got)
	}
}
''')
bug('c10-bytes-writeto-unlocked','C10',[('body/bytes.go','''	avail := (j - i)
	n, err := w.Write(body.data[i:j])
''','''	avail := (j - i)
	data := body.data[i:j]

	// The writer may be slow.
	body.mu.Unlock()
	n, err := w.Write(data)
	body.mu.Lock()

''')],"a Read, Seek or Close on the same body while WriteTo's writer is busy","the lock is not held during the write: bytes are delivered twice and the position can run past the end",
'body','sync time '+IM,'''
type slow struct {
	bytes.Buffer
	in, out chan bool
}

func (s *slow) Write(p []byte) (int, error) {
	s.in <- true
	<-s.out
	return s.Buffer.Write(p)
}

func TestDemo(t *testing.T) {
	b := body.FromString("hello, world")
	s := &slow{in: make(chan bool), out: make(chan bool)}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); b.(io.WriterTo).WriteTo(s) }()
	<-s.in
	read := make(chan []byte, 1)
	go func() { x := make([]byte, 5); n, _ := b.Read(x); read <- x[:n] }()
	time.Sleep(500 * time.Millisecond)
	s.out <- true
	wg.Wait()
	x := <-read
	if len(x)+s.Len() != 12 {
		t.Fatalf("%q and %q", x, s.String())
	}
}
''')
bug('c11-overread-with-slow-copy','C11',[('body/buffered.go','''			remain := (common.length - endBuffer)
''','''			remain := (common.length - beginBuffer)
''')],"a declared length of more than 64 KiB, a stream that goes on after it, and a copy that lags behind when the last block is fetched","the lag is added to what is still to be fetched, so bytes beyond the declared length are consumed and delivered",
'body',IM,STREAM+'''
func TestDemo(t *testing.T) {
	s := &stream{data: pattern(400000)}
	b, err := body.FromReaderAndLength(s, 150000)
	if err != nil {
		t.Fatal(err)
	}
	c, _ := b.Copy()
	x, err := io.ReadAll(b)
	if err != nil || !bytes.Equal(x, s.data[:150000]) {
		t.Fatal(len(x), err)
	}
	if s.got != 150000 {
		t.Fatal(s.got, "bytes consumed")
	}
	c.Close()
}
''')
bug('c01-buffered-huge-read','C01',[('body/buffered.go','''		numToRead := (endOffset - endBuffer)
		numToRead = int64(uint64(numToRead+blockSize-1) &^ uint64(blockSize-1))
''','''		// One block at a time.
		numToRead := int64(blockSize)
''')],"a single Read of more than 64 KiB from a stream","the body takes the end of the block for the end of the data and reports (n, nil), then nothing",
'body',IM,STREAM+'''
func TestDemo(t *testing.T) {
	s := &stream{data: pattern(200000)}
	b, err := body.FromReader(s)
	if err != nil {
		t.Fatal(err)
	}
	p := make([]byte, 300000)
	n := 0
	for i := 0; i < 1000; i++ {
		m, err := b.Read(p[n:])
		n += m
		if err == io.EOF {
			break
		}
	}
	if !bytes.Equal(p[:n], s.data) {
		t.Fatal(n)
	}
}
''')
bug('c02-copy-shares-recent-view','C02',[('body/buffered.go','''		bufNew := make([]byte, bufCap)
		copy(bufNew[0:bufLen], common.bytes[0:bufLen])
''','''		bufNew := common.bytes[:0]
		if int64(cap(bufNew)) < bufCap {
			bufNew = make([]byte, bufCap)
		} else {
			bufNew = bufNew[:bufCap]
		}
		if common.refcnt > 1 || bufLen > numToRead {
			copy(bufNew[0:bufLen], common.bytes[0:bufLen])
		}
''')],"a stream read in blocks by one body while a single other copy lags behind by less than what is fetched next","the bytes the lagging copy has not read yet are not carried over into the new buffer: it delivers zeros",
'body',IM,STREAM+'''
func TestDemo(t *testing.T) {
	s := &stream{data: pattern(300000)}
	b, err := body.FromReader(s)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := io.ReadFull(b, make([]byte, 65000)); err != nil {
		t.Fatal(err)
	}
	c, _ := b.Copy()
	io.ReadFull(b, make([]byte, 100))
	x, err := io.ReadAll(b)
	if err != nil || !bytes.Equal(x, s.data[65100:]) {
		t.Fatal(len(x), err)
	}
	x, err = io.ReadAll(c)
	if err != nil || !bytes.Equal(x, s.data[65000:]) {
		t.Fatal("the copy differs", len(x), err)
	}
}
''')
bug('c13-broken-stream-not-closed','C13',[('body/buffered.go','''	r := common.r

	common.r = nil
	common.err = nil
''','''	r := common.r
	if common.err != nil && common.err != io.EOF {
		// The Reader has failed: do not touch it again.
		r = nil
	}

	common.r = nil
	common.err = nil
''')],"a stream body whose source fails while it is served","the reader behind a body that failed is never closed",
'body','errors '+IM,STREAM+'''
func TestDemo(t *testing.T) {
	s := &stream{data: pattern(10), steps: []step{{6, nil}, {0, errors.New("boom")}}}
	b, err := body.FromReader(s)
	if err != nil {
		t.Fatal(err)
	}
	x, err := io.ReadAll(b)
	if err == nil || !bytes.Equal(x, s.data[:6]) {
		t.Fatal(err)
	}
	b.Close()
	if s.closed != 1 {
		t.Fatal("closed", s.closed, "times")
	}
}
''')
bug('c03-late-copy-loses-failure','C03',[('body/buffered.go','''			if err != nil {
				common.length = endBuffer
				common.err = err
				break
			}
''','''			if err == io.EOF || (err != nil && n == 0) {
				common.length = endBuffer
				common.err = err
				break
			}
''')],"a stream that returns data together with an error other than io.EOF, once","the failure is ignored and the stream read on after it",
'body','errors '+IM,STREAM+'''
func TestDemo(t *testing.T) {
	boom := errors.New("boom")
	s := &stream{data: pattern(10), steps: []step{{6, boom}}}
	b, err := body.FromReader(s)
	if err != nil {
		t.Fatal(err)
	}
	x, err := io.ReadAll(b)
	if err != boom || !bytes.Equal(x, s.data[:6]) {
		t.Fatal(len(x), err)
	}
}
''')
bug('c06-remaining-after-partial-failure','C06',[('body/readerat.go','''	offset += int64(n)
	body.offset = offset

	if err != nil {
		body.err = err
''','''	if err != nil {
		n = int(min64(int64(n), avail))
	}
	offset += int64(n)
	if n == len(p) || err == nil || eof {
		body.offset = offset
	}

	if err != nil {
		body.err = err
'''),('body/readerat.go','type readerAtBody struct {','''func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

type readerAtBody struct {''')],"a positioned read that returns part of the bytes together with an error","BytesRemaining does not fall by the bytes that Read delivered",
'body','errors '+IM,STREAM+AT+'''
func TestDemo(t *testing.T) {
	a := &at{file: file{stream{data: pattern(20)}}, atSteps: []step{{4, errors.New("flaky")}}}
	b, err := body.FromReader(a)
	if err != nil {
		t.Fatal(err)
	}
	n, err := b.Read(make([]byte, 8))
	if n != 4 || err == nil {
		t.Fatal(n, err)
	}
	if r := b.BytesRemaining(); r != 16 {
		t.Fatal("BytesRemaining", r)
	}
	_, _ = io.EOF, bytes.Equal
}
''')
