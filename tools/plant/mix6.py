from lib import bug
from body1 import STREAM, AT, IM
from resp1 import RW, SRC
import lib
lib.BUGS.clear()
R='github.com/chronos-tachyon/morehttp/response'
bug('c02-buffers-recycled','C02',[('body/buffered.go','''const blockSize = 65536
''','''const blockSize = 65536

// Buffers of exactly one block are recycled.
var blocks = sync.Pool{New: func() interface{} { return make([]byte, blockSize) }}

func newBuffer(n int64) []byte {
	if n <= blockSize {
		return blocks.Get().([]byte)[0:n]
	}
	return make([]byte, n)
}
'''),('body/buffered.go','''		bufNew := make([]byte, bufCap)
		copy(bufNew[0:bufLen], common.bytes[0:bufLen])
		common.bytes = bufNew[0:bufLen]
''','''		bufNew := newBuffer(bufCap)
		copy(bufNew[0:bufLen], common.bytes[0:bufLen])
		if cap(common.block) == blockSize {
			blocks.Put(common.block[0:blockSize])
		}
		common.block = nil
		if cap(bufNew) == blockSize {
			common.block = bufNew
		}
		common.bytes = bufNew[0:bufLen]
'''),('body/buffered.go','''	bytes  []byte
	length int64
	start  int64
''','''	bytes  []byte
	block  []byte
	length int64
	start  int64
'''),('body/buffered.go','''	if len(common.bodies) > 0 {
		if body.offset == common.start {
			common.refcnt--
''','''	if len(common.bodies) <= 1 && cap(common.block) == blockSize {
		blocks.Put(common.block[0:blockSize])
		common.block = nil
	}

	if len(common.bodies) > 0 {
		if body.offset == common.start {
			common.refcnt--
''')],"two streams at once: the last but one copy over the first is closed while the other still has buffered bytes, then the second stream is read","the first stream's buffer is recycled one copy too early and its remaining copy delivers bytes of the second stream",
'body',IM,STREAM+'''
func TestDemo(t *testing.T) {
	for round := 0; round < 50; round++ {
		s1 := &stream{data: pattern(100)}
		s2 := &stream{data: bytes.Repeat([]byte{0xAA}, 100)}
		a, _ := body.FromReader(s1)
		b, _ := body.FromReader(s2)
		a2, _ := a.Copy()
		a.Read(make([]byte, 10))
		a.Close()
		b.Read(make([]byte, 10))
		got, _ := io.ReadAll(a2)
		if !bytes.Equal(got, pattern(100)) {
			t.Fatal(got)
		}
	}
}
''')
bug('c05-empty-bodies-are-one','C05',[('body/body.go','''func Empty() Body {
	return &emptyBody{}
}
''','''func Empty() Body {
	emptyMu.Lock()
	defer emptyMu.Unlock()

	if emptyUnused == nil || emptyUnused.used() {
		emptyUnused = &emptyBody{}
	}
	return emptyUnused
}

// Many empty bodies are never touched; these are shared.
var (
	emptyMu     sync.Mutex
	emptyUnused *emptyBody
)

func (body *emptyBody) used() bool {
	body.mu.Lock()
	defer body.mu.Unlock()

	return body.closed
}
'''),('body/body.go','''	"io/fs"
''','''	"io/fs"
	"sync"
''')],"two empty bodies that were made while neither had been closed, and closing one","the other one is closed as well",
'body',IM,'''
func TestDemo(t *testing.T) {
	a := body.Empty()
	b := body.FromString("")
	a.Close()
	if n, err := b.Read(make([]byte, 5)); n != 0 || err != io.EOF {
		t.Fatal(n, err)
	}
	_ = bytes.Equal
}
''')
bug('c04-buffered-double-close-race','C04',[('body/buffered.go','''	err := body.common.unref(body)
	body.common = nil
	body.offset = 0
''','''	// Closing may take long, do not hold up others.
	common := body.common
	body.mu.Unlock()
	err := common.unref(body)
	body.mu.Lock()
	body.common = nil
	body.offset = 0
''')],"two goroutines closing the same body at the same time while copies of it are open","it is detached twice: the count of bodies at the start of the buffer goes wrong, and both calls succeed",
'body',"io/fs sync sync/atomic "+IM,STREAM+'''
func TestDemo(t *testing.T) {
	for round := 0; round < 20000; round++ {
		s := &stream{data: pattern(100)}
		a, _ := body.FromReader(s)
		b, _ := a.Copy()
		var ok int32
		var wg, ready sync.WaitGroup
		ready.Add(1)
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ready.Wait()
				if err := a.Close(); err == nil {
					atomic.AddInt32(&ok, 1)
				} else if err != fs.ErrClosed {
					panic(err)
				}
			}()
		}
		ready.Done()
		wg.Wait()
		if ok != 1 {
			t.Fatal(ok)
		}
		b.Close()
	}
	_, _ = bytes.Equal, io.EOF
}
''')
bug('c07-seek-end-of-declared','C07',[('body/readerat.go','''	case io.SeekEnd:
		offset += length
	default:''','''	case io.SeekEnd:
		if offset > 0 {
			offset = 0
		}
		offset += body.size
	default:'''),('body/readerat.go','''	common *readerAtCommon
	err    error
	offset int64
	closed bool
}
''','''	common *readerAtCommon
	err    error
	size   int64
	offset int64
	closed bool
}
'''),('body/readerat.go','''		err:    body.err,
		offset: body.offset,
''','''		err:    body.err,
		size:   body.size,
		offset: body.offset,
'''),('body/body.go','''		body := &readerAtBody{common: common}
''','''		body := &readerAtBody{common: common, size: length}
''')],"a source shorter than declared whose real end has been found, then a seek relative to the end","the seek is relative to the declared end",
'body',IM,STREAM+AT+'''
func TestDemo(t *testing.T) {
	s := &at{}
	s.data = pattern(40)
	b, err := body.FromReaderAndLength(s, 100)
	if err != nil {
		t.Fatal(err)
	}
	got, _ := io.ReadAll(b)
	if !bytes.Equal(got, s.data) {
		t.Fatal(got)
	}
	n, err := b.(io.Seeker).Seek(-10, io.SeekEnd)
	if n != 30 || err != nil {
		t.Fatal(n, err)
	}
}
''')
bug('c06-buffered-own-end','C06',[('body/buffered.go','''	if common.length < 0 {
		return -1
	}

	beginOffset := body.offset
	endOffset := common.length
''','''	if common.length < 0 {
		// At least a copy that is behind knows what is there.
		if n := common.start + int64(len(common.bytes)) - body.offset; n > 0 && len(common.bodies) > 1 {
			return n
		}
		return -1
	}

	beginOffset := body.offset
	endOffset := common.length
''')],"a copy of an unknown-length stream that is behind another","its BytesRemaining counts only what happens to be buffered",
'body',IM,STREAM+'''
func TestDemo(t *testing.T) {
	s := &stream{data: pattern(200000)}
	a, _ := body.FromReader(s)
	b, _ := a.Copy()
	a.Read(make([]byte, 10))
	if n := b.BytesRemaining(); n != -1 && n != 200000 {
		t.Fatal(n)
	}
	_, _ = bytes.Equal, io.EOF
}
''')
bug('c03-seeker-retry-without-seek','C03',[('body/seeker.go','''	n, err := common.readAt(p, offset)
	for n < len(p) && err == nil {
''','''	n, err := common.readAt(p, offset)
	if err != nil && err != io.EOF && n == 0 {
		// Transient failures happen; try once more.
		n, err = common.s.Read(p)
	}
	for n < len(p) && err == nil {
''')],"a positioned read whose seek fails while the source is elsewhere","the failure is swallowed and bytes from wherever the source stood are delivered",
'body',"errors "+IM,STREAM+'''
type badSeek struct {
	file
	fail bool
}

func (b *badSeek) Seek(off int64, whence int) (int64, error) {
	if b.fail {
		b.fail = false
		return 0, errors.New("seek")
	}
	return b.file.Seek(off, whence)
}

func TestDemo(t *testing.T) {
	s := &badSeek{}
	s.data = pattern(100)
	b, err := body.FromReader(s)
	if err != nil {
		t.Fatal(err)
	}
	s.fail = true
	p := make([]byte, 10)
	n, err := b.(io.ReaderAt).ReadAt(p, 50)
	if err == nil && !bytes.Equal(p[:n], s.data[50:60]) {
		t.Fatal(n, p)
	}
}
''')
bug('c09-writeto-eof-after-exact-read','C09',[('body/bytes.go','''	body.offset += int(n)
	body.eof = (err == nil)
	return int64(n), err
''','''	body.offset += int(n)
	body.eof = (n == avail)
	return int64(n), err
'''),('body/bytes.go','''	if body.eof {
		return 0, nil
	}

	i := body.offset
	j := len(body.data)
	avail := (j - i)
	n, err''','''	i := body.offset
	j := len(body.data)
	avail := (j - i)
	if avail == 0 && body.eof {
		return 0, io.EOF
	}
	n, err''')],"WriteTo on a body that is at its end already","it fails with io.EOF instead of succeeding with nothing to write",
'body',IM,'''
func TestDemo(t *testing.T) {
	b := body.FromString("hello")
	io.ReadAll(b)
	var buf bytes.Buffer
	n, err := b.(io.WriterTo).WriteTo(&buf)
	if n != 0 || err != nil {
		t.Fatal(n, err)
	}
}
''')
