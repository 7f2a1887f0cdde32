from lib import bug
from body1 import STREAM, AT, IM
from resp1 import RW, SRC
import lib
lib.BUGS.clear()
R='github.com/chronos-tachyon/morehttp/response'
bug('c08-bytes-readat-overflow','C08',[('body/bytes.go','''	if offset > bodyLen {
		offset = bodyLen
	}

	var err error
	n := len(p)
	avail := bodyLen - offset
	if int64(n) > avail {
		n = int(avail)
		err = io.EOF
	}

	i := int(offset)
	j := i + n
''','''	var err error
	n := len(p)
	if offset+int64(n) > bodyLen {
		if offset > bodyLen {
			offset = bodyLen
		}
		n = int(bodyLen - offset)
		err = io.EOF
	}

	i := int(offset)
	j := i + n
''')],"a positioned read at an offset within len(p) of the largest int64","the sum overflows, the read is taken to fit and panics with the body's lock held by a deferred unlock only",
'body',"math "+IM,'''
func TestDemo(t *testing.T) {
	b := body.FromString("hello")
	p := make([]byte, 8)
	n, err := b.(io.ReaderAt).ReadAt(p, math.MaxInt64-3)
	if n != 0 || err != io.EOF {
		t.Fatal(n, err)
	}
	_ = bytes.Equal
}
''')
bug('c11-irregular-file-length-unknown','C11',[('body/body.go','''		length = fi.Size()
		assert.Assertf(length >= 0, "FileInfo.Size must return %d >= 0", length)
	}
''','''		length = fi.Size()
		assert.Assertf(length >= 0, "FileInfo.Size must return %d >= 0", length)

		// Devices and the like do not have a meaningful size.
		if m := fi.Mode(); m&(fs.ModeDevice|fs.ModeIrregular) != 0 {
			length = -1
		}
	}
''')],"a file whose mode has the device or irregular bit (block devices, files of odd file systems) and that cannot seek","its length is not known and ReadAt and Seek are not offered",
'body',"io/fs time "+IM,STREAM+AT+'''
type info struct{ n int64 }

func (i info) Name() string       { return "x" }
func (i info) Size() int64        { return i.n }
func (i info) Mode() fs.FileMode  { return fs.ModeIrregular | 0644 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() interface{}   { return nil }

type odd struct {
	at
	Seek bool
}

func (o *odd) Stat() (fs.FileInfo, error) { return info{int64(len(o.data))}, nil }

func TestDemo(t *testing.T) {
	o := &odd{}
	o.data = pattern(40)
	b, err := body.FromReader(o)
	if err != nil {
		t.Fatal(err)
	}
	if b.BytesRemaining() != 40 {
		t.Fatal(b.BytesRemaining())
	}
	if _, ok := b.(io.Seeker); !ok {
		t.Fatal("no Seek")
	}
	_ = bytes.Equal
}
''')
bug('c01-too-many-empty-reads','C01',[('body/buffered.go','''		for numToRead > 0 {
			i := bufLen
''','''		empty := 0
		for numToRead > 0 {
			i := bufLen
'''),('body/buffered.go','''			if err != nil {
				common.length = endBuffer
				common.err = err
				break
			}
''','''			if err != nil {
				common.length = endBuffer
				common.err = err
				break
			}

			if n > 0 {
				empty = 0
				continue
			}
			empty++
			if empty >= 16 {
				// Do not spin on a Reader with nothing to say.
				break
			}
''')],"a stream that returns 16 empty reads in a row","the body takes itself to be at its end although the stream goes on",
'body',IM,STREAM+'''
func TestDemo(t *testing.T) {
	s := &stream{data: pattern(20), steps: []step{{5, nil}}}
	for i := 0; i < 40; i++ {
		s.steps = append(s.steps, step{})
	}
	b, err := body.FromReader(s)
	if err != nil {
		t.Fatal(err)
	}
	var got []byte
	for i := 0; i < 100; i++ {
		p := make([]byte, 8)
		n, err := b.Read(p)
		got = append(got, p[:n]...)
		if err == io.EOF {
			break
		}
	}
	if !bytes.Equal(got, s.data) {
		t.Fatal(got)
	}
}
''')
bug('c03-temporary-error-retried','C03',[('body/buffered.go','''			if err != nil {
				common.length = endBuffer
				common.err = err
				break
			}
''','''			if err != nil {
				if te, ok := err.(interface{ Temporary() bool }); ok && te.Temporary() && n > 0 {
					continue
				}
				common.length = endBuffer
				common.err = err
				break
			}
''')],"a stream that fails temporarily (a timeout) together with some data","the failure is swallowed and the stream read on",
'body',"errors "+IM,STREAM+'''
type tmo struct{ error }

func (tmo) Temporary() bool { return true }

func TestDemo(t *testing.T) {
	want := tmo{errors.New("timeout")}
	s := &stream{data: pattern(20), steps: []step{{5, nil}, {3, want}}}
	b, err := body.FromReader(s)
	if err != nil {
		t.Fatal(err)
	}
	got, err := io.ReadAll(b)
	if !bytes.Equal(got, s.data[:8]) || err != want {
		t.Fatal(got, err)
	}
}
''')
bug('c08-short-read-yields-lock','C08',[('body/seeker.go','''	for n < len(p) && err == nil {
		x := len(p) - n
''','''	for n < len(p) && err == nil {
		// Give others a chance between the pieces of a long read.
		common.mu.Unlock()
		common.mu.Lock()

		x := len(p) - n
''')],"a positioned read over a seekable source whose read comes out short, while another body of the family reads","the rest of the read continues wherever the other body left the source",
'body','sync '+IM,STREAM+'''
type slowFile struct{ file }

func (f *slowFile) Read(p []byte) (int, error) {
	if len(p) > 1 {
		time.Sleep(3 * time.Millisecond)
		p = p[:1]
	}
	return f.file.Read(p)
}

func TestDemo(t *testing.T) {
	f := &slowFile{}
	f.data = pattern(4000)
	a, err := body.FromReader(f)
	if err != nil {
		t.Fatal(err)
	}
	b, _ := a.Copy()
	var wg sync.WaitGroup
	wg.Add(2)
	p := make([]byte, 200)
	var n int
	go func() { defer wg.Done(); n, _ = a.(io.ReaderAt).ReadAt(p, 100) }()
	go func() {
		defer wg.Done()
		for i := 0; i < 3000; i++ {
			b.Read(make([]byte, 1))
		}
	}()
	wg.Wait()
	if n != 200 || !bytes.Equal(p, f.data[100:300]) {
		t.Fatal(n)
	}
}
''')
lib.BUGS[-1]['imports']+=['time']
bug('c13-source-panic-deadlock','C13',[('body/seeker.go','''	common := body.common
	common.mu.Lock()
	defer common.mu.Unlock()

	offset := body.offset
	length := common.length
	if offset > length {
		offset = length
	}

	avail := (length - offset)
	x := int64(len(p))
	eof := false
	if x > avail {
		x = avail
		eof = true
	}

	var (
		n   int
		err error
	)
	if avail > 0 {
		n, err = common.readAt(p[0:x], offset)
	}
''','''	common := body.common
	common.mu.Lock()

	offset := body.offset
	length := common.length
	if offset > length {
		offset = length
	}

	avail := (length - offset)
	x := int64(len(p))
	eof := false
	if x > avail {
		x = avail
		eof = true
	}

	var (
		n   int
		err error
	)
	if avail > 0 {
		n, err = common.readAt(p[0:x], offset)
	}
'''),('body/seeker.go','''			common.length = offset
		}
	}

	return n, err
}
''','''			common.length = offset
		}
	}

	common.mu.Unlock()
	return n, err
}
''')],"a source that panics in Read while the response is served","the source's lock stays held: the Close on the way out blocks forever",
'response','io net/http testing time github.com/chronos-tachyon/morehttp/body '+R,RW+'''
type bad struct{ pos, closed int }

func (b *bad) Read(p []byte) (int, error) { panic("source") }
func (b *bad) Close() error               { b.closed++; return nil }
func (b *bad) Seek(off int64, whence int) (int64, error) {
	if whence == io.SeekEnd {
		off += 40
	}
	return off, nil
}

func TestDemo(t *testing.T) {
	s := &bad{}
	b, err := body.FromReader(s)
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() { recover() }()
		new(response.Builder).WithBody(b).Build().Serve(newConn())
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("stuck")
	}
	if s.closed != 1 {
		t.Fatal(s.closed)
	}
}
''')
bug('c10-writeto-panic-keeps-lock','C10',[('body/bytes.go','''func (body *bytesBody) WriteTo(w io.Writer) (int64, error) {
	body.mu.Lock()
	defer body.mu.Unlock()

	if body.closed {
		return 0, fs.ErrClosed
	}

	if body.eof {
		return 0, nil
	}
''','''func (body *bytesBody) WriteTo(w io.Writer) (int64, error) {
	body.mu.Lock()

	if body.closed {
		body.mu.Unlock()
		return 0, fs.ErrClosed
	}

	if body.eof {
		body.mu.Unlock()
		return 0, nil
	}
'''),('body/bytes.go','''	body.offset += int(n)
	body.eof = (err == nil)
	return int64(n), err
''','''	body.offset += int(n)
	body.eof = (err == nil)
	body.mu.Unlock()
	return int64(n), err
''')],"a writer that panics (an aborted connection) while a body is written out to it, and that body used or closed afterwards","the lock of the body stays held and every later operation on it blocks forever",
'body','time '+IM,'''
type boom struct{}

func (boom) Write(p []byte) (int, error) { panic("aborted") }

func TestDemo(t *testing.T) {
	b := body.FromString("hello")
	func() {
		defer func() { recover() }()
		b.(io.WriterTo).WriteTo(boom{})
	}()
	done := make(chan bool)
	go func() { b.Close(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("stuck")
	}
	_ = bytes.Equal
}
''')
