from lib import bug, BUGS
import resp1
from resp1 import RW, PUSH, FANCY, SRC, R, B, H
try:
    from resp1 import AD
except ImportError: AD=''
BUGS.clear()
M='github.com/chronos-tachyon/morehttp/internal/mockreader'
W='google.golang.org/protobuf/types/known/wrapperspb'
SP='google.golang.org/protobuf/types/known/structpb'
PB='''
func read(t *testing.T, b body.Body) string {
	c, err := b.Copy()
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	raw, err := io.ReadAll(c)
	if err != nil {
		t.Fatal(err)
	}
	return string(raw)
}
'''
bug('c20-proto-pooled-buffer','C20',[('body/body.go','''	raw, err := proto.Marshal(msg)
	if err != nil {
		panic(err)
	}

	return FromBytes(raw)
''','''	buf := bufferpool.Get()
	defer bufferpool.Put(buf)

	raw, err := proto.MarshalOptions{}.MarshalAppend(buf.Bytes()[:0], msg)
	if err != nil {
		panic(err)
	}

	return FromBytes(raw)
''')],"a message of at most the pooled buffer's capacity, then another payload built from the same pooled buffer","the first body's bytes are overwritten by the later payload",
'body',f'io testing {B} {W}',PB+'''
func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		b := body.FromProto(wrapperspb.String("the first message"))
		want := read(t, b)
		for k := 0; k < 20; k++ {
			body.FromJSON("some other payload").Close()
		}
		if got := read(t, b); got != want {
			t.Fatalf("changed to %q", got)
		}
	}
}
''')
bug('c20-rawmessage-alias','C20',[('body/body.go','''	prefix := ""
	indent := ""
''','''	if raw, ok := v.(json.RawMessage); ok && !isPretty && json.Valid(raw) {
		// Already encoded.
		return FromBytes(raw)
	}

	prefix := ""
	indent := ""
''')],"a json.RawMessage value that the caller changes afterwards","the body aliases the caller's bytes and changes with them",
'body',f'encoding/json io testing {B}',PB+'''
func TestDemo(t *testing.T) {
	raw := json.RawMessage("{\\"a\\":1}")
	b := body.FromJSON(raw)
	want := read(t, b)
	raw[1] = ' '
	if got := read(t, b); got != want {
		t.Fatalf("%q became %q", want, got)
	}
}
''')
bug('c20-double-put','C20',[('body/body.go','''	err := e.Encode(v)
	if err != nil {
		panic(err)
	}

	src := buf.Bytes()
''','''	err := e.Encode(v)
	if err != nil {
		bufferpool.Put(buf)
		panic(err)
	}

	src := buf.Bytes()
''')],"a value that cannot be encoded, then two concurrent (or nested) encodings that get the same pooled buffer twice","encodings run into each other",
'body',f'encoding/json io testing {B}',PB+'''
type nested struct{}

func (nested) MarshalJSON() ([]byte, error) {
	b := body.FromJSON("inner")
	defer b.Close()
	return io.ReadAll(b)
}

var _ json.Marshaler = nested{}

func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		func() {
			defer func() { recover() }()
			body.FromJSON(make(chan int))
		}()
		b := body.FromJSON([]interface{}{nested{}, nested{}})
		if got := read(t, b); got != "[\\"inner\\",\\"inner\\"]\\n" {
			t.Fatalf("%q", got)
		}
		b.Close()
		// Two buffers in use at once, filled one after the other.
		c := body.FromPrettyJSON([]interface{}{"x", nested{}})
		if got := read(t, c); got != "[\\r\\n  \\"x\\",\\r\\n  \\"inner\\"\\r\\n]\\r\\n" {
			t.Fatalf("%q", got)
		}
		c.Close()
	}
	conc(t)
}

type slow struct{ a, b chan int }

func (s slow) MarshalJSON() ([]byte, error) { return []byte("1"), nil }

func conc(t *testing.T) {
	// Many goroutines encode at the same time.
	done := make(chan string, 8)
	for g := 0; g < 8; g++ {
		g := g
		go func() {
			bad := ""
			for i := 0; i < 3000 && bad == ""; i++ {
				func() {
					defer func() { recover() }()
					body.FromJSON([]interface{}{g, make(chan int)})
				}()
				list := make([]int, 100)
				for k := range list {
					list[k] = g
				}
				b := body.FromJSON(list)
				raw, _ := io.ReadAll(b)
				var back []int
				if err := json.Unmarshal(raw, &back); err != nil || len(back) != 100 || back[0] != g || back[99] != g {
					bad = string(raw)
				}
			}
			done <- bad
		}()
	}
	for g := 0; g < 8; g++ {
		if bad := <-done; bad != "" {
			t.Fatalf("%q", bad)
		}
	}
}
''',True)
bug('c20-pretty-chunk-boundary','C20',[('body/body.go','''		dst = make([]byte, 0, len(src)+numLF)
		for _, ch := range src {
			if ch == '\\n' {
				dst = append(dst, '\\r', '\\n')
			} else {
				dst = append(dst, ch)
			}
		}
''','''		dst = make([]byte, 0, len(src)+numLF)
		for len(src) > 0 {
			i := bytes.IndexByte(src, '\\n')
			if i > 0 || len(dst) == 0 {
				dst = append(dst, src[:i]...)
				dst = append(dst, '\\r')
			}
			dst = append(dst, '\\n')
			src = src[i+1:]
		}
''')],"pretty JSON in which two line ends follow each other directly","a bare LF in the output",
'body',f'encoding/json io testing {B}','') if False else None
bug('c20-pretty-scratch','C20',[('body/body.go','''		dst = make([]byte, 0, len(src)+numLF)
		for _, ch''','''		dst = prettyScratch.Get().([]byte)[:0]
		if need := len(src) + numLF; cap(dst) < need {
			dst = make([]byte, 0, need)
		}
		defer prettyScratch.Put(dst[:0]) //nolint:staticcheck
		for _, ch'''),('body/body.go','''func fromJSONImpl(''','''// prettyScratch saves growing the output again and again.
var prettyScratch = sync.Pool{New: func() interface{} { return make([]byte, 0, 1024) }}

func fromJSONImpl('''),('body/body.go','''	"io/fs"

''','''	"io/fs"
	"sync"

''')],"a second FromPrettyJSON after (or while) the first body is in use","the first body's bytes are overwritten",
'body',f'io testing {B}',PB+'''
func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		b := body.FromPrettyJSON([]int{1, 2, 3})
		want := read(t, b)
		for k := 0; k < 20; k++ {
			body.FromPrettyJSON("something else altogether").Close()
		}
		if got := read(t, b); got != want {
			t.Fatalf("%q became %q", want, got)
		}
	}
}
''')
bug('c20-memo-by-pointer','C20',[('body/body.go','''	raw, err := proto.Marshal(msg)
	if err != nil {
		panic(err)
	}

	return FromBytes(raw)
''','''	protoMemo.mu.Lock()
	defer protoMemo.mu.Unlock()
	if protoMemo.msg == msg {
		return FromBytes(protoMemo.raw)
	}

	raw, err := proto.Marshal(msg)
	if err != nil {
		panic(err)
	}

	protoMemo.msg, protoMemo.raw = msg, raw
	return FromBytes(raw)
'''),('body/body.go','''// FromProto returns''','''// protoMemo remembers the last message, as services tend to send the same one.
var protoMemo struct {
	mu  sync.Mutex
	msg proto.Message
	raw []byte
}

// FromProto returns'''),('body/body.go','''	"io/fs"

''','''	"io/fs"
	"sync"

''')],"the same message object serialised twice in a row, changed in between","the second body holds the old encoding",
'body',f'io testing {B} {W}',PB+'''
func TestDemo(t *testing.T) {
	m := wrapperspb.String("one")
	a := read(t, body.FromProto(m))
	m.Value = "two"
	if b := read(t, body.FromProto(m)); a == b {
		t.Fatalf("%q both times", a)
	}
}
''')
bug('c20-encode-error-leaves-rest','C20',[('body/body.go','''	buf := bufferpool.Get()
	defer bufferpool.Put(buf)

	e := json''','''	buf := jsonBuffer()
	defer jsonDone(buf)

	e := json'''),('body/body.go','''func fromJSONImpl(''','''var jsonFree = make(chan *bytes.Buffer, 4)

func jsonBuffer() *bytes.Buffer {
	select {
	case buf := <-jsonFree:
		return buf
	default:
		return bufferpool.Get()
	}
}

func jsonDone(buf *bytes.Buffer) {
	if recover := buf.Len() == 0; recover {
		// Nothing came of it.
		bufferpool.Put(buf)
		return
	}
	select {
	case jsonFree <- buf:
	default:
		bufferpool.Put(buf)
	}
}

func fromJSONImpl(''')],"any second payload","the encoder appends to what the buffer still holds",
'body',f'io testing {B}',PB+'''
func TestDemo(t *testing.T) {
	body.FromJSON(1)
	if got := read(t, body.FromJSON(2)); got != "2\\n" {
		t.Fatalf("%q", got)
	}
}
''')
bug('c20-prototext-shared-options','C20',[('body/body.go','''	if o == nil {
		o = &prototext.MarshalOptions{
			Multiline: true,
			Indent:    "  ",
		}
	}

	raw, err := o.Marshal(msg)
	if err != nil {
		panic(err)
	}

	return FromBytes(raw)
''','''	if o == nil {
		o = &defaultTextOptions
	}

	textBuf = textBuf[:0]
	raw, err := o.MarshalAppend(textBuf, msg)
	if err != nil {
		panic(err)
	}
	if cap(raw) <= 4096 {
		textBuf = raw
	}

	return FromBytes(append([]byte(nil), raw...))
'''),('body/body.go','''// FromProtoText returns''','''var (
	defaultTextOptions = prototext.MarshalOptions{Multiline: true, Indent: "  "}

	// textBuf is reused from one message to the next.
	textBuf []byte
)

// FromProtoText returns''')],"two goroutines that serialise messages as text at the same time","they write into the same buffer: bodies mix up",
'body',f'strings sync testing {B} {W} google.golang.org/protobuf/encoding/prototext io',PB+'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := strings.Repeat(string(rune('a'+g)), 200)
			for i := 0; i < 500; i++ {
				m := &wrapperspb.StringValue{}
				b := body.FromProtoText(wrapperspb.String(s), nil)
				raw, _ := io.ReadAll(b)
				if err := prototext.Unmarshal(raw, m); err != nil || m.Value != s {
					t.Errorf("%q", raw)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''',True)

MK='''
func try(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}
'''
bug('c21-next-window','C21',[('internal/mockreader/mockreader.go','''	r.mu.Lock()
	defer r.mu.Unlock()

	index := r.index
	length := uint(len(r.expect))
	if index >= length {
		return length, Expectation{}
	}

	r.index++
	return index, r.expect[index]
''','''	r.mu.Lock()
	index := r.index
	r.mu.Unlock()

	length := uint(len(r.expect))
	if index >= length {
		return length, Expectation{}
	}

	expect := r.expect[index]
	r.mu.Lock()
	r.index = index + 1
	r.mu.Unlock()
	return index, expect
''')],"two goroutines that call the MockReader at the same time","both get the same expectation",
'internal/mockreader',f'sync testing {M}',MK+'''
func TestDemo(t *testing.T) {
	for i := 0; i < 3000; i++ {
		var list []mockreader.Expectation
		for k := 0; k < 40; k++ {
			list = append(list, mockreader.ExpectSeek(0, 0, int64(k), nil))
		}
		m := mockreader.New(list...)
		var mu sync.Mutex
		seen := map[int64]int{}
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 10; k++ {
					n, _ := m.Seek(0, 0)
					mu.Lock()
					seen[n]++
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if len(seen) != 40 {
			t.Fatalf("%d of 40 expectations used", len(seen))
		}
	}
}
''')
bug('c21-mismatch-not-consumed','C21',[('internal/mockreader/mockreader.go','''	index, expect := r.next()
	actual := Expectation{op: SeekOp, input1: offset, input2: whence}

	if !expect.Matches(actual) {
''','''	index, expect := r.next()
	actual := Expectation{op: SeekOp, input1: offset, input2: whence}

	if !expect.Matches(actual) {
		if index < uint(len(r.expect)) {
			r.mu.Lock()
			r.index--
			r.mu.Unlock()
		}
''')],"a Seek that does not match, recovered from, and further calls","the expectation is used a second time",
'internal/mockreader',f'testing {M}',MK+'''
func TestDemo(t *testing.T) {
	m := mockreader.New(mockreader.ExpectClose(nil), mockreader.ExpectSeek(0, 0, 5, nil))
	if try(func() { m.Seek(0, 0) }) == nil {
		t.Fatal("no panic")
	}
	if n, err := m.Seek(0, 0); n != 5 || err != nil {
		t.Fatal(n, err)
	}
}
''')
bug('c21-error-hides-data','C21',[('internal/mockreader/mockreader.go','''	actual := Expectation{op: ReadAtOp, input0: p, input1: offset}

	if !expect.Matches(actual) {
		panic(ExpectationFailedError{index, expect, actual})
	}

	debug("mock index %d: matched %+v", index, expect)
	n := int(expect.output0)
	err := expect.output2
	if n > 0 {
''','''	actual := Expectation{op: ReadAtOp, input0: p, input1: offset}

	if !expect.Matches(actual) {
		panic(ExpectationFailedError{index, expect, actual})
	}

	debug("mock index %d: matched %+v", index, expect)
	n := int(expect.output0)
	err := expect.output2
	if n > 0 && (err == nil || err == io.EOF) {
''')],"a ReadAt expectation with data and an error other than io.EOF","the call reports bytes that it did not deliver",
'internal/mockreader',f'errors testing {M}',MK+'''
func TestDemo(t *testing.T) {
	m := mockreader.New(mockreader.ExpectReadAt([]byte("abcd"), 3, 2, errors.New("x")))
	p := make([]byte, 4)
	n, err := m.ReadAt(p, 3)
	if n != 2 || err == nil || string(p[:2]) != "ab" {
		t.Fatal(n, err, p)
	}
}
''')
bug('c21-close-is-idempotent','C21',[('internal/mockreader/mockreader.go','''	index, expect := r.next()
	actual := Expectation{op: CloseOp}
''','''	index, expect := r.next()
	if index > 0 && index == uint(len(r.expect)) && r.expect[index-1].op == CloseOp {
		// Closing again does no harm.
		expect = r.expect[index-1]
	}
	actual := Expectation{op: CloseOp}
''')],"a second Close after the last expectation, a Close, was used","the last expectation is used twice instead of a panic",
'internal/mockreader',f'testing {M}',MK+'''
func TestDemo(t *testing.T) {
	m := mockreader.New(mockreader.ExpectClose(nil))
	m.Close()
	if try(func() { m.Close() }) == nil {
		t.Fatal("no panic")
	}
}
''')
bug('c21-stat-optional','C21',[('internal/mockreader/wrapper011.go','''func (w Wrapper011) Stat() (fs.FileInfo, error) {
	return w.Inner.Stat()
''','''func (w Wrapper011) Stat() (fs.FileInfo, error) {
	fi, err := w.Inner.Stat()
	if err != nil {
		// Once more, as with EINTR.
		fi, err = w.Inner.Stat()
	}
	return fi, err
''')],"a Stat expectation that fails, used through Wrapper011","a second expectation is consumed by one call",
'internal/mockreader',f'errors testing {M}',MK+'''
func TestDemo(t *testing.T) {
	m := mockreader.New(mockreader.ExpectStat(nil, errors.New("x")), mockreader.ExpectClose(nil))
	w := mockreader.Wrapper011{Inner: m}
	if p := try(func() {
		if _, err := w.Stat(); err == nil {
			t.Fatal("no error")
		}
		if err := w.Close(); err != nil {
			t.Fatal(err)
		}
	}); p != nil {
		t.Fatal(p)
	}
}
''') if False else None
bug('c21-mark-skipped','C21',[('internal/mockreader/mockreader.go','''	index := r.index
	length := uint(len(r.expect))
	if index >= length {
		return length, Expectation{}
	}

	r.index++
	return index, r.expect[index]
''','''	index := r.index
	length := uint(len(r.expect))
	if index >= length {
		return length, Expectation{}
	}

	r.index++
	expect := r.expect[index]
	if index > 0 && expect.op == MarkOp && r.expect[index-1].op == MarkOp && expect.input3 == r.expect[index-1].input3 && r.index < length {
		// A doubled mark says nothing new.
		index, expect = r.index, r.expect[r.index]
		r.index++
	}
	return index, expect
''')],"two equal Mark expectations in a row","the second is skipped, not handed out",
'internal/mockreader',f'testing {M}',MK+'''
func TestDemo(t *testing.T) {
	m := mockreader.New(mockreader.ExpectMark("a"), mockreader.ExpectMark("a"), mockreader.ExpectClose(nil))
	m.Mark("a")
	if p := try(func() { m.Close() }); p == nil {
		t.Fatal("Close matched although a mark was due")
	}
}
''')
bug('c21-position-in-panic','C21',[('internal/mockreader/mockreader.go','''	index := r.index
	length := uint(len(r.expect))
	if index >= length {
		return length, Expectation{}
	}

	r.index++
	return index, r.expect[index]
''','''	index := r.index
	r.index++
	if index >= uint(len(r.expect)) {
		return index, Expectation{}
	}
	return index, r.expect[index]
''')],"two calls after the last expectation","the second panic names a position past the end",
'internal/mockreader',f'testing {M}',MK+'''
func TestDemo(t *testing.T) {
	m := mockreader.New(mockreader.ExpectClose(nil))
	m.Close()
	try(func() { m.Close() })
	p := try(func() { m.Close() })
	if e, ok := p.(mockreader.ExpectationFailedError); !ok || e.Index != 1 {
		t.Fatal(p)
	}
}
''')
bug('c21-read-count-matches','C21',[('internal/mockreader/mockreader.go','''		len(x.input0) == len(y.input0))
''','''		(len(x.input0) == len(y.input0) || x.op == ReadOp && x.output2 == io.EOF && len(x.input0) < len(y.input0)))
''')],"a Read with a larger buffer than expected, where the expectation returns io.EOF","a call that does not match returns results",
'internal/mockreader',f'io testing {M}',MK+'''
func TestDemo(t *testing.T) {
	m := mockreader.New(mockreader.ExpectRead(make([]byte, 4), 1, io.EOF))
	if try(func() { m.Read(make([]byte, 9)) }) == nil {
		t.Fatal("no panic")
	}
}
''')
