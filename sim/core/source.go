package core

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"time"

	"verifsim/rt"
)

// Fault is one injected misbehaviour of the simulated source: at the Call-th
// call of operation Op, Kind happens.
type Fault struct {
	Op   string `json:"op"` // read, readat, seek, stat, close
	Call int    `json:"call"`
	Kind string `json:"kind"` // err, errdata, short, zero, eofdata, stall, trunc, panic
	N    int    `json:"n,omitempty"`
}

// SrcPlan describes the simulated source of a body.
type SrcPlan struct {
	Kind     string `json:"kind"` // reader, bytes, string, empty, closed
	Stat     bool   `json:"stat,omitempty"`
	Seek     bool   `json:"seek,omitempty"`
	ReadAt   bool   `json:"readat,omitempty"`
	Closer   bool   `json:"closer,omitempty"`
	Len      int    `json:"len"`
	Declared int    `json:"declared"` // -1: FromReader; otherwise FromReaderAndLength
	Pos      int    `json:"pos,omitempty"`
	DataSeed uint64 `json:"dataseed"`

	ShortMax   int  `json:"shortmax,omitempty"`   // reads return at most this many bytes
	EOFData    bool `json:"eofdata,omitempty"`    // the last bytes come together with io.EOF
	ZeroEvery  int  `json:"zeroevery,omitempty"`  // every n-th read returns 0, nil
	StallEvery int  `json:"stallevery,omitempty"` // every n-th call takes a long time
	StallFor   int  `json:"stallfor,omitempty"`   // how long (µs); 5 ms if zero
	CloseErr   bool `json:"closeerr,omitempty"`   // Close returns an error
	ErrKind    int  `json:"errkind,omitempty"`    // what the injected errors look like, see mkErr

	StatLie  int    `json:"statlie,omitempty"`  // Stat reports this minus one as the size
	StatMode uint32 `json:"statmode,omitempty"` // file mode that Stat reports

	Faults []Fault `json:"faults,omitempty"`
}

// Sources longer than this exist only as a formula: their contents repeat
// with a period that no power of two is a multiple of.
const (
	virtualLen    = 1 << 22
	virtualPeriod = 131071
)

func (p *SrcPlan) virtual() bool { return p.Len > virtualLen }

func (p *SrcPlan) data() []byte {
	if p.virtual() {
		return cachedPattern(p.DataSeed, virtualPeriod)
	}
	return cachedPattern(p.DataSeed, p.Len)
}

// fill copies what the source has at off.
func (s *Src) fill(dst []byte, off int64) {
	if !s.plan.virtual() {
		copy(dst, s.data[off:])
		return
	}
	for len(dst) > 0 {
		n := copy(dst, s.data[off%virtualPeriod:])
		dst = dst[n:]
		off += int64(n)
	}
}

// same says whether got is what the source has at off.
func (s *Src) same(got []byte, off int64) bool {
	if off < 0 || off > int64(s.plan.Len)-int64(len(got)) {
		return false
	}
	if !s.plan.virtual() {
		return bytes.Equal(got, s.data[off:off+int64(len(got))])
	}
	for len(got) > 0 {
		d := s.data[off%virtualPeriod:]
		if len(d) > len(got) {
			d = d[:len(got)]
		}
		if !bytes.Equal(got[:len(d)], d) {
			return false
		}
		got = got[len(d):]
		off += int64(len(d))
	}
	return true
}

// SrcError is the error of an injected failure.
type SrcError struct {
	ID  int
	At  string
	Inn error
	Tmo bool
}

func (e *SrcError) Unwrap() error   { return e.Inn }
func (e *SrcError) Timeout() bool   { return e.Tmo }
func (e *SrcError) Temporary() bool { return e.Tmo }

func (e *SrcError) Error() string { return fmt.Sprintf("injected source error %d (%s)", e.ID, e.At) }

const maxSrcLog = 1 << 15
const maxSrcErr = 64

// srcCall is one logged call on the source.
type srcCall struct {
	task       int32
	op         uint8
	start, end int64
	off        int64
	want, n    int64
	errID      int32 // -1 none, -2 io.EOF, otherwise injected error
}

const (
	sRead uint8 = iota + 1
	sReadAt
	sSeek
	sStat
	sClose
)

var srcOpName = [...]string{"", "read", "readat", "seek", "stat", "close"}

var theSrcLog [4][]srcCall // by number of the source within its run

// Src is the simulated source. Its bookkeeping is norace: only pos, which a
// real reader would also have, is visible to the race detector.
type Src struct {
	plan *SrcPlan
	data []byte
	pos  int64 // deliberately unsynchronised, as in any ordinary io.Reader

	lim       int64
	calls     [8]int
	inside    [8]int
	log       []srcCall
	logN      int
	errs      [maxSrcErr]error
	errN      int
	sentinels int
	closes    int
	closedAt  int64
	faultsOn  bool
	overlap   string // description of the first forbidden concurrent entry
	cut       string // call that was in progress at Close
	late      string // first call after Close
	lost      bool   // log overflow
	panics    int
	zeros     int   // empty reads still to come
	maxRead   int64 // highest stream position handed out
	fired     [16]int

	meter func(int64) // told how far a plain stream has been read
	inner func()      // what else the reader does, inside its calls
}

var FaultKinds = []string{"err", "errdata", "short", "zero", "eofdata", "stall", "trunc", "panic", "closeerr", "staterr", "seekerr"}

func kindIndex(k string) int {
	for i, x := range FaultKinds {
		if x == k {
			return i
		}
	}
	return 15
}

func pattern(seed uint64, n int) []byte {
	b := make([]byte, n)
	x := seed*2 + 1
	for i := 0; i < n; {
		x += 0x9e3779b97f4a7c15
		z := (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		z ^= z >> 31
		for k := 0; k < 8 && i < n; k++ {
			b[i] = byte(z >> (8 * k))
			i++
		}
	}
	return b
}

// The generated contents are cached per (seed, length): runs reuse few seeds.
var patCache = map[uint64][]byte{}

func cachedPattern(seed uint64, n int) []byte {
	b := patCache[seed]
	if len(b) < n {
		b = pattern(seed, n)
		patCache[seed] = b
	}
	return b[:n:n]
}

func newSrc(p *SrcPlan, k int) *Src {
	if k < 0 {
		return &Src{plan: p, data: p.data(), lim: int64(p.Len), pos: int64(p.Pos), faultsOn: true, closedAt: -1}
	}
	if theSrcLog[k] == nil {
		theSrcLog[k] = make([]srcCall, maxSrcLog)
	}
	return &Src{plan: p, data: p.data(), lim: int64(p.Len), pos: int64(p.Pos), log: theSrcLog[k], faultsOn: true, closedAt: -1}
}

//go:norace
func (s *Src) enter(op uint8, off int64, want int) (idx int, f *Fault, stall bool) {
	call := s.calls[op]
	s.calls[op]++
	// A plain reader is not safe for concurrent use; parallel ReadAt is.
	if s.overlap == "" || s.cut == "" {
		other := s.inside[sRead] + s.inside[sSeek] + s.inside[sClose] + s.inside[sStat]
		if op != sReadAt {
			if s.plan.ReadAt && op != sClose {
				// Reads and seeks do not conflict with positioned reads.
			} else {
				other += s.inside[sReadAt]
			}
		} else {
			other = s.inside[sClose]
		}
		if other > 0 {
			if s.overlap == "" {
				s.overlap = srcOpName[op]
			}
			if op == sClose && s.cut == "" {
				for i, k := range s.inside {
					if k > 0 {
						s.cut = srcOpName[i]
					}
				}
			}
		}
	}
	s.inside[op]++
	if s.closes > 0 && s.late == "" {
		s.late = srcOpName[op]
	}
	if op == sClose {
		s.closes++
		s.closedAt = rt.Seq()
	}
	idx = -1
	if s.logN < len(s.log) {
		idx = s.logN
		s.logN++
		s.log[idx] = srcCall{task: int32(rt.Owner()), op: op, start: rt.Seq(), end: 1 << 62, off: off, want: int64(want), errID: -1}
	} else {
		s.lost = true
	}
	rt.Note(rt.KSource, op, off, int64(want), int64(call))
	if s.faultsOn {
		name := srcOpName[op]
		for i := range s.plan.Faults {
			ff := &s.plan.Faults[i]
			if ff.Op == name && ff.Call == call {
				f = ff
				break
			}
		}
		if s.plan.StallEvery > 0 && call%s.plan.StallEvery == s.plan.StallEvery-1 {
			stall = true
		}
	}
	return idx, f, stall
}

//go:norace
func (s *Src) leave(op uint8, idx int, n int64, errID int32) {
	s.inside[op]--
	if idx >= 0 {
		c := &s.log[idx]
		c.n = n
		c.errID = errID
		c.end = rt.Seq()
	}
	rt.Note(rt.KSource, op|0x80, n, int64(errID), 0)
}

//go:norace
func (s *Src) newErr(at string) (error, int32) {
	if s.plan.ErrKind == errSentinel {
		s.errs[sentinelID] = io.ErrUnexpectedEOF
		s.sentinels++
		return io.ErrUnexpectedEOF, sentinelID
	}
	if s.errN >= sentinelID {
		return s.errs[sentinelID-1], sentinelID - 1
	}
	e := mkErr(s.errN, at, s.plan.ErrKind)
	s.errs[s.errN] = e
	s.errN++
	return e, int32(e.ID)
}

const (
	errPlain = iota
	errWrapsEOF
	errWrapsUnexpected
	errWrapsClosed
	errTimeout
	errSentinel // io.ErrUnexpectedEOF itself
	errKinds
)

const sentinelID = maxSrcErr - 1

func mkErr(id int, at string, kind int) *SrcError {
	e := &SrcError{ID: id, At: at}
	switch kind {
	case errWrapsEOF:
		e.Inn = io.EOF
	case errWrapsUnexpected:
		e.Inn = io.ErrUnexpectedEOF
	case errWrapsClosed:
		e.Inn = fs.ErrClosed
	case errTimeout:
		e.Tmo = true
	}
	return e
}

// srcErrID recognises an injected error and says which one it is.
func srcErrID(err error) (int32, bool) {
	var se *SrcError
	if errors.As(err, &se) {
		return int32(se.ID), true
	}
	if errors.Is(err, io.ErrUnexpectedEOF) {
		return sentinelID, true
	}
	return -1, false
}

//go:norace
func (s *Src) count(kind string) { s.fired[kindIndex(kind)]++ }

//go:norace
func (s *Src) limit() int64 { return s.lim }

//go:norace
func (s *Src) truncate(n int64) {
	if n < s.lim {
		s.lim = n
	}
}

//go:norace
func (s *Src) sawPos(p int64) {
	if p > s.maxRead {
		s.maxRead = p
	}
}

//go:norace
func (s *Src) setFaults(on bool) { s.faultsOn = on }

//go:norace
func (s *Src) faultsEnabled() bool { return s.faultsOn }

func (s *Src) begin(op uint8, off int64, want int) (int, *Fault) {
	idx, f, stall := s.enter(op, off, want)
	rt.Yield(rt.KSource)
	if f != nil && f.Kind == "stall" || stall {
		s.count("stall")
		d := int64(5e6)
		if s.plan.StallFor > 0 {
			d = int64(s.plan.StallFor) * 1000
		}
		if f != nil && f.Kind == "stall" && f.N > 0 {
			d = int64(f.N) * 1e5
		}
		nap(d, -1, s)
	}
	if s.inner != nil && s.faultsEnabled() {
		s.inner()
	}
	if f != nil && f.Kind == "trunc" {
		s.count("trunc")
		s.truncate(int64(f.N))
	}
	if f != nil && f.Kind == "panic" {
		s.count("panic")
		s.leave(op, idx, 0, -1)
		panic(&SrcPanic{At: srcOpName[op]})
	}
	return idx, f
}

// SrcPanic is the value of an injected panic.
type SrcPanic struct{ At string }

func (s *Src) Read(p []byte) (int, error) {
	idx, f := s.begin(sRead, s.pos, len(p))
	n, err, id := s.read(p, f)
	if s.meter != nil && !s.plan.positional() {
		s.meter(s.pos)
	}
	rt.Yield(rt.KSource)
	s.leave(sRead, idx, int64(n), id)
	return n, err
}

func (s *Src) read(p []byte, f *Fault) (int, error, int32) {
	lim := s.limit()
	avail := lim - s.pos
	if avail < 0 {
		avail = 0
	}
	want := len(p)
	n := want
	if int64(n) > avail {
		n = int(avail)
	}
	on := s.faultsEnabled()
	if on && s.plan.ShortMax > 0 && n > s.plan.ShortMax {
		s.count("short")
		n = s.plan.ShortMax
	}
	if on && s.plan.ZeroEvery > 0 && s.callNo(sRead)%s.plan.ZeroEvery == 0 && want > 0 {
		s.count("zero")
		return 0, nil, -1
	}
	var err error
	id := int32(-1)
	if f != nil {
		switch f.Kind {
		case "err":
			s.count("err")
			err, id = s.newErr("read")
			return 0, err, id
		case "errdata":
			if n > f.N {
				n = f.N
			}
			s.count("errdata")
			err, id = s.newErr("read")
		case "short":
			if n > f.N && f.N > 0 {
				s.count("short")
				n = f.N
			}
		case "zero":
			s.count("zero")
			s.zeros = f.N
			return 0, nil, -1
		}
	}
	if s.zeros > 0 && want > 0 {
		s.zeros--
		s.count("zero")
		return 0, nil, -1
	}
	s.fill(p[:n], min64(s.pos, lim))
	s.pos += int64(n)
	s.sawPos(s.pos)
	if err == nil && want > 0 && s.pos >= lim {
		if n == 0 {
			return 0, io.EOF, -2
		}
		if s.plan.EOFData || f != nil && f.Kind == "eofdata" {
			s.count("eofdata")
			return n, io.EOF, -2
		}
	}
	return n, err, id
}

//go:norace
func (s *Src) callNo(op uint8) int { return s.calls[op] }

func (s *Src) readAt(p []byte, off int64) (int, error) {
	idx, f := s.begin(sReadAt, off, len(p))
	n, err, id := s.doReadAt(p, off, f)
	rt.Yield(rt.KSource)
	s.leave(sReadAt, idx, int64(n), id)
	return n, err
}

func (s *Src) doReadAt(p []byte, off int64, f *Fault) (int, error, int32) {
	if off < 0 {
		e, id := s.newErr("readat negative offset")
		return 0, e, id
	}
	lim := s.limit()
	avail := lim - off
	if avail < 0 {
		avail = 0
	}
	want := len(p)
	n := want
	if int64(n) > avail {
		n = int(avail)
	}
	if f != nil {
		switch f.Kind {
		case "err":
			s.count("err")
			e, id := s.newErr("readat")
			return 0, e, id
		case "errdata":
			if n > f.N {
				n = f.N
			}
			s.count("errdata")
			s.fill(p[:n], min64(off, lim))
			e, id := s.newErr("readat")
			return n, e, id
		}
	}
	s.fill(p[:n], min64(off, lim))
	if n < want {
		return n, io.EOF, -2
	}
	if n > 0 && off+int64(n) == lim && (s.plan.EOFData || f != nil && f.Kind == "eofdata") {
		s.count("eofdata")
		return n, io.EOF, -2
	}
	return n, nil, -1
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func (s *Src) seek(off int64, whence int) (int64, error) {
	idx, f := s.begin(sSeek, off, whence)
	n, err, id := s.doSeek(off, whence, f)
	s.leave(sSeek, idx, n, id)
	return n, err
}

func (s *Src) doSeek(off int64, whence int, f *Fault) (int64, error, int32) {
	if f != nil && (f.Kind == "err" || f.Kind == "errdata") {
		s.count("seekerr")
		e, id := s.newErr("seek")
		return -1, e, id
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += s.limit()
	default:
		e, id := s.newErr("seek whence")
		return -1, e, id
	}
	if off < 0 {
		e, id := s.newErr("seek negative")
		return -1, e, id
	}
	s.pos = off
	return off, nil, -1
}

func (s *Src) stat() (fs.FileInfo, error) {
	idx, f := s.begin(sStat, 0, 0)
	if f != nil && f.Kind == "err" {
		s.count("staterr")
		e, id := s.newErr("stat")
		s.leave(sStat, idx, 0, id)
		return nil, e
	}
	lim := s.limit()
	if k := s.plan.StatLie; k > 0 {
		lim = int64(k - 1)
	}
	s.leave(sStat, idx, lim, -1)
	mode := fs.FileMode(0o444)
	if s.plan.StatMode != 0 {
		mode = fs.FileMode(s.plan.StatMode)
	}
	return fileInfo{lim, mode}, nil
}

func (s *Src) close() error {
	idx, f := s.begin(sClose, 0, 0)
	rt.Yield(rt.KSource)
	if s.plan.CloseErr || f != nil && f.Kind == "err" {
		s.count("closeerr")
		e, id := s.newErr("close")
		s.leave(sClose, idx, 0, id)
		return e
	}
	s.leave(sClose, idx, 0, -1)
	return nil
}

type fileInfo struct {
	size int64
	mode fs.FileMode
}

func (f fileInfo) Name() string       { return "sim" }
func (f fileInfo) Size() int64        { return f.size }
func (f fileInfo) Mode() fs.FileMode  { return f.mode }
func (f fileInfo) ModTime() time.Time { return time.Unix(0, 0) }
func (f fileInfo) IsDir() bool        { return false }
func (f fileInfo) Sys() any           { return nil }

// srcCallsBetween visits the logged calls that task made between two sequence
// numbers.
//
//go:norace
func (s *Src) callsBy(task int, from, to int64, visit func(c *srcCall)) {
	for i := 0; i < s.logN; i++ {
		c := &s.log[i]
		if c.start > to {
			break
		}
		if int(c.task) == task && c.start >= from {
			visit(c)
		}
	}
}

func (s *Src) isErr(err error, id int32) bool {
	return id >= 0 && int(id) < maxSrcErr && s.errs[id] != nil && errors.Is(err, s.errs[id])
}

// Wrappers exposing every combination of optional interfaces.
type (
	r0   struct{ S *Src }
	rC   struct{ r0 }
	rA   struct{ r0 }
	rAC  struct{ rC }
	rS   struct{ r0 }
	rSC  struct{ rC }
	rSA  struct{ rS }
	rSAC struct{ rSC }
)

func (r r0) Read(p []byte) (int, error)                 { return r.S.Read(p) }
func (r rC) Close() error                               { return r.S.close() }
func (r rA) ReadAt(p []byte, off int64) (int, error)    { return r.S.readAt(p, off) }
func (r rAC) ReadAt(p []byte, off int64) (int, error)   { return r.S.readAt(p, off) }
func (r rS) Seek(off int64, whence int) (int64, error)  { return r.S.seek(off, whence) }
func (r rSC) Seek(off int64, whence int) (int64, error) { return r.S.seek(off, whence) }
func (r rSA) ReadAt(p []byte, off int64) (int, error)   { return r.S.readAt(p, off) }
func (r rSAC) ReadAt(p []byte, off int64) (int, error)  { return r.S.readAt(p, off) }

// fs.File needs Stat, Read and Close, so Stat always comes with Close.
type (
	fC   struct{ rC }
	fAC  struct{ rAC }
	fSC  struct{ rSC }
	fSAC struct{ rSAC }
)

func (r fC) Stat() (fs.FileInfo, error)   { return r.S.stat() }
func (r fAC) Stat() (fs.FileInfo, error)  { return r.S.stat() }
func (r fSC) Stat() (fs.FileInfo, error)  { return r.S.stat() }
func (r fSAC) Stat() (fs.FileInfo, error) { return r.S.stat() }

func (s *Src) reader() io.Reader {
	p := s.plan
	b := r0{s}
	c := rC{b}
	switch {
	case p.Stat && p.Seek && p.ReadAt:
		return &fSAC{rSAC{rSC{c}}}
	case p.Stat && p.Seek:
		return &fSC{rSC{c}}
	case p.Stat && p.ReadAt:
		return &fAC{rAC{c}}
	case p.Stat:
		return &fC{c}
	case p.Seek && p.ReadAt && p.Closer:
		return &rSAC{rSC{c}}
	case p.Seek && p.ReadAt:
		return &rSA{rS{b}}
	case p.Seek && p.Closer:
		return &rSC{c}
	case p.Seek:
		return &rS{b}
	case p.ReadAt && p.Closer:
		return &rAC{c}
	case p.ReadAt:
		return &rA{b}
	case p.Closer:
		return &c
	}
	return &b
}
