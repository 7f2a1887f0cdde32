package core

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"time"

	"github.com/chronos-tachyon/morehttp/verifbridge"

	"verifsim/rt"
)

// MCall is one call on a MockReader, and as an expectation the call expected.
type MCall struct {
	Op     string `json:"op"` // mark, stat, read, readat, seek, close
	N      int    `json:"n,omitempty"`
	Off    int64  `json:"off,omitempty"`
	Whence int    `json:"whence,omitempty"`
	Str    string `json:"str,omitempty"`
	Out    int    `json:"out,omitempty"` // bytes returned
	Err    bool   `json:"fails,omitempty"`
	Nap    int    `json:"nap,omitempty"`
	EK     int    `json:"errkind,omitempty"`
}

type MTask struct {
	Wrapper int     `json:"wrapper"` // 0..7, 8: the MockReader itself
	Calls   []MCall `json:"ops"`
}

type MockPlan struct {
	Expect []MCall `json:"steps"`
	Tasks  []MTask `json:"tasks"`
}

type mockErr struct{ i int }

func (e *mockErr) Error() string { return fmt.Sprintf("expectation error %d", e.i) }

type mockInfo struct{ i int }

func (f *mockInfo) Name() string       { return "mock" }
func (f *mockInfo) Size() int64        { return int64(f.i) }
func (f *mockInfo) Mode() fs.FileMode  { return 0 }
func (f *mockInfo) ModTime() time.Time { return time.Time{} }
func (f *mockInfo) IsDir() bool        { return false }
func (f *mockInfo) Sys() any           { return nil }

// mout is what a call returned.
type mout struct {
	call, ret int64
	task, no  int
	c         *MCall
	n         int64
	err       error
	fi        fs.FileInfo
	buf       []byte
	pv        any
	done      bool
}

type mexp struct {
	c    *MCall
	x    verifbridge.Expectation
	err  error
	fi   *mockInfo
	data []byte
	n    int64
}

type mockRun struct {
	p    *MockPlan
	exp  []mexp
	outs [rt.MaxRoots][]*mout
}

const poison = 0xEE

func (x *mockRun) faces(m *verifbridge.MockReader, k int) any {
	switch k {
	case 0:
		return verifbridge.Wrapper000{Inner: m}
	case 1:
		return verifbridge.Wrapper001{Inner: m}
	case 2:
		return verifbridge.Wrapper010{Inner: m}
	case 3:
		return verifbridge.Wrapper011{Inner: m}
	case 4:
		return verifbridge.Wrapper100{Inner: m}
	case 5:
		return verifbridge.Wrapper101{Inner: m}
	case 6:
		return verifbridge.Wrapper110{Inner: m}
	case 7:
		return verifbridge.Wrapper111{Inner: m}
	}
	return m
}

func (x *mockRun) build() *verifbridge.MockReader {
	var list []verifbridge.Expectation
	for i := range x.p.Expect {
		c := &x.p.Expect[i]
		e := mexp{c: c}
		if c.Err {
			switch c.EK {
			case 1:
				e.err = io.EOF
			case 2:
				e.err = io.ErrUnexpectedEOF
			case 3:
				e.err = fs.ErrClosed
			case 4:
				e.err = fmt.Errorf("expectation %d: %w", i, io.EOF)
			default:
				e.err = &mockErr{i}
			}
		}
		switch c.Op {
		case "mark":
			e.x = verifbridge.ExpectMark(c.Str)
		case "stat":
			e.fi = &mockInfo{i}
			e.x = verifbridge.ExpectStat(e.fi, e.err)
		case "read", "readat":
			e.data = pattern(uint64(i)+77, c.N)
			e.n = int64(min(c.Out, c.N))
			if c.Op == "read" {
				e.x = verifbridge.ExpectRead(e.data, int(e.n), e.err)
			} else {
				e.x = verifbridge.ExpectReadAt(e.data, c.Off, int(e.n), e.err)
			}
		case "seek":
			e.n = int64(1000 + i)
			e.x = verifbridge.ExpectSeek(c.Off, c.Whence, e.n, e.err)
		case "close":
			e.x = verifbridge.ExpectClose(e.err)
		}
		x.exp = append(x.exp, e)
		list = append(list, e.x)
	}
	return verifbridge.New(list...)
}

// can says whether the face offers the call.
func can(face any, op string) bool {
	ok := true
	switch op {
	case "mark":
		_, ok = face.(*verifbridge.MockReader)
	case "stat":
		_, ok = face.(fs.File)
	case "readat":
		_, ok = face.(io.ReaderAt)
	case "seek":
		_, ok = face.(io.Seeker)
	}
	return ok
}

func (x *mockRun) task(id, t int, m *verifbridge.MockReader) {
	face := x.faces(m, x.p.Tasks[t].Wrapper)
	for i := range x.p.Tasks[t].Calls {
		c := &x.p.Tasks[t].Calls[i]
		if !can(face, c.Op) {
			continue
		}
		if c.Nap > 0 {
			rt.SleepNS(int64(c.Nap) * 1000)
		}
		o := &mout{task: t, no: i, c: c}
		if c.Op == "read" || c.Op == "readat" {
			o.buf = bytes.Repeat([]byte{poison}, c.N)
		}
		rt.Yield(rt.KUser)
		rt.Note(rt.KOp, kindNo(c.Op), int64(c.N), c.Off, 0)
		o.call = rt.Seq()
		o.pv = call(func() {
			switch c.Op {
			case "mark":
				face.(*verifbridge.MockReader).Mark(c.Str)
			case "stat":
				o.fi, o.err = face.(fs.File).Stat()
			case "read":
				var n int
				n, o.err = face.(io.Reader).Read(o.buf)
				o.n = int64(n)
			case "readat":
				var n int
				n, o.err = face.(io.ReaderAt).ReadAt(o.buf, c.Off)
				o.n = int64(n)
			case "seek":
				o.n, o.err = face.(io.Seeker).Seek(c.Off, c.Whence)
			case "close":
				o.err = face.(io.Closer).Close()
			}
		})
		if rt.Dead() {
			return
		}
		o.ret = rt.Seq()
		o.done = true
		rt.Note(rt.KOp, 0, o.n, 0, 0)
		x.outs[t] = append(x.outs[t], o)
	}
}

func (c *MCall) matches(d *MCall) bool {
	if c.Op != d.Op {
		return false
	}
	switch c.Op {
	case "mark":
		return c.Str == d.Str
	case "read":
		return c.N == d.N
	case "readat":
		return c.N == d.N && c.Off == d.Off
	case "seek":
		return c.Off == d.Off && c.Whence == d.Whence
	}
	return true
}

func asExpectation(c *MCall) verifbridge.Expectation {
	switch c.Op {
	case "mark":
		return verifbridge.ExpectMark(c.Str)
	case "stat":
		return verifbridge.ExpectStat(nil, nil)
	case "read":
		return verifbridge.ExpectRead(make([]byte, c.N), 0, nil)
	case "readat":
		return verifbridge.ExpectReadAt(make([]byte, c.N), c.Off, 0, nil)
	case "seek":
		return verifbridge.ExpectSeek(c.Off, c.Whence, 0, nil)
	}
	return verifbridge.ExpectClose(nil)
}

// consistent: o is what the call would have returned as number idx of all.
func (x *mockRun) consistent(o *mout, idx int) bool {
	var e *mexp
	if idx < len(x.exp) {
		e = &x.exp[idx]
	}
	if e != nil && e.c.matches(o.c) {
		if o.pv != nil {
			return false
		}
		switch o.c.Op {
		case "stat":
			return o.fi == fs.FileInfo(e.fi) && o.err == e.err
		case "read", "readat":
			if o.n != e.n || o.err != e.err || !bytes.Equal(o.buf[:e.n], e.data[:e.n]) {
				return false
			}
			for _, b := range o.buf[e.n:] {
				if b != poison {
					return false
				}
			}
			return true
		case "seek":
			return o.n == e.n && o.err == e.err
		case "close":
			return o.err == e.err
		}
		return true
	}
	var f verifbridge.ExpectationFailedError
	switch pv := o.pv.(type) {
	case verifbridge.ExpectationFailedError:
		f = pv
	case error:
		if !errors.As(pv, &f) {
			return false
		}
	default:
		return false
	}
	at := min(idx, len(x.exp))
	if f.Index != uint(at) || !f.Actual.Matches(asExpectation(o.c)) {
		return false
	}
	for _, b := range o.buf {
		if b != poison {
			return false
		}
	}
	if e == nil {
		return f.Expect.String() == (verifbridge.Expectation{}).String()
	}
	return f.Expect.Matches(e.x) && f.Expect.GoString() == e.x.GoString()
}

// linearise looks for an order of all calls that explains every result.
func (x *mockRun) linearise() bool {
	n := len(x.p.Tasks)
	pos := make([]int, n)
	seen := map[string]bool{}
	var rec func(idx int) bool
	rec = func(idx int) bool {
		key := fmt.Sprint(pos)
		if seen[key] {
			return false
		}
		seen[key] = true
		done := true
		for t := 0; t < n; t++ {
			if pos[t] >= len(x.outs[t]) {
				continue
			}
			done = false
			o := x.outs[t][pos[t]]
			first := true
			for u := 0; u < n; u++ {
				if u != t && pos[u] < len(x.outs[u]) && x.outs[u][pos[u]].ret < o.call {
					first = false
				}
			}
			if !first || !x.consistent(o, idx) {
				continue
			}
			pos[t]++
			if rec(idx + 1) {
				return true
			}
			pos[t]--
		}
		return done
	}
	return rec(0)
}

func runMock(p *Plan, o *Outcome, logging bool) {
	x := &mockRun{p: p.Mock}
	tags := []string{"C21"}
	o.rt = rt.Run(p.Sched, logging, func() {
		m := x.build()
		if len(x.p.Tasks) == 1 {
			x.task(0, 0, m)
			return
		}
		var ids []int
		for t := range x.p.Tasks {
			t := t
			ids = append(ids, rt.Spawn(func() { x.task(t+1, t, m) }))
		}
		rt.Join(ids...)
	})
	o.Tasks = len(p.Mock.Tasks)
	if o.rt.Races > 0 {
		o.fail("data-race", tags, "the race detector reported %d conflicting accesses", o.rt.Races)
	}
	if o.rt.HasPanic {
		o.fail("task-panic", tags, "a goroutine panicked: %v", o.rt.Panic)
		return
	}
	if o.rt.Outcome != rt.Finished {
		o.fail(o.rt.Outcome.String(), tags, "the run ended in a %s", o.rt.Outcome)
		return
	}
	total, mism := 0, 0
	for t := range x.p.Tasks {
		for _, c := range x.outs[t] {
			total++
			if c.pv != nil {
				mism++
			}
		}
		o.mark(fmt.Sprintf("wrapper %d", x.p.Tasks[t].Wrapper))
	}
	o.Ops = total
	if mism > 0 {
		o.fired("call that does not match", mism)
		o.Faults += mism
	}
	if total > len(x.exp) {
		o.mark("calls after the last expectation")
	}
	if !x.linearise() {
		o.fail("not-in-order", tags, "no order of the calls explains their results: %s", x.text())
	}
}

func (x *mockRun) text() string {
	s := "expected"
	for i := range x.exp {
		s += fmt.Sprintf(" #%d %v;", i, x.exp[i].x)
	}
	for t := range x.p.Tasks {
		for _, o := range x.outs[t] {
			s += fmt.Sprintf(" task %d [%d,%d] %s(%d,%d,%d,%q) = (%d, %v, panic %v);", t, o.call, o.ret, o.c.Op, o.c.N, o.c.Off, o.c.Whence, o.c.Str, o.n, o.err, o.pv)
		}
	}
	return s
}

func (p *MockPlan) valid() bool {
	ok := func(c *MCall) bool { return c.N >= 0 && c.N < 1000 && c.Out >= 0 && c.Out <= c.N && c.Nap >= 0 }
	for i := range p.Expect {
		if !ok(&p.Expect[i]) {
			return false
		}
	}
	for i := range p.Tasks {
		for j := range p.Tasks[i].Calls {
			if !ok(&p.Tasks[i].Calls[j]) {
				return false
			}
		}
	}
	return len(p.Tasks) > 0 && len(p.Tasks) < 6
}

func genMock(r *R) *MockPlan {
	p := &MockPlan{}
	ops := []string{"read", "read", "read", "readat", "seek", "close", "stat", "mark"}
	if r.P(50) { // few kinds, so that concurrent calls still match
		ops = []string{r.PickS(ops...), r.PickS(ops...)}
	}
	gen := func() MCall {
		c := MCall{Op: r.PickS(ops...)}
		switch c.Op {
		case "read":
			c.N = r.Pick(0, 1, 4, 4, 4, 9)
		case "readat":
			c.N = r.Pick(0, 4, 4, 9)
			c.Off = int64(r.Pick(0, 0, 7, -1))
		case "seek":
			c.Off = int64(r.Pick(0, 0, 3, -2))
			c.Whence = r.Pick(0, 0, 1, 2)
		case "mark":
			c.Str = r.PickS("a", "a", "b", "")
		}
		c.Out = r.N(c.N + 1)
		c.Err = c.Op != "mark" && r.P(40)
		if c.Err && r.P(60) {
			c.EK = r.In(1, 4)
		}
		return c
	}
	for i, n := 0, r.In(0, 10); i < n; i++ {
		p.Expect = append(p.Expect, gen())
	}
	tasks := r.Pick(1, 2, 2, 3, 4)
	for t := 0; t < tasks; t++ {
		m := MTask{Wrapper: r.Pick(0, 1, 2, 3, 4, 5, 6, 7, 7, 8, 8, 8)}
		p.Tasks = append(p.Tasks, m)
	}
	// The expected calls, dealt out to the tasks, with some strays.
	for _, c := range p.Expect {
		t := r.N(tasks)
		if r.P(4) {
			continue
		}
		if r.P(6) {
			c = gen()
		} else if r.P(7) { // a call that only just differs
			switch c.Op {
			case "read":
				c.N = r.Pick(0, 1, 3, 5, 9)
			case "readat":
				if r.P(50) {
					c.N = r.Pick(0, 3, 4, 9)
				} else {
					c.Off = int64(r.Pick(0, 1, 7))
				}
			case "seek":
				if r.P(50) {
					c.Whence = r.N(3)
				} else {
					c.Off = int64(r.Pick(0, 1, 3, -2))
				}
			case "mark":
				c.Str += "x"
			case "close":
				c.Op = "stat"
			case "stat":
				c.Op = "close"
			}
			c.Out = min(c.Out, c.N)
		}
		if r.P(15) {
			c.Nap = r.In(1, 30)
		}
		p.Tasks[t].Calls = append(p.Tasks[t].Calls, c)
	}
	for i, n := 0, r.Pick(0, 0, 1, 3); i < n; i++ {
		t := r.N(tasks)
		p.Tasks[t].Calls = append(p.Tasks[t].Calls, gen())
	}
	return p
}
