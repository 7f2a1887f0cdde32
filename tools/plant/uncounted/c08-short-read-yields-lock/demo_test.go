package body_test

import (
	"bytes"
	"github.com/chronos-tachyon/morehttp/body"
	"io"
	"sync"
	"testing"
	"time"
)

// stream is a plain reader; each read takes the next step.
type step struct {
	n   int
	err error
}
type stream struct {
	data   []byte
	pos    int
	steps  []step
	closed int
	cerr   error
	got    int
}

func (s *stream) Read(p []byte) (int, error) {
	n := len(p)
	var err error
	if len(s.steps) > 0 {
		if s.steps[0].n < n {
			n = s.steps[0].n
		}
		err = s.steps[0].err
		s.steps = s.steps[1:]
	}
	if n > len(s.data)-s.pos {
		n = len(s.data) - s.pos
	}
	copy(p[:n], s.data[s.pos:s.pos+n])
	s.pos += n
	s.got += n
	if n == 0 && err == nil && len(p) > 0 && s.pos == len(s.data) {
		err = io.EOF
	}
	return n, err
}
func (s *stream) Close() error { s.closed++; return s.cerr }

// file adds Seek.
type file struct{ stream }

func (f *file) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(f.pos)
	case io.SeekEnd:
		off += int64(len(f.data))
	}
	f.pos = int(off)
	return off, nil
}
func pattern(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i/251)
	}
	return b
}

type slowFile struct{ file }

func (f *slowFile) Read(p []byte) (int, error) {
	if len(p) > 1 {
		time.Sleep(3 * time.Millisecond)
		p = p[:1]
	}
	return f.file.Read(p)
}

func TestDemo(t *testing.T) {
	f := &slowFile{}
	f.data = pattern(4000)
	a, err := body.FromReader(f)
	if err != nil {
		t.Fatal(err)
	}
	b, _ := a.Copy()
	var wg sync.WaitGroup
	wg.Add(2)
	p := make([]byte, 200)
	var n int
	go func() { defer wg.Done(); n, _ = a.(io.ReaderAt).ReadAt(p, 100) }()
	go func() {
		defer wg.Done()
		for i := 0; i < 3000; i++ {
			b.Read(make([]byte, 1))
		}
	}()
	wg.Wait()
	if n != 200 || !bytes.Equal(p, f.data[100:300]) {
		t.Fatal(n)
	}
}
