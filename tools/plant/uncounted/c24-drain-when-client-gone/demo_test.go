package response_test

import (
	"errors"
	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"io"
	"net/http"
	"runtime"
	"testing"
)

// counting is a long stream that knows how much of it has been read.
type counting struct{ n, most int64 }

func (c *counting) Read(p []byte) (int, error) {
	if c.n >= c.most {
		return 0, io.EOF
	}
	if int64(len(p)) > c.most-c.n {
		p = p[:c.most-c.n]
	}
	c.n += int64(len(p))
	return len(p), nil
}

func heap() int64 {
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

type sink struct {
	h http.Header
	n int64
}

func (s *sink) Header() http.Header { return s.h }
func (s *sink) WriteHeader(int)     {}
func (s *sink) Write(p []byte) (int, error) {
	s.n += int64(len(p))
	if s.n > 1<<20 {
		return 0, errors.New("gone")
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	c := &counting{most: 48 << 20}
	b, _ := body.FromReader(c)
	r := response.NewBuilder().WithBody(b).Build()
	r.Serve(&sink{h: http.Header{}})
	if c.n > 8<<20 {
		t.Fatalf("%d bytes were read", c.n)
	}
	_ = runtime.NumGoroutine()
	_ = heap
}
