package response_test

import (
	"errors"
	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"io"
	"net/http"
	"testing"
)

// conn is a minimal client connection.
type conn struct {
	h      http.Header
	code   int
	sent   http.Header
	got    []byte
	limit  int // -1: none
	err    error
	panics bool
}

func newConn() *conn { return &conn{h: http.Header{}, limit: -1} }

func (c *conn) Header() http.Header { return c.h }
func (c *conn) WriteHeader(code int) {
	if c.code == 0 {
		c.code = code
		c.sent = c.h.Clone()
	}
}
func (c *conn) Write(p []byte) (int, error) {
	if c.code == 0 {
		c.WriteHeader(200)
	}
	if c.panics {
		panic("connection")
	}
	if c.limit >= 0 && len(c.got)+len(p) > c.limit {
		n := c.limit - len(c.got)
		c.got = append(c.got, p[:n]...)
		return n, c.err
	}
	c.got = append(c.got, p...)
	return len(p), nil
}

// src is a plain reader that fails at the end if err is set.
type src struct {
	data   []byte
	err    error
	closed int
	cerr   error
}

func (s *src) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		if s.err != nil {
			return 0, s.err
		}
		return 0, io.EOF
	}
	n := copy(p, s.data)
	s.data = s.data[n:]
	return n, nil
}
func (s *src) Close() error { s.closed++; return s.cerr }

func TestDemo(t *testing.T) {
	s := &src{data: []byte("hello"), err: errors.New("boom")}
	b, _ := body.FromReader(s)
	c := newConn()
	if err := response.NewBuilder().WithBody(b).Build().Serve(c); err == nil {
		t.Fatal("no error")
	}
	if s.closed != 1 {
		t.Fatal("closed", s.closed)
	}
}
