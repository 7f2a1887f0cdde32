package response_test

import (
	"errors"
	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"io"
	"net/http"
	"testing"
)

// conn is a minimal client connection.
type conn struct {
	h      http.Header
	code   int
	sent   http.Header
	got    []byte
	limit  int // -1: none
	err    error
	panics bool
}

func newConn() *conn { return &conn{h: http.Header{}, limit: -1} }

func (c *conn) Header() http.Header { return c.h }
func (c *conn) WriteHeader(code int) {
	if c.code == 0 {
		c.code = code
		c.sent = c.h.Clone()
	}
}
func (c *conn) Write(p []byte) (int, error) {
	if c.code == 0 {
		c.WriteHeader(200)
	}
	if c.panics {
		panic("connection")
	}
	if c.limit >= 0 && len(c.got)+len(p) > c.limit {
		n := c.limit - len(c.got)
		c.got = append(c.got, p[:n]...)
		return n, c.err
	}
	c.got = append(c.got, p...)
	return len(p), nil
}

type last struct{ sent bool }

func (s *last) Read(p []byte) (int, error) {
	return copy(p, "hello"), errors.New("checksum mismatch")
}

func TestDemo(t *testing.T) {
	b, err := body.FromReaderAndLength(&last{}, 5)
	if err != nil {
		t.Fatal(err)
	}
	r := response.NewBuilder().WithBody(b).Build()
	if err := r.Serve(newConn()); err == nil {
		t.Fatal("no error")
	}
	_ = io.EOF
}
