package response_test

import (
	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"net/http"
	"testing"
)

// conn is a minimal client connection.
type conn struct {
	h      http.Header
	code   int
	sent   http.Header
	got    []byte
	limit  int // -1: none
	err    error
	panics bool
}

func newConn() *conn { return &conn{h: http.Header{}, limit: -1} }

func (c *conn) Header() http.Header { return c.h }
func (c *conn) WriteHeader(code int) {
	if c.code == 0 {
		c.code = code
		c.sent = c.h.Clone()
	}
}
func (c *conn) Write(p []byte) (int, error) {
	if c.code == 0 {
		c.WriteHeader(200)
	}
	if c.panics {
		panic("connection")
	}
	if c.limit >= 0 && len(c.got)+len(p) > c.limit {
		n := c.limit - len(c.got)
		c.got = append(c.got, p[:n]...)
		return n, c.err
	}
	c.got = append(c.got, p...)
	return len(p), nil
}

func TestDemo(t *testing.T) {
	c := newConn()
	r := response.NewBuilder().WithHeader("X-A", "v", true).WithHeader("X-A", "v", true).WithBody(body.FromString("x")).Build()
	if err := r.Serve(c); err != nil {
		t.Fatal(err)
	}
	if n := len(c.sent["X-A"]); n != 2 {
		t.Fatal(n)
	}
}
