package handler_test

import (
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
	"net/http"
	"testing"
)

// conn is a minimal client connection.
type conn struct {
	h      http.Header
	code   int
	sent   http.Header
	got    []byte
	limit  int // -1: none
	err    error
	panics bool
}

func newConn() *conn { return &conn{h: http.Header{}, limit: -1} }

func (c *conn) Header() http.Header { return c.h }
func (c *conn) WriteHeader(code int) {
	if c.code == 0 {
		c.code = code
		c.sent = c.h.Clone()
	}
}
func (c *conn) Write(p []byte) (int, error) {
	if c.code == 0 {
		c.WriteHeader(200)
	}
	if c.panics {
		panic("connection")
	}
	if c.limit >= 0 && len(c.got)+len(p) > c.limit {
		n := c.limit - len(c.got)
		c.got = append(c.got, p[:n]...)
		return n, c.err
	}
	c.got = append(c.got, p...)
	return len(p), nil
}

type h struct{}

func (h) Handle(req *http.Request) response.Response { panic("no") }

func TestDemo(t *testing.T) {
	req, _ := http.NewRequest("GET", "/", nil)
	c := newConn()
	handler.Adaptor{Inner: h{}}.ServeHTTP(c, req)
	if c.code != 500 || len(c.got) != 0 {
		t.Fatal(c.code, string(c.got))
	}
}
