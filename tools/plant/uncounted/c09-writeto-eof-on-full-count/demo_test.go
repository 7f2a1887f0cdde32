package body_test

import (
	"bytes"
	"errors"
	"github.com/chronos-tachyon/morehttp/body"
	"io"
	"testing"
)

type limited struct {
	bytes.Buffer
	left int
}

func (l *limited) Write(p []byte) (int, error) {
	n := len(p)
	var err error
	if n > l.left {
		n, err = l.left, errors.New("full")
	}
	l.left -= n
	l.Buffer.Write(p[:n])
	return n, err
}

func TestDemo(t *testing.T) {
	b := body.FromString("hello, world")
	l := &limited{left: 5}
	if n, err := b.(io.WriterTo).WriteTo(l); n != 5 || err == nil {
		t.Fatal(n, err)
	}
	if n := b.BytesRemaining(); n != 7 {
		t.Fatal("BytesRemaining", n)
	}
}
