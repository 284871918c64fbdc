package main

import (
	"bytes"
	"errors"
	"io"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"
)

var errInjected = errors.New("injected failure")

// opWriter fails its k-th operation (once) and counts operations.
type opWriter struct {
	w       zserio.Writer
	n, fail int
}

func (o *opWriter) bad() bool { o.n++; return o.n-1 == o.fail }
func (o *opWriter) Write(p []byte) (int, error) {
	if o.bad() {
		return 0, errInjected
	}
	return o.w.Write(p)
}
func (o *opWriter) WriteByte(b byte) error {
	if o.bad() {
		return errInjected
	}
	return o.w.WriteByte(b)
}
func (o *opWriter) WriteBits(v uint64, n uint8) error {
	if o.bad() {
		return errInjected
	}
	return o.w.WriteBits(v, n)
}
func (o *opWriter) WriteBitsUnsafe(v uint64, n uint8) error {
	if o.bad() {
		return errInjected
	}
	return o.w.WriteBitsUnsafe(v, n)
}
func (o *opWriter) WriteBool(b bool) error {
	if o.bad() {
		return errInjected
	}
	return o.w.WriteBool(b)
}
func (o *opWriter) Align(n uint8) (int64, error) {
	if o.bad() {
		return 0, errInjected
	}
	return o.w.Align(n)
}

// opReader fails its k-th operation (once) and counts operations.
type opReader struct {
	r       zserio.Reader
	n, fail int
	err     error
}

func (o *opReader) bad() bool { o.n++; return o.n-1 == o.fail }
func (o *opReader) Read(p []byte) (int, error) {
	if o.bad() {
		return 0, o.err
	}
	return o.r.Read(p)
}
func (o *opReader) ReadByte() (byte, error) {
	if o.bad() {
		return 0, o.err
	}
	return o.r.ReadByte()
}
func (o *opReader) ReadBits(n uint8) (uint64, error) {
	if o.bad() {
		return 0, o.err
	}
	return o.r.ReadBits(n)
}
func (o *opReader) ReadBool() (bool, error) {
	if o.bad() {
		return false, o.err
	}
	return o.r.ReadBool()
}
func (o *opReader) Align(n uint8) (int64, error) {
	if o.bad() {
		return 0, o.err
	}
	return o.r.Align(n)
}

// limWriter accepts max bytes and then fails, for good or once.
type limWriter struct {
	max, n int
	once   bool
	buf    bytes.Buffer
}

func (l *limWriter) Write(p []byte) (int, error) {
	if l.max >= 0 && l.n+len(p) > l.max {
		k := l.max - l.n
		l.buf.Write(p[:k])
		l.n += k
		if l.once {
			l.max = -1
		}
		return k, errInjected
	}
	l.n += len(p)
	l.buf.Write(p)
	return len(p), nil
}
func (l *limWriter) WriteByte(b byte) error {
	_, err := l.Write([]byte{b})
	return err
}

// faultReader delivers at bytes and then fails, for good or once; with with,
// the error comes along with the last bytes delivered by Read.
type faultReader struct {
	p          []byte
	pos, at    int
	once, with bool
	err        error
	hit        bool
}

func (f *faultReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	lim := len(f.p)
	if f.at < lim && !(f.once && f.hit) {
		lim = f.at
	}
	n := copy(p, f.p[f.pos:lim])
	f.pos += n
	if f.pos == lim && lim == f.at && !(f.once && f.hit) && (n == 0 || f.with && n < len(p)) {
		f.hit = true
		return n, f.err
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}
func (f *faultReader) ReadByte() (byte, error) {
	var b [1]byte
	n, err := f.Read(b[:])
	if n == 1 {
		return b[0], nil
	}
	return 0, err
}

// chunkReader answers each Read according to choose(len(p), bytes left).
type chunkReader struct {
	p      []byte
	pos    int
	choose func(n, left int) (int, bool) // how many bytes, and whether EOF comes along when they are the last
	reads  int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	c.reads++
	left := len(c.p) - c.pos
	if left == 0 {
		return 0, io.EOF
	}
	n, eof := c.choose(len(p), left)
	if n > len(p) {
		n = len(p)
	}
	if n > left {
		n = left
	}
	copy(p, c.p[c.pos:c.pos+n])
	c.pos += n
	if eof && c.pos == len(c.p) {
		return n, io.EOF
	}
	return n, nil
}
func (c *chunkReader) ReadByte() (byte, error) {
	if c.pos >= len(c.p) {
		return 0, io.EOF
	}
	c.pos++
	return c.p[c.pos-1], nil
}

var _ zserio.Writer = (*opWriter)(nil)
var _ zserio.Reader = (*opReader)(nil)
var _ zstream.Reader = (*faultReader)(nil)
var _ zstream.Reader = (*chunkReader)(nil)
var _ zstream.Writer = (*limWriter)(nil)
