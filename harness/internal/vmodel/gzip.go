package vmodel

import (
	"compress/gzip"
	"io"
)

// Contract model of compress/gzip: a stream is the header of 10 bytes, data
// blocks {01, len, bytes...}, a marker after every flush, the end marker 00 and
// an ideal checksum (the data again, so that no corruption of the data passes
// it). Write buffers until Flush or Close; a stream that was not closed has no
// end marker. The parts of a short stream have the sizes of the real ones, so
// that the same cut hits the same part.

var gzhead = []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 0xff}

type gzw struct {
	w      io.Writer
	magic  bool
	buf    []byte
	all    []byte
	closed bool
	err    error
}

type gzr struct {
	r    io.Reader
	out  []byte
	all  []byte
	err  error
	done bool
}

var gzws = map[*gzip.Writer]*gzw{}
var gzrs = map[*gzip.Reader]*gzr{}

func Gzip_NewWriter(w io.Writer) *gzip.Writer {
	z := new(gzip.Writer)
	gzws[z] = &gzw{w: w}
	return z
}

func Gzip_NewWriterLevel(w io.Writer, level int) (*gzip.Writer, error) {
	return Gzip_NewWriter(w), nil
}

func (z *gzw) put(b []byte) {
	if z.err != nil || len(b) == 0 {
		return
	}
	_, z.err = z.w.Write(b)
}

func (z *gzw) head() {
	if !z.magic {
		z.magic = true
		z.put(gzhead)
	}
}

func (z *gzw) flush() {
	for len(z.buf) > 0 {
		n := len(z.buf)
		if n > 255 {
			n = 255
		}
		b := append([]byte{1, byte(n)}, z.buf[:n]...)
		z.put(b)
		z.buf = z.buf[n:]
	}
}

func GzipW_Write(g *gzip.Writer, b []byte) (int, error) {
	z := gzws[g]
	if z.err != nil {
		return 0, z.err
	}
	z.head()
	z.buf = append(z.buf, b...)
	z.all = append(z.all, b...)
	return len(b), z.err
}

func GzipW_Flush(g *gzip.Writer) error {
	z := gzws[g]
	if z.err != nil || z.closed {
		return z.err
	}
	z.head()
	z.flush()
	z.put([]byte{2, 0, 0, 0xff, 0xff})
	return z.err
}

func GzipW_Close(g *gzip.Writer) error {
	z := gzws[g]
	if z.err != nil || z.closed {
		return z.err
	}
	z.closed = true
	z.head()
	z.flush()
	z.put([]byte{0, 0, 0, 0xff, 0xff})
	z.put(sum(z.all))
	return z.err
}

// sum is the ideal checksum: as long as the real one, if it can be.
func sum(all []byte) []byte {
	n := len(all)
	sum := append([]byte{byte(n >> 16), byte(n >> 8), byte(n)}, all...)
	for len(sum) < 8 {
		sum = append(sum, 0)
	}
	return sum
}

func (z *gzr) byte() (byte, error) {
	var b [1]byte
	n, err := z.r.Read(b[:])
	if n == 1 {
		return b[0], nil
	}
	if err == nil {
		err = io.ErrNoProgress
	}
	return 0, err
}

func unexp(e error) error {
	if e == io.EOF {
		return io.ErrUnexpectedEOF
	}
	return e
}

func (z *gzr) header() error {
	b, err := z.byte()
	if err != nil {
		return err
	}
	if b != gzhead[0] {
		return gzip.ErrHeader
	}
	for i := 1; i < len(gzhead); i++ {
		c, err := z.byte()
		if err != nil {
			return unexp(err)
		}
		// the time, the level and the system may be any
		if i <= 3 && c != gzhead[i] {
			return gzip.ErrHeader
		}
	}
	z.all = nil
	return nil
}

// marker reads the rest of the marker of an empty block.
func (z *gzr) marker() error {
	for _, x := range []byte{0, 0, 0xff, 0xff} {
		c, err := z.byte()
		if err != nil {
			return unexp(err)
		}
		if c != x {
			return gzip.ErrChecksum
		}
	}
	return nil
}

func Gzip_NewReader(r io.Reader) (*gzip.Reader, error) {
	z := &gzr{r: r}
	if err := z.header(); err != nil {
		return nil, err
	}
	g := new(gzip.Reader)
	gzrs[g] = z
	return g, nil
}

func (z *gzr) fill() error {
	t, err := z.byte()
	if err != nil {
		return unexp(err)
	}
	switch t {
	case 1:
		n, err := z.byte()
		if err != nil {
			return unexp(err)
		}
		b := make([]byte, n)
		k, err := io.ReadFull(z.r, b)
		z.out = append(z.out, b[:k]...)
		z.all = append(z.all, b[:k]...)
		return unexp(err)
	case 2:
		return z.marker()
	case 0:
		if err := z.marker(); err != nil {
			return err
		}
		sum := sum(z.all)
		b := make([]byte, len(sum))
		if _, err := io.ReadFull(z.r, b); err != nil {
			return unexp(err)
		}
		if string(b) != string(sum) {
			return gzip.ErrChecksum
		}
		return z.header() // io.EOF at the end of the last member
	}
	return gzip.ErrHeader
}

func GzipR_Read(g *gzip.Reader, p []byte) (int, error) {
	z := gzrs[g]
	for len(z.out) == 0 {
		if z.err != nil {
			return 0, z.err
		}
		z.err = z.fill()
	}
	n := copy(p, z.out)
	z.out = z.out[n:]
	return n, nil
}

func GzipR_Close(g *gzip.Reader) error { return nil }

func GzipW_Reset(g *gzip.Writer, w io.Writer) { gzws[g] = &gzw{w: w} }

func GzipR_Reset(g *gzip.Reader, r io.Reader) error {
	z := &gzr{r: r}
	gzrs[g] = z
	return z.header()
}
