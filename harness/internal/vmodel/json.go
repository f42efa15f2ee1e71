package vmodel

import (
	"encoding/json"
	"io"
)

// Model of json.Decoder: it reads all there is, and takes one value after the
// other.

type jd struct {
	r    io.Reader
	buf  []byte
	rerr error
	err  error
}

var jds = map[*json.Decoder]*jd{}

// jsonScan returns the end of the first value of b, -1 if there is none, -2 if
// it is cut off, -3 if it is not valid. The engine provides it.
func jsonScan(b []byte) int { return -3 }

func Json_NewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	jds[d] = &jd{r: r}
	return d
}

func (z *jd) fill() {
	for z.rerr == nil {
		b := make([]byte, 512)
		n, err := z.r.Read(b)
		z.buf = append(z.buf, b[:n]...)
		z.rerr = err
	}
}

func JsonD_Decode(d *json.Decoder, v interface{}) error {
	z := jds[d]
	if z.err != nil {
		return z.err
	}
	z.fill()
	n := jsonScan(z.buf)
	switch {
	case n == -3:
		z.err = json.Unmarshal(z.buf, v)
		if z.err == nil {
			panic("vmodel: jsonScan")
		}
	case n < 0 && z.rerr != io.EOF:
		z.err = z.rerr
	case n == -2:
		z.err = io.ErrUnexpectedEOF
	case n == -1:
		z.err = io.EOF
	}
	if n < 0 {
		return z.err
	}
	b := z.buf[:n]
	z.buf = z.buf[n:]
	return json.Unmarshal(b, v)
}

func JsonD_More(d *json.Decoder) bool {
	z := jds[d]
	z.fill()
	for i, c := range z.buf {
		if c != ' ' && c != '\t' && c != '\r' && c != '\n' {
			z.buf = z.buf[i:]
			return c != ']' && c != '}'
		}
	}
	return false
}
