package vmem

import (
	"encoding/json"
	"io"

	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
)

var _ = vsym.Register("VerifMemContent", VerifMemContent)

// bytesN is 0..max arbitrary bytes.
func bytesN(name string, max int) []byte {
	n := vsym.Int(name+".len", 0, max)
	for k := 0; k < max; k++ {
		if n == k {
			return vsym.Bytes(name, k)
		}
	}
	return vsym.Bytes(name, max)
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0xff
	}
}

// VerifMemContent: what was written, in any pieces, is what is read, in any
// pieces; buffers of the caller are not kept; a second file and an overwrite do
// not interfere.
func VerifMemContent() {
	p := vlib.Mem()
	chunks, size := vsym.Param("chunks", 2), vsym.Param("size", 3)
	var want []byte
	rounds := 1
	if vsym.Param("over", 1) != 0 {
		rounds = vsym.Int("rounds", 1, 2)
	}
	vsym.Assert(vlib.Write(p, "/other", []byte("xyz")) == nil, "other file not written")
	for r := 0; r < rounds; r++ {
		f, err := p.Create("/f")
		vsym.Assert(err == nil, "Create fails", err)
		want = nil
		nc := vsym.Int("writes", 0, chunks)
		for i := 0; i < chunks && i < nc; i++ {
			b := bytesN("data", size)
			want = append(want, b...)
			n, err := f.Write(b)
			vsym.Assert(err == nil && n == len(b), "short write", n, err)
			scribble(b)
		}
		vsym.Assert(f.Close() == nil, "Close fails")
		if r == 1 {
			vsym.Cover("overwritten")
		}
	}
	for twice := 0; twice < 2; twice++ {
		fi, err := p.Stat("/f")
		vsym.Assert(err == nil && fi.Size() == int64(len(want)) && !fi.IsDir(), "wrong info", fi, err)
		f, err := p.Open("/f")
		vsym.Assert(err == nil, "Open fails", err)
		fi, err = f.Stat()
		vsym.Assert(err == nil && fi.Size() == int64(len(want)), "wrong size of the open file", fi, err)
		var got []byte
		rd := 3
		if twice == 0 {
			rd = vsym.Int("rd", 1, size)
		}
		for i := 0; ; i++ {
			vsym.Assert(i < len(want)+3, "read does not end")
			b := make([]byte, rd)
			n, err := f.Read(b)
			vsym.Assert(n >= 0 && n <= rd, "bad count", n)
			got = append(got, b[:n]...)
			scribble(b)
			if err == io.EOF {
				vsym.Assert(n == 0, "data and EOF at once", n)
				break
			}
			vsym.Assert(err == nil && n > 0, "read fails", n, err)
		}
		vsym.Assert(vsym.EqB(got, want), "wrong content", got, want)
		vsym.ObserveS("got", string(got))
		scribble(got)
		vsym.Assert(f.Close() == nil, "Close fails")
	}
	vlib.CheckFile(p, vlib.Ent{Pkg: vlib.Main, Path: "/other", Data: []byte("xyz")}, "other file")
}

var _ = vsym.Register("VerifMemHandles", VerifMemHandles)

// VerifMemHandles: every open file has its own position, and Read and Seek
// follow the rules of os.File; an open file keeps its content when the path is
// overwritten or removed.
func VerifMemHandles() {
	p := vlib.Mem()
	data := bytesN("data", vsym.Param("size", 3))
	first, err := p.Create("/f")
	vsym.Assert(err == nil, "Create fails", err)
	n, err := first.Write(data)
	vsym.Assert(n == len(data) && err == nil && first.Close() == nil, "not written", n, err)
	old, err := p.Stat("/f")
	vsym.Assert(err == nil, "Stat fails", err)
	nh := vsym.Param("handles", 2)
	fs := make([]pkging.File, nh)
	pos := make([]int64, nh)
	var q pkging.Pkger = p
	if vsym.Param("packed", 0) != 0 {
		// of an unpacked pack
		b, err := json.Marshal(p)
		vsym.Assert(err == nil, "marshal fails", err)
		m := &mem.Pkger{}
		vsym.Assert(json.Unmarshal(b, m) == nil, "unmarshal fails")
		q = m
	}
	for i := range fs {
		f, err := q.Open("/f")
		if i > 0 && vsym.Param("sub", 0) != 0 && err == nil {
			// the others through the directory
			f.Close()
			d, derr := q.Open("/")
			vsym.Assert(derr == nil, "directory does not open", derr)
			h, herr := d.Open("f")
			vsym.Assert(herr == nil, "Open fails", herr)
			f = h.(pkging.File)
		}
		vsym.Assert(err == nil, "Open fails", err)
		fs[i] = f
	}
	size := int64(len(data))
	when := -1
	if vsym.Param("change", 1) != 0 {
		when = vsym.Int("when", -1, vsym.Param("ops", 3)-1)
	}
	for k := 0; k < vsym.Param("ops", 3); k++ {
		if k == when {
			switch vsym.Choose("change", 3) {
			case 0:
				vsym.Assert(q.Remove("/f") == nil, "Remove fails")
			case 1:
				// by the one who made it
				n, err := first.Write([]byte("other!"))
				vsym.Assert(n == 6 && err == nil && first.Close() == nil, "not overwritten", n, err)
			case 2:
				vsym.Assert(vlib.Write(q, "/f", []byte("other!")) == nil, "not overwritten")
			}
			vsym.Cover("changed while open")
		}
		h := 0
		if nh > 1 {
			h = vsym.Choose("handle", nh)
		}
		f := fs[h]
		if vsym.Bool("seek") {
			off := int64(vsym.Int("off", -2, 4))
			wh := vsym.Choose("whence", 3)
			abs := off
			switch wh {
			case 1:
				abs += pos[h]
			case 2:
				abs += size
			}
			at, err := f.Seek(off, wh)
			if abs < 0 {
				vsym.Assert(err != nil, "seek before the start succeeds", off, wh, at)
				continue
			}
			vsym.Assert(err == nil && at == abs, "wrong position", off, wh, at, abs, err)
			pos[h] = abs
			continue
		}
		n := vsym.Int("n", 1, 3)
		b := make([]byte, 4)
		got, err := f.Read(b[:n])
		if pos[h] >= size {
			vsym.Assert(got == 0 && err == io.EOF, "no EOF at the end", got, err)
			continue
		}
		exp := data[pos[h]:]
		if len(exp) > n {
			exp = exp[:n]
		}
		vsym.Assert(err == nil && got == len(exp), "wrong count", got, len(exp), err)
		vsym.Assert(vsym.EqB(b[:got], exp), "wrong bytes", b[:got], exp)
		pos[h] += int64(got)
		scribble(b)
	}
	for i, f := range fs {
		// what is left, and then nothing
		rest := []byte{}
		if pos[i] < size {
			rest = data[pos[i]:]
		}
		b := make([]byte, 8)
		for range rest {
			n, err := f.Read(b[:1])
			vsym.Assert(err == nil && n == 1 && b[0] == rest[0], "wrong rest", n, err)
			rest = rest[1:]
		}
		for k := 0; k < 3; k++ {
			n, err := f.Read(b)
			vsym.Assert(n == 0 && err == io.EOF, "no EOF at the end", n, err)
		}
		fi, err := f.Stat()
		vsym.Assert(err == nil && fi.Size() == size, "open file changed its size", fi, err)
		vsym.Assert(f.Close() == nil, "Close fails")
	}
	vsym.Assert(old.Size() == size && old.Name() == "f", "an info changes", old.Size())
	vsym.ObserveI("pos", int(pos[0]))
}
