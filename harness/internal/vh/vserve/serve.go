// Package vserve: files served over HTTP by net/http.
package vserve

import (
	"bytes"
	"net/http"
	"net/url"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/internal/vh/vlib"
	"github.com/markbates/pkger/internal/vsym"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/stdos"
)

// answer is an http.ResponseWriter that keeps what it is given.
type answer struct {
	code int
	head http.Header
	body []byte
}

func (a *answer) Header() http.Header { return a.head }

func (a *answer) WriteHeader(code int) {
	if a.code == 0 {
		a.code = code
	}
}

func (a *answer) Write(b []byte) (int, error) {
	a.WriteHeader(200)
	a.body = append(a.body, b...)
	return len(b), nil
}

// headers are the names and values of the header, in order.
func (a *answer) headers() string {
	var l []string
	for k, v := range a.head {
		l = append(l, k+": "+strings.Join(v, ", "))
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func ask(h http.Handler, r *http.Request) *answer {
	a := &answer{head: http.Header{}}
	h.ServeHTTP(a, r)
	return a
}

func request(method, p string, head map[string]string) *http.Request {
	r := &http.Request{Method: method, URL: &url.URL{Path: p}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "x"}
	for k, v := range head {
		r.Header.Set(k, v)
	}
	return r
}

func write(name string, data []byte) {
	vsym.Assert(os.MkdirAll(path.Dir(name), 0755) == nil, "setup fails", name)
	vsym.Assert(os.WriteFile(name, data, 0644) == nil, "setup fails", name)
}

var _ = vsym.Register("VerifServe", VerifServe)

// VerifServe: FileServer answers alike for a directory of the Pkger and for the
// directory on disk it came from.
func VerifServe() {
	dir := vsym.Root()
	odd := vlib.OddName()
	write(dir+"/go.mod", []byte("module "+vlib.Main+"\n\ngo 1.13\n"))
	write(dir+"/s", []byte("secret"))
	css := vsym.Bytes("css", vsym.Choose("css.len", vsym.Param("len", 2)+1))
	if vsym.Param("big", 0) != 0 {
		css = append(bytes.Repeat([]byte("body {}\n"), 64), css...)
	}
	if k := vsym.Param("long", 0); k != 0 {
		css = append(vlib.Long(vlib.Sizes[vsym.Choose("size", k)]), css...)
	}
	far := ""
	if vsym.Param("many", 0) != 0 {
		for _, e := range vlib.Many().Ents {
			if !e.Dir {
				write(dir+"/w/m"+e.Path, e.Data)
				if vlib.Within("/d", e.Path) {
					far = "/m" + e.Path
				}
			}
		}
	}
	write(dir+"/w/a.css", css)
	write(dir+"/w/b/a", []byte("GIF89a"))
	if vsym.Bool("index") {
		write(dir+"/w/b/index.html", []byte("<html>b"))
	}
	vsym.Assert(os.MkdirAll(dir+"/w/a", 0755) == nil, "setup fails")
	if odd != "" {
		write(dir+"/w/a/"+odd, vlib.Text(odd, "odd"))
		write(dir+"/w/d"+odd+"/x", []byte("below"))
	}
	// files have their own times
	then := time.Unix(1234567890, 0)
	if vsym.Param("times", 0) != 0 {
		then = []time.Time{time.Unix(0, 0), time.Unix(-86400, 0), time.Unix(1234567890, 999999999), time.Unix(0, 1), time.Unix(4102444800, 5e8)}[vsym.Choose("time", 5)]
	}
	for _, n := range []string{"/w/a.css", "/w/b/a"} {
		vsym.Assert(os.Chtimes(dir+n, then, then) == nil, "setup fails", n)
	}
	var p pkging.Pkger
	disk, err := stdos.New(vlib.Info(dir))
	vsym.Assert(err == nil, "New fails", err)
	p = disk
	if how := vsym.Param("packed", 0); how != 0 {
		m, err := mem.New(vlib.Info(dir))
		vsym.Assert(err == nil, "New fails", err)
		f, err := os.Open(dir)
		vsym.Assert(err == nil && m.Add(f) == nil && f.Close() == nil, "setup fails")
		if how > 1 {
			b, err := m.MarshalJSON()
			vsym.Assert(err == nil, "MarshalJSON fails", err)
			m = &mem.Pkger{}
			vsym.Assert(m.UnmarshalJSON(b) == nil, "UnmarshalJSON fails")
		}
		p = m
	}
	vsym.Assert(pkger.Apply(p, nil) == nil, "Apply fails")

	method := []string{"GET", "HEAD"}[vsym.Choose("method", 2)]
	var name string
	target := 2
	if vsym.Param("long", 0) != 0 {
		name = "/a.css"
		target = 3
	} else if vsym.Param("many", 0) != 0 {
		target = 3
	} else if odd == "" {
		target = vsym.Choose("target", 2)
	}
	switch target {
	case 0:
		name = "/" + vlib.Str("raw", "/.ab", 0, vsym.Param("n", 3))
	case 1:
		name = []string{"/b/index.html", "/a.css", "/b/a/", "/a.css/x", "/index.html", "/../s", "/b/../../s", "/./b/a"}[vsym.Choose("fixed", 8)]
	case 2:
		name = []string{"/a/" + odd, "/d" + odd + "/", "/d" + odd + "/x", "/d" + odd, "/" + odd}[vsym.Choose("at", 5)]
	}
	if far != "" {
		name = []string{"/m", "/m/", "/m/d/", "/m/d0", far, path.Dir(far) + "/"}[vsym.Choose("of", 6)]
	}
	head := map[string]string{}
	fi, err := os.Stat(dir + "/w/a.css")
	vsym.Assert(err == nil, "setup fails")
	which := 0
	if name == "/a.css" || name == "/b/a" {
		which = vsym.Choose("header", 12)
	}
	switch which {
	case 1:
		head["Range"] = "bytes=0-0"
	case 2:
		head["Range"] = "bytes=1-"
	case 3:
		head["Range"] = "bytes=-1"
	case 4:
		head["Range"] = "bytes=9-"
	case 5:
		head["If-Modified-Since"] = fi.ModTime().UTC().Format(http.TimeFormat)
	case 6:
		head["If-Unmodified-Since"] = "Sun, 06 Nov 1994 08:49:37 GMT"
	case 7:
		head["Range"] = "x"
	case 8:
		head["Range"] = "bytes=511-513"
	case 10:
		head["Range"] = "bytes=-3"
	case 11:
		head["Range"] = "bytes=65530-65540"
	case 9:
		head["Range"] = "bytes=1-1"
		head["If-Range"] = fi.ModTime().UTC().Format(http.TimeFormat)
	}
	if vsym.Param("deny", 0) != 0 {
		at := []string{"/w/a.css", "/w/b", "/w/b/a", "/w"}[vsym.Choose("denied", 4)]
		vsym.Assert(os.Chmod(dir+at, 0) == nil, "setup fails")
		defer os.Chmod(dir+at, 0755)
	}
	want := ask(http.FileServer(http.Dir(dir+"/w")), request(method, name, head))
	open := vsym.OpenFiles()
	var got *answer
	if vsym.Bool("file") {
		d, err := p.Open("/w")
		if vsym.Param("deny", 0) != 0 && err != nil {
			return
		}
		vsym.Assert(err == nil, "Open fails", err)
		got = ask(http.FileServer(d), request(method, name, head))
		vsym.Assert(d.Close() == nil, "Close fails")
	} else {
		got = ask(http.FileServer(pkger.Dir("/w")), request(method, name, head))
	}
	vsym.Assert(vsym.OpenFiles() == open, "a file is still open", name)
	vsym.Assert(got.code == want.code, "wrong status", name, got.code, want.code)
	vsym.Assert(got.headers() == want.headers(), "wrong headers", name, got.headers(), want.headers())
	vsym.Assert(bytes.Equal(got.body, want.body), "wrong answer", name, string(got.body), string(want.body))
	vsym.ObserveI("code", got.code)
}
