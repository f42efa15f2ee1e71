package vmodel

import (
	"errors"
	"strings"
)

// The go command, as far as here.run uses it.

type modinfo struct {
	path, dir, text string
}

func fileText(dir, name string) (string, bool) {
	n, err := lookup(dir+"/"+name, true)
	if err != nil || n.dir {
		return "", false
	}
	return string(n.data), true
}

func up(dir string) string {
	i := strings.LastIndexByte(dir, '/')
	if i <= 0 {
		return "/"
	}
	return dir[:i]
}

func findMod(dir string) *modinfo {
	for d := dir; ; d = up(d) {
		if t, ok := fileText(d, "go.mod"); ok {
			m := &modinfo{dir: d, text: t}
			for _, l := range strings.Split(t, "\n") {
				if strings.HasPrefix(l, "module ") {
					m.path = strings.TrimSpace(l[7:])
				}
			}
			return m
		}
		if d == "/" {
			return nil
		}
	}
}

func q(s string) string {
	r := "\""
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '"', '\\':
			r += "\\" + string(rune(c))
		default:
			r += s[i : i+1]
		}
	}
	return r + "\""
}

func (m *modinfo) json(main bool) string {
	r := "{\"Path\": " + q(m.path)
	if main {
		r += ", \"Main\": true"
	}
	return r + ", \"Dir\": " + q(m.dir) + ", \"GoMod\": " + q(m.dir+"/go.mod") + "}"
}

func errRun(s string) error { return errors.New("exit status 1: " + s + "\n") }

func listDir(dir string, m *modinfo, main bool) ([]byte, error) {
	n, err := lookup(dir, true)
	if err != nil || !n.dir {
		return nil, errRun("no such directory")
	}
	var gofiles, tests []string
	name := ""
	for _, k := range n.kids {
		if k.dir || !strings.HasSuffix(k.name, ".go") || k.name[0] == '_' || k.name[0] == '.' {
			continue
		}
		pn := ""
		for _, l := range strings.Split(string(k.data), "\n") {
			if strings.HasPrefix(l, "package ") {
				pn = strings.TrimSpace(l[8:])
				break
			}
		}
		if strings.HasSuffix(k.name, "_test.go") {
			tests = append(tests, k.name)
			if name == "" {
				name = strings.TrimSuffix(pn, "_test")
			}
			continue
		}
		gofiles = append(gofiles, k.name)
		name = pn
	}
	if len(gofiles)+len(tests) == 0 {
		return nil, errRun("no Go files in " + dir)
	}
	ip := m.path
	if dir != m.dir {
		ip += strings.TrimPrefix(dir, m.dir)
	}
	s := "{\"Dir\": " + q(dir) + ", \"ImportPath\": " + q(ip) + ", \"Name\": " + q(name) + ", \"Root\": " + q(m.dir) + ", \"Module\": " + m.json(main)
	if len(gofiles) > 0 {
		s += ", \"GoFiles\": ["
		for i, f := range gofiles {
			if i > 0 {
				s += ", "
			}
			s += q(f)
		}
		s += "]"
	}
	return []byte(s + "}\n"), nil
}

// Here_run models here.run: the go command started in the working directory.
func Here_run(n string, args ...string) ([]byte, error) {
	if n != "go" {
		return nil, errors.New("exec: not found")
	}
	a := strings.Join(args, " ")
	m := findMod(cwd)
	if a == "env GOMOD" {
		if m == nil {
			return []byte("/dev/null\n"), nil
		}
		return []byte(m.dir + "/go.mod\n"), nil
	}
	if m == nil {
		return nil, errRun("go: go.mod file not found in current directory or any parent directory; see 'go help modules'")
	}
	switch {
	case a == "list -json -m":
		return []byte(m.json(true) + "\n"), nil
	case a == "list -json":
		return listDir(cwd, m, true)
	case strings.HasPrefix(a, "list -json -find "):
		p := args[len(args)-1]
		if p == m.path || strings.HasPrefix(p, m.path+"/") {
			return listDir(m.dir+strings.TrimPrefix(p, m.path), m, true)
		}
		for _, l := range strings.Split(m.text, "\n") {
			if !strings.HasPrefix(l, "replace ") {
				continue
			}
			f := strings.Split(l[8:], " => ")
			mp := strings.TrimSpace(f[0])
			if p == mp || strings.HasPrefix(p, mp+"/") {
				d := clean(m.dir + "/" + strings.TrimSpace(f[1]))
				return listDir(d+strings.TrimPrefix(p, mp), &modinfo{path: mp, dir: d}, false)
			}
		}
		return nil, errRun("no required module provides package " + p + "; to add it:\n\tgo get " + p)
	}
	return nil, errors.New("go: unknown command")
}
