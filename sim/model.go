package main

import (
	"os"
	"path"
	"sort"
	"strings"
	"time"
)

type span struct{ lo, hi time.Time }

func at(t time.Time) []span { return []span{{t, t}} }

func inSpans(t time.Time, s []span) bool {
	for _, x := range s {
		if !t.Before(x.lo) && !t.After(x.hi) {
			return true
		}
	}
	return false
}

// Node of the reference filesystem.
type Node struct {
	Dir      bool
	Mode     os.FileMode
	UID, GID int
	MT       []span // acceptable modification times
	AT       []span // acceptable access times; nil: unspecified
	Data     []byte

	ID   int  // identity, kept across renames
	Wild bool // content is not known any more (concurrent histories only)
}

// Model is the reference hierarchical in-memory filesystem.
type Model struct {
	N    map[string]*Node
	uid  int
	gid  int
	next int
	wrp  bool // handles which may write may read, too
}

const (
	vOK  = "ok"
	vErr = "err"
	vAny = "any" // the reference implementations disagree; state must not change
)

func NewModel() *Model {
	return &Model{N: map[string]*Node{}, uid: os.Getuid(), gid: os.Getgid()}
}

func (m *Model) Clone() *Model {
	n := &Model{N: map[string]*Node{}, uid: m.uid, gid: m.gid, next: m.next, wrp: m.wrp}
	for k, v := range m.N {
		c := *v
		c.MT = append([]span(nil), v.MT...)
		c.AT = append([]span(nil), v.AT...)
		n.N[k] = &c
	}
	return n
}

func clean(p string) string { return path.Clean("/" + p) }

func (m *Model) get(p string) *Node { return m.N[clean(p)] }

// parentOK: every ancestor exists and is a directory.
func (m *Model) parentOK(p string) bool {
	p = clean(p)
	if p == "/" {
		return true
	}
	for {
		p = path.Dir(p)
		n := m.N[p]
		if n == nil || !n.Dir {
			return false
		}
		if p == "/" {
			return true
		}
	}
}

// underFile: some proper ancestor is a regular file.
func (m *Model) underFile(p string) bool {
	p = clean(p)
	for p != "/" {
		p = path.Dir(p)
		if n := m.N[p]; n != nil && !n.Dir {
			return true
		}
	}
	return false
}

func below(p, dir string) bool {
	if dir == "/" {
		return p != "/"
	}
	return strings.HasPrefix(p, dir+"/")
}

func (m *Model) children(dir string) []string {
	dir = clean(dir)
	var out []string
	for p := range m.N {
		if p != "/" && path.Dir(p) == dir {
			out = append(out, path.Base(p))
		}
	}
	sort.Strings(out)
	return out
}

func (m *Model) paths() []string {
	var out []string
	for p := range m.N {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

const permMask = os.ModePerm | os.ModeSetuid | os.ModeSetgid | os.ModeSticky

func (m *Model) touchParent(p string, w span) {
	if n := m.N[path.Dir(clean(p))]; n != nil {
		n.MT = append(n.MT, w)
	}
}

func (m *Model) mk(p string, dir bool, mode os.FileMode, w span) *Node {
	m.next++
	n := &Node{Dir: dir, Mode: mode & permMask, UID: m.uid, GID: m.gid, MT: []span{w}, ID: m.next}
	m.N[clean(p)] = n
	m.touchParent(p, w)
	return n
}

func (m *Model) Mkdir(p string, mode os.FileMode, w span) string {
	if m.get(p) != nil || !m.parentOK(p) {
		return vErr
	}
	m.mk(p, true, mode, w)
	return vOK
}

func (m *Model) MkdirAll(p string, mode os.FileMode, w span) string {
	p = clean(p)
	if n := m.N[p]; n != nil {
		if n.Dir {
			return vOK
		}
		return vErr
	}
	if m.underFile(p) {
		return vErr
	}
	cur := ""
	for _, part := range strings.Split(strings.TrimPrefix(p, "/"), "/") {
		cur += "/" + part
		if m.N[cur] == nil {
			m.mk(cur, true, mode, w)
		}
	}
	return vOK
}

func (m *Model) Remove(p string, w span) string {
	p = clean(p)
	n := m.N[p]
	if n == nil || p == "/" {
		return vErr
	}
	if n.Dir && len(m.children(p)) > 0 {
		return vErr
	}
	delete(m.N, p)
	m.touchParent(p, w)
	return vOK
}

func (m *Model) RemoveAll(p string, w span) string {
	p = clean(p)
	if m.N[p] == nil {
		if m.underFile(p) {
			return vAny
		}
		return vOK
	}
	for q := range m.N {
		if q == p || below(q, p) {
			delete(m.N, q)
		}
	}
	m.touchParent(p, w)
	return vOK
}

func (m *Model) Rename(o, n string, w span) string {
	o, n = clean(o), clean(n)
	src := m.N[o]
	if src == nil || o == "/" || n == "/" {
		return vErr
	}
	if !m.parentOK(n) {
		return vErr
	}
	if o == n {
		return vOK
	}
	if below(n, o) {
		return vErr
	}
	if dst := m.N[n]; dst != nil {
		if dst.Dir != src.Dir {
			return vErr
		}
		if dst.Dir && len(m.children(n)) > 0 {
			return vErr
		}
		delete(m.N, n)
	}
	m.move(o, n)
	m.touchParent(o, w)
	m.touchParent(n, w)
	return vOK
}

func (m *Model) move(o, n string) {
	mv := map[string]*Node{}
	for q, x := range m.N {
		if q == o {
			mv[n] = x
			delete(m.N, q)
		} else if below(q, o) {
			mv[n+strings.TrimPrefix(q, o)] = x
			delete(m.N, q)
		}
	}
	for q, x := range mv {
		m.N[q] = x
	}
}

func (m *Model) Chmod(p string, mode os.FileMode) string {
	n := m.get(p)
	if n == nil {
		return vErr
	}
	n.Mode = mode & permMask
	return vOK
}

func (m *Model) Chown(p string, u, g int) string {
	n := m.get(p)
	if n == nil {
		return vErr
	}
	n.UID, n.GID = u, g
	return vOK
}

func (m *Model) Chtimes(p string, a, mt time.Time) string {
	n := m.get(p)
	if n == nil {
		return vErr
	}
	n.AT, n.MT = at(a), at(mt)
	return vOK
}

// Open returns whether the open must succeed, and applies creation.
func (m *Model) Open(p string, flag int, mode os.FileMode, w span) string {
	p = clean(p)
	n := m.N[p]
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	if n == nil {
		if !m.parentOK(p) || flag&os.O_CREATE == 0 {
			return vErr
		}
		m.mk(p, false, mode, w)
		return vOK
	}
	if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return vErr
	}
	if n.Dir {
		if acc != os.O_RDONLY || flag&os.O_TRUNC != 0 {
			return vErr
		}
		if flag&(os.O_CREATE|os.O_APPEND) != 0 {
			return vAny
		}
		return vOK
	}
	return vOK
}

// MFile is the reference open file: a byte array with a cursor.
type MFile struct {
	n     *Node
	data  []byte
	pos   int64
	r, w  bool
	app   bool
	dirty bool
}

func (m *Model) Handle(p string, flag int) *MFile {
	n := m.get(p)
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	f := &MFile{n: n, r: m.wrp || acc == os.O_RDONLY || acc == os.O_RDWR, w: acc == os.O_WRONLY || acc == os.O_RDWR, app: flag&os.O_APPEND != 0}
	f.data = append([]byte(nil), n.Data...)
	if flag&os.O_TRUNC != 0 && f.w {
		if len(f.data) > 0 {
			f.dirty = true
		}
		f.data = nil
	}
	return f
}

func (f *MFile) writeAt(b []byte, off int64) {
	if len(b) == 0 {
		return
	}
	end := off + int64(len(b))
	if end > int64(len(f.data)) {
		f.data = append(f.data, make([]byte, end-int64(len(f.data)))...)
	}
	copy(f.data[off:], b)
	f.dirty = true
}

func timeNS(ns int64) time.Time { return time.Unix(0, ns) }
