package main

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strings"

	stfs "github.com/pojntfx/stfs/pkg/fs"
	"github.com/spf13/afero"
)

// Entry is everything a user can see of one name.
type Entry struct {
	Path    string
	Kind    string // dir file link
	Size    int64
	Mode    os.FileMode
	UID     uint32
	GID     uint32
	MT      int64
	AT      int64
	CT      int64
	Link    string
	Data    []byte
	ReadErr string
}

// Snap is the visible tree.
type Snap map[string]*Entry

func (s Snap) paths() []string {
	var out []string
	for p := range s {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

func (e *Entry) attrs() string {
	return fmt.Sprintf("%s size=%d mode=%v uid=%d gid=%d mt=%d at=%d ct=%d link=%q readerr=%q", e.Kind, e.Size, e.Mode, e.UID, e.GID, e.MT, e.AT, e.CT, e.Link, e.ReadErr)
}

func (e *Entry) String() string {
	return fmt.Sprintf("%q %s sha=%x", e.Path, e.attrs(), sha256.Sum256(e.Data))
}

func (s Snap) String() string {
	var b strings.Builder
	for _, p := range s.paths() {
		b.WriteString(s[p].String())
		b.WriteByte('\n')
	}
	return b.String()
}

// shape abstracts a snapshot for state counting: names, kinds, sizes, modes.
func (s Snap) shape() string {
	var b strings.Builder
	for _, p := range s.paths() {
		e := s[p]
		fmt.Fprintf(&b, "%s %s %d %v %s\n", p, e.Kind, e.Size, e.Mode, e.Link)
	}
	return b.String()
}

// diff describes the first few differences between two snapshots.
func (a Snap) diff(b Snap, an, bn string) string {
	var out []string
	for _, p := range a.paths() {
		x, y := a[p], b[p]
		if y == nil {
			out = append(out, fmt.Sprintf("%q exists only in %s", p, an))
			continue
		}
		if x.attrs() != y.attrs() {
			out = append(out, fmt.Sprintf("%q: %s has [%s], %s has [%s]", p, an, x.attrs(), bn, y.attrs()))
		} else if !bytes.Equal(x.Data, y.Data) {
			out = append(out, fmt.Sprintf("%q: content of %s (%d bytes) differs from content of %s (%d bytes)", p, an, len(x.Data), bn, len(y.Data)))
		}
	}
	for _, p := range b.paths() {
		if a[p] == nil {
			out = append(out, fmt.Sprintf("%q exists only in %s", p, bn))
		}
	}
	if len(out) > 4 {
		out = append(out[:4], fmt.Sprintf("... and %d more", len(out)-4))
	}
	return strings.Join(out, "\n")
}

func fill(e *Entry, fi os.FileInfo) {
	e.Size = fi.Size()
	e.Mode = fi.Mode()
	e.MT = fi.ModTime().UnixNano()
	switch {
	case fi.IsDir():
		e.Kind = "dir"
		e.Size = 0
	case fi.Mode()&os.ModeSymlink != 0:
		e.Kind = "link"
	default:
		e.Kind = "file"
	}
	if st, ok := fi.Sys().(*stfs.Stat); ok {
		e.UID, e.GID = st.Uid, st.Gid
		e.AT = st.Atim.Nano()
		e.CT = st.Ctim.Nano()
	}
}

var errTooMany = errors.New("walk: too many entries")

// list returns the FileInfos of a directory.
func (w *World) list(y *Sys, dir string, n int) (out []os.FileInfo, err error) {
	err = w.api(y, fmt.Sprintf("Open(%q).Readdir(%d)", dir, n), func() error {
		f, err := y.fs.Open(dir)
		if err != nil {
			return err
		}
		defer f.Close()
		out, err = f.Readdir(n)
		return err
	})
	return
}

// readAll reads a file through the filesystem.
func (w *World) readAll(y *Sys, p string) (b []byte, err error) {
	err = w.api(y, fmt.Sprintf("read %q", p), func() error {
		f, err := y.fs.Open(p)
		if err != nil {
			return err
		}
		b, err = readHandle(f)
		if cerr := f.Close(); err == nil {
			err = cerr
		}
		return err
	})
	return
}

func readHandle(f afero.File) ([]byte, error) {
	var b bytes.Buffer
	buf := make([]byte, 8192)
	zero := 0
	for {
		n, err := f.Read(buf)
		if n > 0 {
			b.Write(buf[:n])
			zero = 0
		}
		if err == io.EOF {
			return b.Bytes(), nil
		}
		if err != nil {
			return b.Bytes(), err
		}
		if n == 0 {
			if zero++; zero > 100 {
				return b.Bytes(), errors.New("read returns (0, nil) forever")
			}
		}
	}
}

// walk snapshots everything reachable by listing from the root.
func (w *World) walk(y *Sys, contents bool) (Snap, error) {
	s := Snap{}
	n := 0
	var rec func(dir string) error
	add := func(p string) (*Entry, error) {
		e := &Entry{Path: p}
		var fi os.FileInfo
		err := w.api(y, fmt.Sprintf("Stat(%q)", p), func() (err error) {
			fi, err = y.fs.Stat(p)
			return
		})
		if err != nil {
			return nil, fmt.Errorf("stat %q: %w", p, err)
		}
		fill(e, fi)
		if p == "/" {
			return e, nil
		}
		_ = w.api(y, fmt.Sprintf("Readlink(%q)", p), func() error {
			l, err := y.fs.ReadlinkIfPossible(p)
			if err == nil {
				e.Link = "-> " + l
				if e.Kind == "file" {
					e.Kind = "link"
				}
			}
			return nil
		})
		if e.Kind == "file" && contents {
			b, err := w.readAll(y, p)
			if err != nil {
				e.ReadErr = "error"
				e.Data = nil
				w.logf("read %q: %v", p, err)
			} else {
				e.Data = b
			}
		}
		return e, nil
	}
	rec = func(dir string) error {
		fis, err := w.list(y, dir, -1)
		if err != nil {
			return fmt.Errorf("list %q: %w", dir, err)
		}
		for _, fi := range fis {
			if n++; n > 4000 {
				return errTooMany
			}
			p := path.Join(dir, fi.Name())
			if s[p] != nil {
				return fmt.Errorf("list %q: %q listed twice", dir, fi.Name())
			}
			e, err := add(p)
			if err != nil {
				return fmt.Errorf("list %q: %w", dir, err)
			}
			s[p] = e
			if e.Kind == "dir" && e.Link == "" {
				if err := rec(p); err != nil {
					return err
				}
			}
		}
		return nil
	}
	root, err := add("/")
	if err != nil {
		return s, err
	}
	s["/"] = root
	if err := rec("/"); err != nil {
		return s, err
	}
	return s, nil
}

// snap is walk that must succeed.
func (w *World) snap(y *Sys, who string) Snap {
	s, err := w.walk(y, true)
	if err != nil {
		w.fail("walk", "the tree of the %s cannot be walked: %v", who, err)
	}
	return s
}

// rebuilt builds a second system over a copy of the tape (or the given bytes),
// its index rebuilt from scratch.
func (w *World) rebuilt(cfg Cfg, from *Sys, bytes []byte) (*Sys, error) {
	tp := w.path("rebuild.tar")
	if bytes != nil {
		must(os.WriteFile(tp, bytes, 0o600))
	} else {
		from.copyTape(tp)
	}
	y, err := w.newSys(cfg, tp, path.Join(path.Dir(tp), "rebuild.sqlite"))
	must(err)
	y.chunk = from.chunk
	err = w.api(y, "recovery.Index (rebuild)", func() error { return y.index(0, 0, true, 0, nil) })
	return y, err
}

// reopened opens a copy of tape and index in a fresh instance.
func (w *World) reopened(cfg Cfg, from *Sys) (*Sys, error) {
	tp := w.path("reopen.tar")
	db := path.Join(path.Dir(tp), "reopen.sqlite")
	from.copyTape(tp)
	copyFile(from.db, db)
	y, err := w.newSys(cfg, tp, db)
	must(err)
	y.chunk = from.chunk
	err = w.api(y, "Initialize (reopen)", func() error {
		_, err := y.fs.Initialize("/", os.ModePerm)
		return err
	})
	return y, err
}

// drop closes a helper system and removes its files.
func (w *World) drop(y *Sys) {
	y.close()
	for i, o := range w.open {
		if o == y {
			w.open = append(w.open[:i], w.open[i+1:]...)
			break
		}
	}
	delete(w.tapes, y.tape)
	os.RemoveAll(path.Dir(y.tape))
}

// modelSnap renders the model as (path -> node) comparisons against a snapshot.
func (m *Model) compare(s Snap, attrs, contents bool) string {
	var out []string
	for _, p := range m.paths() {
		n := m.N[p]
		e := s[p]
		if e == nil {
			out = append(out, fmt.Sprintf("%q is missing", p))
			continue
		}
		kind := "file"
		if n.Dir {
			kind = "dir"
		}
		if e.Kind != kind {
			out = append(out, fmt.Sprintf("%q is a %s, want %s", p, e.Kind, kind))
			continue
		}
		if !n.Dir && contents && !n.Wild {
			if e.Size != int64(len(n.Data)) {
				out = append(out, fmt.Sprintf("%q has size %d, want %d", p, e.Size, len(n.Data)))
			}
			if e.ReadErr != "" {
				out = append(out, fmt.Sprintf("%q cannot be read", p))
			} else if !bytes.Equal(e.Data, n.Data) {
				out = append(out, fmt.Sprintf("%q has wrong content: %s", p, diffBytes(e.Data, n.Data)))
			}
		}
		if attrs && p != "/" {
			if e.Mode&permMask != n.Mode {
				out = append(out, fmt.Sprintf("%q has mode %v, want %v", p, e.Mode, n.Mode))
			}
			if int(e.UID) != n.UID || int(e.GID) != n.GID {
				out = append(out, fmt.Sprintf("%q has owner %d:%d, want %d:%d", p, e.UID, e.GID, n.UID, n.GID))
			}
			if !inSpans(timeNS(e.MT), n.MT) {
				out = append(out, fmt.Sprintf("%q has mtime %v, want one of %v", p, timeNS(e.MT).UTC(), n.MT))
			}
			if n.AT != nil && !inSpans(timeNS(e.AT), n.AT) {
				out = append(out, fmt.Sprintf("%q has atime %v, want one of %v", p, timeNS(e.AT).UTC(), n.AT))
			}
		}
	}
	for _, p := range s.paths() {
		if m.N[p] == nil {
			out = append(out, fmt.Sprintf("%q exists but should not", p))
		}
	}
	if len(out) > 4 {
		out = append(out[:4], fmt.Sprintf("... and %d more", len(out)-4))
	}
	return strings.Join(out, "\n")
}

func diffBytes(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("got %d bytes, want %d, first difference at %d", len(got), len(want), i)
}
