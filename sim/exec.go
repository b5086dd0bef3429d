package main

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/mtio"
	"github.com/pojntfx/stfs/pkg/tape"
	"github.com/spf13/afero"
)

// Runner drives one system and, beside it, the reference model.
type Runner struct {
	w *World
	y *Sys
	m *Model

	strict   bool // outcome disagreements are violations
	strictIO bool // ... including every byte, count and offset on handles
	noModel  bool // do not keep a model (after faults)
	desync   bool // outcome and model went apart (not this property's matter)
	mid      func(f afero.File)
}

const (
	accMask = os.O_RDONLY | os.O_WRONLY | os.O_RDWR
)

func (op *Op) String() string {
	switch op.K {
	case "sess":
		api := fmt.Sprintf("OpenFile(%q, %s, %o)", op.P, flagStr(op.F), op.M)
		if op.Q != "" {
			api = fmt.Sprintf("%s(%q)", op.Q, op.P)
		}
		var cs []string
		for _, c := range op.Calls {
			cs = append(cs, c.String())
		}
		return api + "{" + strings.Join(cs, "; ") + "}"
	case "rename", "move":
		return fmt.Sprintf("%s(%q, %q)", op.K, op.P, op.Q)
	case "symlink":
		return fmt.Sprintf("symlink(%q, %q)", op.P, op.Q)
	case "archive", "update", "overwrite":
		var ms []string
		for _, m := range op.Mem {
			ms = append(ms, fmt.Sprintf("%s(%d)", m.Name, m.D.N))
		}
		return fmt.Sprintf("%s[%s]", op.K, strings.Join(ms, ", "))
	case "chmod":
		return fmt.Sprintf("chmod(%q, %v)", op.P, os.FileMode(op.M))
	case "mkdir", "mkdirall":
		return fmt.Sprintf("%s(%q, %v)", op.K, op.P, os.FileMode(op.M))
	case "list":
		return fmt.Sprintf("list(%q, %d)", op.P, op.N)
	case "chown":
		return fmt.Sprintf("chown(%q, %d, %d)", op.P, op.U, op.G)
	case "chtimes":
		return fmt.Sprintf("chtimes(%q, %d, %d)", op.P, op.T1, op.T2)
	}
	return fmt.Sprintf("%s(%q)", op.K, op.P)
}

func (c HCall) String() string {
	d := ""
	if c.D != nil {
		d = fmt.Sprintf(" %dB", c.D.N)
		if c.D.Kind == "lit" {
			d = fmt.Sprintf(" %q", c.D.Lit)
		}
	}
	switch c.C {
	case "op":
		return c.S.String()
	case "read", "truncate", "readdir":
		return fmt.Sprintf("%s %d", c.C, c.N)
	case "readat":
		return fmt.Sprintf("readat %d @%d", c.N, c.O)
	case "seek":
		return fmt.Sprintf("seek %d whence %d", c.O, c.W)
	case "writeat":
		return fmt.Sprintf("writeat%s @%d", d, c.O)
	}
	return c.C + d
}

func flagStr(f int) string {
	s := []string{"O_RDONLY"}
	switch f & accMask {
	case os.O_WRONLY:
		s[0] = "O_WRONLY"
	case os.O_RDWR:
		s[0] = "O_RDWR"
	}
	for _, x := range []struct {
		f int
		n string
	}{{os.O_APPEND, "O_APPEND"}, {os.O_CREATE, "O_CREATE"}, {os.O_EXCL, "O_EXCL"}, {os.O_TRUNC, "O_TRUNC"}, {os.O_SYNC, "O_SYNC"}} {
		if f&x.f == x.f {
			s = append(s, x.n)
		}
	}
	return strings.Join(s, "|")
}

func (op *Op) flags() (flag int, mode os.FileMode) {
	switch op.Q {
	case "Create":
		return os.O_RDWR | os.O_CREATE | os.O_TRUNC, 0o666
	case "Open":
		return os.O_RDONLY, 0
	}
	return op.F, os.FileMode(op.M)
}

// open performs the open call of a session.
func (y *Sys) openOp(op *Op) (afero.File, error) {
	switch op.Q {
	case "Create":
		return y.fs.Create(op.P)
	case "Open":
		return y.fs.Open(op.P)
	}
	return y.fs.OpenFile(op.P, op.F, os.FileMode(op.M))
}

type member struct {
	name string
	info os.FileInfo
}

// getSrc feeds the members of a batch to Archive / Update.
func (y *Sys) getSrc(op *Op) func() (config.FileConfig, error) {
	i := 0
	return func() (config.FileConfig, error) {
		if i >= len(op.Mem) {
			return config.FileConfig{}, io.EOF
		}
		mem := op.Mem[i]
		i++
		if mem.Fail && mem.D.N == 0 {
			return config.FileConfig{}, errInjected
		}
		h := &tar.Header{Typeflag: tar.TypeReg, Name: mem.Name, Mode: int64(mem.Mode), ModTime: time.Unix(0, mem.MT), Uid: 1000 + i, Gid: 2000 + i, Uname: "u", Gname: "g"}
		if mem.Own != "" {
			h.Uname, h.Gname = mem.Own+"u", mem.Own+"g"
		}
		if mem.Link != "" {
			h.Typeflag, h.Linkname = tar.TypeSymlink, mem.Link
		} else if mem.Dir {
			h.Typeflag = tar.TypeDir
		} else {
			h.Size = int64(mem.D.N)
		}
		return config.FileConfig{
			GetFile: func() (io.ReadSeekCloser, error) {
				return &fSource{y: y, Reader: bytes.NewReader(mem.D.Bytes()), fail: mem.Fail}, nil
			},
			Info: h.FileInfo(),
			Path: mem.Name,
			Link: mem.Link,
		}, nil
	}
}

// raw performs one op on a system, without a model. Sessions stop at the
// first failing open; handle-call errors are returned joined.
func (w *World) raw(y *Sys, op *Op) (err error) {
	lab := op.String()
	call := func(f func() error) error { return w.api(y, lab, f) }
	switch op.K {
	case "sess":
		var f afero.File
		err = call(func() (err error) { f, err = y.openOp(op); return })
		if err != nil {
			return err
		}
		for i := range op.Calls {
			c := op.Calls[i]
			if c.C == "op" {
				if c.S.besides(op) {
					_ = w.raw(y, c.S)
					w.opLabel = lab
				}
				continue
			}
			e := w.api(y, lab+": "+c.String(), func() error { return rawCall(f, c) })
			if e != nil && err == nil && e != io.EOF {
				err = e
			}
		}
		e := w.api(y, lab+": Close", func() error { return f.Close() })
		if err == nil {
			err = e
		}
	case "mkdir":
		err = call(func() error { return y.fs.Mkdir(op.P, os.FileMode(op.M)) })
	case "mkdirall":
		err = call(func() error { return y.fs.MkdirAll(op.P, os.FileMode(op.M)) })
	case "remove":
		err = call(func() error { return y.fs.Remove(op.P) })
	case "removeall":
		err = call(func() error { return y.fs.RemoveAll(op.P) })
	case "rename":
		err = call(func() error { return y.fs.Rename(op.P, op.Q) })
	case "chmod":
		err = call(func() error { return y.fs.Chmod(op.P, os.FileMode(op.M)) })
	case "chown":
		err = call(func() error { return y.fs.Chown(op.P, op.U, op.G) })
	case "chtimes":
		err = call(func() error { return y.fs.Chtimes(op.P, timeNS(op.T1), timeNS(op.T2)) })
	case "symlink":
		err = call(func() error { return y.fs.SymlinkIfPossible(op.P, op.Q) })
	case "stat":
		err = call(func() error { _, err := y.fs.Stat(op.P); return err })
	case "lstat":
		err = call(func() error { _, _, err := y.fs.LstatIfPossible(op.P); return err })
	case "readlink":
		err = call(func() error { _, err := y.fs.ReadlinkIfPossible(op.P); return err })
	case "list":
		err = call(func() error {
			f, err := y.fs.Open(op.P)
			if err != nil {
				return err
			}
			defer f.Close()
			_, err = f.Readdir(int(op.N))
			return err
		})
	case "readfile":
		_, err = w.readAll(y, op.P)
	case "archive":
		err = call(func() error { _, err := y.writeOps.Archive(y.getSrc(op), level(y.cfg, op), false, false); return err })
	case "reinit", "overwrite": // a process which was told to start over
		y.tm = tape.NewTapeManager(y.tape, mtio.MagneticTapeIO{}, y.cfg.RS, true)
		if y.st != nil {
			y.st.over = true
		}
		if op.K == "reinit" {
			err = call(func() error { return y.writeOps.Initialize("/", os.ModePerm, level(y.cfg, op)) })
		} else {
			err = call(func() error { _, err := y.writeOps.Archive(y.getSrc(op), level(y.cfg, op), true, false); return err })
		}
		if err != nil { // the process may not have started over yet
			y.tm = tape.NewTapeManager(y.tape, mtio.MagneticTapeIO{}, y.cfg.RS, false)
		} // else it goes on
		if y.st != nil {
			y.st.over = false
		}
	case "update":
		err = call(func() error { _, err := y.writeOps.Update(y.getSrc(op), level(y.cfg, op), op.Rep, false); return err })
	case "delete":
		err = call(func() error { return y.writeOps.Delete(op.P) })
	case "move":
		err = call(func() error { return y.writeOps.Move(op.P, op.Q) })
	case "restore":
		err = call(func() error { _, err := y.restore(op.P); return err })
	case "reindex":
		err = call(func() error { return y.index(0, 0, op.Rep, 0, nil) })
	case "init":
		err = call(func() error { _, err := y.fs.Initialize("/", os.ModePerm); return err })
	case "sleep":
		w.advance(time.Duration(op.N))
	default:
		must(fmt.Errorf("unknown op %q", op.K))
	}
	return err
}

func level(c Cfg, op *Op) string {
	if op.Level != "" {
		return op.Level
	}
	return c.Level
}

func rawCall(f afero.File, c HCall) (err error) {
	switch c.C {
	case "read":
		_, err = f.Read(make([]byte, c.N))
	case "readat":
		_, err = f.ReadAt(make([]byte, c.N), c.O)
	case "seek":
		_, err = f.Seek(c.O, c.W)
	case "write":
		_, err = f.Write(c.D.Bytes())
	case "writeat":
		_, err = f.WriteAt(c.D.Bytes(), c.O)
	case "writestring":
		_, err = f.WriteString(string(c.D.Bytes()))
	case "truncate":
		err = f.Truncate(c.N)
	case "sync":
		err = f.Sync()
	case "stat":
		_, err = f.Stat()
	case "readdir":
		_, err = f.Readdir(int(c.N))
	case "readdirnames":
		_, err = f.Readdirnames(int(c.N))
	case "name":
		_ = f.Name()
	}
	return err
}

func (r *Runner) now() time.Time { return time.Now() }

// do performs one op on the system and the model and compares outcomes.
func (r *Runner) do(op *Op) error {
	w := r.w
	w.opLabel = op.String()
	w.advance(10 * time.Millisecond)
	t0 := time.Now()
	if op.K == "sess" {
		return r.session(op)
	}
	err := w.raw(r.y, op)
	win := span{t0, time.Now()}
	v := vAny
	if !r.noModel {
		v = r.m.apply(op, win, err == nil)
	}
	r.judge(op, v, err)
	return err
}

func (r *Runner) judge(op *Op, verdict string, err error) {
	w := r.w
	got := "ok"
	if err != nil {
		got = "err"
	}
	w.logf("op %s -> %s", w.opLabel, got)
	if w.logSink != nil && err != nil {
		w.logSink("   " + err.Error())
	}
	w.class("%s:%s", op.K, got)
	if r.noModel || verdict == vAny || verdict == got {
		return
	}
	if r.strict {
		w.fail("outcome", "%s: got %s (%v), the reference filesystem %s", w.opLabel, got, err, map[string]string{vOK: "succeeds", vErr: "fails"}[verdict])
	}
	r.desync = true
	w.count("desync")
}

// apply runs an op on the model and says what the reference does. ok tells
// what the system did, for ops whose outcome the model does not fix.
func (m *Model) apply(op *Op, win span, ok bool) string {
	switch op.K {
	case "mkdir":
		return m.Mkdir(op.P, os.FileMode(op.M), win)
	case "mkdirall":
		return m.MkdirAll(op.P, os.FileMode(op.M), win)
	case "remove":
		return m.Remove(op.P, win)
	case "removeall":
		return m.RemoveAll(op.P, win)
	case "rename":
		return m.Rename(op.P, op.Q, win)
	case "chmod":
		return m.Chmod(op.P, os.FileMode(op.M))
	case "chown":
		return m.Chown(op.P, op.U, op.G)
	case "chtimes":
		return m.Chtimes(op.P, timeNS(op.T1), timeNS(op.T2))
	case "stat":
		if m.get(op.P) == nil {
			return vErr
		}
		return vOK
	case "list":
		if n := m.get(op.P); n == nil || !n.Dir {
			return vErr
		}
		return vOK
	case "readfile":
		if n := m.get(op.P); n == nil || n.Dir {
			return vErr
		}
		return vOK
	case "delete": // archive interface: recursive, like RemoveAll, but a missing name is an error
		if m.get(op.P) == nil {
			return vErr
		}
		return m.RemoveAll(op.P, win)
	case "move":
		if m.get(op.P) == nil {
			return vErr
		}
		return m.Rename(op.P, op.Q, win)
	case "reinit":
		m.N = map[string]*Node{"/": {Dir: true, Mode: os.ModePerm}}
		return vOK
	case "archive", "update", "overwrite":
		for _, mem := range op.Mem {
			if mem.Fail {
				return vErr
			}
		}
		if op.Level == "bogus" && !ok { // without compression the level does not matter
			return vAny
		}
		if op.K == "overwrite" {
			m.N = map[string]*Node{}
		}
		if op.K != "update" {
			for i, mem := range op.Mem {
				k := i + 1
				p := clean(mem.Name)
				n := &Node{Dir: mem.Dir, Mode: os.FileMode(mem.Mode) & permMask, UID: 1000 + k, GID: 2000 + k, MT: at(timeNS(mem.MT)), Data: mem.D.Bytes()}
				if mem.Dir {
					n.Data = nil
				}
				m.N[p] = n
				m.touchParent(p, win)
			}
			return vOK
		}
		for i, mem := range op.Mem {
			k := i + 1
			n := m.get(mem.Name)
			if n == nil {
				return vAny
			}
			n.Mode = os.FileMode(mem.Mode) & permMask
			n.UID, n.GID = 1000+k, 2000+k
			n.MT = at(timeNS(mem.MT))
			n.AT = nil
			if op.Rep && !n.Dir {
				n.Data = mem.D.Bytes()
			}
		}
		return vOK
	case "restore":
		if m.get(op.P) == nil {
			return vErr
		}
		return vOK
	}
	return vAny
}

func isPerm(err error) bool { return errors.Is(err, os.ErrPermission) }

// session: open, calls on the handle, close.
func (r *Runner) session(op *Op) error {
	w, y := r.w, r.y
	flag, mode := op.flags()
	lab := op.String()
	t0 := time.Now()
	var f afero.File
	err := w.api(y, lab, func() (err error) { f, err = y.openOp(op); return })
	win := span{t0, time.Now()}
	v := vAny
	var mf *MFile
	if !r.noModel {
		v = r.m.Open(op.P, flag, mode, win)
	}
	r.judge(op, v, err)
	if err != nil {
		return err
	}
	if r.desync {
		_ = w.api(y, lab+": Close", f.Close)
		return nil
	}
	n := (*Node)(nil)
	if !r.noModel {
		n = r.m.get(op.P)
		if n != nil && !n.Dir {
			mf = r.m.Handle(op.P, flag)
		}
	}
	var first error
	for i := range op.Calls {
		c := op.Calls[i]
		w.opLabel = fmt.Sprintf("%s call %d (%s)", lab, i, c.String())
		if c.C == "op" {
			if !c.S.besides(op) {
				continue
			}
			w.class("while open:%s", c.S.K)
			_ = r.do(c.S)
			if r.desync {
				break
			}
			if r.mid != nil {
				r.mid(f)
			}
			continue
		}
		if mf == nil {
			e := w.api(y, w.opLabel, func() error { return rawCall(f, c) })
			if n != nil && n.Dir && r.strictIO {
				r.dirCall(f, c, e)
			}
			w.logf("  %s -> %v", c.String(), e != nil)
			if first == nil {
				first = e
			}
			continue
		}
		e := r.handleCall(f, mf, c)
		if r.desync {
			break
		}
		if c.C == "sync" && e == nil {
			r.flush(n, mf, t0)
			if r.mid != nil {
				r.mid(f)
			}
		}
		if first == nil {
			first = e
		}
	}
	w.opLabel = lab + ": Close"
	cerr := w.api(y, w.opLabel, f.Close)
	w.logf("  close -> %v", cerr)
	if !r.noModel && cerr != nil && !r.desync {
		if r.strict {
			w.fail("outcome", "%s: Close fails: %v", lab, cerr)
		}
		r.desync = true
		w.count("desync")
	}
	if mf != nil && cerr == nil {
		r.flush(n, mf, t0)
	}
	if first == nil {
		first = cerr
	}
	w.opLabel = lab
	return first
}

func (r *Runner) flush(n *Node, mf *MFile, t0 time.Time) {
	if mf.dirty {
		n.Data = append([]byte(nil), mf.data...)
		n.MT = append(n.MT, span{t0, time.Now()})
		mf.dirty = false
	}
}

func (r *Runner) dirCall(f afero.File, c HCall, e error) {
	switch c.C {
	case "write", "writeat", "writestring", "truncate":
		if e == nil {
			r.w.fail("outcome", "%s on a directory succeeds", r.w.opLabel)
		}
	}
}

// handleCall performs one call on an open regular file and on the reference
// byte array, and compares count, offset, bytes and end-of-file signalling.
func (r *Runner) handleCall(f afero.File, m *MFile, c HCall) error {
	w := r.w
	var (
		n   int
		off int64
		err error
		buf []byte
	)
	bad := func(class, d string, a ...interface{}) {
		if r.strict || r.strictIO {
			w.fail(class, "%s: %s", w.opLabel, fmt.Sprintf(d, a...))
		}
		if !r.desync {
			r.desync = true
			w.count("desync")
		}
	}
	badIO := func(class, d string, a ...interface{}) {
		if r.strictIO {
			w.fail(class, "%s: %s", w.opLabel, fmt.Sprintf(d, a...))
		}
	}
	wantErr := func(cond bool) bool {
		if cond != (err != nil) {
			if cond {
				bad("outcome", "succeeds, the reference fails")
			} else {
				bad("outcome", "fails (%v), the reference succeeds", err)
			}
			return true
		}
		if cond && n > 0 && c.C != "seek" {
			badIO("count", "fails but reports %d bytes", n)
		}
		return cond
	}
	in := func(fn func() error) { err = w.api(r.y, w.opLabel, fn) }
	size := int64(len(m.data))
	defer func() { w.logf("  %s -> n=%d off=%d err=%v", c.String(), n, off, err != nil) }()
	w.class("h:%s", c.C)
	switch c.C {
	case "read", "readat":
		buf = make([]byte, c.N)
		for i := range buf {
			buf[i] = 0xa5
		}
		pos := m.pos
		if c.C == "read" {
			in(func() (e error) { n, e = f.Read(buf); return })
		} else {
			pos = c.O
			in(func() (e error) { n, e = f.ReadAt(buf, c.O); return })
		}
		eof := err == io.EOF
		if eof {
			err = nil
		}
		neg := c.C == "readat" && c.O < 0
		if c.N == 0 {
			// nothing is asked for: zero bytes, with or without an error
			if n > 0 {
				badIO("count", "zero-length read reports %d bytes", n)
			}
			return nil
		}
		if wantErr(!m.r || neg) {
			return err
		}
		want := int64(0)
		if pos < size {
			want = size - pos
		}
		if want > c.N {
			want = c.N
		}
		if want == 0 {
			if !eof || n > 0 {
				badIO("eof", "reading at %d of a %d byte file returns %d bytes, eof=%v; want 0 bytes and end-of-file", pos, size, n, eof)
			}
			return nil
		}
		if int64(n) > want || n < 0 {
			badIO("count", "returns %d bytes at %d of a %d byte file", n, pos, size)
			return nil
		}
		if int64(n) != want {
			if c.C == "read" && n > 0 && !eof {
				want = int64(n) // a short read is allowed by io.Reader
			} else {
				badIO("count", "returns %d bytes (eof=%v), want %d", n, eof, want)
			}
		}
		if eof && pos+int64(n) < size {
			badIO("eof", "signals end-of-file after byte %d of %d", pos+int64(n), size)
		}
		if n >= 0 && n <= len(buf) && !bytes.Equal(buf[:n], m.data[pos:pos+int64(n)]) {
			badIO("bytes", "returns wrong bytes at %d: %s", pos, diffBytes(buf[:n], m.data[pos:pos+int64(n)]))
		}
		if c.C == "read" {
			m.pos += int64(n)
		}
		return nil
	case "seek":
		in(func() (e error) { off, e = f.Seek(c.O, c.W); return })
		base := int64(0)
		switch c.W {
		case io.SeekCurrent:
			base = m.pos
		case io.SeekEnd:
			base = size
		}
		dst := base + c.O
		if wantErr(dst < 0 || c.W > 2) {
			return err
		}
		if off != dst {
			badIO("offset", "returns offset %d, want %d", off, dst)
		}
		m.pos = dst
	case "write", "writestring":
		b := c.D.Bytes()
		if c.C == "write" {
			in(func() (e error) { n, e = f.Write(b); return })
		} else {
			in(func() (e error) { n, e = f.WriteString(string(b)); return })
		}
		if len(b) == 0 && err == nil {
			if m.app { // whether writing nothing moves an appending cursor is left open
				if o, e := f.Seek(0, io.SeekCurrent); e == nil && o == size {
					m.pos = o
				}
			}
			return nil
		}
		if wantErr(!m.w) {
			return err
		}
		if n != len(b) {
			badIO("count", "reports %d bytes written, want %d", n, len(b))
		}
		if m.app {
			m.pos = size
		}
		m.writeAt(b, m.pos)
		m.pos += int64(len(b))
	case "writeat":
		b := c.D.Bytes()
		in(func() (e error) { n, e = f.WriteAt(b, c.O); return })
		if len(b) == 0 && err == nil {
			return nil
		}
		if wantErr(!m.w || c.O < 0) {
			return err
		}
		if n != len(b) {
			badIO("count", "reports %d bytes written, want %d", n, len(b))
		}
		m.writeAt(b, c.O)
	case "truncate":
		in(func() error { return f.Truncate(c.N) })
		if wantErr(!m.w || c.N < 0) {
			return err
		}
		if c.N < size {
			m.data = m.data[:c.N:c.N]
			m.dirty = true
		} else if c.N > size {
			m.data = append(m.data, make([]byte, c.N-size)...)
			m.dirty = true
		}
	case "sync":
		in(f.Sync)
		if wantErr(false) {
			return err
		}
	case "stat":
		var fi os.FileInfo
		in(func() (e error) { fi, e = f.Stat(); return })
		if wantErr(false) {
			return err
		}
		// an unflushed handle may report the flushed length or its own
		if fi.Size() != int64(len(m.data)) && !(m.dirty && fi.Size() == int64(len(m.n.Data))) {
			badIO("size", "reports size %d, want %d", fi.Size(), len(m.data))
		}
	case "readdir", "readdirnames":
		in(func() error { return rawCall(f, c) })
		if wantErr(true) {
			return err
		}
	default:
		in(func() error { return rawCall(f, c) })
	}
	return err
}
