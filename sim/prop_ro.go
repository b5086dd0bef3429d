package main

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/spf13/afero"
)

// info renders everything a FileInfo tells.
func infoStr(fi os.FileInfo, err error) string {
	if err != nil {
		return errKind(err)
	}
	e := &Entry{}
	fill(e, fi)
	return fi.Name() + " " + e.attrs()
}

func errKind(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == io.EOF:
		return "EOF"
	case os.IsNotExist(err):
		return "not exist"
	}
	return "error"
}

// observe performs one read-only call and renders all it returns.
func (w *World) observe(y *Sys, op *Op) (out string) {
	lab := op.String()
	_ = w.api(y, lab, func() error {
		switch op.K {
		case "stat":
			fi, err := y.fs.Stat(op.P)
			out = infoStr(fi, err)
		case "lstat":
			fi, _, err := y.fs.LstatIfPossible(op.P)
			out = infoStr(fi, err)
		case "readlink":
			l, err := y.fs.ReadlinkIfPossible(op.P)
			out = fmt.Sprintf("%q %s", l, errKind(err))
		case "list":
			f, err := y.fs.Open(op.P)
			if err != nil {
				out = "open " + errKind(err)
				return nil
			}
			fis, err := f.Readdir(int(op.N))
			var ns []string
			for _, fi := range fis {
				ns = append(ns, infoStr(fi, nil))
			}
			sort.Strings(ns)
			if op.N > 0 { // which ones come first is open
				ns = []string{fmt.Sprint(len(ns))}
			}
			out = errKind(err) + " " + strings.Join(ns, "; ")
			f2, err := y.fs.Open(op.P)
			if err == nil {
				names, err := f2.Readdirnames(-1)
				sort.Strings(names)
				out += " names " + errKind(err) + fmt.Sprintf("%q", names)
				_ = f2.Close()
			}
			_ = f.Close()
		case "readfile":
			b, err := w.readAll(y, op.P)
			out = fmt.Sprintf("%s %d %x", errKind(err), len(b), sha256.Sum256(b))
		case "restore":
			m, err := y.restore(op.P)
			var ks []string
			for k, b := range m {
				ks = append(ks, fmt.Sprintf("%q %d %x", k, len(b), sha256.Sum256(b)))
			}
			sort.Strings(ks)
			out = errKind(err) + " " + strings.Join(ks, "; ")
		}
		return nil
	})
	return
}

// handleObs performs one reading call on a handle.
func handleObs(f afero.File, c HCall) string {
	switch c.C {
	case "read", "readat":
		b := make([]byte, c.N)
		var n int
		var err error
		if c.C == "read" {
			n, err = f.Read(b)
		} else {
			n, err = f.ReadAt(b, c.O)
		}
		if n < 0 {
			n = 0
		}
		return fmt.Sprintf("%d %s %x", n, errKind(err), sha256.Sum256(b[:n]))
	case "seek":
		n, err := f.Seek(c.O, c.W)
		return fmt.Sprintf("%d %s", n, errKind(err))
	case "stat":
		return infoStr(f.Stat())
	case "name":
		return f.Name()
	case "readdir":
		fis, err := f.Readdir(int(c.N))
		return fmt.Sprintf("%d %s", len(fis), errKind(err))
	case "sync":
		return errKind(f.Sync())
	}
	return ""
}

var mutating = map[string]bool{"mkdir": true, "mkdirall": true, "remove": true, "removeall": true, "rename": true, "chmod": true, "chown": true, "chtimes": true, "symlink": true}
var writing = map[string]bool{"write": true, "writeat": true, "writestring": true, "truncate": true}

func init() {
	register(&propDef{
		id: "C15", level: "exploration", quick: 7000,
		rule:   "Histories build a tape; a read-only instance over it (index present, missing or rebuilt; with and without write backend) runs seeded call sequences of every kind with handle calls; after each call the tape bytes, the whole index table and the drive-writer use are compared, and every reading result is compared with a writable twin.",
		assume: []string{"calls which a writable instance rejects too (positions below zero, writes on directories) may fail with another error", "the read-only index is either absent or current"},
		gen: func(r *Rng, i int, th bool) *Case {
			cs := &Case{Cfg: genCfg(r), X: map[string]int64{}}
			g := newGen(r, cs.Cfg, GenOpt{MaxDepth: 3, LongName: r.P(0.2), Small: r.P(0.6), W: mergeW(defaultW, map[string]int{"archive": 4, "symlink": 3, "readfile": 0, "stat": 0, "list": 0})})
			cs.Ops = g.ops(histLen(r, th, 3, 10))
			chunkX(r, cs)
			cs.X["noindex"] = int64(btoi(r.P(0.4)))
			cs.X["now"] = int64(btoi(r.P(0.35)))
			cs.X["empty"] = int64(btoi(r.P(0.04)))
			g.opt.Spell = r.P(0.2)
			g.opt.W = mergeW(defaultW, map[string]int{"symlink": 3, "stat": 5, "lstat": 2, "readlink": 2, "list": 6, "readfile": 6, "flags": 14, "sess": 14, "restore": 2, "append": 4, "trunc": 4, "new": 8})
			var prog []Op
			for j := histLen(r, th, 6, 20); j > 0; j-- {
				ks, ws := g.kinds()
				op := g.make(ks[r.Weighted(ws)]) // not applied: nothing may change
				prog = append(prog, op)
				if r.P(0.05) {
					prog = append(prog, Op{K: "init"})
				}
			}
			cs.Progs = [][]Op{prog}
			onTape(r, cs)
			return cs
		},
		exec: execReadOnly,
	})
}

func execReadOnly(w *World, cs *Case) {
	w.cfgClass(cs.Cfg)
	r := w.start(cs.Cfg)
	r.noModel = true
	for i := range cs.Ops {
		_ = r.step(&cs.Ops[i])
	}
	tp := w.path("ro.tar")
	db := filepath.Join(filepath.Dir(tp), "ro.sqlite")
	empty := cs.x("empty", 0) == 1
	if empty {
		if !cs.Cfg.Tape {
			must(os.WriteFile(tp, nil, 0o600))
		}
		w.class("empty drive")
	} else {
		r.y.copyTape(tp)
	}
	noindex := cs.x("noindex", 0) == 1 || empty
	if !noindex {
		copyFile(r.y.db, db)
	}
	c := cs.Cfg
	c.RO = true
	c.NoW = cs.x("now", 0) == 1
	w.class("index missing:%v no writer:%v", noindex, c.NoW)
	ro, err := w.newSys(c, tp, db)
	must(err)
	ro.chunk = r.y.chunk
	tape0 := ro.tapeBytes()
	index0 := ""
	intact := func(lab string) {
		if now := ro.tapeBytes(); !bytes.Equal(now, tape0) {
			w.fail("tape", "%s on a read-only filesystem changes the tape (%d -> %d bytes)", lab, len(tape0), len(now))
		}
		if n := ro.seam.cnt["openw"] + ro.seam.cnt["write"] + ro.seam.cnt["trunc"]; n > 0 {
			w.fail("tape", "%s on a read-only filesystem uses the drive for writing", lab)
		}
		if now := ro.dumpIndex(); now != index0 {
			w.fail("index", "%s on a read-only filesystem changes the index:\nbefore:\n%s\nafter:\n%s", lab, index0, now)
		}
	}
	index0 = ro.dumpIndex()
	w.opLabel = "read-only Initialize"
	ierr := w.api(ro, w.opLabel, func() error { _, err := ro.fs.Initialize("/", os.ModePerm); return err })
	if noindex {
		index0 = ro.dumpIndex()
	}
	intact("Initialize")
	if empty {
		if ierr == nil {
			w.fail("permission", "initialising an empty drive read-only succeeds")
		}
		if !isPerm(ierr) {
			w.fail("permission", "initialising an empty drive read-only fails with %v, not with a permission error", ierr)
		}
		return
	}
	if ierr != nil {
		w.fail("init", "initialising a read-only filesystem (index missing: %v) fails: %v", noindex, ierr)
	}
	twin := r.y
	if twin.cfg.WRP { // nothing may be written on the read-only one, so nothing is implied
		twin.cfg.WRP = false
		twin.mkfs()
	}
	look := func(lab string) {
		a, aerr := w.walk(ro, true)
		b, berr := w.walk(twin, true)
		w.same(lab, "read-only", "writable", a, b, aerr, berr)
		w.noteState(a)
	}
	look("Initialize")
	for i := range cs.Progs[0] {
		op := &cs.Progs[0][i]
		lab := op.String()
		w.opLabel = lab
		w.advance(3e6)
		switch {
		case op.K == "init":
			if err := w.raw(ro, op); err != nil {
				w.fail("init", "initialising again fails: %v", err)
			}
		case op.K == "sess":
			w.roSession(ro, twin, op)
		case mutating[op.K]:
			err := w.raw(ro, op)
			w.class("%s", op.K)
			if !isPerm(err) {
				w.fail("permission", "%s on a read-only filesystem: got %v, want a permission error", lab, err)
			}
		default:
			a, b := w.observe(ro, op), w.observe(twin, op)
			w.class("%s:%s", op.K, strings.SplitN(a, " ", 2)[0])
			if a != b {
				w.fail("read", "%s: read-only returns [%s], writable returns [%s]", lab, a, b)
			}
		}
		w.logf("op %s", lab)
		intact(lab)
	}
	w.opLabel = "final look"
	look("the whole sequence")
	intact("reading everything")
}

func (w *World) roSession(ro, twin *Sys, op *Op) {
	flag, _ := op.flags()
	lab := op.String()
	var f afero.File
	err := w.api(ro, lab, func() (err error) { f, err = ro.openOp(op); return })
	fi, serr := twin.fs.Stat(op.P)
	exists := serr == nil
	w.class("open exists:%v acc:%d create:%v excl:%v trunc:%v -> %s", exists, flag&accMask, flag&os.O_CREATE != 0, flag&os.O_EXCL != 0, flag&os.O_TRUNC != 0, errKind(err))
	switch {
	case op.Q == "Create":
		if !isPerm(err) {
			w.fail("permission", "%s on a read-only filesystem: got %v, want a permission error", lab, err)
		}
	case !exists && flag&os.O_CREATE != 0:
		if err == nil || !isPerm(err) {
			// a missing parent may be reported instead
			if _, perr := twin.fs.Stat(filepath.Dir(clean(op.P))); perr == nil || err == nil {
				w.fail("permission", "%s of a missing file on a read-only filesystem: got %v, want a permission error", lab, err)
			}
		}
	case exists && flag&os.O_TRUNC != 0 && flag&accMask != os.O_RDONLY && flag&os.O_EXCL == 0 && !fi.IsDir():
		_, lerr := twin.fs.ReadlinkIfPossible(op.P)
		if !isPerm(err) && !(err != nil && lerr == nil) { // a link may lead nowhere
			w.fail("permission", "%s of an existing file on a read-only filesystem: got %v, want a permission error", lab, err)
		}
	}
	if err != nil && flag&accMask != os.O_RDONLY {
		return
	}
	// the twin opens without whatever would change it
	var g afero.File
	terr := w.api(twin, lab+" (twin)", func() (err error) {
		g, err = twin.fs.OpenFile(op.P, flag&^(os.O_CREATE|os.O_TRUNC|os.O_APPEND|os.O_EXCL), 0)
		return
	})
	if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
		terr = errors.New("exclusive")
	}
	if err != nil || terr != nil {
		if (err == nil) != (terr == nil) && flag&(os.O_CREATE|os.O_TRUNC) == 0 && flag&accMask == os.O_RDONLY {
			w.fail("read", "%s: read-only returns %v, writable returns %v", lab, err, terr)
		}
		if f != nil {
			_ = f.Close()
		}
		if g != nil {
			_ = g.Close()
		}
		return
	}
	for i, c := range op.Calls {
		w.opLabel = fmt.Sprintf("%s call %d (%s)", lab, i, c.String())
		if writing[c.C] {
			e := w.api(ro, w.opLabel, func() error { return rawCall(f, c) })
			odd := fi.IsDir() || c.O < 0 || c.N < 0 || c.D != nil && c.D.N == 0
			if e == nil && !odd || e != nil && !odd && !isPerm(e) {
				w.fail("permission", "%s on a read-only filesystem: got %v, want a permission error", w.opLabel, e)
			}
			w.class("h:%s", c.C)
			continue
		}
		var a, b string
		_ = w.api(ro, w.opLabel, func() error { a = handleObs(f, c); return nil })
		_ = w.api(twin, w.opLabel, func() error { b = handleObs(g, c); return nil })
		w.class("h:%s", c.C)
		if a != b {
			w.fail("read", "%s: read-only returns [%s], writable returns [%s]", w.opLabel, a, b)
		}
	}
	w.opLabel = lab + ": Close"
	e1 := w.api(ro, w.opLabel, f.Close)
	e2 := w.api(twin, w.opLabel, g.Close)
	if (e1 == nil) != (e2 == nil) {
		w.fail("read", "%s: read-only returns %v, writable returns %v", w.opLabel, e1, e2)
	}
}
