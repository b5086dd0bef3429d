package main

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	stfs "github.com/pojntfx/stfs/pkg/fs"
	"github.com/spf13/afero"
)

// comp is the documented composition: the filesystem below a view of its root.
type comp struct {
	afero.Fs
	s *stfs.STFS
}

var errNoLinks = errors.New("no links here")

func (c comp) SymlinkIfPossible(o, n string) error {
	if l, ok := c.Fs.(afero.Linker); ok {
		return l.SymlinkIfPossible(o, n)
	}
	return errNoLinks
}

func (c comp) ReadlinkIfPossible(n string) (string, error) {
	if l, ok := c.Fs.(afero.LinkReader); ok {
		return l.ReadlinkIfPossible(n)
	}
	return "", errNoLinks
}

func (c comp) LstatIfPossible(n string) (os.FileInfo, bool, error) {
	if l, ok := c.Fs.(afero.Lstater); ok {
		return l.LstatIfPossible(n)
	}
	return nil, false, errNoLinks
}

func (c comp) Initialize(r string, p os.FileMode) (string, error) { return c.s.Initialize(r, p) }

// compose opens a system the documented way.
func (w *World) compose(y *Sys, cacheType string, ttl time.Duration) (string, error) {
	var root string
	err := w.api(y, "Initialize", func() (e error) { root, e = y.raw.Initialize("/", os.ModePerm); return })
	if err != nil {
		return "", err
	}
	fs, err := cache.NewCacheFilesystem(y.raw, root, cacheType, ttl, filepath.Join(y.dir, "fscache"))
	if err != nil {
		return "", err
	}
	y.fs = comp{fs, y.raw}
	return root, nil
}

// rootStyles are the ways in which an archive may name its members.
var rootStyles = []string{"./", "/", "top", "./top", "/top"}

func memberName(style, p string, dir bool, slash int64) string {
	n := ""
	switch style {
	case "./":
		n = "." + p
		if p == "/" {
			if slash != 0 {
				return "./"
			}
			return "."
		}
	case "/":
		n = p
		if p == "/" {
			return "/"
		}
	default:
		n = style + p
		if p == "/" {
			n = style
		}
	}
	if dir && slash != 0 {
		n += "/"
	}
	return n
}

// topOf is where the composition's root is for the filesystem below it.
func topOf(style string) string {
	if style == "./" || style == "/" {
		return ""
	}
	return clean(style)
}

// foreignTar writes the archive; it returns the members it could write.
func foreignTar(op *Op, cs *Case, m *Model) []byte {
	style := rootStyles[int(cs.x("style", 0))%len(rootStyles)]
	format := []tar.Format{tar.FormatUSTAR, tar.FormatPAX, tar.FormatGNU, tar.FormatUnknown}[cs.x("format", 0)%4]
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	if cs.x("global", 0) == 1 {
		must(tw.WriteHeader(&tar.Header{Typeflag: tar.TypeXGlobalHeader, Name: "pax_global_header", PAXRecords: map[string]string{"comment": "0123456789012345678901234567890123456789"}, Format: tar.FormatPAX}))
	}
	root := &tar.Header{Typeflag: tar.TypeDir, Name: memberName(style, "/", true, cs.x("slash", 1)), Mode: 0o755, ModTime: time.Unix(1e9, 0), Format: format}
	must(tw.WriteHeader(root))
	m.N["/"] = &Node{Dir: true, Mode: 0o755}
	for _, mem := range op.Mem {
		if p := m.get(path.Dir(mem.Name)); p == nil || !p.Dir {
			continue
		}
		old := m.get(mem.Name)
		if old != nil && (old.Dir || mem.Dir) {
			continue
		}
		h := &tar.Header{Typeflag: tar.TypeReg, Name: memberName(style, mem.Name, mem.Dir, cs.x("slash", 1)), Mode: int64(mem.Mode), ModTime: time.Unix(0, mem.MT).Truncate(time.Second), Format: format, Uid: 1000, Gid: 100, Uname: "somebody", Gname: "users"}
		if format == tar.FormatPAX || format == tar.FormatUnknown {
			h.ModTime = time.Unix(0, mem.MT)
		}
		d := mem.D.Bytes()
		if mem.Dir {
			h.Typeflag, d = tar.TypeDir, nil
		}
		switch mem.Own {
		case "fifo":
			h.Typeflag, d = tar.TypeFifo, nil
		case "chr", "blk":
			h.Typeflag, d, h.Devmajor, h.Devminor = map[string]byte{"chr": tar.TypeChar, "blk": tar.TypeBlock}[mem.Own], nil, 1, 3
		}
		if mem.Link != "" && cs.x("links", 0) == 1 {
			h.Typeflag, h.Linkname, d = tar.TypeSymlink, mem.Link, nil
		}
		h.Size = int64(len(d))
		if mem.Own == "xattr" && format != tar.FormatUSTAR && format != tar.FormatGNU {
			h.PAXRecords = map[string]string{"SCHILY.xattr.user.comment": "hello", "VENDOR.thing": "1"}
		}
		if err := tw.WriteHeader(h); err != nil {
			// this format cannot hold such a name
			continue
		}
		_, err := tw.Write(d)
		must(err)
		m.N[clean(mem.Name)] = &Node{Dir: mem.Dir, Mode: os.FileMode(mem.Mode), Data: d}
	}
	if cs.x("noend", 0) == 0 {
		must(tw.Close())
	} else {
		must(tw.Flush())
	}
	for pad := cs.x("pad", 0); pad > 0 && int64(b.Len())%pad != 0; {
		b.Write(make([]byte, 512))
	}
	b.Write(make([]byte, 512*cs.x("zeros", 0)))
	return b.Bytes()
}

func genForeign(r *Rng, cs *Case, special bool) (Op, *Gen) {
	g := newGen(r, cs.Cfg, GenOpt{MaxDepth: r.Range(1, 5), Small: r.P(0.4), LongName: r.P(0.35), Spell: r.P(0.5), W: map[string]int{"new": 14, "sess": 6, "append": 3, "rewrite": 4, "trunc": 2, "mkdir": 8, "mkdirall": 4, "remove": 5, "removeall": 2, "rename": 8, "chmod": 2, "chtimes": 2, "readfile": 3, "stat": 2}})
	op := Op{K: "foreign"}
	n := r.PickInt([]int{0, 1, 2, 4, 8, 16, 30})
	for i := 0; i < n; i++ {
		p := g.fresh()
		if r.P(0.12) {
			p = path.Join(path.Dir(p), strings.Repeat(r.Pick([]string{"long", "ü", "n-"}), r.Range(20, 60)))
		}
		if g.m.get(p) != nil && !(r.P(0.1) && !g.m.get(p).Dir) {
			continue
		}
		mem := Member{Name: p, Mode: g.mode(), D: *g.data(), MT: g.when(), Dir: r.P(0.35)}
		if mem.Dir {
			mem.D = Data{}
			mem.Mode |= 0o700
		}
		if r.P(0.15) {
			mem.Own = "xattr"
		} else if special && !mem.Dir && g.m.get(p) == nil && r.P(0.3) {
			mem.Own, mem.D = r.Pick([]string{"fifo", "chr", "blk"}), Data{}
		}
		if old := g.m.get(p); old != nil {
			mem.Dir = false
		}
		g.m.N[p] = &Node{Dir: mem.Dir, Mode: os.FileMode(mem.Mode), Data: mem.D.Bytes()}
		op.Mem = append(op.Mem, mem)
	}
	switch r.Intn(3) {
	case 0: // by name, as a directory walk finds them
		sort.SliceStable(op.Mem, func(i, j int) bool { return op.Mem[i].Name < op.Mem[j].Name })
	case 1: // directories first
		sort.SliceStable(op.Mem, func(i, j int) bool { return depth(op.Mem[i].Name) < depth(op.Mem[j].Name) })
	}
	return op, g
}

func init() {
	// ------------------------------------------------------------- C17
	register(&propDef{
		id: "C17", level: "exploration", quick: 2000,
		rule:   "Seeded directory trees (depth, fan-out, long and non-ASCII names, content sizes around blocks and records) are written by archive/tar as ustar, PAX, GNU or the writer's choice, with members below './', '/', or a named top directory (spelled top, ./top or /top), with and without trailing slashes, other orders, repeated members, vendor PAX records, blocking-factor padding, and opened by Initialize + cache.NewCacheFilesystem (index built by Initialize or beforehand, writable or read-only, with or without a cache) for every record size; the tree and every byte are compared, all spellings of every path are looked up through the composition and below it, then seeded calls run against the reference model with restarts, each followed by a comparison of the running instance, of a rebuild and of a reopened instance.",
		assume: []string{"members are directories and regular files; every directory has an entry before its children", "the pipeline is plain: a foreign archive is neither compressed, encrypted nor signed"},
		gen: func(r *Rng, i int, th bool) *Case {
			cs := &Case{Cfg: Cfg{RS: r.PickInt([]int{1, 2, 3, 7, 20, 64, 5, 20, 128, 1000}), WC: r.Pick([]string{config.WriteCacheTypeMemory, config.WriteCacheTypeFile})}, X: map[string]int64{}}
			cs.X["style"] = int64(r.Weighted([]int{5, 4, 5, 2, 2}))
			cs.X["format"] = int64(r.Intn(4))
			cs.X["slash"] = 1
			if r.P(0.25) {
				cs.X["slash"] = 0
			}
			switch r.Intn(4) {
			case 0:
				cs.X["pad"] = 10240
			case 1:
				cs.X["zeros"] = int64(r.Intn(60))
			}
			cs.X["index"] = int64(r.Weighted([]int{6, 3}))
			cs.X["view"] = int64(r.Intn(4))
			op, g := genForeign(r, cs, i%20 == 18)
			if i%40 == 39 { // links
				cs.X["links"] = 1
				cs.Ops = []Op{op}
				for k := range cs.Ops[0].Mem {
					if m := &cs.Ops[0].Mem[k]; !m.Dir && k%2 == 1 {
						m.D, m.Own, m.Link = Data{}, "", r.Pick([]string{"target", "../x", "/abs/target"})
					}
				}
				return cs
			}
			cs.Ops = []Op{op}
			if i%20 == 18 { // devices and pipes are there to be looked at
				return cs
			}
			cs.Ops = append(cs.Ops, withRestarts(r, g.ops(histLen(r, th, 2, 9)), 0.1)...)
			chunkX(r, cs)
			return cs
		},
		exec: execForeign,
	})
}

func execForeign(w *World, cs *Case) {
	if len(cs.Ops) == 0 || cs.Ops[0].K != "foreign" {
		return
	}
	style := rootStyles[int(cs.x("style", 0))%len(rootStyles)]
	w.class("style %s format %d slash %d", style, cs.x("format", 0), cs.x("slash", 1))
	w.class("rs:%d", cs.Cfg.RS)
	m := NewModel()
	if cs.x("links", 0) == 1 {
		w.foreignLinks(cs)
		return
	}
	b := foreignTar(&cs.Ops[0], cs, m)
	mk := func(cfg Cfg, tape []byte) *Sys {
		tp := w.path("foreign.tar")
		must(os.WriteFile(tp, tape, 0o600))
		y, err := w.newSys(cfg, tp, filepath.Join(filepath.Dir(tp), "index.sqlite"))
		must(err)
		y.chunk = int(cs.x("chunk", 0))
		return y
	}
	y := mk(cs.Cfg, b)
	w.opLabel = "opening a foreign archive"
	if cs.x("index", 0) == 1 {
		if err := w.api(y, "recovery.Index", func() error { return y.index(0, 0, true, 0, nil) }); err != nil {
			w.fail("open", "indexing the archive fails: %v", err)
		}
		w.class("indexed beforehand")
	}
	root, err := w.compose(y, config.NoneKey, 0)
	if err != nil {
		w.fail("open", "opening the archive (members below %q) fails: %v", style, err)
	}
	w.logf("root %q", root)
	if !bytes.Equal(b, y.tapeBytes()) {
		w.fail("open", "opening the archive changes the tape")
	}
	agree := func(y *Sys, who string) {
		s, err := w.walk(y, true)
		if err != nil {
			w.fail("walk", "the tree of the %s (root %q) cannot be walked: %v", who, root, err)
		}
		if d := m.compare(s, false, true); d != "" {
			w.fail("tree", "the tree of the %s (root %q):\n%s", who, root, d)
		}
		w.noteState(s)
	}
	spellings := func(y *Sys, fs FS, top string) {
		for _, p := range m.paths() {
			n := m.N[p]
			full := path.Join(top, p)
			for _, q := range []string{full, strings.TrimPrefix(full, "/"), "." + full} {
				if p == "/" && top == "" && q == "" {
					q = "."
				}
				var fi os.FileInfo
				err := w.api(y, fmt.Sprintf("Stat(%q)", q), func() (e error) { fi, e = fs.Stat(q); return })
				if err != nil {
					w.fail("spelling", "Stat(%q) fails (%v), the entry is %q", q, err, full)
				}
				if fi.IsDir() != n.Dir || !n.Dir && fi.Size() != int64(len(n.Data)) || p != "/" && fi.Name() != path.Base(p) {
					w.fail("spelling", "Stat(%q) says %q dir=%v size=%d, the entry %q is dir=%v size=%d", q, fi.Name(), fi.IsDir(), fi.Size(), full, n.Dir, len(n.Data))
				}
				if n.Dir {
					var names []string
					err := w.api(y, fmt.Sprintf("Open(%q).Readdirnames", q), func() error {
						f, err := fs.Open(q)
						if err != nil {
							return err
						}
						defer f.Close()
						names, err = f.Readdirnames(-1)
						return err
					})
					sort.Strings(names)
					var want []string
					for _, c := range m.children(p) {
						want = append(want, path.Base(c))
					}
					sort.Strings(want)
					if err != nil || strings.Join(names, "\x00") != strings.Join(want, "\x00") {
						w.fail("spelling", "listing %q gives %q (%v), not %q", q, names, err, want)
					}
					continue
				}
				var got []byte
				err = w.api(y, fmt.Sprintf("read %q", q), func() error {
					f, err := fs.Open(q)
					if err != nil {
						return err
					}
					defer f.Close()
					got, err = readHandle(f)
					return err
				})
				if err != nil || !bytes.Equal(got, n.Data) {
					w.fail("spelling", "reading %q: %v, %s", q, err, diffBytes(got, n.Data))
				}
			}
		}
	}
	agree(y, "foreign archive")
	w.opLabel = "spellings"
	spellings(y, y.fs, "")
	spellings(y, y.raw, topOf(style))

	// other views of the same archive
	switch cs.x("view", 0) {
	case 1, 2: // a cache in front, which is asked twice
		w.opLabel = "opening a foreign archive with a cache"
		z := mk(cs.Cfg, b)
		ct := config.FileSystemCacheTypeMemory
		if cs.x("view", 0) == 2 {
			ct = config.FileSystemCacheTypeDir
		}
		if _, err := w.compose(z, ct, time.Hour); err != nil {
			w.fail("open", "opening the archive with a %s cache fails: %v", ct, err)
		}
		for k := 0; k < 2; k++ {
			for _, p := range m.paths() {
				if n := m.N[p]; !n.Dir {
					got, err := w.readAll(z, p)
					if err != nil || !bytes.Equal(got, n.Data) {
						w.fail("cached", "reading %q through a %s cache: %v, %s", p, ct, err, diffBytes(got, n.Data))
					}
				}
			}
		}
		w.class("cache %s", ct)
		w.drop(z)
	case 3: // read-only, as the HTTP server does
		w.opLabel = "opening a foreign archive read-only"
		c := cs.Cfg
		c.RO, c.NoW = true, true
		z := mk(c, b)
		if _, err := w.compose(z, config.NoneKey, 0); err != nil {
			w.fail("open", "opening the archive read-only fails: %v", err)
		}
		agree(z, "read-only view of the foreign archive")
		w.class("read-only")
		w.drop(z)
	}

	m.wrp = cs.Cfg.WRP
	r := &Runner{w: w, y: y, m: m, strict: true}
	for i := range cs.Ops[1:] {
		op := &cs.Ops[1+i]
		switch op.K {
		case "restart", "lostindex":
			w.opLabel = op.K
			db := y.db
			y.close()
			if op.K == "lostindex" {
				must(os.RemoveAll(db))
			}
			w.count("fault:" + op.K)
			z, err := w.newSys(cs.Cfg, y.tape, db)
			must(err)
			z.chunk = y.chunk
			r.y, y = z, z
			if _, err := w.compose(y, config.NoneKey, 0); err != nil {
				w.fail("restart", "opening the archive after a restart fails: %v", err)
			}
		default:
			_ = r.step(op)
		}
		lab := w.opLabel
		w.opLabel = "after " + lab
		agree(y, "running instance")
		if i%2 == 0 || i == len(cs.Ops)-2 {
			z := mk(cs.Cfg, y.tapeBytes())
			if err := w.api(z, "recovery.Index (rebuild)", func() error { return z.index(0, 0, true, 0, nil) }); err != nil {
				w.fail("rebuild", "rebuilding the index fails: %v", err)
			}
			if _, err := w.compose(z, config.NoneKey, 0); err != nil {
				w.fail("rebuild", "opening the rebuilt index fails: %v", err)
			}
			agree(z, "rebuild")
			if i == len(cs.Ops)-2 {
				w.opLabel = "spellings after " + lab
				spellings(z, z.fs, "")
			}
			w.drop(z)
		}
	}
	w.opLabel = "spellings at the end"
	spellings(y, y.fs, "")
}

// foreignLinks: links are members as well.
func (w *World) foreignLinks(cs *Case) {
	m := NewModel()
	b := foreignTar(&cs.Ops[0], cs, m)
	tp := w.path("foreign.tar")
	must(os.WriteFile(tp, b, 0o600))
	y, err := w.newSys(cs.Cfg, tp, filepath.Join(filepath.Dir(tp), "index.sqlite"))
	must(err)
	w.opLabel = "opening a foreign archive with links"
	if _, err := w.compose(y, config.NoneKey, 0); err != nil {
		w.fail("open", "opening the archive fails: %v", err)
	}
	listed := func(p string) bool {
		fis, err := w.list(y, path.Dir(p), -1)
		if err != nil {
			return false
		}
		for _, fi := range fis {
			if fi.Name() == path.Base(p) {
				return true
			}
		}
		return false
	}
	link := map[string]bool{}
	for _, mem := range cs.Ops[0].Mem {
		if mem.Link != "" {
			link[clean(mem.Name)] = true
		}
	}
	for _, p := range m.paths() {
		if p != "/" && !link[p] && !listed(p) {
			w.fail("tree", "%q is not listed below %q", p, path.Dir(p))
		}
	}
	for _, p := range m.paths() {
		if link[p] && !listed(p) {
			w.fail("foreign-link", "the link %q is not listed below %q", p, path.Dir(p))
		}
	}
}
