package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/spf13/afero"
)

// faultModes of each seam site.
var faultModes = map[string][]string{
	"write": {"err", "short", "torn", "err+trunc", "short+trunc"}, "read": {"err", "short"}, "seek": {"err"},
	"index": {"err"}, "src": {"err", "short"}, "openw": {"err"}, "openr": {"err"}, "cache": {"err"}, "cachew": {"err", "short"},
	"closew": {"err"}, "closer": {"err"}, "trunc": {"err"}, "dst": {"err"}, "dstw": {"err", "short"},
}

// faultPoints lists every point which a fault-free execution reached.
func faultPoints(cnt map[string]int) []Fault {
	var sites []string
	for s := range cnt {
		sites = append(sites, s)
	}
	sort.Strings(sites)
	var out []Fault
	for _, s := range sites {
		for k := 0; k < cnt[s]; k++ {
			for _, m := range faultModes[s] {
				out = append(out, Fault{Site: s, K: k, Mode: m})
			}
		}
	}
	return out
}

// genTarget draws the call under test: any kind, rejected ones included.
func genTarget(g *Gen) Op {
	r := g.r
	switch r.Weighted([]int{60, 6, 4, 4, 5, 4, 4, 4, 3, 3}) {
	case 1: // nothing to delete, missing source, missing parent
		p := g.fresh() + r.Pick([]string{"/gone/x", ".missing", "/gone"})
		q := g.fresh()
		switch r.Intn(9) {
		case 0:
			return Op{K: "delete", P: p}
		case 1:
			return Op{K: "move", P: p, Q: q}
		case 2:
			return Op{K: "rename", P: p, Q: q}
		case 3:
			return Op{K: "remove", P: p}
		case 4:
			return Op{K: "removeall", P: p}
		case 5:
			return Op{K: "sess", Q: "Create", P: p + "/y"}
		case 6:
			return Op{K: "mkdir", P: p + "/y", M: 0o755}
		case 7:
			return Op{K: "restore", P: p}
		default:
			return Op{K: "update", Rep: r.P(0.5), Mem: []Member{{Name: p, Mode: 0o644, D: *g.data(), MT: g.when()}}}
		}
	case 2: // unsupported level
		op := g.make(r.Pick([]string{"archive", "update"}))
		op.Level = "bogus"
		return op
	case 3: // a data source that fails by itself
		op := g.make("archive")
		if len(op.Mem) > 0 {
			op.Mem[r.Intn(len(op.Mem))].Fail = true
		}
		return op
	case 4:
		return Op{K: "restore", P: g.target()}
	case 5:
		return Op{K: "restore", P: "/"}
	case 6:
		return Op{K: "reindex", P: "/", Rep: r.P(0.6)}
	case 7:
		return Op{K: "init", P: "/"}
	case 8:
		return Op{K: "chmod", P: g.fresh() + ".missing", M: 0o600}
	case 9:
		op := Op{K: "sess", P: g.file(), F: os.O_RDONLY}
		for i := r.Range(1, 4); i > 0; i-- {
			op.Calls = append(op.Calls, r2call(r))
		}
		return op
	}
	ks, ws := g.kinds()
	return g.make(ks[r.Weighted(ws)])
}

func r2call(r *Rng) HCall {
	switch r.Intn(4) {
	case 0:
		return HCall{C: "readat", N: int64(r.Range(1, 700)), O: int64(r.Intn(900))}
	case 1:
		return HCall{C: "seek", O: int64(r.Intn(900)), W: 0}
	}
	return HCall{C: "read", N: int64(r.PickInt([]int{1, 10, 511, 600, 4000}))}
}

func init() {
	register(&propDef{
		id: "C10", level: "fault_enumeration", quick: 900,
		rule:   "Seeded history, then one call of any kind (rejected ones included). Its fault-free execution counts how often it reaches each seam: writes, reads and seeks of the drive, opening and closing it, calls into the index, reads of the source, the write cache, restore destinations. Every reached point is then failed in its own copy of the system (all of them up to the cap; the counters tell points reached and points failed); the call, a look at the drive and a seeded next call must return, and the drive must be free. A second mode injects faults again and again along one living history.",
		assume: []string{"the enumeration is over the call's single faults (and, for writes, a failing rollback on top); the surrounding histories are sampled", "a call returns when it neither deadlocks (every goroutine blocked, decided by the scheduler) nor keeps using a seam beyond 400000 times nor keeps a processor busy for a minute"},
		gen: func(r *Rng, i int, th bool) *Case {
			cs := &Case{Cfg: genCfg(r), X: map[string]int64{}}
			g := newGen(r, cs.Cfg, GenOpt{Nest: r.P(0.5), MaxDepth: 3, LongName: r.P(0.2), Small: r.P(0.75), W: mergeW(defaultW, map[string]int{"archive": 8, "update": 6, "delete": 5, "move": 5, "symlink": 2, "restore": 4, "flags": 6, "list": 4, "readfile": 4})})
			chunkX(r, cs)
			cs.X["cap"] = 45
			if th {
				cs.X["cap"] = 1 << 20
			}
			if r.P(0.25) { // mode B: a history under recurring faults
				cs.X["live"] = 1
				cs.Ops = g.ops(r.Range(2, 5))
				n := histLen(r, th, 8, 24)
				for j := 0; j < n; j++ {
					op := genTarget(g)
					g.apply(&op)
					cs.Ops = append(cs.Ops, op)
					if r.P(0.6) {
						s := r.Pick([]string{"write", "write", "read", "seek", "index", "index", "index", "src", "src", "openw", "openr", "cache", "cachew", "closew", "closer", "dst", "dstw"})
						k := r.Intn(3)
						if s == "index" || s == "read" {
							k = r.Intn(14)
						}
						cs.Faults = append(cs.Faults, Fault{Op: len(cs.Ops) - 1, Site: s, K: k, Mode: r.Pick(faultModes[s])})
					}
				}
				onTape(r, cs)
				return cs
			}
			if r.P(0.04) { // the very first call
				cs.X["fresh"] = 1
				cs.Ops = []Op{{K: "init", P: "/"}}
			} else {
				cs.Ops = g.ops(histLen(r, th, 2, 8))
				cs.Ops = append(cs.Ops, genTarget(g))
			}
			if r.P(0.3) { // somebody is in the middle of reading
				cs.X["held"] = int64(r.Range(1, 700))
			}
			cs.X["noinit"] = int64(btoi(r.P(0.1)))
			next := genTarget(g)
			cs.Progs = [][]Op{{next}}
			onTape(r, cs)
			return cs
		},
		exec: execFault,
	})
}

// free requires that the drive can be used, and that nobody kept it open.
func (w *World) free(y *Sys, after string) {
	if n := y.busy(); n > 0 {
		w.fail("busy", "%s has returned, but still has the drive open", after)
	}
	w.opLabel = "using the drive after " + after
	lock := func(what string, f func() error) {
		_ = w.api(y, what+" after "+after, f)
	}
	if y.st != nil {
		lock("GetReader", func() error {
			if _, err := y.back.GetReader(); err != nil {
				return err
			}
			return y.back.CloseReader()
		})
		lock("GetWriter", func() error {
			if _, err := y.back.GetWriter(); err != nil {
				return err
			}
			return y.back.CloseWriter()
		})
		return
	}
	lock("GetReader", func() error {
		if _, err := y.tm.GetReader(); err != nil {
			return err
		}
		return y.tm.Close()
	})
	if _, err := os.Stat(y.tape); err == nil {
		lock("GetWriter", func() error {
			if _, err := y.tm.GetWriter(); err != nil {
				return err
			}
			return y.tm.Close()
		})
	}
}

// usable requires that the filesystem still does its work.
func (w *World) usable(y *Sys, after string, n int) {
	w.opLabel = "next calls after " + after
	d := fmt.Sprintf("/probe%d", n)
	if err := w.raw(y, &Op{K: "mkdir", P: d, M: 0o755}); err != nil {
		w.fail("unusable", "after %s, Mkdir(%q) fails: %v", after, d, err)
	}
	f := d + "/f"
	want := []byte("probe content")
	if err := w.raw(y, &Op{K: "sess", Q: "Create", P: f, Calls: []HCall{{C: "write", D: &Data{N: len(want), Kind: "lit", Lit: string(want)}}}}); err != nil {
		w.fail("unusable", "after %s, writing %q fails: %v", after, f, err)
	}
	b, err := w.readAll(y, f)
	if err != nil || !bytes.Equal(b, want) {
		w.fail("unusable", "after %s, %q reads back as %q (%v)", after, f, b, err)
	}
}

func execFault(w *World, cs *Case) {
	w.cfgClass(cs.Cfg)
	if cs.x("live", 0) == 1 {
		w.faultLive(cs)
		return
	}
	target := &cs.Ops[len(cs.Ops)-1]
	fresh := cs.x("fresh", 0) == 1
	tp := w.path("base.tar")
	db := filepath.Join(filepath.Dir(tp), "base.sqlite")
	held := ""
	if !fresh {
		r := w.start(cs.Cfg)
		r.noModel = true
		for i := range cs.Ops[:len(cs.Ops)-1] {
			_ = r.step(&cs.Ops[i])
		}
		r.y.copyTape(tp)
		copyFile(r.y.db, db)
		if cs.x("held", 0) > 0 {
			if s, err := w.walk(r.y, false); err == nil {
				for _, p := range s.paths() {
					if s[p].Kind == "file" && s[p].Size > cs.x("held", 0) {
						held = p
					}
				}
			}
		}
	}
	open := func() *Sys {
		t2 := w.path("drive.tar")
		d2 := filepath.Join(filepath.Dir(t2), "index.sqlite")
		if t := w.tapes[tp]; t != nil {
			w.putTape(t2, t.clone())
		} else {
			copyFile(tp, t2)
		}
		copyFile(db, d2)
		y, err := w.newSys(cs.Cfg, t2, d2)
		must(err)
		y.chunk = int(cs.x("chunk", 0))
		if !fresh && cs.x("noinit", 0) == 0 {
			w.opLabel = "Initialize"
			if err := w.api(y, "Initialize", func() error { _, err := y.fs.Initialize("/", os.ModePerm); return err }); err != nil {
				w.fail("init", "opening the existing tape fails: %v", err)
			}
		}
		y.tracking = true
		return y
	}
	lab := target.String()
	variant := func(f *Fault) map[string]int {
		y := open()
		defer w.drop(y)
		after := lab
		if f != nil {
			after = fmt.Sprintf("%s with %s #%d failing (%s)", lab, f.Site, f.K, f.Mode)
		}
		var h afero.File
		if held != "" {
			w.opLabel = "partial read"
			err := w.api(y, "Open and read "+held, func() (err error) {
				if h, err = y.fs.Open(held); err != nil {
					return err
				}
				_, err = h.Read(make([]byte, cs.x("held", 0)))
				return err
			})
			if err != nil {
				h = nil
			} else {
				w.class("held handle")
				w.free(y, "a partial read of "+held)
			}
		}
		w.opLabel = after
		y.seam.arm(f)
		err := w.raw(y, target)
		cnt := y.seam.cnt
		fired := y.seam.fired
		y.seam.arm(nil)
		got := "ok"
		if err != nil {
			got = "err"
		}
		w.logf("%s -> %s fired %q", after, got, fired)
		if fired != "" {
			w.count("fault:" + fired)
			w.class("%s %s -> %s", target.K, fired, got)
		} else {
			w.class("%s no fault -> %s", target.K, got)
		}
		w.free(y, after)
		if f == nil && !fresh {
			w.usable(y, after, 0)
			w.free(y, "probing")
		}
		if h != nil {
			w.opLabel = "reading on after " + after
			_ = w.api(y, "reading on", func() error {
				_, _ = h.Read(make([]byte, 100))
				_, _ = h.Seek(0, io.SeekStart)
				_, _ = h.Read(make([]byte, 5000))
				return h.Close()
			})
			w.free(y, "reading on and closing")
		}
		// any next call returns as well
		for i := range cs.Progs {
			for j := range cs.Progs[i] {
				op := &cs.Progs[i][j]
				w.opLabel = op.String() + " after " + after
				_ = w.raw(y, op)
				w.free(y, w.opLabel)
			}
		}
		for _, op := range []*Op{target, {K: "list", P: "/", N: -1}, {K: "mkdir", P: "/probe1", M: 0o755}, {K: "sess", Q: "Create", P: "/probe2", Calls: []HCall{{C: "write", D: &Data{N: 3, Kind: "lit", Lit: "abc"}}}}, {K: "readfile", P: "/probe2"}} {
			w.opLabel = op.String() + " after " + after
			e := w.raw(y, op)
			w.logf("  then %s -> %v", op.String(), e == nil)
			w.free(y, w.opLabel)
		}
		return cnt
	}
	cnt := variant(nil)
	pts := faultPoints(cnt)
	w.add("fault points reached", int64(len(pts)))
	if len(cs.Faults) > 0 {
		for i := range cs.Faults {
			variant(&cs.Faults[i])
		}
		return
	}
	max := int(cs.x("cap", 45))
	if len(pts) > max {
		rng := NewRng(cs.Seed ^ 0xfa17)
		// one of each site and mode first, the rest at random
		for i := len(pts) - 1; i > 0; i-- {
			j := rng.Intn(i + 1)
			pts[i], pts[j] = pts[j], pts[i]
		}
		seen := map[string]bool{}
		var first, rest []Fault
		for _, p := range pts {
			if k := p.Site + p.Mode; !seen[k] {
				seen[k] = true
				first = append(first, p)
			} else {
				rest = append(rest, p)
			}
		}
		pts = append(first, rest...)
		if len(pts) > max {
			pts = pts[:max]
		}
	} else {
		w.count("calls with every fault point enumerated")
	}
	w.add("fault points failed", int64(len(pts)))
	for i := range pts {
		f := pts[i]
		f.Op = len(cs.Ops) - 1
		w.pin = func(c *Case) { f.Op = len(c.Ops) - 1; c.Faults = []Fault{f} }
		variant(&f)
		w.state(fmt.Sprint(target.K, f.Site, f.K, f.Mode))
	}
}

// faultLive injects faults along one history; the instance lives on.
func (w *World) faultLive(cs *Case) {
	r := w.start(cs.Cfg)
	y := r.y
	y.tracking = true
	for i := range cs.Ops {
		op := &cs.Ops[i]
		var f *Fault
		for k := range cs.Faults {
			if cs.Faults[k].Op == i {
				f = &cs.Faults[k]
			}
		}
		w.opLabel = op.String()
		w.advance(3e6)
		y.seam.arm(f)
		err := w.raw(y, op)
		fired := y.seam.fired
		y.seam.arm(nil)
		if fired != "" {
			w.count("fault:" + fired)
			w.class("%s %s", op.K, fired)
		}
		w.logf("op %s -> %v fired %q", op.String(), err == nil, fired)
		lab := op.String()
		if fired != "" {
			lab += " with " + fired
		}
		w.free(y, lab)
	}
	// everything that exists can be looked at
	w.opLabel = "final walk"
	s, err := w.walk(y, true)
	w.logf("walk %d %v", len(s), err == nil)
	w.free(y, "walking")
	w.opLabel = "restart"
	y.close()
	z, err := w.newSys(cs.Cfg, y.tape, y.db)
	must(err)
	z.tracking = true
	_ = w.api(z, "Initialize", func() error { _, err := z.fs.Initialize("/", os.ModePerm); return err })
	w.free(z, "Initialize")
	for _, op := range []*Op{{K: "mkdir", P: "/probe1", M: 0o755}, {K: "removeall", P: "/probe1"}} {
		e := w.raw(z, op)
		w.logf("probe %s %v", op.K, e == nil)
		w.free(z, op.String())
	}
	w.class("live:%s", strings.ToLower(errKind(err)))
}
