package main

import (
	"context"
	"io"
	"os"
	"path/filepath"

	"github.com/pojntfx/stfs/pkg/compression"
	"github.com/pojntfx/stfs/pkg/config"
)

// start assembles a system on an empty medium and initialises it.
func (w *World) start(cfg Cfg) *Runner {
	tp := w.path("drive.tar")
	y, err := w.newSys(cfg, tp, filepath.Join(filepath.Dir(tp), "index.sqlite"))
	must(err)
	if !cfg.Tape {
		y.chunk = int(w.cs.x("chunk", 0))
	}
	r := &Runner{w: w, y: y, m: NewModel()}
	r.m.wrp = cfg.WRP
	w.opLabel = "Initialize"
	if err := w.api(y, "Initialize", func() error { _, err := y.fs.Initialize("/", os.ModePerm); return err }); err != nil {
		w.fail("init", "initialising an empty tape fails: %v", err)
	}
	r.m.N["/"] = &Node{Dir: true, Mode: os.ModePerm}
	return r
}

// restart ends the process: memory is gone, tape and index survive.
func (r *Runner) restart(loseIndex bool) {
	w, y := r.w, r.y
	y.close()
	for i, o := range w.open {
		if o == y {
			w.open = append(w.open[:i], w.open[i+1:]...)
			break
		}
	}
	if loseIndex {
		must(os.RemoveAll(y.db))
		w.count("fault:restart, index lost")
	} else {
		w.count("fault:restart")
	}
	n, err := w.newSys(y.cfg, y.tape, y.db)
	must(err)
	n.chunk = y.chunk
	n.seam.budget = y.seam.budget
	r.y = n
	if err := w.api(n, "Initialize", func() error { _, err := n.fs.Initialize("/", os.ModePerm); return err }); err != nil {
		w.fail("restart", "opening the existing tape after a restart fails: %v", err)
	}
}

// step performs one op, restarts included.
func (r *Runner) step(op *Op) error {
	switch op.K {
	case "restart", "lostindex":
		r.w.opLabel = op.K
		r.w.logf("op %s", op.K)
		r.w.class("%s", op.K)
		r.restart(op.K == "lostindex")
		return nil
	}
	return r.do(op)
}

// faulty lets some calls of a history fail: unsupported levels, sources,
// caches and drives which return errors; share is how often there are more
// than the first two.
func faulty(r *Rng, cs *Case, share float64) {
	q := *r
	q.s ^= 0x6661756c7479
	for i := range cs.Ops {
		op := &cs.Ops[i]
		if op.K != "archive" && op.K != "update" || !q.P(0.12) {
			continue
		}
		if q.P(0.3) || len(op.Mem) == 0 {
			op.Level = "bogus"
		} else {
			op.Mem[q.Intn(len(op.Mem))].Fail = true
		}
	}
	if !q.P(share) {
		return
	}
	if q.P(0.25) && tapeSupports(cs.Cfg) {
		cs.Cfg.Tape = true
	}
	for i := range cs.Ops {
		if k := cs.Ops[i].K; k == "restart" || k == "lostindex" || k == "reinit" || k == "overwrite" || !q.P(0.35) {
			continue
		}
		s := q.Pick([]string{"write", "write", "read", "seek", "src", "openw", "openr", "cache", "cachew", "index", "index"})
		k := q.Intn(3)
		if s == "read" || s == "write" || s == "index" {
			k = q.Intn(12)
		}
		cs.Faults = append(cs.Faults, Fault{Op: i, Site: s, K: k, Mode: q.Pick([]string{"err", "err", "short", "torn"})})
	}
}

// stepFaulty performs an op with the faults meant for it and tells whether
// it failed.
func (r *Runner) stepFaulty(i int) bool {
	var f *Fault
	for k := range r.w.cs.Faults {
		if r.w.cs.Faults[k].Op == i {
			f = &r.w.cs.Faults[k]
		}
	}
	if f == nil {
		return r.step(&r.w.cs.Ops[i]) != nil
	}
	y := r.y
	y.seam.arm(f)
	err := r.step(&r.w.cs.Ops[i])
	if y.seam.fired != "" {
		r.w.count("fault:" + y.seam.fired)
	}
	y.seam.arm(nil)
	return err != nil
}

// withRestarts sprinkles process restarts over a history.
func withRestarts(r *Rng, ops []Op, p float64) []Op {
	var out []Op
	for _, o := range ops {
		out = append(out, o)
		if r.P(p) {
			k := "restart"
			if r.P(0.4) {
				k = "lostindex"
			}
			out = append(out, Op{K: k})
		}
	}
	return out
}

func (w *World) noteState(s Snap) { w.state(s.shape()) }

// cfgClass notes which pipeline ran.
func (w *World) cfgClass(c Cfg) {
	n := func(s string) string {
		if s == "" {
			return "none"
		}
		return s
	}
	w.class("comp:%s", n(c.Comp))
	w.class("enc:%s", n(c.Enc))
	w.class("sig:%s", n(c.Sig))
	w.class("rs:%d", c.RS)
	w.class("wc:%s", c.WC)
	if c.Tape {
		w.class("drive:tape")
	}
}

// chunkX makes the drive hand out short reads in some runs.
func chunkX(r *Rng, cs *Case) {
	if cs.X == nil {
		cs.X = map[string]int64{}
	}
	if r.P(0.15) {
		cs.X["chunk"] = int64(r.PickInt([]int{1 << 9, 700, 1500, 4096, 100}))
	}
}

var ctxb = context.Background()

// compressTo opens the compressor of a pipeline.
func compressTo(dst io.Writer, c Cfg) (flushCloser, error) {
	return compression.Compress(dst, c.Comp, config.CompressionLevelBalancedKey, true, c.RS)
}

type flushCloser interface {
	io.WriteCloser
	Flush() error
}
