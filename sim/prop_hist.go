package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
)

func mergeW(a map[string]int, b map[string]int) map[string]int {
	out := map[string]int{}
	for k, v := range a {
		out[k] = v
	}
	for k, v := range b {
		out[k] = v
	}
	return out
}

func histLen(r *Rng, th bool, lo, hi int) int {
	if th && r.P(0.3) {
		return r.Range(hi, hi*3)
	}
	return r.Range(lo, hi)
}

func init() {
	// ------------------------------------------------------------- C01
	register(&propDef{
		id: "C01", level: "exploration", quick: 2500,
		rule: "Seeded histories of filesystem and batched archive calls (symlinks included) over a seeded pipeline configuration; after every call the live tree is compared with a from-scratch rebuild of the tape and with a process restart that keeps the index.",
		gen: func(r *Rng, i int, th bool) *Case {
			cs := &Case{Cfg: genCfg(r)}
			g := newGen(r, cs.Cfg, GenOpt{Nest: r.P(0.5), MaxDepth: 3, LongName: r.P(0.2), Small: r.P(0.5), W: mergeW(defaultW, map[string]int{"archive": 5, "update": 5, "delete": 3, "move": 4, "symlink": 4, "reinit": 1, "overwrite": 1, "readfile": 0, "stat": 0, "list": 0, "chmod": 5, "chown": 5, "chtimes": 5})})
			cs.Ops = withRestarts(r, g.wide(g.ops(histLen(r, th, 4, 14)), wideShare), 0.04)
			chunkX(r, cs)
			onTape(r, cs)
			faulty(r, cs, 0.3)
			return cs
		},
		exec: func(w *World, cs *Case) {
			w.cfgClass(cs.Cfg)
			r := w.start(cs.Cfg)
			r.noModel = true
			cmp := func() {
				live, lerr := w.walk(r.y, true)
				lab := w.opLabel
				w.noteState(live)
				b, err := w.rebuilt(cs.Cfg, r.y, nil)
				if err != nil {
					w.fail("rebuild", "after %s: rebuilding the index from the tape fails: %v", lab, err)
				}
				bs, berr := w.walk(b, true)
				w.same(lab, "running instance", "rebuild", live, bs, lerr, berr)
				w.drop(b)
				c, err := w.reopened(cs.Cfg, r.y)
				if err != nil {
					w.fail("reopen", "after %s: reopening fails: %v", lab, err)
				}
				cS, cerr := w.walk(c, true)
				w.same(lab, "running instance", "reopened index", live, cS, lerr, cerr)
				w.drop(c)
				w.opLabel = lab
			}
			cmp()
			behind := false
			for i := range cs.Ops {
				before := r.y.appended()
				failed := r.stepFaulty(i)
				if r.y.appended() > before {
					// what a call which failed has left on the tape is indexed by the next one
					behind = failed
				}
				if !behind {
					cmp()
				}
			}
		},
	})

	// ------------------------------------------------------------- C02
	register(&propDef{
		id: "C02", level: "exploration", quick: 4500,
		rule: "Seeded histories over a small universe of names (SQL wildcards, dots, spaces, non-ASCII, >100 bytes, names resembling pipeline suffixes, reused names), with process restarts; every outcome and the whole tree are compared with a reference in-memory POSIX filesystem after every call.",
		assume: []string{
			"calls whose outcome POSIX leaves open are not generated: operations on the root itself, empty names, O_TRUNC with O_RDONLY, positioned writes on append handles",
			"the modification time after a write and of a parent directory after an entry change may be kept or be any instant within the call; Chtimes must be exact",
		},
		gen: func(r *Rng, i int, th bool) *Case {
			cs := &Case{Cfg: genCfg(r)}
			g := newGen(r, cs.Cfg, GenOpt{Nest: r.P(0.5), MaxDepth: r.Range(2, 4), LongName: r.P(0.3), Small: r.P(0.6), Spell: r.P(0.15)})
			cs.Ops = withRestarts(r, g.wide(g.ops(histLen(r, th, 6, 22)), wideShare), 0.05)
			chunkX(r, cs)
			onTape(r, cs)
			if q := *r; q.P(0.08) {
				faulty(r, cs, 0.8)
				cs.X["failing"] = 1
			}
			return cs
		},
		exec: func(w *World, cs *Case) {
			w.cfgClass(cs.Cfg)
			if cs.x("failing", 0) != 0 {
				w.failing(cs)
				return
			}
			r := w.start(cs.Cfg)
			r.strict = true
			for i := range cs.Ops {
				op := &cs.Ops[i]
				err := r.step(op)
				lab := w.opLabel
				s, werr := w.walk(r.y, true)
				if werr != nil {
					w.fail("tree", "after %s: the tree cannot be walked: %v", lab, werr)
				}
				w.noteState(s)
				if d := r.m.compare(s, true, true); d != "" {
					cl := "effect"
					if err != nil {
						cl = "effect-of-failed-call"
					}
					w.fail(cl, "after %s (err %v) the tree differs from the reference:\n%s", lab, err, d)
				}
				limitedList(w, r.y, s, i)
			}
		},
	})

	// ------------------------------------------------------------- C04
	register(&propDef{
		id: "C04", level: "exploration", quick: 4000,
		rule: "Seeded histories (batched archive calls, content and metadata updates, moves, deletes, restarts) over all record sizes; after every call the index positions are compared with an independent scan and replay of the raw tape, and every entry is fetched by position.",
		gen: func(r *Rng, i int, th bool) *Case {
			cs := &Case{Cfg: genCfg(r)}
			if r.P(0.5) {
				cs.Cfg.Enc, cs.Cfg.Sig = "", ""
			}
			g := newGen(r, cs.Cfg, GenOpt{Nest: r.P(0.5), MaxDepth: 3, Small: r.P(0.3), Big: cs.Cfg.RS <= 7, W: mergeW(defaultW, map[string]int{"archive": 12, "update": 6, "delete": 3, "move": 5, "reinit": 1, "overwrite": 1, "readfile": 0, "stat": 0, "list": 0, "flags": 1})})
			cs.Ops = withRestarts(r, g.wide(g.ops(histLen(r, th, 4, 14)), wideShare), 0.05)
			chunkX(r, cs)
			onTape(r, cs)
			return cs
		},
		exec: func(w *World, cs *Case) {
			w.cfgClass(cs.Cfg)
			r := w.start(cs.Cfg)
			for i := range cs.Ops {
				_ = r.step(&cs.Ops[i])
				if r.desync {
					return
				}
				checkPositions(w, r)
			}
		},
	})

	// ------------------------------------------------------------- C05
	register(&propDef{
		id: "C05", level: "exploration", quick: 6000,
		rule: "Seeded histories of succeeding and failing calls with restarts; after every call the tape is compared byte for byte with its previous content plus a suffix, and scanned by an independent tar reader.",
		gen: func(r *Rng, i int, th bool) *Case {
			cs := &Case{Cfg: genCfg(r)}
			g := newGen(r, cs.Cfg, GenOpt{Nest: r.P(0.5), MaxDepth: 3, Small: r.P(0.5), LongName: r.P(0.2), W: mergeW(defaultW, map[string]int{"archive": 4, "update": 4, "delete": 3, "move": 4, "restore": 1, "flags": 6, "reinit": 1, "overwrite": 1})})
			cs.Ops = withRestarts(r, g.wide(g.ops(histLen(r, th, 6, 18)), wideShare), 0.06)
			for j := range cs.Ops {
				if (cs.Ops[j].K == "archive" || cs.Ops[j].K == "update") && r.P(0.1) {
					cs.Ops[j].Level = "bogus"
				}
			}
			chunkX(r, cs)
			onTape(r, cs)
			return cs
		},
		exec: func(w *World, cs *Case) {
			w.cfgClass(cs.Cfg)
			r := w.start(cs.Cfg)
			prev := r.y.tapeBytes()
			checkTape(w, r, prev, "Initialize")
			for i := range cs.Ops {
				op := &cs.Ops[i]
				before := r.m.Clone()
				err := r.step(op)
				cur := r.y.tapeBytes()
				lab := w.opLabel
				over := op.K == "reinit" || op.K == "overwrite"
				if over && (err == nil || len(cur) < len(prev)) {
					prev = nil
				}
				if !bytes.HasPrefix(cur, prev) {
					w.fail("rewrite", "%s changed bytes already on the tape (%d -> %d bytes, first change at %d)", lab, len(prev), len(cur), firstDiff(prev, cur))
				}
				if len(cur) > len(prev) {
					w.class("appended")
					if op.K == "restart" || op.K == "lostindex" || op.K == "readfile" || op.K == "stat" || op.K == "list" || op.K == "restore" {
						w.fail("append", "%s appended %d bytes", lab, len(cur)-len(prev))
					}
					if err != nil && !over && preconditionFails(before, op) {
						if cs.Cfg.Tape && len(op.Mem) > 1 && isZero(cur[len(prev):]) {
							w.fail("tape-batch", "%s failed its precondition (%v) but appended an empty record to the magnetic tape", lab, err)
						}
						w.fail("append-on-failure", "%s failed its precondition (%v) but appended %d bytes", lab, err, len(cur)-len(prev))
					}
				}
				w.state(string(cur))
				if r.desync {
					return
				}
				checkTape(w, r, cur, lab)
				prev = cur
			}
		},
	})

	// ------------------------------------------------------------- C12
	register(&propDef{
		id: "C12", level: "exploration", quick: 2200,
		rule: "Seeded trees over an alphabet of wildcards, dots, spaces, multi-byte and prefix-related sibling names, then recursive removes and directory renames (own subtree included) with restarts; every entry of the tree is compared before and after.",
		gen: func(r *Rng, i int, th bool) *Case {
			cs := &Case{Cfg: genCfg(r)}
			if r.P(0.6) {
				cs.Cfg.Enc, cs.Cfg.Sig, cs.Cfg.Comp = "", "", ""
			}
			g := newGen(r, cs.Cfg, GenOpt{MaxDepth: 5, Small: true, LongName: r.P(0.2), Spell: r.P(0.25)})
			al := []string{"a", "ab", "a_", "a%", "a.", "a b", "é", "éa", "_", "%", "aa", "A", "a_b", "日", ".a", "a'", "axb", "..."}
			g.comps = nil
			for len(g.comps) < 6 {
				c := r.Pick(al)
				g.comps = append(g.comps, c)
				if r.P(0.25) {
					g.comps = append(g.comps, twinComp(r, c))
				}
			}
			g.opt.W = map[string]int{"new": 6, "mkdir": 9, "mkdirall": 4}
			if r.P(0.35) {
				g.opt.W["symlink"] = 5
				cs.X = map[string]int64{"links": 1}
			}
			ops := g.ops(r.Range(6, 16))
			g.opt.W = map[string]int{"removeall": 6, "rename": 10, "mkdir": 2, "new": 2, "remove": 1, "mkdirall": 1}
			ops = append(ops, g.ops(r.Range(2, 7))...)
			if q := *r; q.P(0.3) { // something is renamed to what it is called already
				p, k := "", 0
				for j := range ops {
					switch o := &ops[j]; o.K {
					case "symlink":
						p, k = clean(o.Q), j+1
					case "mkdir", "new":
						if p == "" {
							p, k = clean(o.P), j+1
						}
					}
				}
				if p != "" && p != "/" {
					alt := q.Pick([]string{p, p[1:], "." + p, "/" + p, p + "/."})
					self := Op{K: "rename", P: p, Q: alt}
					if q.P(0.5) {
						self.P, self.Q = alt, p
					}
					ops = append(ops[:k:k], append([]Op{self}, ops[k:]...)...)
				}
			}
			cs.Ops = withRestarts(r, g.wide(ops, wideShare), 0.03)
			onTape(r, cs)
			return cs
		},
		exec: execSubtree,
	})

	// ------------------------------------------------------------- C13
	register(&propDef{
		id: "C13", level: "exploration", quick: 1200,
		rule: "Seeded histories (multi-level MkdirAll, creations under regular files, deep nesting, many children) with restarts; after every call the listings, the lookups and the index rows are cross-checked for every directory and many count limits.",
		gen: func(r *Rng, i int, th bool) *Case {
			cs := &Case{Cfg: genCfg(r)}
			if r.P(0.6) {
				cs.Cfg.Enc, cs.Cfg.Sig, cs.Cfg.Comp = "", "", ""
			}
			g := newGen(r, cs.Cfg, GenOpt{Nest: r.P(0.5), MaxDepth: r.Range(2, 7), Small: true, LongName: r.P(0.2), Spell: r.P(0.2), W: mergeW(defaultW, map[string]int{"mkdirall": 10, "mkdir": 10, "chmod": 1, "chown": 1, "chtimes": 1, "archive": 3, "move": 2, "reinit": 1, "overwrite": 1})})
			if r.P(0.25) {
				for k := 0; k < 12; k++ {
					g.comps = append(g.comps, fmt.Sprintf("c%d", k))
				}
				g.opt.MaxDepth = 1
			}
			if r.P(0.3) {
				g.opt.W["symlink"] = 12
			}
			cs.Ops = withRestarts(r, g.wide(g.ops(histLen(r, th, 6, 20)), wideShare), 0.04)
			onTape(r, cs)
			return cs
		},
		exec: func(w *World, cs *Case) {
			w.cfgClass(cs.Cfg)
			r := w.start(cs.Cfg)
			r.noModel = true
			s := checkNamespace(w, r.y)
			seen := map[string]bool{}
			for i := range cs.Ops {
				op := s.checked(&cs.Ops[i])
				if op == nil {
					continue
				}
				_ = r.step(op)
				s = checkNamespace(w, r.y)
				deadNames(w, r.y, s, seen, i)
			}
		},
	})
}

func (w *World) same(lab, an, bn string, a, b Snap, aerr, berr error) {
	if (aerr == nil) != (berr == nil) {
		w.fail("walk-differs", "after %s: walking the %s: %v; walking the %s: %v", lab, an, aerr, bn, berr)
	}
	if d := a.diff(b, an, bn); d != "" {
		w.fail("differs:"+bn, "after %s:\n%s", lab, d)
	}
}

func firstDiff(a, b []byte) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

// preconditionFails: the reference refuses the call outright.
func preconditionFails(m *Model, op *Op) bool {
	c := *op
	mm := m.Clone()
	if op.K == "sess" {
		flag, mode := op.flags()
		return mm.Open(op.P, flag, mode, span{}) == vErr
	}
	if op.K == "archive" || op.K == "update" {
		return op.Level == "bogus"
	}
	return mm.apply(&c, span{}, false) == vErr
}

// failing runs a history whose calls are made to fail: one which does must
// not have changed anything.
func (w *World) failing(cs *Case) {
	r := w.start(cs.Cfg)
	r.noModel = true
	prev := w.snap(r.y, "new filesystem")
	for i := range cs.Ops {
		op := &cs.Ops[i]
		before := r.y.appended()
		failed := r.stepFaulty(i)
		lab := w.opLabel
		cur, err := w.walk(r.y, true)
		if err != nil {
			w.fail("tree", "after %s: the tree cannot be walked: %v", lab, err)
		}
		w.noteState(cur)
		single := op.K != "sess" && op.K != "mkdirall" && (op.K != "rename" || prev[clean(op.Q)] == nil)
		// once everything is on the tape the call has happened
		if failed && single && r.y.appended() == before {
			w.class("failed:%s", op.K)
			if d := prev.diff(cur, "before", "after"); d != "" {
				w.fail("effect-of-failed-call", "%s fails, but has changed the tree:\n%s", lab, d)
			}
		}
		prev = cur
	}
}

func checkTape(w *World, r *Runner, tape []byte, lab string) {
	y := r.y
	if len(tape)%512 != 0 {
		w.fail("alignment", "after %s the tape is %d bytes long", lab, len(tape))
	}
	recs, end, err := y.logOf(tape)
	if err != nil {
		w.fail("tar", "after %s an independent tar reader cannot iterate the tape: %v", lab, err)
	}
	if !end {
		w.fail("tar", "after %s the last archive on the tape lacks its end-of-archive blocks", lab)
	}
	if y.cfg.Comp != "" || y.cfg.Enc != "" {
		return
	}
	led := ledger(recs)
	for _, p := range r.m.paths() {
		n := r.m.N[p]
		if n.Dir {
			continue
		}
		pl := led[p]
		if pl == nil {
			w.fail("tar-content", "after %s no record on the tape holds %q", lab, p)
		}
		got := tape[pl.content.Data : pl.content.Data+pl.content.Size]
		if !bytes.Equal(got, n.Data) {
			w.fail("tar-content", "after %s the member data of %q on the tape is wrong: %s", lab, p, diffBytes(got, n.Data))
		}
	}
}

func checkPositions(w *World, r *Runner) {
	y, lab := r.y, w.opLabel
	tape := y.tapeBytes()
	recs, _, err := y.logOf(tape)
	if err != nil {
		w.fail("scan", "after %s: %v", lab, err)
	}
	starts := map[int64]*LRec{}
	for _, l := range recs {
		starts[l.Start] = l
	}
	led := ledger(recs)
	rs := int64(y.cfg.RS)
	hdrs, err := y.mp.GetHeaders(context.Background())
	if err != nil {
		w.fail("index", "after %s: listing the index: %v", lab, err)
	}
	sort.Slice(hdrs, func(i, j int) bool { return hdrs[i].Name < hdrs[j].Name })
	seen := map[string]bool{}
	for _, h := range hdrs {
		p := clean(h.Name)
		seen[p] = true
		off := (h.Record*rs + h.Block) * 512
		last := (h.Lastknownrecord*rs + h.Lastknownblock) * 512
		w.class("block:%v", h.Block == 0)
		if h.Block < 0 || h.Block >= rs || h.Lastknownblock < 0 || h.Lastknownblock >= rs {
			w.fail("block-range", "after %s: %q has position %d/%d, last known %d/%d; the record size is %d", lab, p, h.Record, h.Block, h.Lastknownrecord, h.Lastknownblock, rs)
		}
		if last < off {
			w.fail("order", "after %s: %q is last known at %d/%d, before its content at %d/%d", lab, p, h.Lastknownrecord, h.Lastknownblock, h.Record, h.Block)
		}
		if starts[off] == nil {
			w.fail("position", "after %s: %q is said to be at %d/%d, where no record starts", lab, p, h.Record, h.Block)
		}
		pl := led[p]
		if pl == nil {
			w.fail("position", "after %s: index entry %q is not live on the tape", lab, p)
		}
		if pl.content.Start != off {
			w.fail("position", "after %s: %q is said to be at %d/%d (byte %d); its content was last replaced by the record at byte %d", lab, p, h.Record, h.Block, off, pl.content.Start)
		}
		n := r.m.N[p]
		if n == nil || n.Dir {
			continue
		}
		var data []byte
		err := w.api(y, "Fetch", func() (e error) { data, _, e = y.fetch(int(h.Record), int(h.Block)); return })
		if err != nil {
			w.fail("fetch", "after %s: fetching %q at %d/%d fails: %v", lab, p, h.Record, h.Block, err)
		}
		if !bytes.Equal(data, n.Data) {
			w.fail("fetch", "after %s: fetching %q at %d/%d: %s", lab, p, h.Record, h.Block, diffBytes(data, n.Data))
		}
	}
	var live []string
	for p := range led {
		live = append(live, p)
	}
	sort.Strings(live)
	for _, p := range live {
		if !seen[p] {
			w.fail("missing", "after %s: %q is live on the tape but not in the index", lab, p)
		}
	}
	lr, lb, err := y.mp.GetLastIndexedRecordAndBlock(context.Background(), int(rs))
	if err != nil {
		w.fail("index", "after %s: %v", lab, err)
	}
	if fin := recs[len(recs)-1]; (lr*rs+lb)*512 != fin.Start {
		w.fail("last-position", "after %s: the index reports %d/%d (byte %d) as last written; the final record starts at byte %d", lab, lr, lb, (lr*rs+lb)*512, fin.Start)
	}
	w.state(fmt.Sprint(len(recs), lr, lb))
}

func execSubtree(w *World, cs *Case) {
	w.cfgClass(cs.Cfg)
	r := w.start(cs.Cfg)
	prev := w.snap(r.y, "new filesystem")
	r.noModel = cs.X["links"] != 0 // the reference knows no links
	for i := range cs.Ops {
		op := &cs.Ops[i]
		src := r.m.get(op.P)
		if r.noModel {
			src = nil
		}
		err := r.step(op)
		lab := w.opLabel
		cur, werr := w.walk(r.y, true)
		if werr != nil {
			w.fail("tree", "after %s: %v", lab, werr)
		}
		w.noteState(cur)
		switch op.K {
		case "removeall":
			if src == nil && prev[clean(op.P)] == nil {
				break
			}
			d := clean(op.P)
			if err != nil {
				w.fail("refused", "%s fails: %v", lab, err)
			}
			w.class("removed:%d", len(prev)-len(cur))
			want := Snap{}
			for p, e := range prev {
				if p != d && !below(p, d) {
					want[p] = e
				}
			}
			w.sameTree(lab, want, cur, path.Dir(d))
		case "rename":
			s := prev[clean(op.P)]
			if s != nil && clean(op.P) == clean(op.Q) {
				w.class("renamed-onto-itself")
				w.sameTree(lab, prev, cur)
				break
			}
			if s == nil || s.Kind != "dir" || s.Link != "" || clean(op.P) == "/" {
				break
			}
			o, n := clean(op.P), clean(op.Q)
			if below(n, o) {
				w.class("own-subtree")
				if err == nil {
					w.fail("own-subtree", "%s succeeds", lab)
				}
				w.sameTree(lab, prev, cur)
				break
			}
			if err != nil || o == n {
				w.sameTree(lab, prev, cur)
				break
			}
			w.class("renamed-dir")
			want := Snap{}
			for p, e := range prev {
				switch {
				case p == o || below(p, o):
				case p == n || below(p, n):
				default:
					want[p] = e
				}
			}
			for p, e := range prev {
				if p == o || below(p, o) {
					c := *e
					c.Path = n + strings.TrimPrefix(p, o)
					want[c.Path] = &c
				}
			}
			w.sameTree(lab, want, cur, path.Dir(o), path.Dir(n))
		}
		prev = cur
		if r.desync {
			r.desync = false
			r.noModel = true
		}
	}
}

// sameTree compares trees; the listed directories may have a new mtime.
func (w *World) sameTree(lab string, want, got Snap, touched ...string) {
	a, b := Snap{}, Snap{}
	norm := func(dst, src Snap) {
		for p, e := range src {
			c := *e
			c.CT = 0
			if c.Link != "" { // looks like what it leads to
				c = Entry{Path: e.Path, Kind: "link", Link: "->"}
			}
			for _, t := range touched {
				if t == p {
					c.MT, c.AT = 0, 0
				}
			}
			dst[p] = &c
		}
	}
	norm(a, want)
	norm(b, got)
	if d := a.diff(b, "expected tree", "actual tree"); d != "" {
		w.fail("subtree", "%s touches more or less than the named subtree:\n%s", lab, d)
	}
}

// checked leaves out what callers of the archive interface have to prevent:
// members and moves without a directory to be in, or in place of what is not
// of their kind.
func (s Snap) checked(op *Op) *Op {
	inDir := func(p string) bool {
		d := s[path.Dir(p)]
		return d != nil && d.Kind == "dir" && d.Link == ""
	}
	switch op.K {
	case "archive":
		c := *op
		c.Mem = nil
		for _, m := range op.Mem {
			p := clean(m.Name)
			if e := s[p]; inDir(p) && (e == nil || e.Link == "" && (e.Kind == "dir") == m.Dir) {
				c.Mem = append(c.Mem, m)
			}
		}
		if len(c.Mem) == 0 {
			return nil
		}
		return &c
	case "overwrite":
		dirs := map[string]bool{}
		c := *op
		c.Mem = nil
		for _, m := range op.Mem {
			p := clean(m.Name)
			if p == "/" && len(c.Mem) == 0 && m.Dir || dirs[path.Dir(p)] && !dirs[p] {
				c.Mem = append(c.Mem, m)
				dirs[p] = m.Dir
			}
		}
		if len(c.Mem) == 0 {
			return nil
		}
		return &c
	case "move":
		if p := clean(op.Q); !inDir(p) || s[p] != nil {
			return nil
		}
	}
	return op
}

// limitedList lists one directory with a limit, as a caller would who only
// wants to know if there is anything in it.
func limitedList(w *World, y *Sys, s Snap, i int) {
	var dirs []string
	for _, p := range s.paths() {
		if s[p].Kind == "dir" && s[p].Link == "" {
			dirs = append(dirs, p)
		}
	}
	if len(dirs) == 0 {
		return
	}
	p := dirs[i%len(dirs)]
	k := 0
	for q := range s {
		if q != "/" && path.Dir(q) == p {
			k++
		}
	}
	n := 1 + i%(k+1)
	fis, err := w.list(y, p, n)
	if err != nil && k > 0 || len(fis) != min(n, k) {
		w.fail("list-limit", "after %s: Readdir(%d) of %q, which has %d entries, returns %d entries, %v", w.opLabel, n, p, k, len(fis), err)
	}
}

// deadNames looks up names which aren't in the tree: ones which used to be and
// ones which are easily mistaken for ones which are.
func deadNames(w *World, y *Sys, s Snap, seen map[string]bool, i int) {
	for p := range s {
		seen[p] = true
	}
	var names []string
	for p := range seen {
		names = append(names, p)
	}
	sort.Strings(names)
	if k := len(names); k > 12 {
		off := (i * 7) % k
		names = append(append([]string{}, names[off:]...), names[:off]...)[:12]
	}
	for _, p := range names {
		for _, q := range []string{p, p + "_", p + "%", strings.TrimRight(p, "abx"), path.Join(path.Dir(path.Dir(p)), path.Base(p)), path.Join(p, path.Base(p))} {
			if q = clean(q); s[q] != nil {
				continue
			}
			w.class("lookup-of-dead-name")
			var fi os.FileInfo
			err := w.api(y, fmt.Sprintf("Stat(%q)", q), func() (err error) {
				fi, err = y.fs.Stat(q)
				return err
			})
			if err == nil {
				w.fail("dead-name", "after %s: Stat(%q) finds an entry (dir=%v, size %d), but it is not in its directory", w.opLabel, q, fi.IsDir(), fi.Size())
			}
		}
	}
}

func checkNamespace(w *World, y *Sys) Snap {
	lab := w.opLabel
	s, err := w.walk(y, false)
	if err != nil {
		w.fail("walk", "after %s: %v", lab, err)
	}
	w.noteState(s)
	live := map[string]bool{}
	hdrs, err := y.mp.GetHeaders(context.Background())
	if err != nil {
		w.fail("index", "after %s: %v", lab, err)
	}
	for _, h := range hdrs {
		p := clean(h.Name)
		if h.Linkname != "" { // a link's row has its target as its name
			p = clean(h.Linkname)
			w.class("link")
		}
		if live[p] {
			w.fail("duplicate", "after %s: %q is live twice", lab, p)
		}
		live[p] = true
	}
	for p := range live {
		if s[p] == nil {
			w.fail("unreachable", "after %s: %q is live but not reachable by listing from the root", lab, p)
		}
		if p != "/" {
			if d := s[path.Dir(p)]; d == nil || d.Kind != "dir" {
				w.fail("orphan", "after %s: the parent of %q is not a directory", lab, p)
			}
		}
	}
	for p := range s {
		if !live[p] {
			w.fail("ghost", "after %s: %q is listed but not live", lab, p)
		}
	}
	for _, p := range s.paths() {
		e := s[p]
		if e.Kind == "file" {
			err := w.api(y, fmt.Sprintf("Open(%q).Stat", p), func() error {
				f, err := y.fs.Open(p)
				if err != nil {
					return err
				}
				defer f.Close()
				fi, err := f.Stat()
				if err != nil {
					return err
				}
				if fi.IsDir() || fi.Size() != e.Size {
					return fmt.Errorf("opened entry has size %d, dir=%v; stat says %d", fi.Size(), fi.IsDir(), e.Size)
				}
				return nil
			})
			if err != nil {
				w.fail("open", "after %s: opening listed file %q: %v", lab, p, err)
			}
			continue
		}
		if e.Link != "" { // lists its target, which may not exist
			continue
		}
		kids := map[string]bool{}
		for q := range s {
			if q != "/" && path.Dir(q) == p {
				kids[path.Base(q)] = true
			}
		}
		k := len(kids)
		w.class("children:%d", min(k, 6))
		for _, n := range []int{-1, 0, 1, 2, k - 1, k, k + 1, k + 7} {
			fis, err := w.list(y, p, n)
			if err != nil && !(n > 0 && len(fis) == 0) {
				w.fail("list", "after %s: Readdir(%d) of %q: %v", lab, n, p, err)
			}
			seen := map[string]bool{}
			for _, fi := range fis {
				if seen[fi.Name()] {
					w.fail("list-duplicate", "after %s: Readdir(%d) of %q lists %q twice", lab, n, p, fi.Name())
				}
				seen[fi.Name()] = true
				if !kids[fi.Name()] {
					w.fail("list-extra", "after %s: Readdir(%d) of %q lists %q, which is not its child", lab, n, p, fi.Name())
				}
				if x := s[path.Join(p, fi.Name())]; (x.Kind == "dir") != fi.IsDir() || !fi.IsDir() && x.Size != fi.Size() {
					w.fail("list-kind", "after %s: listing of %q shows %q as dir=%v size=%d; stat shows %s size=%d", lab, p, fi.Name(), fi.IsDir(), fi.Size(), x.Kind, x.Size)
				}
			}
			if n > 0 && len(fis) > n {
				w.fail("list-limit", "after %s: Readdir(%d) of %q returns %d entries", lab, n, p, len(fis))
			}
			if n <= 0 && len(fis) != k {
				w.fail("list-missing", "after %s: Readdir(%d) of %q returns %d of %d entries", lab, n, p, len(fis), k)
			}
		}
		if k <= 3 || len(s) < 12 {
			var names []string
			err := w.api(y, "Readdirnames", func() error {
				f, err := y.fs.Open(p)
				if err != nil {
					return err
				}
				defer f.Close()
				names, err = f.Readdirnames(-1)
				return err
			})
			if err != nil || len(names) != k {
				w.fail("list-names", "after %s: Readdirnames(-1) of %q: %q, %v; want %d names", lab, p, names, err, k)
			}
		}
	}
	return s
}
