package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
)

// row is one live index entry and the content it leads to.
type row struct {
	attrs string
	path  string
	reg   bool
	rec   int64
	blk   int64
	data  []byte
	bad   bool // content cannot be restored
}

type rowset map[string]*row

func (s rowset) keys() []string {
	var out []string
	for k := range s {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (a *row) same(b *row) bool {
	return a != nil && b != nil && a.attrs == b.attrs && a.bad == b.bad && bytes.Equal(a.data, b.data)
}

func (a *row) String() string {
	if a == nil {
		return "nothing"
	}
	if a.bad {
		return a.attrs + " content unreadable"
	}
	return fmt.Sprintf("%s content %d bytes sha %x", a.attrs, len(a.data), sha256.Sum256(a.data))
}

// rows lists the live index entries with their contents.
func (w *World) rows(y *Sys, contents bool) rowset {
	hdrs, err := y.mp.GetHeaders(context.Background())
	if err != nil {
		w.fail("index", "listing the index: %v", err)
	}
	out := rowset{}
	for _, h := range hdrs {
		r := &row{path: clean(h.Name), reg: h.Typeflag == '0' && h.Linkname == "", rec: h.Record, blk: h.Block}
		r.attrs = fmt.Sprintf("%c %d,%d link=%q size=%d mode=%o uid=%d/%q gid=%d/%q mt=%d at=%d ct=%d dev=%d/%d", rune(h.Typeflag), h.Record, h.Block, h.Linkname, h.Size, h.Mode, h.UID, h.Uname, h.Gid, h.Gname, h.Modtime.UnixNano(), h.Accesstime.UnixNano(), h.Changetime.UnixNano(), h.Devmajor, h.Devminor)
		if r.reg && contents {
			err := w.api(y, fmt.Sprintf("Fetch %q", h.Name), func() (err error) {
				r.data, _, err = y.fetch(int(h.Record), int(h.Block))
				return
			})
			if err != nil {
				r.bad, r.data = true, nil
			}
		}
		out[clean(h.Name)+"|"+h.Linkname] = r
	}
	return out
}

// lab is a second system whose tape and index are replaced at will.
func (w *World) lab(cfg Cfg) *Sys {
	tp := w.path("lab.tar")
	y, err := w.newSys(cfg, tp, path.Join(path.Dir(tp), "lab.sqlite"))
	must(err)
	return y
}

func (y *Sys) setTape(b []byte) {
	if y.st != nil {
		y.st.load(b, y.w.tmpl)
		return
	}
	must(os.WriteFile(y.tape, b, 0o600))
}

func (w *World) rebuildIn(y *Sys, b []byte) error {
	y.setTape(b)
	return w.api(y, "recovery.Index (rebuild)", func() error { return y.index(0, 0, true, 0, nil) })
}

// rebuildOn is rebuildIn for the content of another tape.
func (w *World) rebuildOn(y *Sys, b []byte, medium *SimTape) error {
	if medium == nil {
		return w.rebuildIn(y, b)
	}
	y.st.blks = medium.clone().blks
	return w.api(y, "recovery.Index (rebuild)", func() error { return y.index(0, 0, true, 0, nil) })
}

func withTrailer(b []byte) []byte {
	return append(append([]byte(nil), b...), make([]byte, 1024)...)
}

// cutPoints draws crash points of a tape.
func cutPoints(r *Rng, recs []*LRec, writes []int64, size int64, n int) []int64 {
	seen := map[int64]bool{}
	var special, out []int64
	add := func(c int64) {
		if c >= 0 && c <= size && !seen[c] {
			seen[c] = true
			special = append(special, c)
		}
	}
	for _, x := range recs {
		for _, d := range []int64{-1, 0, 1, 100, 512, 513, 1024} {
			add(x.Start + d)
		}
		for _, d := range []int64{-512, -511, -1, 0, 1, 511, 512} {
			add(x.Data + d)
			add(x.Data + x.Size + d)
			add(x.End + d)
		}
		if x.Size > 2 {
			add(x.Data + int64(r.Intn(int(x.Size))))
			add(x.Data + int64(r.Intn(int(x.Size))))
		}
		add(x.Start + int64(r.Intn(int(x.Data-x.Start))))
	}
	for _, x := range writes {
		for _, d := range []int64{-1, 0, 1} {
			add(x + d)
		}
	}
	add(0)
	add(size)
	for i := len(special) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		special[i], special[j] = special[j], special[i]
	}
	for len(out) < n {
		if len(special) > 0 && !r.P(0.15) {
			out = append(out, special[0])
			special = special[1:]
		} else {
			out = append(out, int64(r.Intn(int(size)+1)))
		}
	}
	return out
}

// stage is what was known after one call of the history.
type stage struct {
	lab   string
	size  int64
	rows  rowset
	index string
	snap  Snap
}

func genCut(r *Rng, th bool, wts map[string]int) *Case {
	cs := &Case{Cfg: genCfg(r), X: map[string]int64{}}
	g := newGen(r, cs.Cfg, GenOpt{MaxDepth: 3, LongName: r.P(0.2), Small: r.P(0.7), W: mergeW(defaultW, wts)})
	cs.Ops = g.ops(histLen(r, th, 3, 10))
	if r.P(0.5) { // a history that ends in content
		cs.Ops = append(cs.Ops, Op{K: "sess", Q: "Create", P: "/tail", Calls: []HCall{{C: "write", D: g.data()}}})
	}
	return cs
}

var cutW = map[string]int{"archive": 6, "update": 5, "delete": 2, "move": 3, "readfile": 0, "stat": 0, "list": 0, "flags": 1}

func init() {
	// ------------------------------------------------------------- C06
	register(&propDef{
		id: "C06", level: "fault_enumeration", quick: 1800,
		rule:   "Seeded histories; the finished tape is cut at record starts, header and content borders, the ends of every drive write, one byte to either side and at random offsets, and rebuilt from scratch. Every index row and every content is compared with the state after the last complete record, which an independent tar reader and ledger determine and which the live instance confirms at call borders.",
		assume: []string{"a cut inside the padding of a record may count it as written or not", "the row of a torn record may hold the state before or after it; nothing in between"},
		gen: func(r *Rng, i int, th bool) *Case {
			cs := genCut(r, th, cutW)
			onTape(r, cs)
			cs.X["cuts"] = 36
			if th {
				cs.X["cuts"] = 150
			}
			return cs
		},
		exec: execCut,
	})

	// ------------------------------------------------------------- C07
	register(&propDef{
		id: "C07", level: "exploration", quick: 1500,
		rule: "Seeded histories (moves, delete and recreate, renames onto used names); the index is saved after every call and rebuilt from every prefix of the records; the whole tape is replayed twice into each of them without wiping, and the visible tree is compared with a rebuild from scratch.",
		gen: func(r *Rng, i int, th bool) *Case {
			wts := mergeW(cutW, map[string]int{"rename": 18, "move": 6, "remove": 10, "removeall": 5, "new": 16, "symlink": 0})
			if r.P(0.5) {
				wts["symlink"] = 4
			}
			cs := genCut(r, th, wts)
			if r.P(0.6) {
				cs.Cfg.Enc, cs.Cfg.Sig = "", ""
			}
			onTape(r, cs)
			return cs
		},
		exec: func(w *World, cs *Case) {
			w.cfgClass(cs.Cfg)
			r := w.start(cs.Cfg)
			r.noModel = true
			var stages []*stage
			keep := func() {
				st := &stage{lab: w.opLabel, size: r.y.tapeSize(), index: w.path("saved.sqlite")}
				copyFile(r.y.db, st.index)
				stages = append(stages, st)
			}
			keep()
			for i := range cs.Ops {
				_ = r.step(&cs.Ops[i])
				keep()
			}
			final := r.y.tapeBytes()
			w.tmpl = r.y.st
			ref := w.lab(cs.Cfg)
			if err := w.rebuildIn(ref, final); err != nil {
				w.fail("rebuild", "rebuilding the whole tape fails: %v", err)
			}
			want, werr := w.walk(ref, true)
			if werr != nil {
				return // C01's and C17's matter
			}
			w.noteState(want)
			replayInto := func(y *Sys, what string) {
				w.opLabel = "replay into " + what
				y.setTape(final)
				for k := 1; k <= 2; k++ {
					err := w.api(y, "recovery.Index (replay)", func() error { return y.index(0, 0, false, 0, nil) })
					if err != nil {
						w.fail("replay", "replaying the tape (%d.) into %s fails: %v", k, what, err)
					}
					got, err := w.walk(y, k == 1)
					if err != nil {
						w.fail("walk", "after replay %d into %s: %v", k, what, err)
					}
					ref := want
					if k == 2 {
						ref = Snap{}
						for p, e := range want {
							c := *e
							c.Data, c.ReadErr = nil, ""
							ref[p] = &c
						}
					}
					if d := ref.diff(got, "rebuild", "replay"); d != "" {
						w.fail("replay-differs", "after replay %d of the tape into %s:\n%s", k, what, d)
					}
				}
				w.class("replayed")
			}
			for j, st := range stages {
				tp := w.path("stale.tar")
				db := filepath.Join(filepath.Dir(tp), "stale.sqlite")
				copyFile(st.index, db)
				y, err := w.newSys(cs.Cfg, tp, db)
				must(err)
				replayInto(y, fmt.Sprintf("the index as it was after call %d of %d (%s)", j, len(stages)-1, st.lab))
				w.drop(y)
			}
			recs, _, err := ref.logOf(final)
			if err != nil {
				return
			}
			for j := 1; j <= len(recs); j++ {
				if err := w.rebuildIn(ref, withTrailer(final[:recs[j-1].End])); err != nil {
					w.fail("prefix", "rebuilding the first %d of %d records fails: %v", j, len(recs), err)
				}
				replayInto(ref, fmt.Sprintf("the index of the first %d of %d records", j, len(recs)))
			}
		},
	})

	// ------------------------------------------------------------- C16
	register(&propDef{
		id: "C16", level: "exploration", quick: 700,
		rule:   "Tapes of seeded histories, intact, cut at any byte, or followed by zeros or garbage, combined with an absent, current, stale or overtaken index, sometimes with a fault or with other keys; after Initialize the tape bytes and the tree are compared with a from-scratch rebuild, then further calls run with a rebuild after each.",
		assume: []string{"an entry whose content was cut off is only required to look the same live and rebuilt"},
		gen: func(r *Rng, i int, th bool) *Case {
			cs := genCut(r, th, cutW)
			onTape(r, cs)
			cs.X["n"] = int64(len(cs.Ops))
			cs.X["variants"] = 5
			if th {
				cs.X["variants"] = 16
			}
			g := newGen(r, cs.Cfg, GenOpt{MaxDepth: 2, Small: true, W: mergeW(defaultW, map[string]int{"archive": 3, "update": 2})})
			cs.Progs = [][]Op{g.ops(r.Range(1, 4))}
			return cs
		},
		exec: execOpen,
	})
}

func execCut(w *World, cs *Case) {
	w.cfgClass(cs.Cfg)
	r := w.start(cs.Cfg)
	r.noModel = true
	var stages []*stage
	keep := func() {
		stages = append(stages, &stage{lab: w.opLabel, size: r.y.tapeSize(), rows: w.rows(r.y, true)})
	}
	keep()
	for i := range cs.Ops {
		_ = r.step(&cs.Ops[i])
		keep()
	}
	T := r.y.tapeBytes()
	w.tmpl = r.y.st
	y := w.lab(cs.Cfg)
	recs, _, err := y.logOf(T)
	if err != nil {
		w.fail("scan", "the finished tape cannot be scanned: %v", err)
	}
	// states after each complete record
	S := make([]rowset, len(recs)+1)
	S[0] = rowset{}
	need := map[int]bool{}
	rng := NewRng(cs.Seed ^ 0xc075)
	var cuts []int64
	if len(cs.Cuts) > 0 {
		for _, c := range cs.Cuts {
			cuts = append(cuts, int64(c))
		}
	} else {
		cuts = cutPoints(rng, recs, r.y.seam.writes, int64(len(T)), int(cs.x("cuts", 40)))
	}
	complete := func(c int64) int {
		k := 0
		for k < len(recs) && recs[k].End <= c {
			k++
		}
		return k
	}
	for _, c := range cuts {
		k := complete(c)
		need[k] = true
		if k < len(recs) {
			need[k+1] = true
		}
	}
	for _, st := range stages {
		need[complete(st.size)] = true
	}
	for k := 1; k <= len(recs); k++ {
		if !need[k] {
			continue
		}
		w.opLabel = fmt.Sprintf("rebuild of the first %d records", k)
		if err := w.rebuildIn(y, withTrailer(T[:recs[k-1].End])); err != nil {
			w.fail("prefix", "rebuilding the first %d of %d records fails: %v", k, len(recs), err)
		}
		S[k] = w.rows(y, true)
		led := ledger(recs[:k])
		names := map[string]bool{}
		for key, x := range S[k] {
			if strings.HasSuffix(key, "|") {
				names[x.path] = true
				if led[x.path] == nil {
					w.fail("prefix", "rebuilding the first %d records yields %q, which is not live on the tape", k, x.path)
				}
			}
			if x.bad {
				w.fail("prefix", "rebuilding the first %d records yields %q with unreadable content", k, x.path)
			}
		}
		for p := range led {
			if !names[p] {
				w.fail("prefix", "rebuilding the first %d records loses %q", k, p)
			}
		}
	}
	for _, st := range stages {
		k := complete(st.size)
		w.opLabel = "call border after " + st.lab
		if d := rowsDiff(st.rows, S[k], nil); d != "" {
			w.fail("call-border", "the tape as it was after %s rebuilds to another state than the live one: %s", st.lab, d)
		}
	}
	for i, c := range cuts {
		if c < 0 || c > int64(len(T)) {
			continue
		}
		w.pin = func(cs *Case) { cs.Cuts = []int{int(c)} }
		k := complete(c)
		kind := "border"
		var torn *LRec
		if k < len(recs) && c > recs[k].Start {
			torn = recs[k]
			switch {
			case c >= torn.Data+torn.Size && torn.Size > 0:
				kind = "padding"
			case c >= torn.Data:
				kind = "content"
			default:
				kind = "header"
			}
		} else if k == len(recs) || c > 0 && c < recs[k].Start {
			kind = "trailer"
		}
		w.count("fault:tape cut in " + kind)
		if c%512 != 0 {
			w.count("fault:unaligned cut")
		}
		w.opLabel = fmt.Sprintf("cut at byte %d of %d (%s of record %d of %d)", c, len(T), kind, k+1, len(recs))
		err := w.rebuildIn(y, T[:c])
		if k == 0 {
			for key := range w.rows(y, false) {
				if S[1] != nil && S[1][key] == nil {
					w.fail("ghost", "%s: the rebuild yields %q", w.opLabel, key)
				}
			}
			continue
		}
		if err != nil {
			w.fail("rebuild", "%s: the rebuild fails: %v", w.opLabel, err)
		}
		got := w.rows(y, true)
		w.logf("cut %d: %d rows", c, len(got))
		w.state(fmt.Sprint(kind, k, len(got)))
		may := map[string]bool{}
		if torn != nil && c > torn.Data-512 { // what is missing of the header may be zeros
			for _, p := range []string{torn.Name, torn.Old} {
				if p != "" {
					may[clean(p)] = true
				}
			}
		}
		if d := rowsDiff(S[k], got, may); d != "" {
			w.fail("others", "%s: the rebuild yields another state than after the last complete record: %s", w.opLabel, d)
		}
		// the torn record's entry
		union := map[string]bool{}
		for _, s := range []rowset{S[k], S[k+btoi(torn != nil)], got} {
			for key := range s {
				union[key] = true
			}
		}
		keys := make([]string, 0, len(union))
		for key := range union {
			keys = append(keys, key)
		}
		sort.Strings(keys)
		for _, key := range keys {
			p := key[:strings.LastIndex(key, "|")]
			if !may[p] {
				continue
			}
			g, old, nw := got[key], S[k][key], S[k+1][key]
			ga, oa, na := attrsOf(g), attrsOf(old), attrsOf(nw)
			if ga != oa && ga != na {
				w.fail("torn-state", "%s: the torn entry %q has [%s]; before the record it had [%s], with it it has [%s]", w.opLabel, key, ga, oa, na)
			}
			if g == nil || !g.reg {
				continue
			}
			check := func(how string, data []byte, err error) {
				if err != nil {
					w.class("torn:%s errs", how)
					return
				}
				ok := old != nil && ga == oa && bytes.Equal(data, old.data) || nw != nil && ga == na && bytes.Equal(data, nw.data)
				if !ok {
					w.fail("torn-content", "%s: %s of the torn entry %q returns %d bytes that are not its content", w.opLabel, how, p, len(data))
				}
			}
			var e error
			if g.bad {
				e = errInjected
			}
			check("fetch", g.data, e)
			var m map[string][]byte
			e = w.api(y, fmt.Sprintf("Restore(%q)", p), func() (err error) { m, err = y.restore(p); return })
			check("restore", pick(m, p), e)
			if y.cfg.RO == false && i%3 == 0 {
				b, e := w.readAll(y, p)
				check("reading", b, e)
			}
		}
		if i%8 == 0 {
			s, err := w.walk(y, false)
			if err != nil {
				w.fail("walk", "%s: the rebuilt tree cannot be walked: %v", w.opLabel, err)
			}
			live := map[string]bool{}
			for _, g := range got {
				live[g.path] = true
			}
			for _, g := range got {
				// a cut between the records of one call may leave orphans
				orphan := false
				for d := path.Dir(g.path); ; d = path.Dir(d) {
					if !live[d] {
						orphan = true
					}
					if d == "/" || d == "." {
						break
					}
				}
				if !orphan && s[g.path] == nil {
					w.fail("walk", "%s: %q is in the index but cannot be reached", w.opLabel, g.path)
				}
			}
		}
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func attrsOf(r *row) string {
	if r == nil {
		return "nothing"
	}
	return r.attrs
}

func rowsDiff(want, got rowset, except map[string]bool) string {
	for _, k := range want.keys() {
		p := k[:strings.LastIndex(k, "|")]
		if except[p] {
			continue
		}
		if got[k] == nil {
			return fmt.Sprintf("%q is missing", k)
		}
		if !want[k].same(got[k]) {
			return fmt.Sprintf("%q is [%s], want [%s]", k, got[k], want[k])
		}
	}
	for _, k := range got.keys() {
		p := k[:strings.LastIndex(k, "|")]
		if !except[p] && want[k] == nil {
			return fmt.Sprintf("%q should not exist", k)
		}
	}
	return ""
}

// execOpen: opening existing tapes.
func execOpen(w *World, cs *Case) {
	w.cfgClass(cs.Cfg)
	r := w.start(cs.Cfg)
	r.noModel = true
	var stages []*stage
	keep := func() {
		st := &stage{lab: w.opLabel, size: r.y.tapeSize(), index: w.path("saved.sqlite")}
		copyFile(r.y.db, st.index)
		stages = append(stages, st)
	}
	keep()
	for i := range cs.Ops {
		_ = r.step(&cs.Ops[i])
		keep()
	}
	w.tmpl = r.y.st
	T := r.y.tapeBytes()
	rng := NewRng(cs.Seed ^ 0x0be1)
	ref := w.lab(cs.Cfg)
	recs, _, err := ref.logOf(T)
	if err != nil {
		return
	}
	cuts := cutPoints(rng, recs, r.y.seam.writes, int64(len(T)), 64)
	N := int(cs.x("variants", 5))
	only := cs.x("only", -1)
	for v := 0; v < N; v++ {
		q := rng.Fork(fmt.Sprint("v", v))
		if only >= 0 && int64(v) != only {
			continue
		}
		// the tape
		tape := append([]byte(nil), T...)
		kind := ""
		switch q.Weighted([]int{3, 10, 2, 1}) {
		case 0:
			kind = "intact"
		case 1:
			tape = tape[:cuts[q.Intn(len(cuts))]]
			kind = fmt.Sprintf("cut at %d of %d", len(tape), len(T))
			w.count("fault:tape cut")
		case 2:
			n := q.PickInt([]int{1, 100, 511, 512, 513, 1024, 5000, 10240})
			tape = append(tape, make([]byte, n)...)
			kind = fmt.Sprintf("followed by %d zeros", n)
			w.count("fault:zeros after the tape")
		case 3:
			g := Data{N: q.PickInt([]int{1, 100, 512, 700, 1536}), Kind: "rand", Seed: q.U64()}
			tape = append(tape, g.Bytes()...)
			kind = fmt.Sprintf("followed by %d garbage bytes", g.N)
			w.count("fault:garbage after the tape")
		}
		// a magnetic tape ends with a whole record, and the kernel marks the
		// end of what a process which died has written
		whole := int64(len(tape))
		var medium *SimTape
		if ref.st != nil {
			whole -= whole % int64(ref.st.rec)
			ref.setTape(tape[:whole])
			if n := len(ref.st.blks); n > 0 && !ref.st.blks[n-1].mark {
				ref.st.blks = append(ref.st.blks, tapeBlk{mark: true})
			}
			medium = ref.st.clone()
			tape = medium.bytes()
		}
		// the index
		idx, ikind := "", "no index"
		switch q.Weighted([]int{5, 3, 4}) {
		case 1:
			var fit []*stage
			for _, st := range stages {
				if st.size <= whole {
					fit = append(fit, st)
				}
			}
			if len(fit) > 0 {
				st := fit[len(fit)-1]
				idx, ikind = st.index, fmt.Sprintf("the index of byte %d", st.size)
			}
		case 2:
			st := stages[q.Intn(len(stages))]
			if medium != nil && st.size > whole {
				break // only regular drives can tell
			}
			idx, ikind = st.index, fmt.Sprintf("the index of byte %d", st.size)
			if st.size > whole {
				w.class("index:ahead")
			} else {
				w.class("index:stale")
			}
		}
		if idx == "" {
			w.class("index:none")
		}
		what := "tape " + kind + ", " + ikind
		w.opLabel = what
		rerr := w.rebuildOn(ref, tape, medium)
		var want Snap
		root := false
		if rerr == nil {
			if _, err := ref.mp.GetRootPath(context.Background()); err == nil {
				root = true
				want, err = w.walk(ref, true)
				if err != nil {
					w.fail("walk", "%s: the rebuilt tree cannot be walked: %v", what, err)
				}
			}
		}
		w.class("root:%v", root)
		open := func(cfg Cfg) *Sys {
			tp := w.path("open.tar")
			db := filepath.Join(filepath.Dir(tp), "open.sqlite")
			if medium != nil {
				w.putTape(tp, medium.clone())
			} else {
				must(os.WriteFile(tp, tape, 0o600))
			}
			if idx != "" {
				copyFile(idx, db)
			}
			y, err := w.newSys(cfg, tp, db)
			must(err)
			return y
		}
		init := func(y *Sys) error {
			return w.api(y, "Initialize over "+what, func() error { _, err := y.fs.Initialize("/", os.ModePerm); return err })
		}
		unharmed := func(y *Sys, who string) {
			now := y.tapeBytes()
			if !bytes.HasPrefix(now, tape) {
				w.fail("destroyed", "%s: Initialize%s changes or removes what is on the tape (%d -> %d bytes, first difference at %d)", what, who, len(tape), len(now), firstDiff(tape, now))
			}
			if root && len(now) != len(tape) {
				w.fail("appended", "%s: Initialize%s appends %d bytes although the tape has a root", what, who, len(now)-len(tape))
			}
		}
		// faults while opening
		if q.P(0.35) {
			y := open(cs.Cfg)
			f := &Fault{Site: q.Pick([]string{"read", "seek", "index", "openr", "openw", "write"}), K: q.PickInt([]int{0, 0, 1, 2, 3, 5, 9, 20}), Mode: "err"}
			y.seam.arm(f)
			err := init(y)
			y.seam.arm(nil)
			who := fmt.Sprintf(" (with a %s fault)", f.Site)
			if err == nil {
				who += " returning success"
			}
			w.count("fault:" + f.Site + " during Initialize")
			now := y.tapeBytes()
			if !bytes.HasPrefix(now, tape) {
				w.fail("destroyed", "%s: Initialize%s changes or removes what is on the tape", what, who)
			}
			if root && len(now) != len(tape) {
				w.fail("appended", "%s: Initialize%s appends %d bytes although the tape has a root", what, who, len(now)-len(tape))
			}
			if err == nil && root {
				got, gerr := w.walk(y, true)
				w.same(what+who, "rebuild", "opened filesystem", want, got, nil, gerr)
			}
			if root { // the fault is gone
				if err := init(y); err != nil {
					w.fail("reopen", "%s: opening again after a failed attempt%s fails: %v", what, who, err)
				}
				got, gerr := w.walk(y, true)
				w.same(what+who, "rebuild", "opened filesystem", want, got, nil, gerr)
				unharmed(y, who)
			}
			w.drop(y)
		}
		// other keys
		if (cs.Cfg.Enc != "" || cs.Cfg.Sig != "") && q.P(0.3) {
			c := cs.Cfg
			c.Keys++
			y := open(c)
			err := init(y)
			w.count("fault:other keys")
			unharmed(y, " with other keys")
			if err == nil && root && idx == "" && len(want) > 0 {
				w.fail("foreign-keys", "%s: Initialize with other keys succeeds", what)
			}
			w.drop(y)
		}
		if q.P(0.2) {
			c := cs.Cfg
			c.RO = true
			y := open(c)
			err := init(y)
			if now := y.tapeBytes(); !bytes.Equal(now, tape) {
				w.fail("appended", "%s: a read-only Initialize changes the tape", what)
			}
			if err == nil && root && idx == "" {
				got, gerr := w.walk(y, true)
				w.same(what, "rebuild", "read-only filesystem", want, got, nil, gerr)
			}
			w.drop(y)
		}
		y := open(cs.Cfg)
		err := init(y)
		unharmed(y, "")
		w.logf("%s -> %v", what, err != nil)
		if err != nil {
			if root {
				w.fail("open", "%s: Initialize fails (%v) although the tape can be rebuilt", what, err)
			}
			w.drop(y)
			continue
		}
		if root {
			got, gerr := w.walk(y, true)
			w.same(what, "rebuild", "opened filesystem", want, got, nil, gerr)
			w.noteState(got)
		}
		agree := func(lab string) {
			b, err := w.rebuilt(cs.Cfg, y, nil)
			if err != nil {
				w.fail("rebuild", "%s, then %s: rebuilding fails: %v", what, lab, err)
			}
			a, aerr := w.walk(y, true)
			bs, berr := w.walk(b, true)
			w.same(what+", then "+lab, "opened filesystem", "rebuild", a, bs, aerr, berr)
			w.drop(b)
		}
		agree("nothing")
		// opening again is harmless
		before := y.tapeBytes()
		if err := init(y); err != nil {
			w.fail("open", "%s: opening a second time fails: %v", what, err)
		}
		if !bytes.Equal(before, y.tapeBytes()) {
			w.fail("appended", "%s: opening a second time changes the tape", what)
		}
		nr := &Runner{w: w, y: y, noModel: true}
		name := "/new-" + fmt.Sprint(v)
		content := Data{N: q.PickInt([]int{1, 511, 512, 700, 3000}), Kind: "rand", Seed: q.U64()}
		steps := []Op{{K: "sess", Q: "Create", P: name, Calls: []HCall{{C: "write", D: &content}}}}
		if len(cs.Progs) > 0 {
			if q.P(0.5) {
				steps = append(append([]Op(nil), cs.Progs[0]...), steps...)
			} else {
				steps = append(steps, cs.Progs[0]...)
			}
		}
		wrote := false
		for i := range steps {
			prev := y.tapeBytes()
			err := nr.step(&steps[i])
			lab := w.opLabel
			if steps[i].P == name {
				if err != nil {
					w.fail("write", "%s: %s fails afterwards: %v", what, lab, err)
				}
				wrote = true
			}
			if !bytes.HasPrefix(y.tapeBytes(), prev) {
				w.fail("destroyed", "%s: %s changes what is on the tape", what, lab)
			}
			agree(lab)
			if wrote {
				b, err := w.readAll(y, name)
				if err != nil || !bytes.Equal(b, content.Bytes()) {
					w.fail("written", "%s: the file written afterwards reads back wrong after %s: %v, %s", what, lab, err, diffBytes(b, content.Bytes()))
				}
			}
		}
		nr.y = y
		nr.restart(q.P(0.5))
		b, err := w.readAll(nr.y, name)
		if err != nil || !bytes.Equal(b, content.Bytes()) {
			w.fail("written", "%s: the file written afterwards reads back wrong after a restart: %v, %s", what, err, diffBytes(b, content.Bytes()))
		}
		w.drop(nr.y)
	}
}
