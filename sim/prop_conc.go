package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/simrt"
	"github.com/spf13/afero"
)

// cev is one call of a concurrent history, as its client saw it.
type cev struct {
	client int
	h      int // handle the call opens or uses; -1: none
	op     *Op
	call   HCall // C=="" for calls on the filesystem, "open", "close", or a handle call

	inv, resp int
	t0, t1    time.Time

	err  bool
	eof  bool
	msg  string
	n    int
	off  int64
	data []byte
	fi   *cinfo
	fis  []cinfo
}

type cinfo struct {
	name string
	dir  bool
	size int64
	mode os.FileMode
	mt   time.Time
}

func cinfoOf(fi os.FileInfo) cinfo {
	return cinfo{fi.Name(), fi.IsDir(), fi.Size(), fi.Mode() & permMask, fi.ModTime()}
}

func (e *cev) String() string {
	what := e.op.String()
	if e.op.K == "sess" || e.op.K == "shared" {
		switch e.call.C {
		case "open":
			c := *e.op
			c.Calls = nil
			what = strings.TrimSuffix(c.String(), "{}")
		default:
			what = fmt.Sprintf("h%d(%s).%s", e.h, e.op.P, e.call.String())
		}
	}
	res := "ok"
	if e.err {
		res = "error: " + e.msg
	} else {
		switch e.call.C {
		case "read", "readat", "write", "writeat", "writestring":
			res = fmt.Sprintf("%d bytes", e.n)
			if e.eof {
				res += ", EOF"
			}
			if len(e.data) > 0 && len(e.data) <= 16 {
				res += fmt.Sprintf(" %q", e.data)
			}
		case "seek":
			res = fmt.Sprintf("at %d", e.off)
		case "readdir":
			var ns []string
			for _, f := range e.fis {
				ns = append(ns, f.name)
			}
			res = fmt.Sprintf("%v", ns)
		}
		if e.fi != nil {
			res = fmt.Sprintf("dir=%v size=%d mode=%v", e.fi.dir, e.fi.size, e.fi.mode)
		}
	}
	if e.resp == 0 {
		res = "does not return"
	}
	return fmt.Sprintf("[%d..%d] client %d: %s -> %s", e.inv, e.resp, e.client, what, res)
}

// shared are the handles several clients use at the same time.
type sharedHandle struct {
	op *Op
	f  afero.File
}

// runClient executes one program and records what the client sees.
func runClient(y *Sys, id int, prog []Op, shared []sharedHandle, evs []cev) int {
	k := 0
	begin := func(op *Op, h int, c HCall) *cev {
		simrt.Yield("call")
		e := &evs[k]
		k++
		*e = cev{client: id, h: h, op: op, call: c, t0: time.Now()}
		e.inv = simrt.Tick()
		return e
	}
	end := func(e *cev, err error) {
		if err == io.EOF && (e.call.C == "read" || e.call.C == "readat") {
			e.eof = true
			err = nil
		}
		if err != nil {
			e.err = true
			e.msg = err.Error()
		}
		e.t1 = time.Now()
		e.resp = simrt.Tick()
	}
	onHandle := func(f afero.File, op *Op, h int, c HCall) {
		e := begin(op, h, c)
		var err error
		switch c.C {
		case "read":
			b := make([]byte, c.N)
			e.n, err = f.Read(b)
			if e.n > 0 {
				e.data = b[:e.n]
			}
		case "readat":
			b := make([]byte, c.N)
			e.n, err = f.ReadAt(b, c.O)
			if e.n > 0 {
				e.data = b[:e.n]
			}
		case "write":
			e.n, err = f.Write(c.D.Bytes())
		case "writestring":
			e.n, err = f.WriteString(string(c.D.Bytes()))
		case "writeat":
			e.n, err = f.WriteAt(c.D.Bytes(), c.O)
		case "seek":
			e.off, err = f.Seek(c.O, c.W)
		case "truncate":
			err = f.Truncate(c.N)
		case "sync":
			err = f.Sync()
		case "stat":
			var fi os.FileInfo
			if fi, err = f.Stat(); err == nil {
				x := cinfoOf(fi)
				e.fi = &x
			}
		case "readdir":
			var fis []os.FileInfo
			fis, err = f.Readdir(int(c.N))
			for _, fi := range fis {
				e.fis = append(e.fis, cinfoOf(fi))
			}
		case "close":
			err = f.Close()
		default:
			err = rawCall(f, c)
		}
		end(e, err)
	}
	hs := 0
	for i := range prog {
		op := &prog[i]
		switch op.K {
		case "shared":
			if int(op.N) < len(shared) && shared[op.N].f != nil {
				for _, c := range op.Calls {
					onHandle(shared[op.N].f, shared[op.N].op, int(op.N), c)
				}
			}
		case "sess":
			hs++
			h := 100*(id+1) + hs
			e := begin(op, h, HCall{C: "open"})
			f, err := y.openOp(op)
			end(e, err)
			if err != nil {
				continue
			}
			for _, c := range op.Calls {
				onHandle(f, op, h, c)
			}
			onHandle(f, op, h, HCall{C: "close"})
		default:
			e := begin(op, -1, HCall{})
			var err error
			switch op.K {
			case "mkdir":
				err = y.fs.Mkdir(op.P, os.FileMode(op.M))
			case "mkdirall":
				err = y.fs.MkdirAll(op.P, os.FileMode(op.M))
			case "remove":
				err = y.fs.Remove(op.P)
			case "removeall":
				err = y.fs.RemoveAll(op.P)
			case "rename":
				err = y.fs.Rename(op.P, op.Q)
			case "chmod":
				err = y.fs.Chmod(op.P, os.FileMode(op.M))
			case "chown":
				err = y.fs.Chown(op.P, op.U, op.G)
			case "chtimes":
				err = y.fs.Chtimes(op.P, timeNS(op.T1), timeNS(op.T2))
			case "stat":
				var fi os.FileInfo
				if fi, err = y.fs.Stat(op.P); err == nil {
					x := cinfoOf(fi)
					e.fi = &x
				}
			case "name":
				_ = y.fs.Name()
			default:
				panic("unknown op " + op.K)
			}
			end(e, err)
		}
	}
	return k
}

func evCount(prog []Op) int {
	n := 0
	for _, op := range prog {
		n += 2 + len(op.Calls)
	}
	return n
}

// ---- linearisation against the reference filesystem

// lhandle is an open handle of the reference.
type lhandle struct {
	path string
	id   int // identity of the node it was opened on
	t0   time.Time
	dir  bool

	r, w, app bool

	res   bool // content is fixed
	vers  [][]byte
	data  []byte
	pos   int64
	dirty bool

	wild   bool // the file was replaced under the handle: content unknown
	wdirty bool
	closed bool
}

type lstate struct {
	m  *Model
	hs map[int]*lhandle
}

func (s *lstate) clone() *lstate {
	n := &lstate{m: s.m.Clone(), hs: map[int]*lhandle{}}
	for k, h := range s.hs {
		c := *h
		c.vers = h.vers[:len(h.vers):len(h.vers)]
		n.hs[k] = &c
	}
	return n
}

func spansKey(s []span) string {
	var b strings.Builder
	for _, x := range s {
		fmt.Fprintf(&b, "%d-%d,", x.lo.UnixNano(), x.hi.UnixNano())
	}
	return b.String()
}

func (s *lstate) key() uint64 {
	h := fnv.New64a()
	for _, p := range s.m.paths() {
		n := s.m.N[p]
		fmt.Fprintf(h, "%s|%v|%o|%d|%d|%d|%v|%s|%s|", p, n.Dir, n.Mode, n.UID, n.GID, n.ID, n.Wild, spansKey(n.MT), spansKey(n.AT))
		h.Write(n.Data)
	}
	var ks []int
	for k := range s.hs {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		x := s.hs[k]
		if x.closed {
			continue
		}
		fmt.Fprintf(h, "#%d|%v|%d|%v|%v|%v|%d|", k, x.res, x.pos, x.dirty, x.wild, x.wdirty, len(x.vers))
		h.Write(x.data)
	}
	return h.Sum64()
}

func (s *lstate) publish(n *Node, data []byte, w span) {
	n.Data = append([]byte(nil), data...)
	n.Wild = false
	n.MT = append(n.MT, w)
	for _, h := range s.hs {
		if h.id == n.ID && !h.res && !h.wild {
			h.vers = append(h.vers, n.Data)
		}
	}
}

func (s *lstate) spoil(n *Node, w span) {
	n.Wild = true
	n.MT = append(n.MT, w)
	for _, h := range s.hs {
		if h.id == n.ID && !h.res {
			h.wild = true
		}
	}
}

func (s *lstate) byID(id int) *Node {
	for _, n := range s.m.N {
		if n.ID == id {
			return n
		}
	}
	return nil
}

// apply returns every state the reference can be in after the call, given the
// outcome the client saw; none if the reference excludes that outcome.
func (s *lstate) apply(e *cev) []*lstate {
	win := span{e.t0, e.t1}
	got := vOK
	if e.err {
		got = vErr
	}
	if e.h >= 0 && e.call.C != "open" {
		return s.onHandle(e, win)
	}
	n := s.clone()
	m := n.m
	if e.call.C == "open" {
		flag, mode := e.op.flags()
		v := m.Open(e.op.P, flag, mode, win)
		if v != vAny && v != got {
			return nil
		}
		if e.err {
			return []*lstate{n}
		}
		p := clean(e.op.P)
		x := m.N[p]
		if x == nil {
			return nil
		}
		acc := flag & accMask
		h := &lhandle{path: p, id: x.ID, dir: x.Dir, t0: e.t0, r: acc != os.O_WRONLY || n.m.wrp, w: acc != os.O_RDONLY, app: flag&os.O_APPEND != 0, wild: x.Wild}
		n.hs[e.h] = h
		if !x.Dir {
			if flag&os.O_TRUNC != 0 && h.w && (len(x.Data) > 0 || x.Wild) {
				n.publish(x, nil, win)
				h.wild = false
			}
			h.vers = [][]byte{x.Data}
		}
		return []*lstate{n}
	}
	if e.op.K == "name" {
		return []*lstate{n}
	}
	v := m.apply(e.op, win, !e.err)
	if v != vAny && v != got {
		return nil
	}
	if v == vAny && e.err {
		return []*lstate{s.clone()}
	}
	if e.op.K == "stat" && !e.err {
		x := m.get(e.op.P)
		if x == nil || !statFits(x, e.fi) {
			return nil
		}
	}
	return []*lstate{n}
}

func statFits(x *Node, f *cinfo) bool {
	if x.Dir != f.dir {
		return false
	}
	if x.ID == rootID {
		return true
	}
	if x.Mode != f.mode || !inSpans(f.mt, x.MT) {
		return false
	}
	return x.Dir || x.Wild || f.size == int64(len(x.Data))
}

const rootID = -1

func (s *lstate) onHandle(e *cev, win span) []*lstate {
	c := e.call
	if s.hs[e.h] == nil {
		return []*lstate{s.clone()}
	}
	n := s.clone()
	h := n.hs[e.h]
	cur := n.m.N[h.path]
	detached := cur == nil || cur.ID != h.id
	one := []*lstate{n}
	isWrite := c.C == "write" || c.C == "writestring" || c.C == "writeat" || c.C == "truncate"
	isAccess := isWrite || c.C == "read" || c.C == "readat" || c.C == "seek"

	if h.dir {
		switch c.C {
		case "readdir":
			if detached {
				return one
			}
			if e.err || !n.listFits(h.path, int(c.N), e.fis) {
				return nil
			}
		case "write", "writestring", "writeat", "truncate":
			if !e.err {
				return nil
			}
		case "read", "readat":
			if c.N > 0 && !e.err && !e.eof {
				return nil
			}
		}
		return one
	}
	if c.C == "readdir" {
		if !e.err {
			return nil
		}
		return one
	}
	if h.wild {
		if isWrite && !e.err {
			h.wdirty = true
		}
		if c.C == "sync" || c.C == "close" {
			return n.flushUnknown(h, e, win)
		}
		return one
	}
	// calls the handle's flags reject
	if isWrite && !h.w || (c.C == "read" || c.C == "readat") && !h.r && c.N > 0 {
		if !e.err {
			return nil
		}
		return one
	}
	if isAccess && !h.res {
		if (c.C == "read" || c.C == "readat") && c.N == 0 {
			return one
		}
		if detached {
			h.wild = true
			h.wdirty = isWrite && !e.err
			return one
		}
		// the content is that of some moment between opening and first use
		var out []*lstate
		seen := map[string]bool{}
		for i := len(h.vers) - 1; i >= 0; i-- {
			if seen[string(h.vers[i])] {
				continue
			}
			seen[string(h.vers[i])] = true
			b := n.clone()
			x := b.hs[e.h]
			x.res = true
			x.data = append([]byte(nil), x.vers[i]...)
			x.vers = nil
			out = append(out, b.fixed(x, e, win, detached)...)
		}
		return out
	}
	return n.fixed(h, e, win, detached)
}

// fixed: calls on a handle whose content is known.
func (n *lstate) fixed(h *lhandle, e *cev, win span, detached bool) []*lstate {
	c := e.call
	one := []*lstate{n}
	size := int64(len(h.data))
	mf := &MFile{data: h.data}
	fail := func(cond bool) ([]*lstate, bool) {
		if cond != e.err {
			return nil, true
		}
		return one, cond
	}
	switch c.C {
	case "read", "readat":
		if c.N == 0 {
			return one
		}
		pos := h.pos
		if c.C == "readat" {
			pos = c.O
		}
		if r, done := fail(pos < 0); done {
			return r
		}
		want := int64(0)
		if pos < size {
			want = size - pos
		}
		if want > c.N {
			want = c.N
		}
		if want == 0 {
			if !e.eof || e.n > 0 {
				return nil
			}
			return one
		}
		if int64(e.n) > want || e.n <= 0 || (c.C == "readat" || e.eof) && int64(e.n) != want && (c.C == "readat" || pos+int64(e.n) < size) {
			return nil
		}
		if e.eof && pos+int64(e.n) < size {
			return nil
		}
		if !bytes.Equal(e.data, h.data[pos:pos+int64(e.n)]) {
			return nil
		}
		if c.C == "read" {
			h.pos += int64(e.n)
		}
		return one
	case "seek":
		base := int64(0)
		switch c.W {
		case io.SeekCurrent:
			base = h.pos
		case io.SeekEnd:
			base = size
		}
		if r, done := fail(base+c.O < 0 || c.W > 2); done {
			return r
		}
		if e.off != base+c.O {
			return nil
		}
		h.pos = base + c.O
		return one
	case "write", "writestring":
		b := c.D.Bytes()
		if r, done := fail(false); done {
			return r
		}
		if e.n != len(b) {
			return nil
		}
		if len(b) == 0 && h.app { // whether writing nothing moves the cursor is left open
			o := n.clone()
			n.twin(o, h).pos = size
			return append(n.dirtied(h, false), o.dirtied(n.twin(o, h), false)...)
		}
		if h.app {
			h.pos = size
		}
		mf.writeAt(b, h.pos)
		h.data = mf.data
		h.pos += int64(len(b))
		return n.dirtied(h, len(b) > 0)
	case "writeat":
		b := c.D.Bytes()
		if len(b) == 0 && c.O < 0 {
			return one
		}
		if r, done := fail(c.O < 0); done {
			return r
		}
		if e.n != len(b) {
			return nil
		}
		h.data = append([]byte(nil), h.data...)
		mf.data = h.data
		mf.writeAt(b, c.O)
		h.data = mf.data
		return n.dirtied(h, len(b) > 0)
	case "truncate":
		if r, done := fail(c.N < 0); done {
			return r
		}
		if c.N < size {
			h.data = h.data[:c.N:c.N]
		} else {
			h.data = append(append([]byte(nil), h.data...), make([]byte, c.N-size)...)
		}
		return n.dirtied(h, c.N != size)
	case "sync", "close":
		if c.C == "close" {
			h.closed = true
		}
		if !h.dirty {
			if e.err && !detached {
				return nil
			}
			return one
		}
		w := span{h.t0, win.hi}
		if !detached {
			if e.err {
				return nil
			}
			n.publish(n.m.N[h.path], h.data, w)
			h.dirty = false
			return one
		}
		if e.err {
			return one
		}
		// the name is gone or means another file by now: where the content
		// ends up (nowhere, in the renamed file, under the name) is left open
		h.dirty = false
		out := one
		if x := n.m.N[h.path]; x != nil && !x.Dir {
			b := n.clone()
			b.publish(b.m.N[h.path], h.data, w)
			out = append(out, b)
		}
		if x := n.byID(h.id); x != nil {
			b := n.clone()
			b.publish(b.byID(h.id), h.data, w)
			out = append(out, b)
		}
		return out
	case "stat":
		if e.err {
			return nil
		}
		return one
	}
	return one
}

// twin is the handle h of n in its clone o.
func (n *lstate) twin(o *lstate, h *lhandle) *lhandle {
	for k, x := range n.hs {
		if x == h {
			return o.hs[k]
		}
	}
	return nil
}

// dirtied: a call that changed nothing may or may not make the handle write
// its content back.
func (n *lstate) dirtied(h *lhandle, changed bool) []*lstate {
	if changed || h.dirty {
		h.dirty = true
		return []*lstate{n}
	}
	o := n.clone()
	n.twin(o, h).dirty = true
	return []*lstate{n, o}
}

func (n *lstate) flushUnknown(h *lhandle, e *cev, win span) []*lstate {
	if e.call.C == "close" {
		h.closed = true
	}
	out := []*lstate{n}
	if !h.wdirty || e.err {
		return out
	}
	w := span{h.t0, win.hi}
	if x := n.m.N[h.path]; x != nil && !x.Dir {
		b := n.clone()
		b.spoil(b.m.N[h.path], w)
		out = append(out, b)
	}
	if x := n.byID(h.id); x != nil {
		b := n.clone()
		b.spoil(b.byID(h.id), w)
		out = append(out, b)
	}
	return out
}

func (n *lstate) listFits(dir string, count int, fis []cinfo) bool {
	want := n.m.children(dir)
	if count > 0 {
		k := count
		if len(want) < k {
			k = len(want)
		}
		if len(fis) != k {
			return false
		}
	} else if len(fis) != len(want) {
		return false
	}
	seen := map[string]bool{}
	for i := range fis {
		f := &fis[i]
		if seen[f.name] {
			return false
		}
		seen[f.name] = true
		x := n.m.get(dir + "/" + f.name)
		if x == nil || !statFits(x, f) {
			return false
		}
	}
	return true
}

// linearise searches a sequential order of the history that respects real
// time and that the reference filesystem can produce.
type lineariser struct {
	evs   [][]cev // per client
	final Snap    // nil: outcomes only
	memo  map[string]bool
	nodes int
	limit int
	best  int
	stuck string
	last  string
}

func (l *lineariser) run(init *lstate) (ok, decided bool) {
	l.memo = map[string]bool{}
	pos := make([]int, len(l.evs))
	ok = l.dfs(init, pos, 0)
	return ok, ok || l.nodes < l.limit
}

func (l *lineariser) dfs(s *lstate, pos []int, done int) bool {
	if l.nodes >= l.limit {
		return false
	}
	l.nodes++
	minResp := 1 << 60
	left := false
	for c := range l.evs {
		if pos[c] < len(l.evs[c]) {
			left = true
			if r := l.evs[c][pos[c]].resp; r < minResp {
				minResp = r
			}
		}
	}
	if !left {
		if l.final == nil {
			return true
		}
		d := s.m.compare(l.final, true, true)
		if d != "" && l.last == "" {
			l.last = d
		}
		return d == ""
	}
	key := fmt.Sprint(pos, s.key())
	if l.memo[key] {
		return false
	}
	l.memo[key] = true
	var order []int
	for c := range l.evs {
		if pos[c] < len(l.evs[c]) && l.evs[c][pos[c]].inv < minResp {
			order = append(order, c)
		}
	}
	sort.Slice(order, func(i, j int) bool { return l.evs[order[i]][pos[order[i]]].resp < l.evs[order[j]][pos[order[j]]].resp })
	if done > l.best {
		l.best = done
		var b []string
		for _, c := range order {
			b = append(b, l.evs[c][pos[c]].String())
		}
		l.stuck = strings.Join(b, "\n")
	}
	for _, c := range order {
		for _, t := range s.apply(&l.evs[c][pos[c]]) {
			pos[c]++
			ok := l.dfs(t, pos, done+1)
			pos[c]--
			if ok {
				return true
			}
		}
	}
	return false
}

// ---- schedules

// chooser is a seeded scheduling policy; its choices are recorded.
type chooser struct {
	r      *Rng
	w      *World
	policy int
	prio   map[int]uint64
	change map[int]bool
	k      int
	last   int
	given  []int
	fixed  bool // replay: beyond the recorded choices always the first
	made   []int
	target string // what the clients are about to do when they are interrupted
}

func (c *chooser) pick(cs []simrt.Choice) int {
	time.Sleep(time.Millisecond)
	var p int
	if c.k < len(c.given) {
		p = c.given[c.k] % len(cs)
	} else if c.fixed {
		p = 0
	} else {
		p = c.decide(cs)
	}
	c.k++
	c.made = append(c.made, p)
	c.last = cs[p].Tid
	return p
}

var targets = []string{"index change", "index change", "index change", "index", "write", "cachew", "cache", "closew", "openr", "lock"}

func (c *chooser) decide(cs []simrt.Choice) int {
	switch c.policy {
	case 0: // uniform
		return c.r.Intn(len(cs))
	case 1: // stay with one client for long stretches
		if !c.r.P(0.15) {
			for i, x := range cs {
				if x.Tid == c.last {
					return i
				}
			}
		}
		return c.r.Intn(len(cs))
	case 4: // change over where it matters
		if c.target == "" {
			c.target = c.r.Pick(targets)
		}
		for i, x := range cs {
			if x.Tid == c.last {
				p := 0.02
				if x.Label == c.target || c.target == "lock" && strings.Contains(x.Label, ":") {
					p = 0.4
				}
				if !c.r.P(p) {
					return i
				}
				break
			}
		}
		return c.r.Intn(len(cs))
	case 2: // priorities with a few random changes (PCT)
		if c.change[c.k] {
			c.prio[c.last] = uint64(c.k) // lowest so far among changed ones
		}
		best := 0
		for i, x := range cs {
			if _, ok := c.prio[x.Tid]; !ok {
				c.prio[x.Tid] = 1<<32 + c.r.U64()>>8
			}
			if c.prio[x.Tid] > c.prio[cs[best].Tid] {
				best = i
			}
		}
		return best
	}
	// always someone else
	var o []int
	for i, x := range cs {
		if x.Tid != c.last {
			o = append(o, i)
		}
	}
	if len(o) == 0 {
		return c.r.Intn(len(cs))
	}
	return o[c.r.Intn(len(o))]
}

func raceReport() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p := strings.TrimPrefix(f, "log_path="); p != f {
			b, err := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
			if err != nil {
				return ""
			}
			i := bytes.LastIndex(b, []byte("WARNING: DATA RACE"))
			if i < 0 {
				return ""
			}
			var out []string
			for _, l := range strings.Split(string(b[i:]), "\n") {
				t := strings.TrimSpace(l)
				if strings.HasPrefix(t, "Goroutine ") {
					break
				}
				if strings.Contains(t, " by goroutine") || strings.Contains(t, " by main") || strings.Contains(t, "stfs") && strings.HasSuffix(t, ")") {
					if k := strings.Index(t, " at 0x"); k > 0 {
						t = t[:k]
					}
					out = append(out, t)
				}
				if len(out) > 10 {
					break
				}
			}
			return strings.Join(out, "\n")
		}
	}
	return ""
}

func clearRaceLog() {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p := strings.TrimPrefix(f, "log_path="); p != f {
			_ = os.Truncate(fmt.Sprintf("%s.%d", p, os.Getpid()), 0)
		}
	}
}

// sequential runs part of a concurrent property's run as its only client.
func (w *World) sequential(f func()) {
	s := w.sched
	s.Explore = false
	var herr error
	s.Client(func() { herr = guard(w, f) })
	out := s.Drive(func([]simrt.Choice) int { return 0 }, 5_000_000)
	if herr != nil {
		panic(harnessErr{herr})
	}
	if w.viol != nil {
		panic(violPanic{w.viol})
	}
	if out.Deadlock {
		w.fail("hang", "every goroutine is blocked: %s", strings.Join(out.Waiting, ", "))
	}
	if out.Steps {
		panic(harnessErr{fmt.Errorf("step budget exhausted")})
	}
	if msg, stack, dead := s.Crashed(); dead {
		w.fail("crash", "%s\n%s", msg, trimStack(stack))
	}
}

// concTree lets clients change whole directories while others look at what is
// in them: nobody may see half of such a change.
func concTree(r *Rng, cs *Case, g *Gen, th bool) *Case {
	var names []string
	for _, p := range []string{"/d", "/d/x", "/d/y", "/d/z", "/d/y/u", "/d/y/v"} {
		if p != "/d" && p != "/d/x" && r.P(0.3) || g.m.get(path.Dir(p)) == nil || !g.m.get(path.Dir(p)).Dir || g.m.get(p) != nil {
			continue
		}
		op := Op{K: "mkdir", P: p, M: 0o755}
		if path.Dir(p) != "/" && p != "/d/y" && r.P(0.6) {
			op = Op{K: "sess", Q: "Create", P: p, Calls: []HCall{{C: "write", D: g.data()}}}
		}
		g.apply(&op)
		cs.Ops = append(cs.Ops, op)
	}
	for _, d := range []string{"/d", "/e"} {
		names = append(names, d, d, d+"/x", d+"/y", d+"/z", d+"/y/u", d+"/y/v")
	}
	other := r.Pick([]string{"/e", "/e", "/e", "/d/y/w", "/d2"})
	change := func(k int) Op {
		switch r.Weighted([]int{8, 4, 3, 2, 2, 1}) {
		case 0:
			if k%2 == 1 {
				return Op{K: "rename", P: other, Q: "/d"}
			}
			return Op{K: "rename", P: "/d", Q: other}
		case 1:
			return Op{K: "removeall", P: r.Pick([]string{"/d", "/d", "/d/y", "/e"})}
		case 2:
			return Op{K: "mkdirall", P: r.Pick([]string{"/d/y/w", "/e/y/u", "/d/q/r/s"}), M: 0o755}
		case 3:
			return Op{K: "sess", Q: "Create", P: r.Pick([]string{"/d/x", "/d/w", "/e/x"}), Calls: []HCall{{C: "write", D: g.data()}}}
		case 4:
			return Op{K: "rename", P: r.Pick(names), Q: r.Pick(names)}
		}
		return Op{K: "chmod", P: r.Pick(names), M: uint32(r.PickInt([]int{0o700, 0o644, 0o755}))}
	}
	look := func() Op {
		p := r.Pick(names)
		switch r.Weighted([]int{7, 6, 2}) {
		case 0:
			return Op{K: "stat", P: p}
		case 1:
			return Op{K: "sess", Q: "Open", P: r.Pick([]string{"/d", "/e", "/", "/d/y", "/e/y"}), Calls: []HCall{{C: "readdir", N: -1}}}
		}
		return Op{K: "sess", Q: "Open", P: p, Calls: []HCall{{C: "read", N: 4096}}}
	}
	nw, nl := r.Range(1, 2), r.Range(1, 3)
	for c := 0; c < nw+nl; c++ {
		var prog []Op
		if c < nw {
			for k := 0; k < r.Range(1, 3); k++ {
				prog = append(prog, change(k))
			}
		} else {
			for k := r.Range(0, 4); k > 0; k-- {
				prog = append(prog, look())
			}
			if r.P(0.6) { // what of it is here, what is there?
				for k := 1 + r.Intn(2); k > 0; k-- {
					var in []string
					for _, p := range g.m.paths() {
						if p == "/d" || below(p, "/d") {
							in = append(in, p[2:])
						}
					}
					if len(in) == 0 {
						break
					}
					a, b := r.Intn(len(in)), r.Intn(len(in))
					if a > b && r.P(0.8) {
						a, b = b, a
					}
					prog = append(prog, Op{K: "stat", P: other + in[a]}, Op{K: "stat", P: "/d" + in[b]})
					if r.P(0.5) {
						prog = append(prog, Op{K: "stat", P: "/d" + in[a]}, Op{K: "stat", P: "/d" + in[b]})
					}
				}
			}
		}
		cs.Progs = append(cs.Progs, prog)
	}
	cs.X["policy"] = int64(r.Weighted([]int{3, 3, 3, 2, 5}))
	if r.P(0.5) {
		cs.X["wfirst"] = 1
	}
	return cs
}

func concGen(r *Rng, i int, th bool) *Case {
	cs := &Case{Cfg: genCfg(r), X: map[string]int64{}}
	if r.P(0.5) {
		cs.Cfg.Comp, cs.Cfg.Enc, cs.Cfg.Sig = "", "", ""
	}
	g := newGen(r, cs.Cfg, GenOpt{MaxDepth: 2, Small: true, W: mergeW(defaultW, map[string]int{"readfile": 0, "list": 0, "stat": 0})})
	g.comps = []string{"a", "b", "d", "s"}[:r.Range(2, 4)]
	cs.Ops = g.ops(r.Range(1, 6))
	// handles that several clients share
	nsh := 0
	if r.P(0.3) {
		for k := r.Range(1, 2); k > 0; k-- {
			if f := g.files(); len(f) > 0 {
				cs.Ops = append(cs.Ops, Op{K: "shopen", P: r.Pick(f), F: r.PickInt([]int{os.O_RDWR, os.O_RDWR, os.O_RDONLY, os.O_RDWR | os.O_APPEND})})
				nsh++
			}
		}
	}
	if r.P(0.25) {
		return concTree(r, cs, g, th)
	}
	nc := r.PickInt([]int{2, 2, 2, 3, 3, 4, 5, 6, 8})
	per := 16 / nc
	if th {
		per = 24 / nc
	}
	if per > 5 {
		per = 5
	}
	opt := g.opt
	opt.W = map[string]int{"new": 10, "sess": 8, "append": 4, "rewrite": 3, "trunc": 2, "read": 9, "mkdir": 6, "mkdirall": 3, "remove": 6, "removeall": 3, "rename": 8, "chmod": 4, "chown": 3, "chtimes": 3, "stat": 5, "dir": 7, "name": 1}
	for c := 0; c < nc; c++ {
		cg := &Gen{r: r, cfg: cs.Cfg, m: g.m.Clone(), opt: opt, comps: append([]string(nil), g.comps...), used: append([]string(nil), g.used...)}
		if r.P(0.3) {
			cg.comps = append(cg.comps, fmt.Sprintf("c%d", c)) // names of its own
		}
		var prog []Op
		for k := r.Range(1, per); k > 0; k-- {
			if nsh > 0 && r.P(0.35) {
				op := Op{K: "shared", N: int64(r.Intn(nsh))}
				tmp := Op{F: os.O_RDWR}
				cg.calls(&tmp, r.Range(1, 2))
				op.Calls = tmp.Calls
				if r.P(0.2) {
					op.Calls = append(op.Calls, HCall{C: "sync"})
				}
				if r.P(0.2) {
					op.Calls = append(op.Calls, HCall{C: "name"}, HCall{C: "stat"})
				}
				prog = append(prog, op)
				continue
			}
			ks, ws := cg.kinds()
			kind := ks[r.Weighted(ws)]
			var op Op
			switch kind {
			case "read":
				op = Op{K: "sess", Q: "Open", P: cg.file(), Calls: []HCall{{C: "read", N: int64(r.PickInt([]int{1, 7, 700, 4096}))}}}
				if r.P(0.4) {
					op.Calls = append(op.Calls, HCall{C: "read", N: 4096})
				}
			case "dir":
				op = Op{K: "sess", Q: "Open", P: r.Pick(append(cg.dirs(), "/")), Calls: []HCall{{C: "readdir", N: int64(r.PickInt([]int{-1, -1, -1, 0, 1, 2}))}}}
				if r.P(0.3) {
					op.Calls = append(op.Calls, HCall{C: "readdir", N: -1})
				}
			case "name":
				op = Op{K: "name"}
			default:
				op = cg.make(kind)
			}
			if op.K != "name" {
				cg.apply(&op)
			}
			prog = append(prog, op)
		}
		cs.Progs = append(cs.Progs, prog)
	}
	cs.X["policy"] = int64(r.Weighted([]int{3, 3, 3, 2, 5}))
	if r.P(0.5) {
		cs.X["wfirst"] = 1
	}
	return cs
}

func init() {
	register(&propDef{
		id: "C11", level: "exploration", quick: 1600, concurrent: true,
		rule: "2 to 8 seeded client programs over shared and private names (sessions on files and directories, handles used by several clients at once, tree and attribute changes) run under a seeded scheduler that decides who continues at every lock, goroutine start, call boundary and drive, index or cache access, in a race-detector build. Every call must return, no data race may be reported, the recorded outcomes and the final tree must be those of a sequential order that respects real time (search against the reference filesystem), and the final tree must equal a rebuild from the tape.",
		assume: []string{
			"a handle's content is that of some moment between opening it and first using it; writes become visible when the handle is synced or closed",
			"what a handle does whose name was removed, renamed or replaced by another client after opening is left open (it must return, without a race or crash, and without an effect on unrelated names)",
			"histories whose search for an order exceeds its node limit are counted as undecided, not as violations",
		},
		stub: []string{"sync.Mutex and sync.RWMutex of the stfs packages (scheduler-aware, with the same happens-before edges for the race detector)"},
		gen: func(r *Rng, i int, th bool) *Case {
			cs := concGen(r, i, th)
			onTape(r, cs)
			return cs
		},
		exec: concExec,
	})
}

func concExec(w *World, cs *Case) {
	w.cfgClass(cs.Cfg)
	w.explore = true // seams yield instead of injecting
	s := w.sched
	var r *Runner
	var shared []sharedHandle
	init := &lstate{hs: map[int]*lhandle{}}
	w.sequential(func() {
		r = w.start(cs.Cfg)
		for i := range cs.Ops {
			op := &cs.Ops[i]
			if op.K == "shopen" {
				w.opLabel = op.String()
				t0 := time.Now()
				f, err := r.y.openOp(op)
				shared = append(shared, sharedHandle{op: op})
				if x := r.m.get(op.P); err == nil && x != nil && !x.Dir {
					shared[len(shared)-1].f = f
					acc := op.F & accMask
					init.hs[len(shared)-1] = &lhandle{path: clean(op.P), t0: t0, r: acc != os.O_WRONLY || r.m.wrp, w: acc != os.O_RDONLY, app: op.F&os.O_APPEND != 0, vers: [][]byte{x.Data}}
				}
				continue
			}
			_ = r.do(op)
		}
	})
	if r.desync { // the setup already left the reference: another property's matter
		return
	}
	y := r.y
	init.m = r.m
	for _, p := range r.m.paths() {
		r.m.next++
		r.m.N[p].ID = r.m.next
	}
	r.m.N["/"].ID = rootID
	for _, h := range init.hs {
		h.id = r.m.get(h.path).ID
	}

	// the concurrent phase
	races := simrt.RaceErrors()
	clearRaceLog()
	s.Explore = true
	s.WriterFirst = cs.x("wfirst", 0) == 1
	s.Steps = 0
	ch := &chooser{r: NewRng(cs.Seed ^ 0x5c4ed), w: w, policy: int(cs.x("policy", 0)), prio: map[int]uint64{}, change: map[int]bool{}, given: cs.Sched, fixed: cs.Sched != nil || cs.x("fixed", 0) == 1}
	for k := 0; k < 4; k++ {
		ch.change[ch.r.Intn(120)] = true
	}
	evs := make([][]cev, len(cs.Progs))
	cnt := make([]int, len(cs.Progs))
	for c := range cs.Progs {
		evs[c] = make([]cev, evCount(cs.Progs[c]))
		c := c
		s.Client(func() { cnt[c] = runClient(y, c, cs.Progs[c], shared, evs[c]) })
	}
	w.opLabel = fmt.Sprintf("%d clients", len(cs.Progs))
	out := s.Drive(ch.pick, 2_000_000)
	s.Explore = false
	cs.Sched = ch.made
	if cs.Sched == nil {
		cs.Sched = []int{}
	}
	w.pin = func(c *Case) {
		c.Sched = cs.Sched
		if c.X == nil {
			c.X = map[string]int64{}
		}
		c.X["fixed"] = 1
	}
	w.add("schedule_choices", int64(len(ch.made)))
	w.add("scheduler_steps", int64(s.Steps))
	w.count(fmt.Sprintf("clients:%d", len(cs.Progs)))
	var all []*cev
	for c := range evs {
		n := 0
		for n < len(evs[c]) && evs[c][n].inv > 0 {
			all = append(all, &evs[c][n])
			n++
		}
		evs[c] = evs[c][:n]
	}
	sort.Slice(all, func(i, j int) bool { return all[i].inv < all[j].inv })
	hist := func() string {
		var b []string
		for _, e := range all {
			b = append(b, e.String())
		}
		if len(b) > 60 {
			b = b[:60]
		}
		return strings.Join(b, "\n")
	}
	base := 0
	if len(all) > 0 {
		base = all[0].inv - 1
	}
	for _, e := range all {
		e.inv -= base
		if e.resp > 0 {
			e.resp -= base
		}
		x := *e
		x.msg = "" // may name scratch files
		w.logf("%s", &x)
		if w.logSink != nil && e.err {
			w.logSink("   " + e.msg)
		}
		k := e.op.K
		if e.call.C != "" {
			k = e.call.C
		}
		w.class("%s:%v", k, !e.err)
	}
	for i, e := range all {
		for _, f := range all[i+1:] {
			if f.client != e.client && f.inv < e.resp {
				w.class("overlap %s/%s", kindOf(e), kindOf(f))
				w.count("overlapping_calls")
			}
		}
	}
	w.state(fmt.Sprint(cs.JSON()))
	if msg, stack, dead := s.Crashed(); dead {
		w.fail("crash", "%s\n%s\n%s", msg, trimStack(stack), hist())
	}
	if out.Deadlock {
		w.fail("hang", "every client is blocked: %s\n%s", strings.Join(out.Waiting, ", "), hist())
	}
	if out.Steps {
		w.fail("hang", "the clients make no progress within %d scheduler steps\n%s", s.Steps, hist())
	}
	if n := simrt.RaceErrors() - races; n > 0 {
		w.fail("race", "%s", raceReport())
	}

	// the end state
	var snap Snap
	w.sequential(func() {
		snap = w.snap(y, "filesystem after the clients")
		w.noteState(snap)
		b, err := w.rebuilt(cs.Cfg, y, nil)
		if err != nil {
			w.fail("rebuild", "the index cannot be rebuilt from the tape: %v\n%s", err, hist())
		}
		bs, err := w.walk(b, true)
		if err != nil {
			w.fail("rebuild", "the rebuilt tree cannot be walked: %v\n%s", err, hist())
		}
		if d := snap.diff(bs, "the running instance", "the rebuild"); d != "" {
			w.fail("rebuild", "%s\n%s", d, hist())
		}
	})
	lin := &lineariser{evs: evs, final: snap, limit: 60000}
	ok, decided := lin.run(init)
	w.add("order_search_nodes", int64(lin.nodes))
	if ok {
		w.count("linearised")
		return
	}
	if !decided {
		w.count("undecided")
		return
	}
	only := &lineariser{evs: evs, limit: 60000}
	if ok, _ := only.run(init); ok {
		w.fail("final", "no sequential order of the calls explains the final tree; the order closest to real time leaves: %s\n%s", lin.last, hist())
	}
	w.fail("order", "no sequential order of the calls explains their outcomes; after %d of %d calls none of these fits:\n%s\nhistory:\n%s", only.best, len(all), only.stuck, hist())
}

func kindOf(e *cev) string {
	if e.call.C != "" {
		return e.call.C
	}
	return e.op.K
}
