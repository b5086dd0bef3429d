package main

import (
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
)

var (
	compKeys  = config.KnownCompressionFormats
	levelKeys = config.KnownCompressionLevels
	encKeysL  = config.KnownEncryptionFormats
	sigKeysL  = config.KnownSignatureFormats
	rsList    = []int{1, 2, 3, 7, 20, 64}
)

// genCfg draws a pipeline configuration; plain pipelines are drawn often
// enough to make long histories cheap.
func genCfg(r *Rng) Cfg {
	c := Cfg{Level: r.Pick(levelKeys), RS: r.PickInt(rsList), WC: config.WriteCacheTypeMemory, Keys: r.Intn(3)}
	if r.P(0.3) {
		c.WC = config.WriteCacheTypeFile
	}
	if r.P(0.12) {
		c.RS = r.PickInt([]int{4, 5, 8, 11, 33, 128, 1000})
	}
	if r.P(0.55) {
		c.Comp = r.Pick(compKeys)
	}
	if r.P(0.35) {
		c.Enc = r.Pick(encKeysL)
	}
	if r.P(0.35) {
		c.Sig = r.Pick(sigKeysL)
	}
	q := *r // later choices stay what they are
	c.WRP = q.P(0.12)
	return c
}

// onTape puts some histories onto a magnetic tape.
func onTape(r *Rng, cs *Case) {
	q := *r
	q.s ^= 0x7461706564726976
	if q.P(tapeShare) && tapeSupports(cs.Cfg) {
		cs.Cfg.Tape = true
	}
}

const (
	tapeShare = 0.12
	wideShare = 0.03
)

// Gen writes histories. It keeps its own reference model so that most calls
// hit something that exists.
type Gen struct {
	r     *Rng
	cfg   Cfg
	m     *Model
	comps []string
	used  []string
	opt   GenOpt
	t     time.Time
}

// GenOpt tunes a history.
type GenOpt struct {
	N        int
	MaxDepth int
	W        map[string]int
	Big      bool
	Links    bool
	Spell    bool // use equivalent spellings
	MaxFiles int
	Small    bool // tiny contents only
	LongName bool
	Nest     bool // other calls while a file is open
	links    []string
}

var specialComps = []string{"a", "ab", "a_", "a%", "_", "%", "b", "aa", "A", "x.y", ".hid", "s p", "ünï", "日本", "a'b", "a\"q", "...", "a.", "a-b", "[x]", "a*", "café", "a b", "abc", "a_b", "axb", "%a", "a\\b", "é", "Ab", "\xe9", "a\xff", "caf\xe9"}

// twinComp is a different name which is easily mistaken for the given one.
func twinComp(r *Rng, b string) string {
	switch r.Intn(13) {
	case 11: // names don't have to be valid UTF-8
		return strings.NewReplacer("é", "\xe9", "ü", "\xfc").Replace(b) + r.Pick([]string{"\xe9", "\xff", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\x80"})
	case 0:
		return b + " "
	case 1:
		return " " + b
	case 2:
		return b + "."
	case 3:
		return b + r.Pick([]string{"\t", "\n", "\r", "\v"})
	case 4:
		return r.Pick([]string{"\t", "\n"}) + b
	case 5:
		return strings.ToUpper(b) + r.Pick([]string{"", "x"})
	case 6:
		return strings.NewReplacer("é", "e\u0301", "ü", "u\u0308", "ï", "i\u0308", "ö", "o\u0308").Replace(b) + r.Pick([]string{"", "\u200b", "\u00a0"})
	case 7:
		return b + r.Pick([]string{"%20", "~", "*", "?", "\\", ";", "#", "&", ":", "\u0001", "\x7f"})
	case 8:
		return strings.ReplaceAll(b, " ", "  ") + b
	case 9:
		return b + b
	case 10:
		return strings.ReplaceAll(strings.ReplaceAll(b, "_", "x"), "%", "xy")
	default:
		return b + r.Pick([]string{"'", "\"", "`", "''", "--", "\\0", "$", "<", "{}", "\ufffd", "🂡"})
	}
}

// compUniverse draws the few components a history uses.
func compUniverse(r *Rng, cfg Cfg, n int, long bool) []string {
	var out []string
	add := func(s string) {
		for _, o := range out {
			if o == s {
				return
			}
		}
		out = append(out, s)
	}
	for len(out) < n {
		switch r.Weighted([]int{12, 2, 2, 1, 3}) {
		case 0:
			add(r.Pick(specialComps))
		case 1: // names that look like what the pipeline appends
			base := r.Pick([]string{"a", "f", "ab", ""})
			add(base + r.Pick([]string{".gz", ".lz4", ".zst", ".br", ".bz2", ".age", ".pgp", ".gz.age", ".zst.pgp"}))
		case 2:
			// families related by prefix and wildcard
			b := r.Pick([]string{"a", "d", "x", "é"})
			for _, s := range []string{b, b + "b", b + "_", b + "%"} {
				add(s)
			}
		case 3:
			if q := *r; long && q.P(0.2) {
				add(strings.Repeat("n", q.Range(200, 254)) + q.Pick([]string{"", "x"}))
			} else if long {
				add(strings.Repeat(r.Pick([]string{"l", "ö", "n_"}), r.Range(34, 66)) + r.Pick([]string{"", "x", "%"}))
			}
		case 4:
			// a name which something that normalises names would take for another one
			b := r.Pick(specialComps)
			if len(out) > 0 {
				b = r.Pick(out)
			}
			add(b)
			add(twinComp(r, b))
		}
	}
	return out
}

func newGen(r *Rng, cfg Cfg, opt GenOpt) *Gen {
	g := &Gen{r: r, cfg: cfg, m: NewModel(), opt: opt}
	g.m.N["/"] = &Node{Dir: true}
	g.comps = compUniverse(r, cfg, r.Range(4, 9), opt.LongName)
	return g
}

func (g *Gen) existing(f func(n *Node) bool) []string {
	var out []string
	for _, p := range g.m.paths() {
		if p != "/" && f(g.m.N[p]) {
			out = append(out, p)
		}
	}
	return out
}

func (g *Gen) dirs() []string {
	return append([]string{"/"}, g.existing(func(n *Node) bool { return n.Dir })...)
}
func (g *Gen) files() []string { return g.existing(func(n *Node) bool { return !n.Dir }) }

func depth(p string) int {
	if p == "/" {
		return 0
	}
	return strings.Count(p, "/")
}

func (g *Gen) fresh() string {
	d := g.r.Pick(g.dirs())
	for depth(d) >= g.opt.MaxDepth {
		d = path.Dir(d)
	}
	return path.Join(d, g.r.Pick(g.comps))
}

// target draws a path of any sort.
func (g *Gen) target() string {
	r := g.r
	switch r.Weighted([]int{50, 14, 24, 5, 5, 16}) {
	case 5: // stay with what the last calls were about
		if k := len(g.used); k > 0 {
			return g.used[k-1-r.Intn(min(k, 3))]
		}
	case 0:
		if e := g.existing(func(*Node) bool { return true }); len(e) > 0 {
			return r.Pick(e)
		}
	case 1:
		if len(g.used) > 0 {
			return r.Pick(g.used)
		}
	case 3:
		return path.Join(g.fresh(), r.Pick(g.comps), r.Pick(g.comps))
	case 4:
		if f := g.files(); len(f) > 0 {
			return path.Join(r.Pick(f), r.Pick(g.comps))
		}
	}
	return g.fresh()
}

func (g *Gen) file() string {
	if f := g.files(); len(f) > 0 && g.r.P(0.85) {
		return g.r.Pick(f)
	}
	return g.target()
}

func (g *Gen) dir() string {
	d := g.dirs()
	if len(d) > 1 && g.r.P(0.85) {
		return g.r.Pick(d[1:])
	}
	return g.target()
}

func (g *Gen) data() *Data {
	var n int
	switch {
	case g.opt.Small:
		n = g.r.PickInt([]int{0, 1, 2, 3, 7, 20, 60, 300, 511, 512, 513, 700})
	default:
		n = sizeClass(g.r, g.cfg.RS, g.opt.Big)
	}
	d := genData(g.r, n)
	return &d
}

func (g *Gen) mode() uint32 {
	m := uint32(g.r.PickInt([]int{0o644, 0o600, 0o755, 0o777, 0, 0o400, 0o123}))
	if g.r.P(0.1) {
		m = uint32(g.r.Intn(0o1000))
	}
	return m
}

// createMode is the mode of something new: the reference implementations agree
// on special bits of files and on the sticky bit of directories.
func (g *Gen) createMode(dir bool) uint32 {
	m := os.FileMode(g.mode())
	if g.r.P(0.1) {
		m |= os.ModeSticky
		if !dir && g.r.P(0.6) {
			m |= []os.FileMode{os.ModeSetuid, os.ModeSetgid}[g.r.Intn(2)]
		}
	}
	return uint32(m)
}

func (g *Gen) chmodMode() uint32 {
	m := os.FileMode(g.mode())
	if g.r.P(0.15) {
		m |= []os.FileMode{os.ModeSetuid, os.ModeSetgid, os.ModeSticky}[g.r.Intn(3)]
	}
	return uint32(m)
}

func (g *Gen) when() int64 {
	s := int64(g.r.Range(40_000_000, 2_000_000_000)) * 1e9
	if q := *g.r; q.P(0.12) { // before the epoch, past what the fields of ustar hold, around zero
		s = []int64{-int64(q.Range(1, 2_000_000_000)), int64(q.Range(8_589_934_592-5, 8_589_934_592+5)), 9_000_000_000, int64(q.Range(-1, 1)), int64(q.Range(2_147_483_640, 4_294_967_300))}[q.Intn(5)] * 1e9
	}
	if g.r.P(0.7) {
		s += int64(g.r.Intn(1_000_000_000))
	}
	return s
}

func (g *Gen) spell(p string) string {
	if !g.opt.Spell || p == "/" || !g.r.P(0.25) {
		return p
	}
	if q := *g.r; q.P(0.4) {
		switch q.Intn(3) {
		case 0:
			return path.Dir(p) + "//" + path.Base(p)
		case 1:
			return path.Dir(p) + "/x/../" + path.Base(p)
		default:
			if n := g.m.get(p); n != nil && n.Dir {
				return p + "/"
			}
		}
	}
	switch g.r.Intn(4) {
	case 0:
		return strings.TrimPrefix(p, "/")
	case 1:
		return "." + p
	case 2:
		return "/" + p
	default:
		return path.Dir(p) + "/./" + path.Base(p)
	}
}

var defaultW = map[string]int{
	"new": 14, "sess": 10, "append": 3, "rewrite": 5, "trunc": 2, "flags": 4, "readfile": 3,
	"mkdir": 9, "mkdirall": 4, "remove": 6, "removeall": 3, "rename": 9,
	"chmod": 4, "chown": 4, "chtimes": 4, "stat": 2, "list": 2,
}

func (g *Gen) kinds() ([]string, []int) {
	w := g.opt.W
	if w == nil {
		w = defaultW
	}
	var ks []string
	for k := range w {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var ws []int
	for _, k := range ks {
		ws = append(ws, w[k])
	}
	return ks, ws
}

// next writes one op and applies it to the generator's model.
func (g *Gen) next() Op {
	ks, ws := g.kinds()
	op := g.make(ks[g.r.Weighted(ws)])
	g.apply(&op)
	return op
}

func (g *Gen) apply(op *Op) {
	if op.K == "sess" {
		g.m.session(op)
	} else {
		c := *op
		g.m.apply(&c, span{}, true)
	}
	for _, p := range []string{op.P, op.Q} {
		if strings.Contains(p, "/") && op.K != "sess" || op.K == "sess" && p == op.P {
			g.used = append(g.used, clean(p))
			if len(g.used) > 12 {
				g.used = g.used[1:]
			}
		}
	}
}

func (g *Gen) ops(n int) []Op {
	var out []Op
	for i := 0; i < n; i++ {
		out = append(out, g.next())
	}
	return out
}

// wide makes a few histories around one directory with lots of entries, most
// of them from one call.
func (g *Gen) wide(ops []Op, share float64) []Op {
	q := *g.r
	q.s ^= 0x77696465
	if !q.P(share) {
		return ops
	}
	*g = *newGen(&q, g.cfg, g.opt)
	g.opt.Small = true
	ops = g.ops(q.Range(0, 3))
	d := g.fresh()
	for i := 0; g.m.get(d) != nil && i < 20; i++ {
		d = g.fresh()
	}
	if g.m.get(d) != nil || !g.m.parentOK(d) {
		return ops
	}
	do := func(op Op) {
		g.apply(&op)
		ops = append(ops, op)
	}
	do(Op{K: "mkdir", P: d, M: 0o755})
	n := q.PickInt([]int{40, 101, 130, 257, 300})
	ar := Op{K: "archive"}
	for i := 0; i < n; i++ {
		mem := Member{Name: path.Join(d, fmt.Sprintf(q.Pick([]string{"w%d", "%d", "f%03d", "%03d_%%"}), i)), Mode: g.mode(), D: genData(&q, q.PickInt([]int{0, 1, 1, 2, 20, 600})), MT: g.when(), Dir: q.P(0.1)}
		if mem.Dir {
			mem.D = Data{}
		}
		ar.Mem = append(ar.Mem, mem)
	}
	do(ar)
	for i := q.Range(1, 4); i > 0; i-- {
		switch q.Intn(5) {
		case 0:
			do(Op{K: "removeall", P: d})
		case 1, 2:
			if e := g.fresh(); g.m.get(e) == nil && g.m.parentOK(e) && !below(e, d) && g.m.get(d) != nil {
				do(Op{K: "rename", P: d, Q: e})
				d = e
			}
		default:
			ops = append(ops, g.next())
		}
	}
	return ops
}

func (g *Gen) parentsOf(p string) []Op {
	var out []Op
	d := path.Dir(clean(p))
	if g.m.get(d) == nil {
		op := Op{K: "mkdirall", P: d, M: 0o755}
		g.apply(&op)
		out = append(out, op)
	}
	return out
}

func (g *Gen) make(k string) Op {
	r := g.r
	op := Op{K: k}
	switch k {
	case "new":
		op.K, op.Q, op.P = "sess", "Create", g.fresh()
		if r.P(0.2) {
			op.P = g.target()
		}
		if r.P(0.3) {
			op.Q, op.F, op.M = "", os.O_RDWR|os.O_CREATE, g.createMode(false)
			if r.P(0.5) {
				op.F |= os.O_TRUNC
			}
			if r.P(0.3) {
				op.F |= os.O_EXCL
			}
		}
		for i := r.PickInt([]int{0, 1, 1, 1, 2, 3}); i > 0; i-- {
			op.Calls = append(op.Calls, HCall{C: r.Pick([]string{"write", "write", "writestring"}), D: g.data()})
		}
	case "sess":
		op.P = g.file()
		op.F = g.fileFlags()
		op.M = g.mode()
		g.calls(&op, r.Range(1, 5))
	case "flags":
		op.K, op.P = "sess", g.target()
		op.F, op.M = g.anyFlags(), g.createMode(false)
		g.calls(&op, r.Range(0, 2))
	case "append":
		op.K, op.P, op.F = "sess", g.file(), os.O_WRONLY|os.O_APPEND
		for i := r.Range(1, 2); i > 0; i-- {
			op.Calls = append(op.Calls, HCall{C: "write", D: g.data()})
		}
	case "rewrite":
		op.K, op.P, op.F = "sess", g.file(), os.O_RDWR
		op.Calls = append(op.Calls, HCall{C: "writeat", D: g.data(), O: int64(r.Intn(1500))})
		if r.P(0.3) {
			op.Calls = append(op.Calls, HCall{C: "sync"}, HCall{C: "write", D: g.data()})
		}
	case "trunc":
		op.K, op.P, op.F = "sess", g.file(), os.O_WRONLY
		if r.P(0.5) {
			op.F |= os.O_TRUNC
			if r.P(0.5) {
				op.Calls = append(op.Calls, HCall{C: "write", D: g.data()})
			}
		} else {
			op.Calls = append(op.Calls, HCall{C: "truncate", N: int64(r.PickInt([]int{0, 1, 10, 512, 600, 3000}))})
		}
	case "readfile":
		op.P = g.file()
	case "mkdir", "mkdirall":
		op.P, op.M = g.fresh(), uint32(r.PickInt([]int{0o755, 0o777, 0o700}))
		if r.P(0.2) {
			op.M = g.createMode(true)
		}
		if r.P(0.2) {
			op.P = g.target()
		}
		if k == "mkdirall" && r.P(0.7) {
			op.P = path.Join(op.P, r.Pick(g.comps))
			if r.P(0.5) {
				op.P = path.Join(op.P, r.Pick(g.comps))
			}
			if q := *r; q.P(0.03) { // a long way down
				for i := q.Range(5, 40); i > 0; i-- {
					op.P = path.Join(op.P, q.Pick(g.comps))
				}
			}
		}
	case "remove":
		op.P = g.target()
		if r.P(0.5) {
			op.P = g.file()
		}
	case "removeall":
		op.P = g.dir()
	case "delete":
		op.P = g.target()
	case "rename", "move":
		op.P = g.target()
		if r.P(0.5) {
			op.P = g.dir()
		}
		if k == "move" { // the archive interface expects the caller to have checked
			if e := g.existing(func(*Node) bool { return true }); len(e) > 0 {
				op.P = r.Pick(e)
			}
		}
		for i := 0; i < 6; i++ {
			switch r.Weighted([]int{12, 6, 2, 2, 5}) {
			case 4: // somewhere in a directory whose name starts in the same way
				op.Q = g.fresh()
				for _, d := range g.dirs() {
					if d != op.P && strings.HasPrefix(d, op.P) && !below(d, op.P) {
						op.Q = path.Join(d, r.Pick(g.comps))
					}
				}
			case 0:
				op.Q = g.fresh()
			case 1:
				op.Q = g.target()
			case 2:
				op.Q = op.P
			case 3:
				op.Q = path.Join(op.P, r.Pick(g.comps))
			}
			if k == "rename" || (g.m.get(op.Q) == nil && g.m.parentOK(op.Q) && !below(op.Q, op.P) && op.Q != op.P && g.m.get(op.P) != nil) {
				break
			}
			op.Q = ""
		}
		if op.Q == "" || op.P == "/" {
			return g.make("mkdir")
		}
	case "chmod":
		op.P, op.M = g.target(), g.chmodMode()
	case "chown":
		op.P = g.target()
		op.U, op.G = r.PickInt([]int{0, 1, 1000, 65534, 70000, 3000000, 2097151, 2147483647}), r.PickInt([]int{0, 5, 1000, 65534, 2200000, 2097152, 2147483647})
	case "chtimes":
		op.P, op.T1, op.T2 = g.target(), g.when(), g.when()
	case "stat", "readlink", "lstat":
		op.P = g.target()
	case "list":
		op.P, op.N = g.dir(), int64(r.PickInt([]int{-1, 0, 1, 2, 3, 10}))
	case "restore":
		op.P = g.target()
	case "archive":
		n := r.Range(1, 5)
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			p := g.fresh()
			if g.m.get(p) != nil || seen[p] {
				continue
			}
			bad := false
			for q := range seen {
				if below(p, q) {
					bad = true
				}
			}
			if bad {
				continue
			}
			seen[p] = true
			mem := Member{Name: p, Mode: g.mode(), D: *g.data(), MT: g.when(), Dir: r.P(0.15)}
			if mem.Dir {
				mem.D = Data{}
			}
			op.Mem = append(op.Mem, mem)
		}
		if len(op.Mem) == 0 {
			return g.make("mkdir")
		}
	case "overwrite": // the new archive has a root of its own
		g.m = NewModel()
		g.m.N["/"] = &Node{Dir: true, Mode: os.ModePerm}
		op = g.make("archive")
		mem := Member{Name: "/", Mode: 0o755, MT: g.when(), Dir: true}
		if op.K != "archive" {
			op = Op{K: "archive", P: "/"}
		}
		op.K, op.Mem = "overwrite", append([]Member{mem}, op.Mem...)
	case "update":
		op.Rep = r.P(0.6)
		seen := map[string]bool{}
		for i := r.Range(1, 3); i > 0; i-- {
			f := g.files()
			if len(f) == 0 {
				return g.make("new")
			}
			p := r.Pick(f)
			if seen[p] {
				continue
			}
			seen[p] = true
			mem := Member{Name: p, Mode: g.mode(), D: *g.data(), MT: g.when()}
			if !op.Rep { // a metadata update keeps the content: say its size
				mem.D.N = len(g.m.get(p).Data)
				mem.D.Kind = "zero"
			} else if mem.D.N == 0 {
				mem.D = Data{N: 1, Kind: "zero"}
			}
			op.Mem = append(op.Mem, mem)
		}
	case "symlink":
		op.P = g.target()
		op.Q = g.fresh()
	case "sleep":
		op.N = int64(r.Range(1, 100000)) * int64(time.Millisecond)
	}
	if op.P == "" {
		op.P = "/"
	}
	// the reference implementations disagree on (or refuse to define) these
	if op.P == "/" {
		switch op.K {
		case "remove", "removeall", "rename", "delete", "move", "chmod", "chown", "chtimes", "mkdir", "sess", "symlink":
			return g.make("mkdir2")
		}
	}
	if g.opt.Spell {
		op.P = g.spell(op.P)
		if q := *r; (op.K == "mkdir" || op.K == "mkdirall") && q.P(0.06) {
			op.P += "/"
		}
		if op.Q != "" && op.K != "sess" {
			op.Q = g.spell(op.Q)
		}
	}
	if op.K == "mkdir2" {
		op.K, op.P, op.M = "mkdir", g.fresh(), 0o755
	}
	return op
}

func (g *Gen) fileFlags() int {
	f := []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_RDWR}[g.r.Intn(4)]
	if g.r.P(0.25) {
		f |= os.O_APPEND
	}
	if f&accMask != os.O_RDONLY && g.r.P(0.2) {
		f |= os.O_TRUNC
	}
	if g.r.P(0.3) {
		f |= os.O_CREATE
	}
	return f
}

// anyFlags draws any flag combination whose meaning POSIX defines.
func (g *Gen) anyFlags() int {
	f := g.fileFlags()
	if g.r.P(0.3) {
		f |= os.O_CREATE
	}
	if f&os.O_CREATE != 0 && g.r.P(0.4) {
		f |= os.O_EXCL
	}
	if g.r.P(0.15) {
		f |= os.O_SYNC
	}
	return f
}

// calls writes n handle calls.
func (g *Gen) calls(op *Op, n int) {
	r := g.r
	size := int64(0)
	if nd := g.m.get(op.P); nd != nil {
		size = int64(len(nd.Data))
	}
	app := op.F&os.O_APPEND != 0
	for i := 0; i < n; i++ {
		if g.opt.Nest && op.K == "sess" && r.P(0.12) {
			if s := g.besides(op); s != nil {
				op.Calls = append(op.Calls, HCall{C: "op", S: s})
			}
		}
		op.Calls = append(op.Calls, genCall(r, g, &size, app))
	}
	if g.opt.Nest && op.K == "sess" && r.P(0.1) {
		if s := g.besides(op); s != nil {
			op.Calls = append(op.Calls, HCall{C: "op", S: s})
		}
	}
}

// besides makes a call which may happen while another file is open.
func (g *Gen) besides(op *Op) *Op {
	r := g.r
	s := g.make(r.Pick([]string{"new", "new", "append", "rewrite", "trunc", "readfile", "readfile", "mkdir", "mkdirall", "remove", "removeall", "rename", "rename", "chmod", "chown", "chtimes", "stat", "list"}))
	if r.P(0.25) { // the open file itself
		switch s.K {
		case "chmod", "chown", "stat", "readfile":
			s.P = op.P
		}
	}
	if !s.besides(op) {
		return nil
	}
	return &s
}

// besides tells if what a call does is beyond doubt while the file of a
// session is open: it must not replace, move or remove it, and nobody may
// look at content which has not been flushed yet.
func (op *Op) besides(sess *Op) bool {
	file := clean(sess.P)
	for _, c := range op.Calls {
		if c.C == "op" {
			return false
		}
	}
	switch op.K {
	case "chmod", "chown", "stat", "lstat", "list":
		return true
	case "readfile", "sess":
		flag, _ := sess.flags()
		reading := flag&(accMask|os.O_APPEND|os.O_TRUNC|os.O_CREATE) == os.O_RDONLY
		if op.K == "sess" {
			flag, _ = op.flags()
			reading = reading && flag&(accMask|os.O_APPEND|os.O_TRUNC|os.O_CREATE) == os.O_RDONLY
		}
		return reading || clean(op.P) != file
	case "mkdir", "mkdirall", "remove", "removeall", "rename", "chtimes":
		for _, p := range []string{op.P, op.Q} {
			if p != "" && (clean(p) == "/" || clean(p) == file || strings.HasPrefix(file, clean(p)+"/") && op.K != "mkdirall" && op.K != "chtimes") {
				return false
			}
		}
		return true
	}
	return false
}

func offsetNear(r *Rng, size int64) int64 {
	switch r.Weighted([]int{3, 3, 6, 2, 2, 1, 2}) {
	case 0:
		return 0
	case 1:
		return size
	case 2:
		if size > 0 {
			return int64(r.Intn(int(size)))
		}
		return 0
	case 3:
		return size + int64(r.Range(1, 700))
	case 4:
		return size - 1
	case 5:
		return -int64(r.Range(1, 50))
	default:
		return int64(r.PickInt([]int{511, 512, 513, 1024}))
	}
}

func genCall(r *Rng, g *Gen, size *int64, app bool) HCall {
	c := HCall{}
	k := r.Weighted([]int{6, 4, 5, 6, 4, 2, 3, 1, 2})
	if k == 4 && app {
		k = 3 // positioned writes are undefined in append mode
	}
	small := func() *Data {
		n := r.PickInt([]int{1, 2, 5, 17, 100, 511, 512, 513, 1000})
		if r.P(0.05) {
			n = 0
		}
		d := genData(r, n)
		if n <= 5 {
			d = Data{N: n, Kind: "lit", Lit: "abcde"[:n]}
		}
		return &d
	}
	switch k {
	case 0:
		c.C, c.N = "read", int64(r.PickInt([]int{1, 2, 10, 100, 511, 512, 513, 2000, 9000}))
		if r.P(0.04) {
			c.N = 0
		}
	case 1:
		c.C, c.N, c.O = "readat", int64(r.PickInt([]int{1, 10, 100, 512, 3000})), offsetNear(r, *size)
	case 2:
		c.C, c.W = "seek", r.Intn(3)
		c.O = offsetNear(r, *size)
		if c.W == 2 {
			c.O = -int64(r.Intn(int(*size) + 2))
			if r.P(0.2) {
				c.O = int64(r.Intn(600))
			}
		}
		if c.W == 1 {
			c.O = int64(r.Range(-200, 300))
			if r.P(0.5) {
				c.O = 0
			}
		}
	case 3, 5:
		c.C, c.D = "write", small()
		if k == 5 {
			c.C = "writestring"
		}
		*size += int64(c.D.N) / 2
	case 4:
		c.C, c.D, c.O = "writeat", small(), offsetNear(r, *size)
		if e := c.O + int64(c.D.N); e > *size {
			*size = e
		}
	case 6:
		c.C, c.N = "truncate", offsetNear(r, *size)
		if r.P(0.9) && c.N < 0 {
			c.N = 0
		}
		if c.N >= 0 {
			*size = c.N
		}
	case 7:
		c.C = "sync"
	case 8:
		c.C = r.Pick([]string{"stat", "stat", "name", "readdir"})
		c.N = -1
	}
	return c
}

// session applies a session to the model alone (used while generating).
func (m *Model) session(op *Op) {
	flag, mode := op.flags()
	if m.Open(op.P, flag, mode, span{}) != vOK {
		return
	}
	n := m.get(op.P)
	if n == nil || n.Dir {
		return
	}
	f := m.Handle(op.P, flag)
	for _, c := range op.Calls {
		if c.C == "op" {
			if s := *c.S; s.besides(op) && s.K == "sess" {
				m.session(&s)
			} else if s.besides(op) {
				m.apply(&s, span{}, true)
			}
			continue
		}
		f.applyCall(c)
	}
	if f.dirty {
		n.Data = append([]byte(nil), f.data...)
	}
}

// applyCall is the state change of one successful handle call.
func (f *MFile) applyCall(c HCall) {
	size := int64(len(f.data))
	switch c.C {
	case "read":
		if f.r && f.pos < size {
			n := size - f.pos
			if n > c.N {
				n = c.N
			}
			f.pos += n
		}
	case "seek":
		d := c.O
		if c.W == 1 {
			d += f.pos
		} else if c.W == 2 {
			d += size
		}
		if d >= 0 {
			f.pos = d
		}
	case "write", "writestring":
		if f.w && c.D.N > 0 {
			if f.app {
				f.pos = size
			}
			f.writeAt(c.D.Bytes(), f.pos)
			f.pos += int64(c.D.N)
		}
	case "writeat":
		if f.w && c.O >= 0 && c.D.N > 0 {
			f.writeAt(c.D.Bytes(), c.O)
		}
	case "truncate":
		if f.w && c.N >= 0 {
			if c.N < size {
				f.data = f.data[:c.N:c.N]
				f.dirty = true
			} else if c.N > size {
				f.data = append(f.data, make([]byte, c.N-size)...)
				f.dirty = true
			}
		}
	}
}
