package main

import (
	"archive/tar"
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/compression"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/operations"
)

const markAlpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func marker(r *Rng, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = markAlpha[r.Intn(len(markAlpha))]
	}
	return string(b)
}

// needle is something that must not be on the tape, in every form in which
// it is looked for.
type needle struct {
	what  string
	forms [][]byte
	short bool // only as it is
}

func newNeedle(what string, m []byte, short bool) needle {
	n := needle{what: what, short: short}
	add := func(b []byte) {
		if len(b) >= 6 {
			n.forms = append(n.forms, b)
		}
	}
	add(m)
	if short {
		return n
	}
	for _, e := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
		for a := 0; a < 3; a++ { // the characters that depend on m alone
			s := e.EncodeToString(append(make([]byte, a), m...))
			from := (a*8 + 5) / 6
			to := ((a + len(m)) * 8) / 6
			add([]byte(s[from:to]))
		}
	}
	add([]byte(hex.EncodeToString(m)))
	add([]byte(strings.ToUpper(hex.EncodeToString(m))))
	rev := append([]byte(nil), m...)
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	add(rev)
	var wide []byte
	for _, c := range m {
		wide = append(wide, c, 0)
	}
	add(wide)
	if u := bytes.ToUpper(m); !bytes.Equal(u, m) && len(m) >= 12 {
		add(u)
		add(bytes.ToLower(m))
	}
	return n
}

var structural = func() []needle {
	var out []needle
	for _, s := range []string{"STFS.Version", "STFS.Action", "STFS.ReplacesName", "STFS.ReplacesContent", "STFS.UncompressedSize", "STFS.Signature",
		"\"Typeflag\"", "\"Linkname\"", "\"PAXRecords\"", "\"ModTime\"", "\"AccessTime\"", "\"Uname\"", "\"Name\":", "path=", "linkpath=", "mtime=", "atime=", "uname=", "gname=", "BEGIN PGP", "untrusted comment", "trusted comment", "signature from minisign"} {
		n := newNeedle("metadata "+s, []byte(s), false)
		if len(s) < 10 { // too short to be looked for in other forms
			n.forms = n.forms[:1]
		}
		out = append(out, n)
	}
	return out
}()

func dense(b []byte) bool {
	seen := map[byte]bool{}
	for _, c := range b {
		seen[c] = true
	}
	return len(seen) > 6
}

// needles of one op.
func opNeedles(op *Op, seen map[string]bool) []needle {
	var out []needle
	add := func(what string, m []byte, short bool) {
		if !seen[string(m)] {
			seen[string(m)] = true
			out = append(out, newNeedle(what, m, short))
		}
	}
	name := func(p string) {
		for _, c := range strings.Split(p, "/") {
			for _, q := range strings.Split(c, ".") {
				if len(q) >= 10 {
					add("a name", []byte(q), false)
				}
			}
		}
	}
	num := func(v int64) {
		if v >= 1000000 {
			add("an owner", []byte(fmt.Sprint(v)), true)
			add("an owner", []byte(fmt.Sprintf("%o", v)), true)
		}
	}
	when := func(ns int64) {
		if ns < 1e17 {
			return
		}
		t := time.Unix(0, ns)
		add("a timestamp", []byte(fmt.Sprint(t.Unix())), true)
		add("a timestamp", []byte(fmt.Sprintf("%o", t.Unix())), true)
		add("a timestamp", []byte(t.UTC().Format("2006-01-02T15:04:05")), true)
		add("a timestamp", []byte(t.Local().Format("2006-01-02T15:04:05")), true)
	}
	data := func(d *Data) {
		if d == nil {
			return
		}
		b := d.Bytes()
		for _, at := range []int{0, len(b) / 3, len(b) / 2, len(b) - 18} {
			if at >= 0 && at+18 <= len(b) && dense(b[at:at+18]) {
				add("content", b[at:at+18], false)
			}
		}
	}
	name(op.P)
	name(op.Q)
	num(int64(op.U))
	num(int64(op.G))
	when(op.T1)
	when(op.T2)
	for _, c := range op.Calls {
		data(c.D)
	}
	for i := range op.Mem {
		m := &op.Mem[i]
		name(m.Name)
		name(m.Own)
		name(m.Link)
		when(m.MT)
		data(&m.D)
	}
	return out
}

func markData(r *Rng, d *Data) {
	if d != nil && d.Kind == "tar" { // looks like what any tape holds
		d.Kind = "rand"
	}
	if d == nil || d.N < 18 || r.P(0.3) {
		return
	}
	m := marker(r, 18)
	s := strings.Repeat(m+"\n", d.N/len(m)+1)[:d.N]
	*d = Data{N: d.N, Kind: "lit", Lit: s}
	if d.N > 4096 { // keep traces readable
		*d = Data{N: d.N, Kind: "rand", Seed: r.U64() >> 16}
	}
}

func init() {
	// ------------------------------------------------------------- C09
	register(&propDef{
		id: "C09", level: "exploration", quick: 5000,
		rule:   "Seeded histories whose names, link targets, owners, timestamps and contents are unique high-entropy markers, on every encryption x compression x signature format in turn, on regular drives and a simulated magnetic tape, with failing sources and drive writes; after every call the new part of the raw tape is searched for every marker (raw, reversed, UTF-16, other case, hex, base64 at all three alignments) and for metadata strings, and every record's wrapper is compared byte by byte with the fixed one. Finally rebuild, query, fetch, restore, initialising and reading are tried with other private keys.",
		assume: []string{"what the header and content ciphers themselves leak (lengths, key ids) is not judged"},
		stub:   []string{"magnetic tape (records and file marks) for the runs on a non-regular drive"},
		gen: func(r *Rng, i int, th bool) *Case {
			cs := &Case{Cfg: genCfg(r), X: map[string]int64{}}
			cs.Cfg.Comp, cs.Cfg.Level, _, cs.Cfg.Sig = cfgProduct(i)
			cs.Cfg.Enc = encKeysL[1+i%2]
			if r.P(0.2) && tapeSupports(cs.Cfg) {
				cs.Cfg.Tape = true
			}
			g := newGen(r, cs.Cfg, GenOpt{MaxDepth: 3, Small: r.P(0.6), Spell: r.P(0.1), W: mergeW(defaultW, map[string]int{"archive": 8, "update": 7, "delete": 4, "move": 4, "symlink": 5, "stat": 0, "list": 0, "readfile": 1})})
			g.comps = nil
			for k := r.Range(4, 8); k > 0; k-- {
				c := marker(r, r.PickInt([]int{12, 14, 20, 40}))
				if r.P(0.15) {
					c += r.Pick([]string{".gz", ".age", ".pgp"})
				}
				if r.P(0.1) {
					c = marker(r, 110)
				}
				g.comps = append(g.comps, c)
			}
			for k := histLen(r, th, 4, 14); k > 0; k-- {
				op := g.next()
				if op.K == "chown" {
					op.U, op.G = r.Range(1_000_000, 2_000_000_000), r.Range(1_000_000, 2_000_000_000)
				}
				for k := range op.Calls {
					markData(r, op.Calls[k].D)
				}
				for k := range op.Mem {
					m := &op.Mem[k]
					if !m.Dir {
						markData(r, &m.D)
					}
					m.Own = marker(r, 14)
					if op.K == "archive" && !m.Dir && r.P(0.15) {
						m.Link, m.D = "/"+marker(r, 16), Data{}
					}
				}
				cs.Ops = append(cs.Ops, op)
				if r.P(0.12) {
					s := r.Pick([]string{"write", "write", "src", "index", "closew", "cachew"})
					cs.Faults = append(cs.Faults, Fault{Op: len(cs.Ops) - 1, Site: s, K: 1 + r.Intn(r.PickInt([]int{3, 12, 40})), Mode: r.Pick(faultModes[s])})
				}
			}
			return cs
		},
		exec: execSecret,
	})
}

func execSecret(w *World, cs *Case) {
	w.cfgClass(cs.Cfg)
	raw := func(y *Sys) []byte { return y.tapeBytes() }
	r := w.start(cs.Cfg)
	r.noModel = true
	y := r.y
	seen := map[string]bool{}
	ns := append([]needle(nil), structural...)
	prev := 0
	check := func() {
		b := raw(y)
		from := prev - 8192
		if from < 0 || cs.Cfg.Tape {
			from = 0
		}
		for _, n := range ns {
			for _, f := range n.forms {
				if at := bytes.Index(b[min(from, len(b)):], f); at >= 0 {
					w.fail("leak", "the tape holds %s in clear at %d, as %.60q", n.what, at+from, f)
				}
			}
		}
		prev = len(b)
		w.wrappers(cs.Cfg, b)
	}
	for i := range cs.Ops {
		op := &cs.Ops[i]
		ns = append(ns, opNeedles(op, seen)...)
		var f *Fault
		for k := range cs.Faults {
			if cs.Faults[k].Op == i {
				f = &cs.Faults[k]
			}
		}
		w.opLabel = op.String()
		w.advance(3e6)
		y.seam.arm(f)
		err := w.raw(y, op)
		if y.seam.fired != "" {
			w.count("fault:" + y.seam.fired)
		}
		y.seam.arm(nil)
		w.logf("op %s -> %v", op.String(), err == nil)
		w.class("%s %v", op.K, err == nil)
		w.state(fmt.Sprint(op.K, err == nil, (len(raw(y))+511)/512))
		w.opLabel = "after " + op.String()
		check()
	}
	prev = 0
	check()
	w.add("markers searched", int64(len(ns)-len(structural)))
	w.wrongKeys(cs, y, ns)
}

// wrappers checks that all a record shows is its size.
func (w *World) wrappers(cfg Cfg, b []byte) {
	recs, _, err := scan(b[:len(b)/512*512])
	if err != nil {
		return // a failing drive may leave half a record behind
	}
	embedded := map[string]bool{}
	first := map[string]int64{}
	for _, x := range recs {
		if len(x.PAX) == 0 || x.PAX[paxEmbedded] == "" {
			w.fail("wrapper", "the record at %d has no embedded header", x.Start)
		}
		for k := range x.PAX {
			if k != paxEmbedded && k != "size" {
				w.fail("wrapper", "the record at %d shows %s=%.40q", x.Start, k, x.PAX[k])
			}
		}
		e := x.PAX[paxEmbedded]
		if embedded[e] {
			w.fail("wrapper", "two records have the same encrypted header: %.60q", e)
		}
		embedded[e] = true
		for _, blk := range []int64{x.Start, x.Data - 512} {
			h := append([]byte(nil), b[blk:blk+512]...)
			for i := 124; i < 136; i++ {
				h[i] = '0'
			}
			for i := 148; i < 156; i++ {
				h[i] = '0'
			}
			want := &tar.Header{Typeflag: tar.TypeReg, Format: tar.FormatPAX, PAXRecords: map[string]string{"x": "y"}}
			ref := rawRecord(want, nil)
			var fix []byte
			if blk == x.Start {
				fix = ref[:512]
			} else {
				fix = ref[len(ref)-512:]
			}
			for i := range h {
				if i >= 124 && i < 136 || i >= 148 && i < 156 {
					continue
				}
				if h[i] != fix[i] {
					w.fail("wrapper", "byte %d of the header block at %d is %#x, not %#x: more than the size is visible", i, blk, h[i], fix[i])
				}
			}
		}
		for i := x.Data + x.Size; i < x.End && i < int64(len(b)); i++ {
			if b[i] != 0 {
				w.fail("wrapper", "the padding at %d of the record at %d is not empty", i, x.Start)
			}
		}
		if x.Size > 32 {
			c := string(b[x.Data : x.Data+min(x.Size, 400)])
			if at, dup := first[c]; dup {
				w.fail("wrapper", "the contents of the records at %d and %d start alike", at, x.Start)
			}
			first[c] = x.Start
			// not merely compressed
			if cfg.Comp != "" {
				if d, err := compression.Decompress(bytes.NewReader(b[x.Data:x.Data+x.Size]), cfg.Comp); err == nil {
					p := make([]byte, 64)
					if n, _ := io.ReadFull(d, p); n > 0 {
						// a decompressor without a checksum may make something of any bytes
						if n == 64 && cfg.Comp != config.CompressionFormatBrotliKey {
							w.fail("wrapper", "the content at %d can be decompressed without being decrypted: %.40q", x.Data, p)
						}
					}
				}
			}
		}
		if cfg.Sig != "" {
			w.class("signed wrapper")
		}
	}
}

// wrongKeys tries to get at the tape with other private keys.
func (w *World) wrongKeys(cs *Case, y *Sys, ns []needle) {
	ev := func(*config.HeaderEvent) {}
	_, mine := encKeys(cs.Cfg.Enc, cs.Cfg.Keys)
	_, other := encKeys(cs.Cfg.Enc, cs.Cfg.Keys+1)
	ids := []struct {
		name string
		id   interface{}
	}{{"another private key", other}, {"no private key", nil}}
	_ = mine
	var positions [][2]int
	hdrs, err := y.mp.GetHeaders(ctxb)
	if err != nil {
		return
	}
	for _, h := range hdrs {
		positions = append(positions, [2]int{int(h.Record), int(h.Block)})
	}
	if y.st == nil {
		recs, _, _ := scan(y.tapeBytes())
		positions = positions[:0]
		for _, x := range recs {
			rec, blk := recordAt(x.Start, cs.Cfg.RS)
			positions = append(positions, [2]int{rec, blk})
		}
	}
	y.close()
	clear := func(b []byte, what string) {
		for _, n := range ns {
			if n.what == "content" && bytes.Contains(b, n.forms[0]) {
				w.fail("wrong-key", "%s returns content", what)
			}
		}
	}
	for _, id := range ids {
		mk := func(db bool) *Sys {
			tp := w.path("theirs.tar")
			dbp := filepath.Join(filepath.Dir(tp), "theirs.sqlite")
			_ = os.Remove(dbp)
			y.copyTape(tp)
			if db {
				copyFile(y.db, dbp)
			}
			z, err := w.newSys(cs.Cfg, tp, dbp)
			must(err)
			z.readCr.Identity = id.id
			z.readOps = operations.NewOperations(z.back, z.meta, z.pipes, z.readCr, ev)
			z.mkfs()
			return z
		}
		w.count("fault:" + id.name)
		z := mk(false)
		w.opLabel = "with " + id.name
		n := 0
		err := w.api(z, "recovery.Index", func() error { return z.index(0, 0, true, 0, func(*config.Header) { n++ }) })
		if err == nil || n > 0 {
			w.fail("wrong-key", "rebuilding the index with %s succeeds (%d headers, err=%v)", id.name, n, err)
		}
		_ = w.api(z, "recovery.Query", func() (e error) { _, e = z.query(func(*config.Header) { n++ }); err = e; return nil })
		if err == nil || n > 0 {
			w.fail("wrong-key", "querying the tape with %s succeeds (%d headers, err=%v)", id.name, n, err)
		}
		for _, p := range positions {
			var b []byte
			var h *config.Header
			_ = w.api(z, "recovery.Fetch", func() (e error) { b, h, e = z.fetch(p[0], p[1]); err = e; return nil })
			clear(b, "fetching with "+id.name)
			if err == nil || h != nil || len(b) > 0 {
				w.fail("wrong-key", "fetching %d,%d with %s succeeds (%d bytes, err=%v)", p[0], p[1], id.name, len(b), err)
			}
		}
		err = w.api(z, "Initialize", func() error { _, err := z.fs.Initialize("/", os.ModePerm); return err })
		if err == nil {
			w.fail("wrong-key", "opening the tape without an index with %s succeeds", id.name)
		}
		w.drop(z)

		z = mk(true) // the index is known, the key is not
		for _, h := range hdrs {
			var got map[string][]byte
			err := w.api(z, fmt.Sprintf("Restore(%q)", h.Name), func() (e error) { got, e = z.restore(h.Name); return })
			total := 0
			for _, b := range got {
				clear(b, "restoring with "+id.name)
				total += len(b)
			}
			if err == nil || total > 0 {
				w.fail("wrong-key", "restoring %q with %s succeeds (%d bytes, err=%v)", h.Name, id.name, total, err)
			}
			if h.Typeflag == tar.TypeReg && h.Linkname == "" && h.Size > 0 {
				b, e := w.readAll(z, h.Name)
				clear(b, "reading with "+id.name)
				if e == nil || len(b) > 0 {
					w.fail("wrong-key", "reading %q with %s succeeds (%d bytes, err=%v)", h.Name, id.name, len(b), e)
				}
			}
		}
		w.drop(z)
	}
	// the header layer by itself
	if y.st == nil {
		recs, _, _ := scan(fileBytes(y.tape))
		for _, x := range recs {
			if s, err := encryption.DecryptString(x.PAX[paxEmbedded], cs.Cfg.Enc, other); err == nil {
				w.fail("wrong-key", "the header at %d decrypts with another private key: %.60q", x.Start, s)
			}
		}
	}
	w.state(fmt.Sprint(len(hdrs), len(positions)))
}

func fileBytes(p string) []byte {
	b, err := os.ReadFile(p)
	must(err)
	return b
}
