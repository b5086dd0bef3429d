package main

import (
	"archive/tar"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"path"

	"github.com/pojntfx/stfs/pkg/compression"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/signature"
)

// pipeline i of the full product of formats; any 216 consecutive i cover it.
func cfgProduct(i int) (comp, level, enc, sig string) {
	k := (i * 37) % (len(compKeys) * len(levelKeys) * len(encKeysL) * len(sigKeysL))
	comp = compKeys[k%len(compKeys)]
	k /= len(compKeys)
	level = levelKeys[k%len(levelKeys)]
	k /= len(levelKeys)
	enc = encKeysL[k%len(encKeysL)]
	k /= len(encKeysL)
	sig = sigKeysL[k%len(sigKeysL)]
	return
}

// contentSize draws from the size classes of the content property.
func contentSize(r *Rng, rs int) int {
	rec := rs * 512
	switch r.Weighted([]int{3, 3, 2, 3, 2, 4, 2, 2, 2}) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 511
	case 3:
		return 512
	case 4:
		return 513
	case 5:
		return min(rec, 70000) + r.Range(-1, 1)
	case 6:
		return r.Range(2, 20000)
	case 7: // many records
		return min(rec*r.Range(2, 9), 150000) + r.Range(-1, 1)
	default:
		return r.PickInt([]int{4095, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 100000})
	}
}

// bigSize draws contents past the buffers, blocks and windows of the codecs.
func bigSize(r *Rng, c Cfg) int {
	n := r.PickInt([]int{200_000, 262_144, 500_000, 900_000, 1 << 20, 1<<20 + 1, 1_500_000, 2 << 20, 3_000_000, 4 << 20, 4<<20 + 1, 5_000_000, 8<<20 + 1, 9_000_000})
	if n > 1_500_000 && (c.Comp == config.CompressionFormatBrotliKey || c.Comp == config.CompressionFormatBzip2Key || c.Comp == config.CompressionFormatBzip2ParallelKey) {
		n = 1<<20 + r.Range(-2, 500_000)
	}
	if r.P(0.3) {
		n += r.Range(-3, 3)
	}
	return n
}

func init() {
	// ------------------------------------------------------------- C03
	register(&propDef{
		id: "C03", level: "exploration", quick: 1200,
		rule:   "Every combination of 8 compression formats, 3 levels, 3 encryption and 3 signature formats in turn, with seeded record sizes, write caches, drive kinds and contents from size classes; each file is written through the filesystem or the archive interface and read back through the filesystem (several chunkings), restore and fetch by position, live and after a rebuild. A share of the runs drives the codecs directly, with the regular and the non-regular parameters.",
		assume: []string{"supported combinations on a non-regular drive: no parallel gzip, brotli or minisign; gzip and lz4 from 64 KiB records; zstandard from 1 KiB records. Elsewhere the codec must refuse instead of storing something else"},
		gen: func(r *Rng, i int, th bool) *Case {
			cs := &Case{X: map[string]int64{}}
			c := Cfg{RS: r.PickInt([]int{1, 2, 3, 7, 20, 64, 20, 5, 128}), WC: r.Pick([]string{config.WriteCacheTypeMemory, config.WriteCacheTypeFile}), Keys: r.Intn(3)}
			c.Comp, c.Level, c.Enc, c.Sig = cfgProduct(i)
			cs.Cfg = c
			big := r.Fork("big")
			if i%5 == 4 {
				cs.X["codec"] = 1
				cs.Cfg.RS = r.PickInt([]int{1, 2, 3, 7, 20, 64, 127, 128, 129, 200, 256, 511, 512, 600, 2048})
				for k := 0; k < 4; k++ {
					cs.Ops = append(cs.Ops, Op{K: "codec", N: int64(k % 2), Calls: []HCall{{D: dataP(r, contentSize(r, cs.Cfg.RS))}}})
				}
				if big.P(0.1) {
					cs.Ops[big.Intn(4)].Calls[0].D = dataP(big, bigSize(big, c))
				}
				return cs
			}
			if i%5 == 3 && tapeSupports(c) {
				cs.Cfg.Tape = true
			}
			n := r.Range(3, 5)
			names := []string{"/a", "/b.gz", "/d/c", "/d/e.age", "/é f"}
			cs.Ops = append(cs.Ops, Op{K: "mkdir", P: "/d", M: 0o755})
			for k := 0; k < n; k++ {
				p := names[k]
				d := func() *Data { return dataP(r, contentSize(r, c.RS)) }
				switch r.Intn(4) {
				case 0, 1:
					op := Op{K: "sess", Q: "Create", P: p}
					for j := r.Range(1, 3); j > 0; j-- {
						op.Calls = append(op.Calls, HCall{C: r.Pick([]string{"write", "write", "writestring"}), D: d()})
					}
					cs.Ops = append(cs.Ops, op)
				case 2:
					cs.Ops = append(cs.Ops, Op{K: "archive", Mem: []Member{{Name: p, Mode: 0o644, D: *d(), MT: 1e18}}})
				case 3:
					cs.Ops = append(cs.Ops, Op{K: "archive", Mem: []Member{{Name: p, Mode: 0o644, D: *d(), MT: 1e18}}})
					up := *d()
					cs.Ops = append(cs.Ops, Op{K: "update", Rep: true, Mem: []Member{{Name: p, Mode: 0o600, D: up, MT: 2e18 / 2}}})
				}
				if r.P(0.3) {
					cs.Ops = append(cs.Ops, Op{K: "sess", P: p, F: os.O_WRONLY | os.O_APPEND, Calls: []HCall{{C: "write", D: d()}}})
				}
				if r.P(0.3) {
					cs.Ops = append(cs.Ops, Op{K: "sess", P: p, F: os.O_RDWR, Calls: []HCall{{C: "writeat", D: dataP(r, r.Range(1, 900)), O: int64(r.Intn(1500))}}})
				}
				if r.P(0.1) {
					cs.Ops = append(cs.Ops, Op{K: "sess", P: p, F: os.O_RDWR | os.O_TRUNC, Calls: []HCall{}})
				}
				if r.P(0.15) {
					cs.Ops = append(cs.Ops, Op{K: "chmod", P: p, M: 0o600})
				}
			}
			chunkX(r, cs)
			if big.P(0.06) {
				d := dataP(big, bigSize(big, c))
				switch op := &cs.Ops[1]; {
				case len(op.Mem) > 0:
					op.Mem[0].D = *d
				default:
					op.Calls[0].D = d
				}
				delete(cs.X, "chunk")
			}
			return cs
		},
		exec: func(w *World, cs *Case) {
			w.cfgClass(cs.Cfg)
			if cs.x("codec", 0) != 0 {
				for i := range cs.Ops {
					op := &cs.Ops[i]
					if op.K != "codec" || len(op.Calls) == 0 || op.Calls[0].D == nil {
						continue
					}
					w.codecCase(cs.Cfg, op.N == 1, op.Calls[0].D.Bytes())
				}
				return
			}
			r := w.start(cs.Cfg)
			r.strict = true
			for i := range cs.Ops {
				_ = r.step(&cs.Ops[i])
			}
			w.checkContents(r.y, r.m, "running instance")
			if cs.Cfg.Tape {
				if err := w.api(r.y, "recovery.Index (rebuild)", func() error { return r.y.index(0, 0, true, 0, nil) }); err != nil {
					w.fail("rebuild", "rebuilding the index from the tape fails: %v", err)
				}
				w.checkContents(r.y, r.m, "rebuild")
				return
			}
			b, err := w.rebuilt(cs.Cfg, r.y, nil)
			if err != nil {
				w.fail("rebuild", "rebuilding the index from the tape fails: %v", err)
			}
			w.checkContents(b, r.m, "rebuild")
		},
	})

	// ------------------------------------------------------------- C14
	register(&propDef{
		id: "C14", level: "exploration", quick: 14000,
		rule:   "Seeded sequences of handle calls (reads, positioned reads, seeks from every origin, writes, truncations; offsets negative, inside, at and beyond the end) under every flag combination on files of 0 to several records; every count, offset, byte and end-of-file signal is compared with a byte array and a cursor, and after close a fresh open and Stat are compared.",
		assume: []string{"a read may be short when more bytes follow (io.Reader); positioned writes on append handles and O_TRUNC with O_RDONLY are not generated"},
		gen: func(r *Rng, i int, th bool) *Case {
			cs := &Case{Cfg: genCfg(r)}
			if r.P(0.4) {
				cs.Cfg.Enc, cs.Cfg.Sig = "", ""
			}
			g := newGen(r, cs.Cfg, GenOpt{Nest: r.P(0.3), MaxDepth: 1, Small: r.P(0.4)})
			g.comps = []string{"f", "g", "h"}
			init := Op{K: "sess", Q: "Create", P: "/f"}
			if r.P(0.85) {
				init.Calls = []HCall{{C: "write", D: g.data()}}
				if q := *r; q.P(0.01) {
					init.Calls[0].D = dataP(&q, q.Range(300_000, 1_500_000))
				}
			}
			g.apply(&init)
			cs.Ops = append(cs.Ops, init)
			for k := r.Range(1, 3); k > 0; k-- {
				op := Op{K: "sess", P: g.file(), F: g.fileFlags(), M: 0o644}
				if r.P(0.2) {
					op.F = g.anyFlags()
				}
				hi := 12
				if th {
					hi = 30
				}
				g.calls(&op, r.Range(2, hi))
				g.apply(&op)
				cs.Ops = append(cs.Ops, op)
				if r.P(0.1) {
					cs.Ops = append(cs.Ops, Op{K: r.Pick([]string{"restart", "lostindex"})})
				}
			}
			chunkX(r, cs)
			onTape(r, cs)
			return cs
		},
		exec: func(w *World, cs *Case) {
			w.cfgClass(cs.Cfg)
			r := w.start(cs.Cfg)
			r.strict, r.strictIO = true, true
			for i := range cs.Ops {
				op := &cs.Ops[i]
				_ = r.step(op)
				if op.K == "sess" {
					w.class("flags:%s", flagStr(op.F))
				}
				lab := w.opLabel
				for _, p := range r.m.paths() {
					n := r.m.N[p]
					if n.Dir {
						continue
					}
					b, err := w.readAll(r.y, p)
					if err != nil {
						w.fail("reread", "after %s: a fresh open of %q cannot be read: %v", lab, p, err)
					}
					if !bytes.Equal(b, n.Data) {
						w.fail("reread", "after %s: a fresh open of %q reads wrong bytes: %s", lab, p, diffBytes(b, n.Data))
					}
					w.checkSize(r.y, p, int64(len(n.Data)), lab)
					w.state(fmt.Sprint(hashStr(string(b))))
				}
			}
		},
	})
}

func dataP(r *Rng, n int) *Data {
	if n < 0 {
		n = 0
	}
	d := genData(r, n)
	return &d
}

func (w *World) checkSize(y *Sys, p string, want int64, lab string) {
	var got int64
	err := w.api(y, fmt.Sprintf("Stat(%q)", p), func() error {
		fi, err := y.fs.Stat(p)
		if err == nil {
			got = fi.Size()
		}
		return err
	})
	if err != nil {
		w.fail("stat", "after %s: Stat(%q) fails: %v", lab, p, err)
	}
	if got != want {
		w.fail("size", "after %s: Stat(%q) reports %d bytes, the content has %d", lab, p, got, want)
	}
}

// checkContents reads every file of the model in every way there is.
func (w *World) checkContents(y *Sys, m *Model, who string) {
	hdrs, err := y.mp.GetHeaders(context.Background())
	if err != nil {
		w.fail("index", "listing the index of the %s: %v", who, err)
	}
	pos := map[string]*config.Header{}
	for _, h := range hdrs {
		pos[clean(h.Name)] = h
	}
	var all map[string][]byte
	err = w.api(y, "Restore(\"/\")", func() (err error) { all, err = y.restore("/"); return })
	if err != nil {
		w.fail("restore", "%s: restoring everything fails: %v", who, err)
	}
	k := 0
	for _, p := range m.paths() {
		n := m.N[p]
		if n.Dir {
			continue
		}
		w.opLabel = fmt.Sprintf("%s: %q (%d bytes)", who, p, len(n.Data))
		w.class("size:%s", sizeName(len(n.Data), y.cfg.RS))
		same := func(how string, b []byte, err error) {
			if err != nil {
				w.fail("read", "%s fails for %q (%d bytes): %v", how, p, len(n.Data), err)
			}
			if !bytes.Equal(b, n.Data) {
				w.fail("content", "%s returns wrong bytes for %q: %s", how, p, diffBytes(b, n.Data))
			}
		}
		b, err := w.readAll(y, p)
		same("reading through the filesystem", b, err)
		// another chunking
		k++
		chunk := []int{1 << 20, 511, 513, 100, 4096, 65536}[(k+len(n.Data))%6]
		if len(n.Data) > 400_000 && chunk < 4096 {
			chunk = 65537
		}
		b = nil
		err = w.api(y, fmt.Sprintf("chunked read %q", p), func() error {
			f, err := y.fs.Open(p)
			if err != nil {
				return err
			}
			defer f.Close()
			buf := make([]byte, chunk)
			for i := 0; ; i++ {
				c, err := f.Read(buf)
				b = append(b, buf[:c]...)
				if err == io.EOF {
					return nil
				}
				if err != nil {
					return err
				}
				if i > 10*len(n.Data)+100 {
					return fmt.Errorf("no end of file after %d reads", i)
				}
			}
		})
		same(fmt.Sprintf("reading in chunks of %d", chunk), b, err)
		w.checkSize(y, p, int64(len(n.Data)), who)
		var one map[string][]byte
		err = w.api(y, fmt.Sprintf("Restore(%q)", p), func() (err error) { one, err = y.restore(p); return })
		same("restoring it", pick(one, p), err)
		if b, ok := all[p]; !ok {
			w.fail("restore", "%s: restoring everything leaves out %q", who, p)
		} else {
			same("restoring everything", b, nil)
		}
		h := pos[p]
		if h == nil {
			w.fail("index", "%s: %q is not in the index", who, p)
		}
		var data []byte
		var fh *config.Header
		err = w.api(y, fmt.Sprintf("Fetch %q", p), func() (err error) {
			data, fh, err = y.fetch(int(h.Record), int(h.Block))
			return
		})
		same(fmt.Sprintf("fetching %d/%d", h.Record, h.Block), data, err)
		_ = fh
		if h.Size != int64(len(n.Data)) {
			w.fail("size", "%s: the index says %q has %d bytes, the content has %d", who, p, h.Size, len(n.Data))
		}
		fis, err := w.list(y, path.Dir(p), -1)
		if err != nil {
			w.fail("list", "%s: listing %q: %v", who, path.Dir(p), err)
		}
		for _, fi := range fis {
			if fi.Name() == path.Base(p) && fi.Size() != int64(len(n.Data)) {
				w.fail("size", "%s: the listing says %q has %d bytes, the content has %d", who, p, fi.Size(), len(n.Data))
			}
		}
		w.state(fmt.Sprint(y.cfg.String(), len(n.Data)))
	}
}

func pick(m map[string][]byte, p string) []byte {
	if b, ok := m[p]; ok {
		return b
	}
	for _, b := range m {
		return b
	}
	return nil
}

func sizeName(n, rs int) string {
	switch {
	case n == 0, n == 1, n == 511, n == 512, n == 513:
		return fmt.Sprint(n)
	case n == rs*512-1:
		return "record-1"
	case n == rs*512:
		return "record"
	case n == rs*512+1:
		return "record+1"
	case n > rs*512:
		return ">record"
	}
	return "<record"
}

// tapeSupports: the pipeline may be used on a magnetic tape.
func tapeSupports(c Cfg) bool {
	switch c.Comp {
	case config.CompressionFormatParallelGZipKey, config.CompressionFormatBrotliKey:
		return false
	case config.CompressionFormatGZipKey, config.CompressionFormatLZ4Key:
		if c.RS*512 < 65536 {
			return false
		}
	case config.CompressionFormatZStandardKey:
		if c.RS < 2 {
			return false
		}
	}
	return c.Sig != config.SignatureFormatMinisignKey
}

// codecCase drives the codecs of a pipeline without a filesystem.
func (w *World) codecCase(c Cfg, nonRegular bool, content []byte) {
	regular := !nonRegular
	w.class("regular:%v", regular)
	w.opLabel = fmt.Sprintf("codecs %s regular=%v content=%dB", c, regular, len(content))
	y := &Sys{w: w, seam: &Seam{}}
	encR, encI := encKeys(c.Enc, c.Keys)
	sigR, sigI := sigKeys(c.Sig, c.Keys)
	run := func(what string, f func() error) error { return w.api(y, what+" "+w.opLabel, f) }
	supC := regular || tapeSupports(Cfg{Comp: c.Comp, RS: c.RS})
	supS := regular || tapeSupports(Cfg{Sig: c.Sig, RS: c.RS})

	// sign -> compress -> encrypt, as the archiver chains them
	var enc bytes.Buffer
	sig := ""
	err := run("write", func() error {
		e, err := encryption.Encrypt(&enc, c.Enc, encR)
		if err != nil {
			return err
		}
		cmp, err := compression.Compress(e, c.Comp, c.Level, regular, c.RS)
		if err != nil {
			return err
		}
		s, sign, err := signature.Sign(bytes.NewReader(content), regular, c.Sig, sigI)
		if err != nil {
			return err
		}
		if _, err := io.Copy(cmp, s); err != nil {
			return err
		}
		if err := cmp.Flush(); err != nil {
			return err
		}
		if err := cmp.Close(); err != nil {
			return err
		}
		if err := e.Close(); err != nil {
			return err
		}
		sig, err = sign()
		return err
	})
	if !supC || !supS {
		if err == nil {
			w.fail("unsupported", "%s: a format the drive does not support is accepted", w.opLabel)
		}
		w.class("refused")
		return
	}
	if err != nil {
		w.fail("codec-write", "%s: %v", w.opLabel, err)
	}
	var got bytes.Buffer
	err = run("read", func() error {
		d, err := encryption.Decrypt(bytes.NewReader(enc.Bytes()), c.Enc, encI)
		if err != nil {
			return err
		}
		dc, err := compression.Decompress(d, c.Comp)
		if err != nil {
			return err
		}
		v, verify, err := signature.Verify(dc, regular, c.Sig, sigR, sig)
		if err != nil {
			return err
		}
		if _, err := io.Copy(&got, v); err != nil {
			return err
		}
		if err := verify(); err != nil {
			return err
		}
		if err := d.Close(); err != nil {
			return err
		}
		return dc.Close()
	})
	if err != nil && len(content) > 0 {
		w.fail("codec-read", "%s: %v", w.opLabel, err)
	}
	if err == nil && !bytes.Equal(got.Bytes(), content) {
		w.fail("codec-content", "%s: %s", w.opLabel, diffBytes(got.Bytes(), content))
	}
	// headers and strings
	err = run("header", func() error {
		mk := func() *tar.Header {
			return &tar.Header{Typeflag: tar.TypeReg, Name: "some/näme", Size: int64(len(content)), Mode: 0o640, Uid: 7, Gid: 8, Uname: "u", Format: tar.FormatPAX, PAXRecords: map[string]string{"STFS.Action": "CREATE", "STFS.Signature": sig}}
		}
		h := mk()
		if err := signature.SignHeader(h, regular, c.Sig, sigI); err != nil {
			return err
		}
		if err := encryption.EncryptHeader(h, c.Enc, encR); err != nil {
			return err
		}
		if err := encryption.DecryptHeader(h, c.Enc, encI); err != nil {
			return err
		}
		if err := signature.VerifyHeader(h, regular, c.Sig, sigR); err != nil {
			return err
		}
		w0 := mk()
		if h.Name != w0.Name || h.Size != w0.Size || h.Mode != w0.Mode || h.Uid != w0.Uid || h.PAXRecords["STFS.Action"] != "CREATE" || h.PAXRecords["STFS.Signature"] != sig {
			w.fail("codec-header", "%s: the header comes back as %+v", w.opLabel, h)
		}
		return nil
	})
	if err != nil {
		w.fail("codec-header", "%s: %v", w.opLabel, err)
	}
	w.state(w.opLabel)
}
