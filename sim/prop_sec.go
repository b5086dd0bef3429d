package main

import (
	"archive/tar"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/pojntfx/stfs/pkg/signature"
)

const (
	paxEmbedded  = "STFS.EmbeddedHeader"
	paxSignature = "STFS.Signature"
)

// query runs `stfs recovery query`.
func (y *Sys) query(onHeader func(*config.Header)) ([]*tar.Header, error) {
	r, err := y.back.GetReader()
	if err != nil {
		return nil, err
	}
	defer y.back.CloseReader()
	return recovery.Query(r, y.back.MagneticTapeIO, y.pipes, y.readCr, 0, 0, onHeader)
}

// hkey is a header without its position.
func hkey(h *config.Header) string {
	return fmt.Sprintf("%d|%q|%q|%d|%o|%d|%d|%q|%q|%d|%d|%d|%d|%d|%q|%d", h.Typeflag, h.Name, h.Linkname, h.Size, h.Mode, h.UID, h.Gid, h.Uname, h.Gname,
		h.Modtime.UnixNano(), h.Accesstime.UnixNano(), h.Changetime.UnixNano(), h.Devmajor, h.Devminor, h.Paxrecords, h.Format)
}

// legit is what the holder of the signing key has written.
type legit struct {
	index    map[string]bool     // headers as the indexer reports them
	query    map[string]bool     // ... and the query
	fetch    map[string]bool     // ... and fetching
	contents map[string][][]byte // what was signed under a header, as fetching reports it
	names    map[string]bool
	attrs    map[string]bool
	recs     []*TRec
	inner    []innerHdr

	since time.Time // a root written from here on is the instance's own
}

// innerHdr is the signed layer of one record.
type innerHdr struct {
	json string
	sig  string
	hdr  tar.Header
}

func attrKey(h *config.Header) string {
	return fmt.Sprintf("%d|%q|%o|%d|%d|%d", h.Typeflag, h.Linkname, h.Mode, h.UID, h.Gid, h.Modtime.UnixNano())
}

func recordAt(off int64, rs int) (int, int) {
	b := off / 512
	return int(b / int64(rs)), int(b % int64(rs))
}

func (w *World) legitOf(y *Sys, T []byte) *legit {
	l := &legit{index: map[string]bool{}, query: map[string]bool{}, fetch: map[string]bool{}, contents: map[string][][]byte{}, names: map[string]bool{}, attrs: map[string]bool{}}
	y.setTape(T)
	w.opLabel = "reading the untouched tape"
	err := w.api(y, "recovery.Index", func() error {
		return y.index(0, 0, true, 0, func(h *config.Header) {
			l.index[hkey(h)] = true
			l.names[clean(h.Name)] = true
			l.attrs[attrKey(h)] = true
			var pax map[string]string
			if json.Unmarshal([]byte(h.Paxrecords), &pax) == nil && pax["STFS.ReplacesName"] != "" {
				l.names[clean(pax["STFS.ReplacesName"])] = true
			}
		})
	})
	if err != nil {
		w.fail("untouched", "rebuilding the untouched tape fails: %v", err)
	}
	qerr := w.api(y, "recovery.Query", func() error {
		_, err := y.query(func(h *config.Header) { l.query[hkey(h)] = true })
		return err
	})
	if qerr != nil {
		w.fail("untouched", "querying the untouched tape fails: %v", qerr)
	}
	l.recs, _, err = scan(T)
	if err != nil {
		w.fail("scan", "the untouched tape cannot be scanned: %v", err)
	}
	for _, r := range l.recs {
		rec, blk := recordAt(r.Start, y.cfg.RS)
		var data []byte
		var hdr *config.Header
		_ = w.api(y, "Fetch", func() (e error) {
			data, hdr, e = y.fetch(rec, blk)
			if e != nil {
				data = nil
			}
			err = e
			return nil
		})
		if hdr == nil {
			w.fail("untouched", "fetching the record at %d,%d of the untouched tape fails: %v", rec, blk, err)
		}
		k := hkey(hdr)
		l.fetch[k] = true
		if err == nil {
			l.contents[k] = append(l.contents[k], data)
		}
		ih := innerHdr{}
		pax := r.PAX
		if y.cfg.Enc != "" {
			s, err := encryption.DecryptString(pax[paxEmbedded], y.cfg.Enc, y.readCr.Identity)
			given(err)
			var h tar.Header
			given(json.Unmarshal([]byte(s), &h))
			pax = h.PAXRecords
		}
		ih.json, ih.sig = pax[paxEmbedded], pax[paxSignature]
		given(json.Unmarshal([]byte(ih.json), &ih.hdr))
		l.inner = append(l.inner, ih)
	}
	return l
}

// rawRecord renders one tar record without a trailer.
func rawRecord(h *tar.Header, content []byte) []byte {
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	c := *h
	c.Size = int64(len(content))
	if err := tw.WriteHeader(&c); err != nil {
		return nil
	}
	_, _ = tw.Write(content)
	_ = tw.Flush()
	return b.Bytes()
}

// seal wraps a signed (or not signed) header like the write path does; with
// encryption the recipient is public, so a forger can do this as well.
func (y *Sys) seal(inner string, sig *string, content []byte, outer func(*tar.Header)) []byte {
	h := &tar.Header{Format: tar.FormatPAX, PAXRecords: map[string]string{paxEmbedded: inner}}
	if sig != nil {
		h.PAXRecords[paxSignature] = *sig
	}
	if y.cfg.Enc != "" {
		rcpt, _ := encKeys(y.cfg.Enc, y.cfg.Keys)
		h.Size = int64(len(content))
		given(encryption.EncryptHeader(h, y.cfg.Enc, rcpt))
	}
	if outer != nil {
		outer(h)
	}
	return rawRecord(h, content)
}

// sealContent compresses and encrypts content like the write path does,
// without signing it.
func (w *World) sealContent(y *Sys, data []byte, key int) (blob []byte, sig string) {
	tp := w.path("forge.tar")
	c := y.cfg
	c.Keys = key
	z, err := w.newSys(c, tp, filepath.Join(filepath.Dir(tp), "forge.sqlite"))
	must(err)
	defer w.drop(z)
	if c.Enc != "" { // encrypted to the victim
		z.writeCr.Recipient, _ = encKeys(c.Enc, y.cfg.Keys)
		_, z.readCr.Identity = encKeys(c.Enc, y.cfg.Keys)
	}
	_, sk := sigKeys(c.Sig, key)
	var b bytes.Buffer
	given(w.api(z, "sealing", func() error {
		e, err := encryption.Encrypt(&b, c.Enc, z.writeCr.Recipient)
		if err != nil {
			return err
		}
		cw, err := compressTo(e, c)
		if err != nil {
			return err
		}
		s, sign, err := signature.Sign(bytes.NewReader(data), true, c.Sig, sk)
		if err != nil {
			return err
		}
		if _, err := io.Copy(cw, s); err != nil {
			return err
		}
		if err := cw.Flush(); err != nil {
			return err
		}
		if err := cw.Close(); err != nil {
			return err
		}
		if err := e.Close(); err != nil {
			return err
		}
		sig, err = sign()
		return err
	}))
	return b.Bytes(), sig
}

// alter makes one tampered copy of a tape.
func (w *World) alter(r *Rng, y *Sys, T []byte, l *legit) (out []byte, what string) {
	n := len(l.recs)
	seg := func(i int) []byte { return T[l.recs[i].Start:l.recs[i].End] }
	splice := func(from, to int64, with []byte) []byte {
		return append(append(append([]byte(nil), T[:from]...), with...), T[to:]...)
	}
	place := func(rec []byte, i int, how int) []byte {
		switch how {
		case 0: // instead of the record
			return splice(l.recs[i].Start, l.recs[i].End, rec)
		case 1: // before it
			return splice(l.recs[i].Start, l.recs[i].Start, rec)
		case 2: // after it
			return splice(l.recs[i].End, l.recs[i].End, rec)
		case 3: // behind everything
			return append(append([]byte(nil), T...), withTrailer(rec)...)
		default: // as the first record
			return append(append([]byte(nil), rec...), T...)
		}
	}
	i, j := r.Intn(n), r.Intn(n)
	how := r.Intn(5)
	switch r.Weighted([]int{22, 8, 12, 30, 14, 8, 6}) {
	case 0: // altered bytes
		out = append([]byte(nil), T...)
		x := l.recs[i]
		k := r.PickInt([]int{1, 1, 1, 2, 4})
		for ; k > 0; k-- {
			var p int64
			switch r.Intn(5) {
			case 0:
				p = x.Start + int64(r.Intn(512))
			case 1:
				p = x.Start + int64(r.Intn(int(x.Data-x.Start)))
			case 2:
				p = x.Data + int64(r.Intn(int(x.Size)+1))
			case 3:
				p = x.End - 1 - int64(r.Intn(512))
			default:
				p = int64(r.Intn(len(T)))
			}
			if p >= int64(len(T)) {
				p = int64(len(T)) - 1
			}
			out[p] ^= byte(r.PickInt([]int{1, 2, 4, 8, 16, 32, 64, 128, 255, r.Range(1, 255)}))
			what += fmt.Sprintf("byte %d altered ", p)
		}
		return out, what
	case 1: // blocks replaced, swapped, repeated, dropped
		nb := len(T) / 512
		a, b := r.Intn(nb), r.Intn(nb)
		blk := func(k int) []byte { return append([]byte(nil), T[k*512:k*512+512]...) }
		switch r.Intn(5) {
		case 0:
			out = append([]byte(nil), T...)
			copy(out[a*512:], blk(b))
			return out, fmt.Sprintf("block %d overwritten with block %d", a, b)
		case 1:
			out = append([]byte(nil), T...)
			copy(out[a*512:], blk(b))
			copy(out[b*512:], blk(a))
			return out, fmt.Sprintf("blocks %d and %d swapped", a, b)
		case 2:
			return splice(int64(a*512), int64(a*512), blk(a)), fmt.Sprintf("block %d repeated", a)
		case 3:
			return splice(int64(a*512), int64(a*512+512), nil), fmt.Sprintf("block %d dropped", a)
		default:
			out = append([]byte(nil), T...)
			copy(out[a*512:a*512+512], make([]byte, 512))
			return out, fmt.Sprintf("block %d zeroed", a)
		}
	case 2: // whole records moved about
		switch r.Intn(3) {
		case 0:
			return place(seg(j), i, how), fmt.Sprintf("record %d also at record %d (%d)", j, i, how)
		case 1:
			return splice(l.recs[i].Start, l.recs[i].End, nil), fmt.Sprintf("record %d dropped", i)
		default:
			if i > j {
				i, j = j, i
			}
			if i == j {
				return place(seg(i), i, 2), fmt.Sprintf("record %d repeated", i)
			}
			out = append([]byte(nil), T[:l.recs[i].Start]...)
			out = append(out, seg(j)...)
			out = append(out, T[l.recs[i].End:l.recs[j].Start]...)
			out = append(out, seg(i)...)
			return append(out, T[l.recs[j].End:]...), fmt.Sprintf("records %d and %d swapped", i, j)
		}
	case 3: // a header edited, its signature kept or tampered with
		inner := l.inner[i].json
		edited := "same header"
		if r.P(0.75) {
			inner, edited = w.editHeader(r, l, i)
		}
		sig, sigHow := w.editSig(r, y, l, i, j, inner)
		content := T[l.recs[i].Data : l.recs[i].Data+l.recs[i].Size]
		var outer func(*tar.Header)
		if r.P(0.15) {
			outer = func(h *tar.Header) { h.Name, h.Mode, h.Uid, h.ModTime = "/FORGED-outer", 0o4777, 0, time.Unix(5, 0) }
		}
		return place(y.seal(inner, sig, content, outer), i, how), fmt.Sprintf("record %d: %s, %s (%d)", i, edited, sigHow, how)
	case 4: // a signed header with other content
		var content []byte
		x := l.recs[i]
		orig := T[x.Data : x.Data+x.Size]
		desc := ""
		switch r.Intn(6) {
		case 0:
			content, desc = T[l.recs[j].Data:l.recs[j].Data+l.recs[j].Size], fmt.Sprintf("the content of record %d", j)
		case 1:
			d := genData(r, r.PickInt([]int{1, 100, 512, 2000}))
			content, desc = d.Bytes(), "random content"
		case 2:
			content, desc = orig[:r.Intn(len(orig)+1)], "shortened content"
		case 3:
			d := genData(r, r.Range(1, 600))
			content, desc = append(append([]byte(nil), orig...), d.Bytes()...), "extended content"
		case 4:
			c, _ := w.sealContent(y, []byte("FORGED content "+strings.Repeat("x", r.Intn(800))), y.cfg.Keys+1)
			content, desc = c, "well-formed content of somebody else"
		default:
			content, desc = nil, "no content"
		}
		return place(y.seal(l.inner[i].json, &l.inner[i].sig, content, nil), i, r.Intn(4)), fmt.Sprintf("record %d with %s", i, desc)
	case 5: // signed with another key
		h := l.inner[i].hdr
		desc := "the same header"
		if r.P(0.7) {
			h.Name, desc = "/FORGED-key", "a new header"
		}
		_, sk := sigKeys(y.cfg.Sig, y.cfg.Keys+1)
		data := []byte("FORGED by another key")
		blob, csig := w.sealContent(y, data, y.cfg.Keys+1)
		pax := map[string]string{}
		for k, v := range h.PAXRecords {
			pax[k] = v
		}
		h.PAXRecords = pax
		if r.P(0.5) {
			h.Typeflag, h.Linkname = tar.TypeReg, ""
			pax[paxSignature], pax["STFS.UncompressedSize"] = csig, fmt.Sprint(len(data))
			h.Size = int64(len(blob))
		} else {
			blob = T[l.recs[i].Data : l.recs[i].Data+l.recs[i].Size]
		}
		b, err := json.Marshal(&h)
		must(err)
		sig, err := signature.SignString(string(b), true, y.cfg.Sig, sk)
		must(err)
		return place(y.seal(string(b), &sig, blob, nil), i, how), fmt.Sprintf("%s signed with another key at record %d (%d)", desc, i, how)
	default: // a plain tar writer
		h := &tar.Header{Name: r.Pick([]string{"/FORGED-plain", "FORGED-plain", "./FORGED-plain", l.inner[i].hdr.Name}), Mode: 0o777, ModTime: time.Unix(1e9, 0), Format: []tar.Format{tar.FormatUSTAR, tar.FormatPAX, tar.FormatGNU}[r.Intn(3)]}
		content := []byte("FORGED plain content")
		switch r.Intn(4) {
		case 0:
			h.Typeflag, content = tar.TypeDir, nil
		case 1:
			h.Typeflag, h.Linkname, content = tar.TypeSymlink, "/etc/passwd", nil
		default:
			h.Typeflag = tar.TypeReg
		}
		if h.Format == tar.FormatPAX && r.P(0.6) {
			h.PAXRecords = map[string]string{}
			if r.P(0.5) {
				h.PAXRecords["STFS.Action"], h.PAXRecords["STFS.Version"] = r.Pick([]string{"CREATE", "DELETE", "UPDATE"}), "1"
			}
			if r.P(0.3) {
				h.PAXRecords[paxEmbedded] = ""
			}
			if r.P(0.3) {
				h.PAXRecords[paxSignature] = ""
			}
		}
		if len(h.Name) > 90 {
			h.Name = "/FORGED-plain"
		}
		rec := rawRecord(h, content)
		if rec == nil {
			h.Format = tar.FormatPAX
			rec = rawRecord(h, content)
		}
		return place(rec, i, how), fmt.Sprintf("an unsigned record of a plain tar writer (%v, type %c) at record %d (%d)", h.Format, h.Typeflag, i, how)
	}
}

func (w *World) editHeader(r *Rng, l *legit, i int) (string, string) {
	h := l.inner[i].hdr
	pax := map[string]string{}
	for k, v := range h.PAXRecords {
		pax[k] = v
	}
	h.PAXRecords = pax
	what := ""
	switch r.Intn(9) {
	case 0:
		h.Name, what = "/FORGED", "name edited"
	case 1:
		h.Mode, what = h.Mode^0o7, "mode edited"
	case 2:
		h.Uid, h.Gid, what = 31337, 31337, "owner edited"
	case 3:
		h.Size, what = h.Size+1, "size edited"
	case 4:
		h.Linkname, what = "/FORGED-target", "link target edited"
	case 5:
		pax["STFS.Action"], pax["STFS.Version"] = "DELETE", "1"
		what = "turned into a deletion"
	case 6:
		pax["STFS.Action"], pax["STFS.ReplacesName"], pax["STFS.Version"] = "UPDATE", h.Name, "1"
		h.Name, what = "/FORGED-move", "turned into a move"
	case 7:
		h.ModTime, what = h.ModTime.Add(time.Hour), "time edited"
	default:
		pax[paxSignature], what = "", "content signature removed"
	}
	b, err := json.Marshal(&h)
	must(err)
	return string(b), what
}

func (w *World) editSig(r *Rng, y *Sys, l *legit, i, j int, inner string) (*string, string) {
	sig := l.inner[i].sig
	raw, _ := base64.StdEncoding.DecodeString(sig)
	raw = append([]byte(nil), raw...)
	enc := func(b []byte) *string { s := base64.StdEncoding.EncodeToString(b); return &s }
	lit := func(s string) *string { return &s }
	switch r.Intn(19) {
	case 0:
		return &sig, "signature kept"
	case 1:
		return nil, "signature removed"
	case 2:
		return lit(""), "empty signature"
	case 3:
		return lit("garbage, not base64!"), "garbage signature"
	case 4:
		d := genData(r, r.Range(1, 120))
		return enc(d.Bytes()), "random bytes as signature"
	case 5:
		return enc(raw[:r.Intn(len(raw))]), "shortened signature"
	case 6:
		raw[r.Intn(len(raw))] ^= byte(1 << r.Intn(8))
		return enc(raw), "signature with a flipped bit"
	case 7:
		s := l.inner[j].sig
		return &s, fmt.Sprintf("signature of record %d", j)
	case 8:
		s := l.inner[j].hdr.PAXRecords[paxSignature]
		return &s, fmt.Sprintf("content signature of record %d", j)
	case 9:
		s := sig[:len(sig)/2] + "\n" + sig[len(sig)/2:]
		return &s, "signature with a line break"
	case 10:
		return lit(strings.TrimRight(base64.URLEncoding.EncodeToString(raw), "=")), "signature in another alphabet"
	case 11:
		return enc(append(raw, raw...)), "signature twice"
	case 12:
		return enc(append([]byte("junk"), raw...)), "signature behind junk"
	case 13:
		// the algorithm fields of an OpenPGP signature, the key id of a minisign one
		k := r.Intn(10)
		if k < len(raw) {
			raw[k] = byte(r.Intn(12))
		}
		return enc(raw), fmt.Sprintf("signature with header byte %d replaced", k)
	case 14:
		_, sk := sigKeys(y.cfg.Sig, y.cfg.Keys+1)
		s, err := signature.SignString(inner, true, y.cfg.Sig, sk)
		given(err)
		return &s, "signature by another key"
	case 15:
		return enc(nil), "no signature bytes"
	case 16:
		return lit("===="), "padding as signature"
	case 17:
		s := sig + "AAAA"
		return &s, "signature with a tail"
	default:
		_, sk := sigKeys(y.cfg.Sig, y.cfg.Keys)
		s, err := signature.SignString(l.inner[j].json+" ", true, y.cfg.Sig, sk)
		given(err)
		return &s, "a signature of the right key over another text"
	}
}

func init() {
	register(&propDef{
		id: "C08", level: "exploration", quick: 420,
		rule:   "Seeded histories write a signed tape; each run then tampers with copies of it (single bytes, blocks, records moved about, headers edited under kept, removed, garbled, swapped, re-encoded or foreign signatures, other content under a signed header, records of a second key, plain tar records; every byte of small tapes in some runs) and rebuilds, queries, restores, fetches and reads by every route: rebuild, opening without an index, opening with a stale index, on a simulated magnetic tape, and below a live instance. Every accepted header must be one of the untouched tape's, every returned content one that was signed under its header.",
		assume: []string{"the forger knows the public encryption recipient, but not the signing key", "replaying, reordering or dropping genuine records is not forgery"},
		stub:   []string{"magnetic tape (records and file marks) for the runs on a non-regular drive"},
		gen: func(r *Rng, i int, th bool) *Case {
			cs := &Case{Cfg: genCfg(r), X: map[string]int64{}}
			cs.Cfg.Sig = sigKeysL[i%len(sigKeysL)]
			if cs.Cfg.Sig == "" {
				cs.Cfg.Sig = config.SignatureFormatPGPKey
			}
			cs.X["alts"] = 40
			if th {
				cs.X["alts"] = 160
			}
			g := newGen(r, cs.Cfg, GenOpt{MaxDepth: 3, Small: r.P(0.7), W: mergeW(defaultW, map[string]int{"archive": 5, "update": 4, "symlink": 4, "readfile": 0, "stat": 0, "list": 0})})
			switch r.Weighted([]int{60, 22, 14, 4}) {
			case 1: // every byte of a small tape
				cs.X["stride"] = 97
				if th {
					cs.X["stride"] = 1
				}
				cs.X["phase"] = int64(r.Intn(int(cs.X["stride"])))
				cs.Cfg.RS = r.PickInt([]int{1, 2, 20})
				g.opt.Small = true
				cs.Ops = []Op{{K: "sess", Q: "Create", P: "/f", Calls: []HCall{{C: "write", D: &Data{N: r.Range(1, 40), Kind: "rand", Seed: r.U64() >> 16}}}}}
				if r.P(0.5) {
					cs.Ops = append(cs.Ops, Op{K: "symlink", P: "/f", Q: "/l"})
				}
				return cs
			case 2: // tampering below a live instance
				cs.X["live"] = 1
				cs.Ops = g.ops(histLen(r, th, 5, 12))
				return cs
			case 3: // a file which holds a header
				cs.X["confuse"] = 1
				cs.X["alts"] = 1
				h := tar.Header{Typeflag: tar.TypeReg, Name: "/CONFUSED", Mode: 0o777, ModTime: time.Unix(1e9, 0).UTC(), Format: tar.FormatPAX}
				b, _ := json.Marshal(&h)
				cs.Ops = append(g.ops(r.Range(1, 3)), Op{K: "archive", Mem: []Member{{Name: "/oracle", Mode: 0o600, D: Data{N: len(b), Kind: "lit", Lit: string(b)}, MT: 1e18}}})
				return cs
			}
			cs.Ops = g.ops(histLen(r, th, 3, 9))
			if r.P(0.4) {
				cs.Ops = append(cs.Ops, Op{K: "symlink", P: "/" + r.Pick(g.comps), Q: "/link"})
			}
			return cs
		},
		exec: execForge,
	})
}

func execForge(w *World, cs *Case) {
	w.cfgClass(cs.Cfg)
	if cs.x("live", 0) == 1 {
		w.forgeLive(cs)
		return
	}
	r := w.start(cs.Cfg)
	r.noModel = true
	type stage struct {
		db   string
		size int64
	}
	var stages []stage
	for i := range cs.Ops {
		_ = r.step(&cs.Ops[i])
		db := w.path("stage.sqlite")
		copyFile(r.y.db, db)
		stages = append(stages, stage{db, fileSize(r.y.tape)})
	}
	T := r.y.tapeBytes()
	y := w.lab(cs.Cfg)
	l := w.legitOf(y, T)

	if cs.x("confuse", 0) == 1 {
		for i := range l.recs {
			if strings.TrimSuffix(clean(stripSuffix(l.inner[i].hdr.Name, cs.Cfg)), "/") != "/oracle" {
				continue
			}
			w.opLabel = "content as header"
			data := cs.Ops[len(cs.Ops)-1].Mem[0].D.Bytes()
			sig := l.inner[i].hdr.PAXRecords[paxSignature]
			y.setTape(append(append([]byte(nil), T...), withTrailer(y.seal(string(data), &sig, nil, nil))...))
			forged := ""
			_ = w.api(y, "recovery.Index", func() error {
				return y.index(0, 0, true, 0, func(h *config.Header) {
					if !l.index[hkey(h)] {
						forged = h.Name
					}
				})
			})
			if forged != "" {
				w.fail("content-as-header", "the indexer accepts the header %q, which the holder of the signing key has only ever signed as the content of a file", forged)
			}
		}
		return
	}

	judge := func(j int, alt []byte, what string) {
		rng := NewRng(cs.Seed ^ 0x5ec1 ^ uint64(j)*0x9e37)
		w.count("fault:tampered tape")
		w.opLabel = "tampered tape: " + what
		y.setTape(alt)
		var bad string
		accepted := 0
		ierr := w.api(y, "recovery.Index", func() error {
			return y.index(0, 0, true, 0, func(h *config.Header) {
				accepted++
				if !l.index[hkey(h)] && bad == "" {
					bad = hkey(h)
				}
			})
		})
		if bad != "" {
			w.fail("forged-header", "%s: the indexer accepts a header which was never signed: %s", what, bad)
		}
		w.logf("alt %d %s: %d headers, err=%v", j, what, accepted, ierr != nil)
		w.class("index accepts all:%v", ierr == nil)
		w.vet(y, l, what, rng.P(0.25))
		// positions nobody indexed
		if recs, _, _ := scan(alt[:len(alt)/512*512]); true {
			for _, x := range recs {
				rec, blk := recordAt(x.Start, y.cfg.RS)
				w.vetFetch(y, l, what, rec, blk)
			}
		}
		if rng.P(0.35) {
			_ = w.api(y, "recovery.Query", func() error {
				_, err := y.query(func(h *config.Header) {
					if !l.query[hkey(h)] && bad == "" {
						bad = hkey(h)
					}
				})
				return err
			})
			if bad != "" {
				w.fail("forged-header", "%s: querying the tape accepts a header which was never signed: %s", what, bad)
			}
			w.class("query")
		}
		if rng.P(0.3) { // through the filesystem, without an index or with an older one
			t2 := w.path("forged.tar")
			db := filepath.Join(filepath.Dir(t2), "forged.sqlite")
			must(os.WriteFile(t2, alt, 0o600))
			kind := "no index"
			if len(stages) > 0 && rng.P(0.6) {
				s := stages[rng.Intn(len(stages))]
				copyFile(s.db, db)
				kind = "an older index"
			}
			z, err := w.newSys(cs.Cfg, t2, db)
			must(err)
			w.opLabel = "opening a tampered tape with " + kind + ": " + what
			l.since = time.Now()
			e := w.api(z, "Initialize", func() error { _, err := z.fs.Initialize("/", os.ModePerm); return err })
			w.class("initialize with %s: %v", kind, e == nil)
			l.names["/"] = true
			w.vet(z, l, w.opLabel, true)
			l.since = time.Time{}
			w.drop(z)
		}
		if cs.Cfg.Sig == config.SignatureFormatPGPKey && rng.P(0.2) {
			w.vetTape(cs.Cfg, l, alt, what)
		}
		w.state(fmt.Sprint(what[:min(len(what), 24)], accepted, ierr == nil))
	}

	if st := cs.x("stride", 0); st > 0 {
		for p := cs.x("phase", 0); p < int64(len(T)); p += st {
			if only := cs.x("only", -1); only >= 0 && p != only {
				continue
			}
			p := p
			w.pin = func(c *Case) { c.X["only"] = p }
			rng := NewRng(cs.Seed ^ uint64(p))
			masks := []byte{byte(1 << rng.Intn(8)), 0xff}
			for _, m := range masks {
				alt := append([]byte(nil), T...)
				alt[p] ^= m
				judge(int(p), alt, fmt.Sprintf("byte %d of %d xor %#x", p, len(T), m))
			}
			w.count("byte positions altered exhaustively per phase")
		}
		return
	}
	for j := 0; j < int(cs.x("alts", 40)); j++ {
		if only := cs.x("only", -1); only >= 0 && int64(j) != only {
			continue
		}
		rng := NewRng(cs.Seed ^ 0xa17e ^ uint64(j)*0x51ed27)
		j := j
		w.pin = func(c *Case) { c.X["only"] = int64(j) }
		alt, what := w.alter(rng, y, T, l)
		judge(j, alt, what)
	}
}

// vetFetch reads one position.
func (w *World) vetFetch(y *Sys, l *legit, what string, rec, blk int) (data []byte, err error) {
	var hdr *config.Header
	err = w.api(y, fmt.Sprintf("Fetch %d,%d", rec, blk), func() (e error) {
		data, hdr, e = y.fetch(rec, blk)
		return
	})
	if hdr != nil && !l.fetch[hkey(hdr)] {
		w.fail("forged-header", "%s: fetching %d,%d accepts a header which was never signed: %s", what, rec, blk, hkey(hdr))
	}
	if err != nil {
		return nil, err
	}
	if hdr == nil {
		w.fail("forged-header", "%s: fetching %d,%d succeeds without a header", what, rec, blk)
	}
	for _, c := range l.contents[hkey(hdr)] {
		if bytes.Equal(c, data) {
			return data, nil
		}
	}
	w.fail("forged-content", "%s: fetching %d,%d returns %d bytes (%.40q) under the header of %q, for which no such content was signed", what, rec, blk, len(data), data, hdr.Name)
	return nil, nil
}

// vet checks everything an index leads to.
func (w *World) vet(y *Sys, l *legit, what string, byFS bool) {
	hdrs, err := y.mp.GetHeaders(ctxb)
	if err != nil {
		return
	}
	sort.Slice(hdrs, func(i, j int) bool { return hdrs[i].Name < hdrs[j].Name })
	for _, h := range hdrs {
		if clean(h.Name) == "/" && h.Typeflag == tar.TypeDir && !l.since.IsZero() && !h.Modtime.Before(l.since) {
			continue
		}
		if !l.names[clean(h.Name)] {
			w.fail("forged-name", "%s: the index now holds %q", what, h.Name)
		}
		if !l.attrs[attrKey(h)] {
			w.fail("forged-attrs", "%s: the index now holds %q with attributes that were never signed: %s", what, h.Name, attrKey(h))
		}
		data, ferr := w.vetFetch(y, l, what, int(h.Record), int(h.Block))
		if h.Typeflag != tar.TypeReg || h.Linkname != "" {
			continue
		}
		got, rerr := map[string][]byte(nil), error(nil)
		rerr = w.api(y, fmt.Sprintf("Restore(%q)", h.Name), func() (e error) { got, e = y.restore(h.Name); return })
		if rerr == nil {
			b := pick(got, h.Name)
			if ferr != nil || !bytes.Equal(b, data) {
				w.fail("forged-content", "%s: restoring %q returns %d bytes (%.40q), which were not signed (fetching: %v)", what, h.Name, len(b), b, ferr)
			}
			w.class("restored")
		} else {
			w.class("restore errs")
		}
		if !byFS {
			continue
		}
		b, e := w.readAll(y, h.Name)
		if e == nil && !(ferr == nil && bytes.Equal(b, data)) && !(len(b) == 0 && h.Size == 0) {
			w.fail("forged-content", "%s: reading %q returns %d bytes (%.40q), which were not signed (fetching: %v)", what, h.Name, len(b), b, ferr)
		}
		w.class("read errs:%v", e != nil)
	}
}

// vetTape lays the bytes onto a magnetic tape: one file per archive.
func (w *World) vetTape(cfg Cfg, l *legit, alt []byte, what string) {
	t := newSimTape(cfg.RS)
	for len(alt) > 0 {
		end, zeros := 0, 0
		for end+512 <= len(alt) {
			z := isZero(alt[end : end+512])
			if zeros >= 2 && !z {
				break
			}
			if z {
				zeros++
			} else {
				zeros = 0
			}
			end += 512
		}
		if end == 0 {
			break
		}
		t.pos = len(t.blks)
		tw := &tapeWriter{t}
		for data := alt[:end]; len(data) > 0; {
			n := min(len(data), t.rec)
			_, _ = tw.Write(data[:n])
			data = data[n:]
		}
		t.blks = append(t.blks, tapeBlk{mark: true})
		alt = alt[end:]
	}
	w.tape = t
	tp := w.path("none.tar")
	z, err := w.newSys(cfg, tp, filepath.Join(filepath.Dir(tp), "tape.sqlite"))
	w.tape = nil
	must(err)
	defer w.drop(z)
	w.opLabel = "on a magnetic tape: " + what
	bad := ""
	n := 0
	e := w.api(z, "recovery.Index (tape)", func() error {
		return z.index(0, 0, true, 0, func(h *config.Header) {
			n++
			if !l.index[hkey(h)] && bad == "" {
				bad = hkey(h)
			}
		})
	})
	if bad != "" {
		w.fail("forged-header", "%s: the indexer accepts a header which was never signed: %s", w.opLabel, bad)
	}
	w.class("tape: %d accepted, ok:%v", min(n, 3), e == nil)
	w.vet(z, l, w.opLabel, false)
	_ = w.api(z, "recovery.Query (tape)", func() error {
		_, err := z.query(func(h *config.Header) {
			if !l.query[hkey(h)] && bad == "" {
				bad = hkey(h)
			}
		})
		return err
	})
	if bad != "" {
		w.fail("forged-header", "%s: querying accepts a header which was never signed: %s", w.opLabel, bad)
	}
}

// forgeLive tampers with the tape while the instance is running.
func (w *World) forgeLive(cs *Case) {
	r := w.start(cs.Cfg)
	r.noModel = true
	y := r.y
	lab := w.lab(cs.Cfg)
	for i := range cs.Ops {
		rng := NewRng(cs.Seed ^ 0x11fe ^ uint64(i)*77)
		if i > 0 && rng.P(0.5) {
			T := y.tapeBytes()
			l := w.legitOfQuiet(lab, T)
			if l != nil && len(l.recs) > 0 {
				var alt []byte
				what := ""
				for k := 0; k < 8; k++ { // prefer what leaves a well-formed tape
					alt, what = w.alter(rng, lab, T, l)
					if len(alt) > len(T) || rng.P(0.15) {
						break
					}
				}
				y.setTape(alt)
				w.logf("tampered: %s", what)
				w.count("fault:tampered tape")
				w.class("live tampering")
			}
		}
		_ = r.step(&cs.Ops[i])
		w.opLabel += " on a tape that has been tampered with"
		hdrs, err := y.mp.GetHeaders(ctxb)
		if err != nil {
			continue
		}
		for _, h := range hdrs {
			if strings.Contains(h.Name, "FORGED") || strings.Contains(h.Linkname, "FORGED") || h.Linkname == "/etc/passwd" || h.UID == 31337 {
				w.fail("forged-name", "%s: the index now holds %q -> %q", w.opLabel, h.Name, h.Linkname)
			}
			if h.Typeflag == tar.TypeReg && h.Linkname == "" {
				b, e := w.readAll(y, h.Name)
				if e == nil && bytes.Contains(b, []byte("FORGED")) {
					w.fail("forged-content", "%s: reading %q returns %.60q", w.opLabel, h.Name, b)
				}
			}
		}
		if i%3 == 2 { // a restart on what is there now
			w.opLabel = "restart on a tape that has been tampered with"
			z, err := w.newSys(cs.Cfg, y.tape, y.db)
			must(err)
			_ = w.api(z, "Initialize", func() error { _, err := z.fs.Initialize("/", os.ModePerm); return err })
			y.close()
			r.y, y = z, z
		}
	}
}

// legitOfQuiet is legitOf for tapes which may have been tampered with before.
func (w *World) legitOfQuiet(y *Sys, T []byte) (l *legit) {
	recs, _, err := scan(T)
	if err != nil {
		return nil
	}
	l = &legit{}
	for _, r := range recs {
		ih := innerHdr{}
		pax := r.PAX
		if y.cfg.Enc != "" {
			s, err := encryption.DecryptString(pax[paxEmbedded], y.cfg.Enc, y.readCr.Identity)
			if err != nil {
				continue
			}
			var h tar.Header
			if json.Unmarshal([]byte(s), &h) != nil {
				continue
			}
			pax = h.PAXRecords
		}
		ih.json, ih.sig = pax[paxEmbedded], pax[paxSignature]
		if json.Unmarshal([]byte(ih.json), &ih.hdr) != nil {
			continue
		}
		if raw, err := base64.StdEncoding.DecodeString(ih.sig); err != nil || len(raw) < 12 {
			continue
		}
		l.recs = append(l.recs, r)
		l.inner = append(l.inner, ih)
	}
	return l
}
