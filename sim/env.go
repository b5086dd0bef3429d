package main

import (
	"archive/tar"
	"bytes"
	"context"
	"crypto"
	"database/sql"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"unsafe"

	"aead.dev/minisign"
	"filippo.io/age"
	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
	golog "github.com/fclairamb/go-log"
	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	stfs "github.com/pojntfx/stfs/pkg/fs"
	"github.com/pojntfx/stfs/pkg/mtio"
	"github.com/pojntfx/stfs/pkg/operations"
	"github.com/pojntfx/stfs/pkg/persisters"
	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/pojntfx/stfs/pkg/signature"
	"github.com/pojntfx/stfs/pkg/simrt"
	"github.com/pojntfx/stfs/pkg/tape"
	"github.com/spf13/afero"
)

// harnessErr marks trouble of the simulator itself: never a violation.
type harnessErr struct{ err error }

// skipRun ends a run in which there is nothing to judge.
type skipRun struct{}

// given ends the run if what it needs from parts that are not this property's
// matter cannot be had.
func given(err error) {
	if err != nil {
		panic(skipRun{})
	}
}

func must(err error) {
	if err != nil {
		panic(harnessErr{err})
	}
}

type nolog struct{}

func (nolog) Trace(string, ...interface{})       {}
func (nolog) Debug(string, ...interface{})       {}
func (nolog) Info(string, ...interface{})        {}
func (nolog) Warn(string, ...interface{})        {}
func (nolog) Error(string, ...interface{})       {}
func (nolog) Panic(string, ...interface{})       {}
func (l nolog) With(...interface{}) golog.Logger { return l }

// ---- keys

type keyset struct {
	ageID    *age.X25519Identity
	pgpEnc   openpgp.EntityList
	pgpEncP  openpgp.EntityList
	pgpSig   openpgp.EntityList
	pgpSigP  openpgp.EntityList
	minisPub minisign.PublicKey
	minis    minisign.PrivateKey
}

var keyPool []*keyset

func pgpPair() (priv, pub openpgp.EntityList) {
	e, err := openpgp.NewEntity("STFS", "", "stfs@example.com", &packet.Config{Algorithm: packet.PubKeyAlgoEdDSA, DefaultHash: crypto.SHA512, DefaultCipher: packet.CipherAES256})
	must(err)
	var b bytes.Buffer
	must(e.Serialize(&b))
	pub, err = openpgp.ReadKeyRing(&b)
	must(err)
	return openpgp.EntityList{e}, pub
}

// initKeys must run inside a bubble, with the seeded entropy installed.
func initKeys() {
	if keyPool != nil {
		return
	}
	for i := 0; i < 3; i++ {
		k := &keyset{}
		var err error
		k.ageID, err = age.GenerateX25519Identity()
		must(err)
		k.pgpEnc, k.pgpEncP = pgpPair()
		k.pgpSig, k.pgpSigP = pgpPair()
		k.minisPub, k.minis, err = minisign.GenerateKey(entropy(uint64(i) + 99))
		must(err)
		keyPool = append(keyPool, k)
	}
}

// encKeys / sigKeys return (recipient, identity).
func encKeys(format string, k int) (rcpt, id interface{}) {
	ks := keyPool[k%len(keyPool)]
	switch format {
	case config.EncryptionFormatAgeKey:
		return ks.ageID.Recipient(), ks.ageID
	case config.EncryptionFormatPGPKey:
		return ks.pgpEncP, ks.pgpEnc
	}
	return []byte{}, []byte{}
}

func sigKeys(format string, k int) (rcpt, id interface{}) {
	ks := keyPool[k%len(keyPool)]
	switch format {
	case config.SignatureFormatMinisignKey:
		return ks.minisPub, ks.minis
	case config.SignatureFormatPGPKey:
		return ks.pgpSigP, ks.pgpSig
	}
	return []byte{}, []byte{}
}

// ---- seams

var errInjected = errors.New("injected I/O fault")

var sites = []string{"write", "read", "seek", "index", "src", "openw", "openr", "cache", "closew"}

type Seam struct {
	fault  *Fault
	cnt    map[string]int
	fired  string // set when the armed fault fired
	fired2 bool
	ops    int
	budget int
	off    bool // concurrent mode: yield only

	writes []int64 // tape length after each drive write (crash points)
	trace  func(string)
}

type budgetExceeded struct{ site string }

func (s *Seam) arm(f *Fault) {
	s.fault = f
	s.cnt = map[string]int{}
	s.fired, s.fired2 = "", false
	s.ops = 0
}

func (s *Seam) hit(site string) (string, bool) {
	if s.off {
		simrt.Yield(site)
		return "", false
	}
	s.ops++
	if s.budget > 0 && s.ops > s.budget {
		panic(budgetExceeded{site})
	}
	if s.cnt == nil {
		s.cnt = map[string]int{}
	}
	k := s.cnt[site]
	s.cnt[site]++
	if f := s.fault; f != nil {
		mode, also, _ := strings.Cut(f.Mode, "+")
		if f.Site == site && f.K == k && s.fired == "" {
			s.fired = site + "/" + f.Mode
			return mode, true
		}
		// a fault while the first one is being cleaned up after
		if s.fired != "" && also == site && !s.fired2 {
			s.fired2 = true
			return "err", true
		}
	}
	return "", false
}

type fWriter struct {
	y *Sys
	w io.Writer
}

func (w *fWriter) Fd() uintptr { return 3 }

func (w *fWriter) Write(p []byte) (int, error) {
	mode, bad := w.y.seam.hit("write")
	if !bad {
		n, err := w.w.Write(p)
		if !w.y.seam.off {
			w.y.seam.writes = append(w.y.seam.writes, w.y.tapeSize())
		}
		return n, err
	}
	switch mode {
	case "short": // some of the bytes reach the medium, then the drive fails
		n, err := w.w.Write(p[:len(p)/2])
		if err != nil {
			return n, err
		}
		return n, errInjected
	case "torn":
		n := len(p) - 1
		if n < 0 {
			n = 0
		}
		n, err := w.w.Write(p[:n])
		if err != nil {
			return n, err
		}
		return n, errInjected
	}
	return 0, errInjected
}

// Seek and Truncate pass through to the drive file, like they would on the
// *os.File which tape.TapeManager hands out.
func (w *fWriter) Seek(off int64, whence int) (int64, error) {
	if s, ok := w.w.(io.Seeker); ok {
		return s.Seek(off, whence)
	}
	return 0, errInjected
}

func (w *fWriter) Truncate(n int64) error {
	if _, bad := w.y.seam.hit("trunc"); bad {
		return errInjected
	}
	if t, ok := w.w.(interface{ Truncate(int64) error }); ok {
		return t.Truncate(n)
	}
	return errInjected
}

type fReader struct {
	y *Sys
	r config.ReadSeekFder
}

func (r *fReader) Read(p []byte) (int, error) {
	if mode, bad := r.y.seam.hit("read"); bad {
		if mode == "short" {
			n, err := r.r.Read(p[:len(p)/2])
			if err != nil {
				return n, err
			}
			return n, errInjected
		}
		return 0, errInjected
	}
	if r.y.chunk > 0 && len(p) > r.y.chunk && r.y.st == nil {
		p = p[:r.y.chunk] // legal short read
	}
	return r.r.Read(p)
}

func (r *fReader) Seek(o int64, w int) (int64, error) {
	if _, bad := r.y.seam.hit("seek"); bad {
		return 0, errInjected
	}
	return r.r.Seek(o, w)
}

func (r *fReader) Fd() uintptr { return r.r.Fd() }

type fMeta struct {
	y *Sys
	p config.MetadataPersister
}

// change marks calls that change the index.
func (m *fMeta) change() error {
	if m.y.seam.off {
		simrt.Yield("index change")
		return nil
	}
	return m.hit()
}

func (m *fMeta) hit() error {
	if _, bad := m.y.seam.hit("index"); bad {
		return errInjected
	}
	return nil
}

func (m *fMeta) UpsertHeader(ctx context.Context, h *config.Header, i bool) error {
	if err := m.change(); err != nil {
		return err
	}
	return m.p.UpsertHeader(ctx, h, i)
}
func (m *fMeta) UpdateHeaderMetadata(ctx context.Context, h *config.Header) error {
	if err := m.change(); err != nil {
		return err
	}
	return m.p.UpdateHeaderMetadata(ctx, h)
}
func (m *fMeta) MoveHeader(ctx context.Context, o, n string, r, b int64) error {
	if err := m.change(); err != nil {
		return err
	}
	return m.p.MoveHeader(ctx, o, n, r, b)
}
func (m *fMeta) GetHeaders(ctx context.Context) ([]*config.Header, error) {
	if err := m.hit(); err != nil {
		return nil, err
	}
	return m.p.GetHeaders(ctx)
}
func (m *fMeta) GetHeader(ctx context.Context, n string) (*config.Header, error) {
	if err := m.hit(); err != nil {
		return nil, err
	}
	return m.p.GetHeader(ctx, n)
}
func (m *fMeta) GetHeaderByLinkname(ctx context.Context, n string) (*config.Header, error) {
	if err := m.hit(); err != nil {
		return nil, err
	}
	return m.p.GetHeaderByLinkname(ctx, n)
}
func (m *fMeta) GetHeaderChildren(ctx context.Context, n string) ([]*config.Header, error) {
	if err := m.hit(); err != nil {
		return nil, err
	}
	return m.p.GetHeaderChildren(ctx, n)
}
func (m *fMeta) GetRootPath(ctx context.Context) (string, error) {
	if err := m.hit(); err != nil {
		return "", err
	}
	return m.p.GetRootPath(ctx)
}
func (m *fMeta) GetHeaderDirectChildren(ctx context.Context, n string, l int) ([]*config.Header, error) {
	if err := m.hit(); err != nil {
		return nil, err
	}
	return m.p.GetHeaderDirectChildren(ctx, n, l)
}
func (m *fMeta) DeleteHeader(ctx context.Context, n string, r, b int64) (*config.Header, error) {
	if err := m.change(); err != nil {
		return nil, err
	}
	return m.p.DeleteHeader(ctx, n, r, b)
}
func (m *fMeta) GetLastIndexedRecordAndBlock(ctx context.Context, rs int) (int64, int64, error) {
	if err := m.hit(); err != nil {
		return 0, 0, err
	}
	return m.p.GetLastIndexedRecordAndBlock(ctx, rs)
}
func (m *fMeta) PurgeAllHeaders(ctx context.Context) error {
	if err := m.change(); err != nil {
		return err
	}
	return m.p.PurgeAllHeaders(ctx)
}

type fCache struct {
	y *Sys
	cache.WriteCache
}

func (c *fCache) Read(p []byte) (int, error) {
	if mode, bad := c.y.seam.hit("src"); bad {
		if mode == "short" {
			n, _ := c.WriteCache.Read(p[:len(p)/2])
			return n, errInjected
		}
		return 0, errInjected
	}
	return c.WriteCache.Read(p)
}

func (c *fCache) Write(p []byte) (int, error) {
	if mode, bad := c.y.seam.hit("cachew"); bad { // no space left for the cache
		if mode == "short" {
			n, _ := c.WriteCache.Write(p[:len(p)/2])
			return n, errInjected
		}
		return 0, errInjected
	}
	return c.WriteCache.Write(p)
}

// source of a batched archive / update call
type fSource struct {
	y *Sys
	*bytes.Reader
	fail bool
}

func (s *fSource) Read(p []byte) (int, error) {
	if s.y != nil {
		if mode, bad := s.y.seam.hit("src"); bad {
			if mode == "short" {
				n, _ := s.Reader.Read(p[:len(p)/2])
				return n, errInjected
			}
			return 0, errInjected
		}
	}
	if s.fail {
		return 0, errInjected
	}
	if s.y != nil && s.y.chunk > 0 && len(p) > s.y.chunk {
		p = p[:s.y.chunk]
	}
	return s.Reader.Read(p)
}
func (s *fSource) Close() error { return nil }

// ---- system assembly

// Sys is one assembled instance over one tape and one index.
type Sys struct {
	w        *World
	cfg      Cfg
	dir      string
	tape     string
	db       string
	tm       *tape.TapeManager
	mp       *persisters.MetadataPersister
	meta     config.MetadataConfig
	back     config.BackendConfig
	pipes    config.PipeConfig
	readCr   config.CryptoConfig
	writeCr  config.CryptoConfig
	readOps  *operations.Operations
	writeOps *operations.Operations
	fs       FS
	raw      *stfs.STFS
	seam     *Seam
	chunk    int
	lastW    *os.File
	lastR    *os.File
	tracking bool
	st       *SimTape // the drive is a magnetic tape
	opened   []*os.File
	root     string
	cacheN   int
}

func fileSize(p string) int64 {
	st, err := os.Stat(p)
	if err != nil {
		return 0
	}
	return st.Size()
}

// newSys assembles the documented composition without initialising it.
func (w *World) newSys(cfg Cfg, tapePath, dbPath string) (*Sys, error) {
	y := &Sys{w: w, cfg: cfg, tape: tapePath, db: dbPath, dir: filepath.Dir(dbPath), seam: &Seam{budget: 400000}}
	y.seam.off = w.explore
	mt := mtio.MagneticTapeIO{}
	y.tm = tape.NewTapeManager(tapePath, mt, cfg.RS, false)
	y.mp = persisters.NewMetadataPersister("file:" + dbPath + "?_pragma=synchronous(0)&_pragma=journal_mode(memory)")
	if err := y.mp.Open(); err != nil {
		w.fail("assemble", "the index cannot be opened: %v", err)
	}
	w.open = append(w.open, y)
	y.meta = config.MetadataConfig{Metadata: &fMeta{y, y.mp}}
	y.back = config.BackendConfig{
		GetWriter:      y.getWriter,
		CloseWriter:    y.closeWriter,
		GetReader:      y.getReader,
		CloseReader:    y.closeReader,
		MagneticTapeIO: mt,
	}
	if y.st = w.tape; y.st == nil && cfg.Tape {
		if y.st = w.tapes[tapePath]; y.st == nil {
			y.st = newSimTape(cfg.RS)
			w.putTape(tapePath, y.st)
		}
	}
	if y.st != nil {
		y.back = y.st.backend(y)
	}
	y.pipes = config.PipeConfig{Compression: cfg.Comp, Encryption: cfg.Enc, Signature: cfg.Sig, RecordSize: cfg.RS}
	encR, encI := encKeys(cfg.Enc, cfg.Keys)
	sigR, sigI := sigKeys(cfg.Sig, cfg.Keys)
	y.readCr = config.CryptoConfig{Recipient: sigR, Identity: encI}
	y.writeCr = config.CryptoConfig{Recipient: encR, Identity: sigI}
	onEvent := func(*config.HeaderEvent) {}
	y.readOps = operations.NewOperations(y.back, y.meta, y.pipes, y.readCr, onEvent)
	y.writeOps = operations.NewOperations(y.back, y.meta, y.pipes, y.writeCr, onEvent)
	y.mkfs()
	return y, nil
}

// FS is what the clients see: the filesystem, or a composition on top of it.
type FS interface {
	afero.Fs
	afero.Symlinker
	Initialize(rootProposal string, rootPerm os.FileMode) (string, error)
}

func (y *Sys) mkfs() {
	getBuf := func() (cache.WriteCache, func() error, error) {
		if _, bad := y.seam.hit("cache"); bad {
			return nil, nil, errInjected
		}
		c, clean, err := cache.NewCacheWrite(filepath.Join(y.dir, "wc"), y.cfg.WC)
		if err != nil {
			return nil, nil, err
		}
		return &fCache{y, c}, clean, nil
	}
	wops := y.writeOps
	if y.cfg.NoW {
		wops, getBuf = nil, nil
	}
	y.raw = stfs.NewSTFS(y.readOps, wops, y.meta, y.cfg.Level, getBuf, y.cfg.RO, y.cfg.WRP, func(*config.Header) {}, nolog{})
	y.fs = y.raw
}

func (y *Sys) breakPath() func() {
	moved := os.Rename(y.tape, y.tape+".away") == nil
	must(os.Symlink(filepath.Base(y.tape), y.tape))
	return func() {
		must(os.Remove(y.tape))
		if moved {
			must(os.Rename(y.tape+".away", y.tape))
		}
	}
}

// track notes the files the drive manager has opened.
func (y *Sys) track(f *os.File) {
	if y.tracking {
		y.opened = append(y.opened, f)
	}
}

// busy counts the opened drive files which have not been closed.
func (y *Sys) busy() int {
	if y.st != nil {
		return btoi(y.st.open)
	}
	var left []*os.File
	for _, f := range y.opened {
		if _, err := f.Stat(); !errors.Is(err, os.ErrClosed) {
			left = append(left, f)
		}
	}
	y.opened = left
	return len(left)
}

func (y *Sys) getWriter() (config.DriveWriterConfig, error) {
	_, bad := y.seam.hit("openw")
	if bad {
		restore := y.breakPath()
		c, err := y.tm.GetWriter()
		restore()
		return c, err
	}
	c, err := y.tm.GetWriter()
	if err != nil {
		return c, err
	}
	if f, ok := c.Drive.(*os.File); ok {
		y.lastW = f
		y.track(f)
	}
	c.Drive = &fWriter{y, c.Drive}
	return c, nil
}

func (y *Sys) closeWriter() error {
	if _, bad := y.seam.hit("closew"); bad && y.lastW != nil {
		_ = y.lastW.Close() // the drive reports an error on close
	}
	return y.tm.Close()
}

func (y *Sys) closeReader() error {
	if _, bad := y.seam.hit("closer"); bad && y.lastR != nil {
		_ = y.lastR.Close()
	}
	return y.tm.Close()
}

func (y *Sys) getReader() (config.DriveReaderConfig, error) {
	if _, bad := y.seam.hit("openr"); bad {
		restore := y.breakPath()
		c, err := y.tm.GetReader()
		restore()
		return c, err
	}
	c, err := y.tm.GetReader()
	if err != nil {
		return c, err
	}
	if f, ok := c.Drive.(*os.File); ok {
		y.lastR = f
		y.track(f)
	}
	c.Drive = &fReader{y, c.Drive}
	return c, nil
}

func (y *Sys) decryptHeader(hdr *tar.Header, i int) error {
	return encryption.DecryptHeader(hdr, y.cfg.Enc, y.readCr.Identity)
}

func (y *Sys) verifyHeader(hdr *tar.Header, isRegular bool) error {
	return signature.VerifyHeader(hdr, isRegular, y.cfg.Sig, y.readCr.Recipient)
}

// index runs the indexer as `stfs recovery index` does.
func (y *Sys) index(record, block int, overwrite bool, offset int, onHeader func(*config.Header)) error {
	r, err := y.back.GetReader()
	if err != nil {
		return err
	}
	defer y.back.CloseReader()
	if onHeader == nil {
		onHeader = func(*config.Header) {}
	}
	return recovery.Index(r, y.back.MagneticTapeIO, y.meta, y.pipes, y.readCr, record, block, overwrite, false, offset, y.decryptHeader, y.verifyHeader, onHeader)
}

// fetch reads one record by position, as `stfs recovery fetch` does.
func (y *Sys) fetch(record, block int) (data []byte, hdr *config.Header, err error) {
	r, err := y.back.GetReader()
	if err != nil {
		return nil, nil, err
	}
	defer y.back.CloseReader()
	var b bytes.Buffer
	err = recovery.Fetch(r, y.back.MagneticTapeIO, y.pipes, y.readCr,
		func(string, os.FileMode) (io.WriteCloser, error) { return nopW{&b}, nil },
		func(string, os.FileMode) error { return nil },
		record, block, "out", false, func(h *config.Header) { hdr = h })
	return b.Bytes(), hdr, err
}

// restore reads an entry through the archive interface.
func (y *Sys) restore(name string) (map[string][]byte, error) {
	out := map[string][]byte{}
	bufs := map[string]*bytes.Buffer{}
	err := y.readOps.Restore(
		func(p string, m os.FileMode) (io.WriteCloser, error) {
			if _, bad := y.seam.hit("dst"); bad {
				return nil, errInjected
			}
			b := &bytes.Buffer{}
			bufs[p] = b
			return dstW{y, b}, nil
		},
		func(p string, m os.FileMode) error {
			if _, bad := y.seam.hit("dst"); bad {
				return errInjected
			}
			return nil
		},
		name, "", false)
	for k, b := range bufs {
		out[k] = b.Bytes()
	}
	return out, err
}

// dstW is where restored content goes.
type dstW struct {
	y *Sys
	b *bytes.Buffer
}

func (d dstW) Write(p []byte) (int, error) {
	if mode, bad := d.y.seam.hit("dstw"); bad {
		if mode == "short" {
			n, _ := d.b.Write(p[:len(p)/2])
			return n, errInjected
		}
		return 0, errInjected
	}
	return d.b.Write(p)
}

func (d dstW) Close() error {
	if _, bad := d.y.seam.hit("dst"); bad {
		return errInjected
	}
	return nil
}

type nopW struct{ io.Writer }

func (nopW) Close() error { return nil }

// sqlDB digs out the database handle (the persister has no Close).
func (y *Sys) sqlDB() *sql.DB {
	v := reflect.ValueOf(y.mp).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Ptr && f.Type().Elem().Kind() == reflect.Struct {
			e := f.Elem()
			for j := 0; j < e.NumField(); j++ {
				g := e.Field(j)
				if g.Type() == reflect.TypeOf((*sql.DB)(nil)) {
					return *(**sql.DB)(unsafe.Pointer(g.UnsafeAddr()))
				}
			}
		}
	}
	return nil
}

func (y *Sys) close() {
	if y.mp != nil {
		if db := y.sqlDB(); db != nil {
			_ = db.Close()
		}
		y.mp = nil
	}
}

func (w *World) putTape(p string, t *SimTape) {
	if w.tapes == nil {
		w.tapes = map[string]*SimTape{}
	}
	w.tapes[p] = t
}

// copyTape copies the medium, not what the process holds in memory.
func (y *Sys) copyTape(to string) {
	if y.st != nil {
		y.w.putTape(to, y.st.clone())
		return
	}
	copyFile(y.tape, to)
}

func copyFile(from, to string) {
	b, err := os.ReadFile(from)
	if os.IsNotExist(err) {
		return
	}
	must(err)
	must(os.WriteFile(to, b, 0o600))
}

func (y *Sys) tapeSize() int64 {
	if y.st != nil {
		return int64(len(y.st.blks) * y.st.rec)
	}
	return fileSize(y.tape)
}

func (y *Sys) tapeBytes() []byte {
	if y.st != nil {
		return y.st.bytes()
	}
	b, err := os.ReadFile(y.tape)
	if err != nil {
		return nil
	}
	return b
}

// appended measures what the calls so far have left on the medium: its size
// or, on a tape, where failed calls are replaced instead of cut off, the
// number of its records.
func (y *Sys) appended() int64 {
	if y.st == nil {
		return y.tapeSize()
	}
	recs, _, _ := scan(y.tapeBytes())
	return int64(len(recs))
}

// dumpIndex returns every stored row, deleted ones included.
func (y *Sys) dumpIndex() string {
	db := y.sqlDB()
	rows, err := db.Query("select * from headers order by name, linkname")
	must(err)
	defer rows.Close()
	cols, _ := rows.Columns()
	var b bytes.Buffer
	for rows.Next() {
		vals := make([]interface{}, len(cols))
		ptr := make([]interface{}, len(cols))
		for i := range vals {
			ptr[i] = &vals[i]
		}
		must(rows.Scan(ptr...))
		for i, v := range vals {
			fmt.Fprintf(&b, "%s=%v|", cols[i], v)
		}
		b.WriteByte('\n')
	}
	must(rows.Err())
	return b.String()
}
