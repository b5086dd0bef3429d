package main

import (
	"errors"
	"io"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/simrt"
)

// SimTape is a magnetic tape: files of fixed-size records separated by file
// marks. It stands in for the st driver; the code above it (TapeManager is the
// one exception, as it opens device nodes) is real.
type SimTape struct {
	rec  int // bytes per record
	blks []tapeBlk
	pos  int
	lock simrt.Mutex
	open bool
	over bool // the next writer starts over
}

type tapeBlk struct {
	mark bool
	data []byte
}

var errTape = errors.New("input/output error")

func newSimTape(rs int) *SimTape { return &SimTape{rec: rs * 512} }

func (t *SimTape) backend(y *Sys) config.BackendConfig {
	return config.BackendConfig{
		GetWriter: func() (config.DriveWriterConfig, error) {
			t.lock.Lock()
			if _, bad := y.seam.hit("openw"); bad {
				t.lock.Unlock()
				return config.DriveWriterConfig{}, errInjected
			}
			t.open = true
			t.pos = len(t.blks)
			if t.over { // what is behind the head is lost once something is written
				t.pos, t.over = 0, false
			}
			return config.DriveWriterConfig{Drive: &fWriter{y, &tapeWriter{t}}, DriveIsRegular: false}, nil
		},
		CloseWriter: func() error {
			if !t.open {
				return nil
			}
			_, bad := y.seam.hit("closew") // the drive fails before it has written the file mark
			if n := t.pos; !bad && n > 0 && n == len(t.blks) && !t.blks[n-1].mark {
				t.blks = append(t.blks, tapeBlk{mark: true})
			}
			t.open = false
			t.lock.Unlock()
			if bad {
				return errInjected
			}
			return nil
		},
		GetReader: func() (config.DriveReaderConfig, error) {
			t.lock.Lock()
			if _, bad := y.seam.hit("openr"); bad {
				t.lock.Unlock()
				return config.DriveReaderConfig{}, errInjected
			}
			t.open = true
			t.pos = 0
			return config.DriveReaderConfig{Drive: &fReader{y, &tapeReader{t: t}}, DriveIsRegular: false}, nil
		},
		CloseReader: func() error {
			if !t.open {
				return nil
			}
			_, bad := y.seam.hit("closer")
			t.open = false
			t.lock.Unlock()
			if bad {
				return errInjected
			}
			return nil
		},
		MagneticTapeIO: t,
	}
}

type tapeWriter struct{ t *SimTape }

func (w *tapeWriter) Write(p []byte) (int, error) {
	t := w.t
	if len(p) > 0 { // every write is a record of its own
		t.blks = append(t.blks[:t.pos:t.pos], tapeBlk{data: append([]byte(nil), p...)})
		t.pos++
	}
	return len(p), nil
}

type tapeReader struct {
	t    *SimTape
	rest []byte
}

func (r *tapeReader) Read(p []byte) (int, error) {
	t := r.t
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.rest) == 0 {
		if t.pos >= len(t.blks) {
			return 0, io.EOF
		}
		b := t.blks[t.pos]
		if b.mark { // at a file mark a read returns no bytes and the head moves past it
			t.pos++
			return 0, io.EOF
		}
		t.pos++
		if len(p) < len(b.data) {
			return 0, errors.New("cannot allocate memory") // buffer smaller than the record
		}
		return copy(p, b.data), nil
	}
	n := copy(p, r.rest)
	r.rest = r.rest[n:]
	return n, nil
}

func (r *tapeReader) Seek(int64, int) (int64, error) { return 0, errors.New("illegal seek") }
func (r *tapeReader) Fd() uintptr                    { return 3 }

// Record numbers count file marks, as MTTELL does.
func (t *SimTape) GetCurrentRecordFromTape(uintptr) (int64, error) { return int64(t.pos), nil }

func (t *SimTape) GoToEndOfTape(uintptr) error { t.pos = len(t.blks); return nil }

func (t *SimTape) GoToNextFileOnTape(uintptr) error {
	for i := t.pos; i < len(t.blks); i++ {
		if i > 0 && t.blks[i-1].mark && i == t.pos {
			return nil
		}
		if t.blks[i].mark {
			t.pos = i + 1
			if t.pos >= len(t.blks) {
				return errTape
			}
			return nil
		}
	}
	t.pos = len(t.blks)
	return errTape
}

func (t *SimTape) clone() *SimTape {
	return &SimTape{rec: t.rec, blks: append([]tapeBlk(nil), t.blks...)}
}

// bytes lays the tape out as its positions count: file marks take up a record.
func (t *SimTape) bytes() []byte {
	b := []byte{}
	for _, x := range t.blks {
		b = append(b, x.data...)
		if n := t.rec - len(x.data); n > 0 {
			b = append(b, make([]byte, n)...)
		}
	}
	return b
}

// load is the reverse of bytes, with the file marks of another tape.
func (t *SimTape) load(b []byte, marks *SimTape) {
	t.blks, t.pos = nil, 0
	for k := 0; len(b) > 0; k++ {
		n := min(t.rec, len(b))
		x := tapeBlk{data: append([]byte(nil), b[:n]...)}
		if n == t.rec && marks != nil && k < len(marks.blks) && marks.blks[k].mark {
			x = tapeBlk{mark: true}
		}
		t.blks = append(t.blks, x)
		b = b[n:]
	}
}

func (t *SimTape) EjectTape(uintptr) error { return nil }

func (t *SimTape) SeekToRecordOnTape(_ uintptr, r int32) error {
	if r < 0 || int(r) > len(t.blks) {
		return errTape
	}
	t.pos = int(r)
	return nil
}
