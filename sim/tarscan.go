package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/pojntfx/stfs/pkg/encryption"
)

// An independent tar reader: it shares no code with the system under test and
// none with archive/tar.

// TRec is one record (one header plus its content) on the tape.
type TRec struct {
	Start  int64 // first header block (extended headers included)
	Data   int64 // first content byte
	Size   int64 // content length
	End    int64 // first byte after content padding
	Name   string
	Type   byte
	Link   string
	PAX    map[string]string
	format string
}

func octal(b []byte) (int64, error) {
	if len(b) > 0 && b[0]&0x80 != 0 {
		var v int64
		for i, c := range b {
			if i == 0 {
				c &= 0x7f
			}
			v = v<<8 | int64(c)
		}
		return v, nil
	}
	s := strings.Trim(string(b), " \x00")
	if s == "" {
		return 0, nil
	}
	return strconv.ParseInt(s, 8, 64)
}

func cstr(b []byte) string {
	if i := bytes.IndexByte(b, 0); i >= 0 {
		b = b[:i]
	}
	return string(b)
}

func isZero(b []byte) bool {
	for _, c := range b {
		if c != 0 {
			return false
		}
	}
	return true
}

func parsePAX(b []byte) (map[string]string, error) {
	out := map[string]string{}
	for len(b) > 0 {
		sp := bytes.IndexByte(b, ' ')
		if sp < 0 {
			return nil, fmt.Errorf("malformed extended header")
		}
		n, err := strconv.Atoi(string(b[:sp]))
		if err != nil || n <= sp+1 || n > len(b) || b[n-1] != '\n' {
			return nil, fmt.Errorf("malformed extended header record")
		}
		kv := string(b[sp+1 : n-1])
		eq := strings.IndexByte(kv, '=')
		if eq < 0 {
			return nil, fmt.Errorf("malformed extended header record")
		}
		out[kv[:eq]] = kv[eq+1:]
		b = b[n:]
	}
	return out, nil
}

// scan iterates a tape from the first to the last record. endOK reports that
// the last archive carries its two zero blocks.
func scan(tape []byte) (recs []*TRec, endOK bool, err error) {
	pos := int64(0)
	n := int64(len(tape))
	if n%512 != 0 {
		return nil, false, fmt.Errorf("length %d is not a whole number of 512-byte blocks", n)
	}
	zeros := 0
	var pend *TRec
	var globals map[string]string
	for pos < n {
		blk := tape[pos : pos+512]
		if isZero(blk) {
			if pend != nil {
				return recs, false, fmt.Errorf("zero block at %d after an extended header", pos)
			}
			zeros++
			pos += 512
			continue
		}
		if zeros == 1 {
			return recs, false, fmt.Errorf("a lone zero block before the header at %d", pos)
		}
		if zeros > 0 {
			globals = nil
		}
		zeros = 0
		want, err := octal(blk[148:156])
		if err != nil {
			return recs, false, fmt.Errorf("block at %d: bad checksum field", pos)
		}
		var sum int64
		for i, c := range blk {
			if i >= 148 && i < 156 {
				c = ' '
			}
			sum += int64(c)
		}
		if sum != want {
			return recs, false, fmt.Errorf("block at %d is not a tar header (checksum %o, want %o)", pos, sum, want)
		}
		if string(blk[257:262]) != "ustar" && !isZero(blk[257:265]) {
			return recs, false, fmt.Errorf("block at %d: unknown magic", pos)
		}
		size, err := octal(blk[124:136])
		if err != nil {
			return recs, false, fmt.Errorf("block at %d: bad size field", pos)
		}
		typ := blk[156]
		if pend == nil {
			pend = &TRec{Start: pos, PAX: map[string]string{}, format: "ustar"}
			for k, v := range globals {
				pend.PAX[k] = v
			}
		}
		dataEnd := pos + 512 + size
		padEnd := (dataEnd + 511) / 512 * 512
		switch typ {
		case 'x', 'g', 'L', 'K':
			if padEnd > n {
				return recs, false, fmt.Errorf("extended header at %d runs past the end", pos)
			}
			body := tape[pos+512 : dataEnd]
			switch typ {
			case 'x', 'g':
				kv, err := parsePAX(body)
				if err != nil {
					return recs, false, fmt.Errorf("at %d: %v", pos, err)
				}
				if typ == 'g' {
					globals = kv
					pend = nil
				} else {
					pend.format = "pax"
					for k, v := range kv {
						pend.PAX[k] = v
					}
				}
			case 'L':
				pend.PAX["path"] = cstr(body)
			case 'K':
				pend.PAX["linkpath"] = cstr(body)
			}
			pos = padEnd
			continue
		}
		r := pend
		pend = nil
		r.Type = typ
		r.Name = cstr(blk[0:100])
		if string(blk[257:263]) == "ustar\x00" {
			if p := cstr(blk[345:500]); p != "" {
				r.Name = p + "/" + r.Name
			}
		}
		r.Link = cstr(blk[157:257])
		if v, ok := r.PAX["path"]; ok {
			r.Name = v
		}
		if v, ok := r.PAX["linkpath"]; ok {
			r.Link = v
		}
		if v, ok := r.PAX["size"]; ok {
			size, err = strconv.ParseInt(v, 10, 64)
			if err != nil {
				return recs, false, fmt.Errorf("at %d: bad size record", pos)
			}
		}
		if typ != '0' && typ != 0 && typ != '7' {
			size = 0
		}
		r.Size = size
		r.Data = pos + 512
		r.End = (r.Data + size + 511) / 512 * 512
		if r.End > n {
			return recs, false, fmt.Errorf("record at %d runs past the end", r.Start)
		}
		recs = append(recs, r)
		pos = r.End
	}
	if pend != nil {
		return recs, false, fmt.Errorf("tape ends inside the header at %d", pend.Start)
	}
	return recs, zeros >= 2, nil
}

// LRec is what a record says in STFS terms.
type LRec struct {
	*TRec
	Action  string
	Content bool
	Old     string
	Name    string
	Dir     bool
	Linkn   string
}

// decodeRec unwraps a record with the reader's keys.
func (y *Sys) decodeRec(r *TRec) (*LRec, error) {
	type inner struct {
		Name       string
		Linkname   string
		Typeflag   byte
		PAXRecords map[string]string

		// names which aren't valid UTF-8
		RawStrings    map[string][]byte
		RawPAXRecords map[string][]byte
	}
	h := inner{Name: r.Name, Linkname: r.Link, Typeflag: r.Type, PAXRecords: r.PAX}
	unwrap := func(s string) error {
		h = inner{}
		if err := json.Unmarshal([]byte(s), &h); err != nil {
			return err
		}
		if b, ok := h.RawStrings["Name"]; ok {
			h.Name = string(b)
		}
		if b, ok := h.RawStrings["Linkname"]; ok {
			h.Linkname = string(b)
		}
		for k, b := range h.RawPAXRecords {
			h.PAXRecords[k] = string(b)
		}
		return nil
	}
	if y.cfg.Enc != "" {
		s, err := encryption.DecryptString(h.PAXRecords["STFS.EmbeddedHeader"], y.cfg.Enc, y.readCr.Identity)
		if err != nil {
			return nil, err
		}
		if err := unwrap(s); err != nil {
			return nil, err
		}
	}
	if y.cfg.Sig != "" {
		if err := unwrap(h.PAXRecords["STFS.EmbeddedHeader"]); err != nil {
			return nil, err
		}
	}
	l := &LRec{TRec: r, Name: h.Name, Action: h.PAXRecords["STFS.Action"], Linkn: h.Linkname}
	if l.Action == "" {
		l.Action = "CREATE"
	}
	l.Dir = h.Typeflag == '5'
	if l.Action == "UPDATE" {
		l.Content = h.PAXRecords["STFS.ReplacesContent"] == "true"
		l.Old = h.PAXRecords["STFS.ReplacesName"]
	} else {
		l.Content = l.Action == "CREATE"
	}
	if _, ok := h.PAXRecords["STFS.UncompressedSize"]; ok && l.Content && !l.Dir {
		l.Name = stripSuffix(l.Name, y.cfg)
	}
	return l, nil
}

func stripSuffix(name string, c Cfg) string {
	enc := map[string]string{"age": ".age", "pgp": ".pgp"}[c.Enc]
	comp := map[string]string{"gzip": ".gz", "parallelgzip": ".gz", "lz4": ".lz4", "zstandard": ".zst", "brotli": ".br", "bzip2": ".bz2", "parallelbzip2": ".bz2"}[c.Comp]
	return strings.TrimSuffix(strings.TrimSuffix(name, enc), comp)
}

// place is where an entry's content and its last record lie.
type place struct {
	content *TRec
	last    *TRec
}

// ledger replays the log: which record holds each live entry's content.
func ledger(recs []*LRec) map[string]*place {
	out := map[string]*place{}
	for _, r := range recs {
		n := clean(r.Name)
		switch r.Action {
		case "CREATE":
			if r.Linkn != "" {
				continue // symlinks are not tracked here
			}
			out[n] = &place{r.TRec, r.TRec}
		case "DELETE":
			delete(out, n)
		case "UPDATE":
			if r.Old != "" {
				o := clean(r.Old)
				if p := out[o]; p != nil && o != n {
					out[n] = p
					delete(out, o)
				}
			}
			if p := out[n]; p != nil {
				if r.Content {
					p.content = r.TRec
				}
				p.last = r.TRec
			}
		}
	}
	return out
}

// logOf scans and decodes a whole tape.
func (y *Sys) logOf(tape []byte) ([]*LRec, bool, error) {
	recs, end, err := scan(tape)
	if err != nil {
		return nil, end, err
	}
	var out []*LRec
	for _, r := range recs {
		l, err := y.decodeRec(r)
		if err != nil {
			return nil, end, fmt.Errorf("record at %d: %w", r.Start, err)
		}
		out = append(out, l)
	}
	return out, end, nil
}
