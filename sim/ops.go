package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"
)

// HCall is one call on an open handle.
type HCall struct {
	C string `json:"c"` // read readat seek write writeat writestring truncate sync stat readdir
	N int64  `json:"n,omitempty"`
	O int64  `json:"o,omitempty"`
	W int    `json:"w,omitempty"`
	D *Data  `json:"d,omitempty"`
	S *Op    `json:"s,omitempty"` // "op": another call while the file is open
}

// Member of a batched archive or update call.
type Member struct {
	Name string `json:"name"`
	Dir  bool   `json:"dir,omitempty"`
	Mode uint32 `json:"mode"`
	D    Data   `json:"d"`
	MT   int64  `json:"mt"`
	Fail bool   `json:"fail,omitempty"`
	Own  string `json:"own,omitempty"`  // user and group name
	Link string `json:"link,omitempty"` // makes the member a link
}

// Op is one call (or one open-use-close session) of a client.
type Op struct {
	K     string   `json:"k"`
	P     string   `json:"p,omitempty"`
	Q     string   `json:"q,omitempty"`
	F     int      `json:"f,omitempty"`
	M     uint32   `json:"m,omitempty"`
	N     int64    `json:"n,omitempty"`
	U     int      `json:"u,omitempty"`
	G     int      `json:"g,omitempty"`
	T1    int64    `json:"t1,omitempty"`
	T2    int64    `json:"t2,omitempty"`
	Calls []HCall  `json:"calls,omitempty"`
	Mem   []Member `json:"mem,omitempty"`
	Level string   `json:"level,omitempty"`
	Rep   bool     `json:"rep,omitempty"`
}

// Fault is one injected fault.
type Fault struct {
	Op   int    `json:"op"`   // index of the op it hits
	Site string `json:"site"` // write read seek index src openw openr cache close
	K    int    `json:"k"`    // k-th use of the site within the op
	Mode string `json:"mode"` // err short torn
}

// Cfg is one pipeline configuration.
type Cfg struct {
	Comp  string `json:"comp"`
	Level string `json:"level"`
	Enc   string `json:"enc"`
	Sig   string `json:"sig"`
	RS    int    `json:"rs"`
	WC    string `json:"wc"`
	RO    bool   `json:"ro,omitempty"`
	WRP   bool   `json:"wrp,omitempty"` // as the FTP server: handles which may write may read, too
	NoW   bool   `json:"now,omitempty"` // no write backend (as the HTTP server)
	Keys  int    `json:"keys,omitempty"`
	Tape  bool   `json:"tape,omitempty"` // simulated magnetic tape instead of a file
}

func (c Cfg) String() string {
	n := func(s string) string {
		if s == "" {
			return "none"
		}
		return s
	}
	s := fmt.Sprintf("%s/%s+%s+%s rs=%d %s", n(c.Comp), c.Level, n(c.Enc), n(c.Sig), c.RS, c.WC)
	if c.Tape {
		s += " tape"
	}
	return s
}

// Case is one simulated run, written out in full: replaying it reproduces the
// run exactly.
type Case struct {
	Prop   string            `json:"prop"`
	Seed   uint64            `json:"seed"`
	Cfg    Cfg               `json:"cfg"`
	Ops    []Op              `json:"ops,omitempty"`
	Progs  [][]Op            `json:"progs,omitempty"`
	Faults []Fault           `json:"faults,omitempty"`
	Cuts   []int             `json:"cuts,omitempty"`
	Sched  []int             `json:"sched,omitempty"`
	X      map[string]int64  `json:"x,omitempty"`
	S      map[string]string `json:"s,omitempty"`
	L      []string          `json:"l,omitempty"`
}

// JSON can only hold valid UTF-8, so bytes of names which aren't are kept as
// runes of a private plane.
const rawByteRune = 0x10ff00

type plainCase Case

func (c Case) MarshalJSON() ([]byte, error) {
	v := mapStrings(reflect.ValueOf(plainCase(c)), func(s string) string {
		if utf8.ValidString(s) {
			return s
		}
		var b strings.Builder
		for len(s) > 0 {
			r, n := utf8.DecodeRuneInString(s)
			if r == utf8.RuneError && n == 1 {
				r = rawByteRune + rune(s[0])
			}
			b.WriteRune(r)
			s = s[n:]
		}
		return b.String()
	})
	return json.Marshal(v.Interface())
}

func (c *Case) UnmarshalJSON(b []byte) error {
	var p plainCase
	if err := json.Unmarshal(b, &p); err != nil {
		return err
	}
	*c = Case(mapStrings(reflect.ValueOf(p), func(s string) string {
		var b strings.Builder
		for _, r := range s {
			if r >= rawByteRune && r < rawByteRune+256 {
				b.WriteByte(byte(r - rawByteRune))
			} else {
				b.WriteRune(r)
			}
		}
		return b.String()
	}).Interface().(plainCase))
	return nil
}

// mapStrings copies a value with all of its strings replaced.
func mapStrings(v reflect.Value, f func(string) string) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.String:
		out.SetString(f(v.String()))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			out.Field(i).Set(mapStrings(v.Field(i), f))
		}
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(mapStrings(v.Index(i), f))
		}
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		out.Set(reflect.MakeMap(v.Type()))
		for _, k := range v.MapKeys() {
			out.SetMapIndex(mapStrings(k, f), mapStrings(v.MapIndex(k), f))
		}
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		out.Set(reflect.New(v.Type().Elem()))
		out.Elem().Set(mapStrings(v.Elem(), f))
	default:
		out.Set(v)
	}
	return out
}

func (c *Case) JSON() []byte {
	b, _ := json.Marshal(c)
	return b
}

func (c *Case) Clone() *Case {
	var d Case
	if err := json.Unmarshal(c.JSON(), &d); err != nil {
		panic(err)
	}
	return &d
}

func (c *Case) x(k string, def int64) int64 {
	if v, ok := c.X[k]; ok {
		return v
	}
	return def
}

// Violation found in a run.
type Violation struct {
	Class  string `json:"class"`  // what kind of disagreement
	Where  string `json:"where"`  // the op / position
	Detail string `json:"detail"` // expected vs got
}

func (v *Violation) Key() string { return v.Class }
