package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"io"
)

// Rng is the only source of choices of a run (splitmix64).
type Rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func NewRng(seed uint64) *Rng { return &Rng{mix(seed)} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Range(lo, hi int) int   { return lo + r.Intn(hi-lo+1) }
func (r *Rng) P(p float64) bool       { return float64(r.U64()>>11)/(1<<53) < p }
func (r *Rng) Pick(s []string) string { return s[r.Intn(len(s))] }
func (r *Rng) PickInt(s []int) int    { return s[r.Intn(len(s))] }
func (r *Rng) Fork(label string) *Rng { return NewRng(r.U64() ^ hashStr(label)) }
func (r *Rng) Weighted(w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.Intn(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// seedFor derives the seed of run i of a property.
func seedFor(base int64, prop string, i int) uint64 {
	return mix(mix(uint64(base)^hashStr(prop)) + uint64(i)*0x9e3779b97f4a7c15)
}

// entropy replaces crypto/rand.Reader.
func entropy(seed uint64) io.Reader { return &splitmix{mix(seed)} }

// splitmix is the seeded source behind crypto/rand. Concurrent clients share
// it without the race detector seeing an order (or a race) in that.
type splitmix struct{ s uint64 }

//go:norace
func (c *splitmix) Read(p []byte) (int, error) {
	for i := range p {
		if i%8 == 0 {
			c.s += 0x9e3779b97f4a7c15
		}
		p[i] = byte(mixnr(c.s) >> (8 * uint(i%8)))
	}
	return len(p), nil
}

//go:norace
func mixnr(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Data is a generated content, written out only as its recipe.
type Data struct {
	N    int    `json:"n"`
	Kind string `json:"k"` // zero rand text lit tar
	Seed uint64 `json:"s,omitempty"`
	Lit  string `json:"l,omitempty"`
}

func (d Data) Bytes() []byte {
	switch d.Kind {
	case "lit":
		return []byte(d.Lit)
	case "zero":
		return make([]byte, d.N)
	case "tar": // every block is the header of a tar member
		b := make([]byte, 0, d.N+512)
		for len(b) < d.N {
			b = append(b, tarBlock(fmt.Sprintf("/in%x-%d", d.Seed&0xff, len(b)/512))...)
		}
		return b[:d.N]
	case "text":
		r := NewRng(d.Seed)
		b := make([]byte, 0, d.N+8)
		words := []string{"tape ", "record ", "block ", "file ", "lorem ", "ipsum\n", "stfs "}
		for len(b) < d.N {
			b = append(b, r.Pick(words)...)
		}
		return b[:d.N]
	default:
		r := NewRng(d.Seed)
		b := make([]byte, d.N+8)
		for i := 0; i < d.N; i += 8 {
			binary.LittleEndian.PutUint64(b[i:], r.U64())
		}
		return b[:d.N]
	}
}

func genData(r *Rng, n int) Data {
	k := []string{"rand", "text", "zero"}[r.Weighted([]int{6, 3, 1})]
	d := Data{N: n, Kind: k, Seed: r.U64() >> 16}
	if q := *r; n >= 500 && q.P(0.08) {
		d.Kind = "tar"
	}
	return d
}

// tarBlock is the header of an empty file.
func tarBlock(name string) []byte {
	b := make([]byte, 512)
	copy(b, name)
	copy(b[100:], "0000644\x000000000\x000000000\x0000000000000\x0000000000000\x00        0")
	copy(b[257:], "ustar\x0000")
	sum := 0
	for _, c := range b {
		sum += int(c)
	}
	copy(b[148:], fmt.Sprintf("%06o\x00 ", sum))
	return b
}

// sizeClass draws a content length that exercises block and record borders.
func sizeClass(r *Rng, rs int, big bool) int {
	rec := rs * 512
	w := []int{3, 3, 5, 2, 2, 2, 4, 3, 2}
	switch r.Weighted(w) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return r.Range(2, 300)
	case 3:
		return 511
	case 4:
		return 512
	case 5:
		return 513
	case 6:
		return r.Range(514, 3000)
	case 7:
		if rec > 32768 && !big {
			return r.Range(1, 5000)
		}
		return rec + r.Range(-1, 1)
	default:
		m := rec * r.Range(2, 4)
		if m > 40000 && !big {
			m = r.Range(5000, 20000)
		}
		return m + r.Range(-2, 2)
	}
}
