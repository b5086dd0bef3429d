package main

import (
	"encoding/json"
	"sync"
	"time"
)

// minimise shrinks the history, the faults and the arguments of a failing case
// while the same class of violation persists.
func minimise(pl *pool, cs *Case, v *Violation, until time.Time) (*Case, *Violation) {
	cur, curV := cs.Clone(), v
	// try runs candidates in parallel and keeps the first that still fails.
	try := func(cands []*Case) bool {
		if len(cands) == 0 {
			return false
		}
		type out struct {
			i int
			v *Violation
		}
		for lo := 0; lo < len(cands); lo += cap(pl.free) {
			if time.Now().After(until) {
				return false
			}
			hi := lo + cap(pl.free)
			if hi > len(cands) {
				hi = len(cands)
			}
			res := make([]*Violation, hi-lo)
			var wg sync.WaitGroup
			for i := lo; i < hi; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					r, err := pl.runOne(request{Case: cands[i]})
					if err == nil && r.Err == "" && r.Viol != nil && r.Viol.Key() == v.Key() {
						res[i-lo] = r.Viol
					}
				}(i)
			}
			wg.Wait()
			for i, x := range res {
				if x != nil {
					cur, curV = cands[lo+i], x
					return true
				}
			}
		}
		return false
	}
	dropOps := func(c *Case, lo, hi int) *Case {
		d := c.Clone()
		d.Ops = append(append([]Op(nil), c.Ops[:lo]...), c.Ops[hi:]...)
		var fs []Fault
		for _, f := range d.Faults {
			if f.Op >= lo && f.Op < hi {
				continue
			}
			if f.Op >= hi {
				f.Op -= hi - lo
			}
			fs = append(fs, f)
		}
		d.Faults = fs
		return d
	}
	for changed := true; changed && time.Now().Before(until); {
		changed = false
		for size := len(cur.Ops) / 2; size >= 1; size /= 2 {
			for {
				var c []*Case
				for lo := len(cur.Ops) - size; lo >= 0; lo -= size {
					c = append(c, dropOps(cur, lo, lo+size))
				}
				if !try(c) {
					break
				}
				changed = true
			}
		}
		// drop programs, their steps, faults and list items
		for {
			var c []*Case
			for i := range cur.Progs {
				if len(cur.Progs) > 2 {
					d := cur.Clone()
					d.Progs = append(d.Progs[:i:i], d.Progs[i+1:]...)
					c = append(c, d)
				}
				for j := range cur.Progs[i] {
					if len(cur.Progs[i]) > 1 {
						d := cur.Clone()
						d.Progs[i] = append(d.Progs[i][:j:j], d.Progs[i][j+1:]...)
						c = append(c, d)
					}
				}
			}
			if len(cur.Faults) > 1 {
				for i := range cur.Faults {
					d := cur.Clone()
					d.Faults = append(d.Faults[:i:i], d.Faults[i+1:]...)
					c = append(c, d)
				}
			}
			if len(cur.Cuts) > 1 {
				for i := range cur.Cuts {
					d := cur.Clone()
					d.Cuts = []int{cur.Cuts[i]}
					c = append(c, d)
				}
			}
			for i := range cur.Ops {
				for j := range cur.Ops[i].Calls {
					d := cur.Clone()
					d.Ops[i].Calls = append(d.Ops[i].Calls[:j:j], d.Ops[i].Calls[j+1:]...)
					c = append(c, d)
				}
				if len(cur.Ops[i].Mem) > 1 {
					for j := range cur.Ops[i].Mem {
						d := cur.Clone()
						d.Ops[i].Mem = append(d.Ops[i].Mem[:j:j], d.Ops[i].Mem[j+1:]...)
						c = append(c, d)
					}
				}
			}
			if !try(c) {
				break
			}
			changed = true
		}
		// a shorter and simpler schedule: fewer choices that are not the first
		for len(cur.Sched) > 0 {
			var c []*Case
			for size := len(cur.Sched); size >= 1; size /= 2 {
				for lo := 0; lo+size <= len(cur.Sched); lo += size {
					zero := true
					for _, x := range cur.Sched[lo : lo+size] {
						zero = zero && x == 0
					}
					if zero && lo+size < len(cur.Sched) {
						continue
					}
					d := cur.Clone()
					if lo+size == len(cur.Sched) {
						d.Sched = d.Sched[:lo]
					} else {
						for k := lo; k < lo+size; k++ {
							d.Sched[k] = 0
						}
					}
					c = append(c, d)
				}
			}
			if !try(c) {
				break
			}
			changed = true
		}
		// simpler configuration and arguments
		var c []*Case
		cfg := func(f func(*Cfg)) {
			d := cur.Clone()
			f(&d.Cfg)
			// what the property is about stays
			if cur.Prop == "C09" {
				d.Cfg.Enc = cur.Cfg.Enc
			} else if cur.Prop == "C08" {
				d.Cfg.Sig = cur.Cfg.Sig
			}
			if a, _ := json.Marshal(d.Cfg); string(a) != func() string { b, _ := json.Marshal(cur.Cfg); return string(b) }() {
				c = append(c, d)
			}
		}
		cfg(func(x *Cfg) { x.Comp, x.Enc, x.Sig, x.Level, x.WC = "", "", "", "balanced", "memory" })
		cfg(func(x *Cfg) { x.Comp = "" })
		cfg(func(x *Cfg) { x.Enc = "" })
		cfg(func(x *Cfg) { x.Sig = "" })
		cfg(func(x *Cfg) { x.RS = 20 })
		cfg(func(x *Cfg) { x.WC = "memory" })
		cfg(func(x *Cfg) { x.Keys = 0 })
		if cur.x("chunk", 0) > 0 {
			d := cur.Clone()
			delete(d.X, "chunk")
			c = append(c, d)
		}
		if try(c) {
			changed = true
		}
		c = nil
		shrinkData := func(get func(d *Case) *Data) {
			x := get(cur)
			if x == nil || x.Kind == "lit" && x.N <= 3 {
				return
			}
			for _, n := range []int{0, 1, x.N / 2} {
				if n < x.N {
					d := cur.Clone()
					y := get(d)
					y.N = n
					if y.Kind == "lit" {
						y.Lit = y.Lit[:n]
					}
					c = append(c, d)
				}
			}
		}
		for i := range cur.Ops {
			i := i
			for j := range cur.Ops[i].Calls {
				j := j
				shrinkData(func(d *Case) *Data { return d.Ops[i].Calls[j].D })
			}
			for j := range cur.Ops[i].Mem {
				j := j
				shrinkData(func(d *Case) *Data { return &d.Ops[i].Mem[j].D })
			}
		}
		if try(c) {
			changed = true
		}
	}
	return cur, curV
}
