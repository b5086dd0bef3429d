package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func readKnown(path, prop string) []string {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		pre := "known: property=" + prop + " "
		if strings.HasPrefix(l, pre) {
			out = append(out, strings.TrimPrefix(l, pre))
		}
	}
	return out
}

// knownMatch: an entry is "class=<class> call=<substring> detail=<substring> | text".
func knownMatch(known []string, v *Violation) string {
	for _, k := range known {
		spec := strings.SplitN(k, "|", 2)[0]
		ok := true
		for _, f := range strings.Split(spec, ";") {
			f = strings.TrimSpace(f)
			switch {
			case strings.HasPrefix(f, "class="):
				ok = ok && v.Class == strings.TrimPrefix(f, "class=")
			case strings.HasPrefix(f, "call="):
				ok = ok && strings.Contains(v.Where, strings.TrimPrefix(f, "call="))
			case strings.HasPrefix(f, "detail="):
				ok = ok && strings.Contains(v.Detail, strings.TrimPrefix(f, "detail="))
			}
		}
		if ok {
			return k
		}
	}
	return ""
}

func check(prop string) int {
	p := props[prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	start := time.Now()
	base := envInt("VERIF_SEED", 1)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	th := tier == "thorough"
	runs := p.quick
	wall := 40 * time.Second
	if p.concurrent { // the race detector costs
		wall = 90 * time.Second
	}
	if th {
		runs = 1 << 30
		wall = 600 * time.Second
	}
	if n := envInt("STFS_RUNS", 0); n > 0 {
		runs = int(n)
	}
	if w := envInt("STFS_WALL", 0); w > 0 {
		wall = time.Duration(w) * time.Second
	}
	verif := os.Getenv("STFS_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	known := readKnown(filepath.Join(verif, "known-findings.txt"), prop)
	pl, err := newPool(workers())
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer pl.close()

	tot := &totals{stats: map[string]int64{}, classes: map[string]int{}, states: map[uint64]bool{}, distinct: map[uint64]bool{}}
	type found struct {
		i    int
		seed uint64
		v    *Violation
	}
	var (
		mu     sync.Mutex
		founds []*found
		broken error
		breaks int
		next   int
		hits   = map[string]int{}
		wg     sync.WaitGroup
	)
	deadline := start.Add(wall)
	for k := 0; k < cap(pl.free); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if len(founds) > 0 || breaks > 20 || next >= runs || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				seed := seedFor(base, prop, i)
				res, err := pl.runOne(request{Prop: prop, I: i, Seed: seed, Thorough: th})
				mu.Lock()
				if err != nil || res.Err != "" {
					if broken == nil {
						broken = fmt.Errorf("run %d (seed %d): %v %s", i, seed, err, res.Err)
					}
					breaks++
					mu.Unlock()
					continue // another run may get further
				}
				tot.evals++
				tot.simNS += float64(res.SimNS)
				for k, v := range res.Stats {
					tot.stats[k] += v
				}
				cl := strings.Join(res.Classes, "|")
				for _, c := range res.Classes {
					tot.classes[c]++
				}
				for _, s := range res.States {
					tot.states[s] = true
				}
				if !tot.distinct[res.Hash] && len(res.Classes) > 1 && cl != "" {
					tot.distinct[res.Hash] = true
				}
				if i < 3 {
					tot.samples = append(tot.samples, sample(makeCase(prop, i, seed, th)))
				}
				if v := res.Viol; v != nil {
					if e := knownMatch(known, v); e != "" {
						hits[e]++
					} else {
						founds = append(founds, &found{i: i, seed: seed, v: v})
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for _, e := range known {
		txt := e
		if k := strings.SplitN(e, "|", 2); len(k) == 2 {
			txt = strings.TrimSpace(k[1])
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s (met in %d runs)\n", prop, txt, hits[e])
	}
	if broken != nil && len(founds) == 0 {
		fmt.Fprintln(os.Stderr, "check error:", broken)
		return 2
	}
	viol := 0
	code := 0
	sort.Slice(founds, func(i, j int) bool { return founds[i].i < founds[j].i })
	var unconfirmed error
	for n, fnd := range founds {
		if n >= 4 {
			break
		}
		viol = 1
		say("violation found by run %d (seed %d): %s: %s\n%s\n", fnd.i, fnd.seed, fnd.v.Class, fnd.v.Where, fnd.v.Detail)
		cs := makeCase(prop, fnd.i, fnd.seed, th)
		orig := len(cs.Ops)
		budget := 45 * time.Second
		if th {
			budget = 5 * time.Minute
		}
		small, v := cs, fnd.v
		if v.Class != "stall" { // every attempt at minimising it would hang as well
			small, v = minimise(pl, cs, fnd.v, time.Now().Add(budget))
		}
		// name the one variant (cut, fault, alteration) that fails
		if v.Class != "stall" {
			if res, err := pl.runOne(request{Case: small}); err == nil && res.Pin != nil {
				if r2, err := pl.runOne(request{Case: res.Pin}); err == nil && r2.Err == "" && r2.Viol != nil && r2.Viol.Key() == v.Key() {
					small, v = res.Pin, r2.Viol
					if p.concurrent { // now that the schedule is written out, shrink that too
						small, v = minimise(pl, small, v, time.Now().Add(budget))
					}
				}
			}
		}
		// the verdict is believed only if fresh processes reproduce it
		h, exact, err := confirm(small, v)
		if err != nil || !exact {
			if h2, exact2, err2 := confirm(cs, fnd.v); err2 == nil && (exact2 || err != nil) {
				small, v, h, exact, err = cs, fnd.v, h2, exact2, nil
			}
		}
		if err != nil {
			unconfirmed = err
			continue
		}
		unconfirmed = nil
		rf := replayFile{Property: prop, Viol: v, Seed: fnd.seed, Hash: h, Original: orig, Case: small, Readable: readable(small)}
		if !exact {
			rf.Note = "every replay shows the violation, but not with the same event log: the code under test itself depends on something that differs between processes"
		}
		dir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, prop+"-"+fmt.Sprint(fnd.seed)+".json")
		b, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "check error:", err)
			return 2
		}
		say("minimised: %s: %s\n%s\n", v.Class, v.Where, v.Detail)
		for _, l := range rf.Readable {
			say("    %s\n", l)
		}
		if rf.Note != "" {
			say("note: %s\n", rf.Note)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		code = 1
		break
	}
	if unconfirmed != nil {
		fmt.Fprintln(os.Stderr, "check error: violation does not replay:", unconfirmed)
		return 2
	}
	if err := writeEvidence(verif, p, tier, base, tot, time.Since(start), viol); err != nil {
		fmt.Fprintln(os.Stderr, "check error:", err)
		return 2
	}
	hr := float64(tot.evals) / time.Since(start).Hours()
	fmt.Printf("%s %s: %d simulated runs (%.0f/h), %.1f simulated hours, %d states, %d violations, wall %.1fs\n", prop, tier, tot.evals, hr, tot.simNS/3.6e12, len(tot.states), viol, time.Since(start).Seconds())
	return code
}

func sample(cs *Case) json.RawMessage {
	b, _ := json.Marshal(map[string]interface{}{"seed": cs.Seed, "config": cs.Cfg.String(), "history": readable(cs)})
	return b
}

func readable(cs *Case) []string {
	out := []string{"config " + cs.Cfg.String()}
	for i := range cs.Ops {
		out = append(out, fmt.Sprintf("%d: %s", i, cs.Ops[i].String()))
	}
	for c, prog := range cs.Progs {
		for i := range prog {
			out = append(out, fmt.Sprintf("client %d.%d: %s", c, i, prog[i].String()))
		}
	}
	for _, f := range cs.Faults {
		out = append(out, fmt.Sprintf("fault during op %d: %s #%d %s", f.Op, f.Site, f.K, f.Mode))
	}
	if len(cs.Cuts) > 0 {
		out = append(out, fmt.Sprintf("tape cut at %v", cs.Cuts))
	}
	if len(cs.Sched) > 0 {
		out = append(out, fmt.Sprintf("schedule %v", cs.Sched))
	}
	for _, l := range cs.L {
		out = append(out, l)
	}
	if len(cs.X) > 0 {
		b, _ := json.Marshal(cs.X)
		out = append(out, "parameters "+string(b))
	}
	return out
}

func writeEvidence(verif string, p *propDef, tier string, seed int64, t *totals, wall time.Duration, viol int) error {
	ops, faults, other := map[string]int64{}, map[string]int64{}, map[string]int64{}
	for k, v := range t.stats {
		if strings.HasPrefix(k, "fault:") {
			faults[strings.TrimPrefix(k, "fault:")] = v
		} else {
			other[k] = v
		}
	}
	for k, v := range t.classes {
		ops[k] = int64(v)
	}
	hr := wall.Hours()
	ev := map[string]interface{}{
		"property": p.id, "tier": tier, "seed": seed, "level": p.level,
		"coverage": map[string]interface{}{
			"evaluations":             t.evals,
			"distinct_nontrivial":     len(t.distinct),
			"rule":                    p.rule + " A run counts as distinct and non-trivial when its event log (calls, outcomes, bytes, faults) differs from every other run's and it reached at least two situations of the `situations` table.",
			"samples":                 t.samples,
			"runs_per_hour":           float64(t.evals) / hr,
			"seeds_per_hour":          float64(t.evals) / hr,
			"simulated_hours":         t.simNS / 3.6e12,
			"faults_injected":         faults,
			"counters":                other,
			"situations":              ops,
			"distinct_states":         len(t.states),
			"state_measure":           "distinct visible trees (names, kinds, sizes, modes), or for concurrent runs distinct interleavings",
			"real_components":         []string{"pkg/fs", "pkg/operations", "pkg/recovery", "pkg/persisters with the real SQLite engine", "pkg/tape", "pkg/cache", "pkg/inventory", "compression, encryption and signature codecs", "pkg/keys, pkg/utility"},
			"simulated_or_stubbed":    append([]string{"clock (testing/synctest)", "crypto/rand (seeded ChaCha8)", "goroutine scheduling at locks and go statements (overlay of sync.Mutex/RWMutex/go)", "drive, index, source and cache calls pass through fault seams"}, p.stub...),
			"goroutines_left_blocked": t.stats["goroutines_left_blocked_runs"],
		},
		"assumptions": p.assume,
		"wall_s":      wall.Seconds(),
		"violations":  viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Join(verif, "evidence"), 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(verif, "evidence", p.id+".json"), b, 0o644)
}

// confirm replays a case in fresh processes. Runs are exactly repeatable; should
// the code under test bring its own nondeterminism along, then the violation
// has to show up in every replay all the same.
func confirm(cs *Case, v *Violation) (h uint64, exact bool, err error) {
	exact = true
	for k := 0; k < 2 || !exact && k < 4; k++ {
		pl, err := newPool(1)
		if err != nil {
			return 0, false, err
		}
		res, err := pl.runOne(request{Case: cs})
		pl.close()
		if err != nil {
			return 0, false, err
		}
		if res.Err != "" {
			return 0, false, fmt.Errorf("%s", res.Err)
		}
		if res.Viol == nil || res.Viol.Key() != v.Key() {
			return 0, false, fmt.Errorf("replay gives %+v, want %s", res.Viol, v.Class)
		}
		if k > 0 && h != res.Hash {
			exact = false
		}
		h = res.Hash
	}
	return h, exact, nil
}

// say prints what may contain names which aren't valid UTF-8.
func say(format string, a ...interface{}) {
	fmt.Print(strings.ToValidUTF8(fmt.Sprintf(format, a...), "\ufffd"))
}
