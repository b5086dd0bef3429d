package main

import (
	crand "crypto/rand"
	"errors"
	"fmt"
	"hash"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"strings"
	"testing/synctest"
	"time"

	"github.com/pojntfx/stfs/pkg/simrt"
)

// World is one simulated run: one bubble, one clock, one scheduler, one seed.
type World struct {
	cs      *Case
	dir     string
	seq     int
	open    []*Sys
	explore bool
	tape    *SimTape
	tmpl    *SimTape            // where the file marks are
	tapes   map[string]*SimTape // by the path of their drive
	sched   *simrt.Sched
	log     hash.Hash64
	logSink func(string)
	prog    int

	opLabel string
	viol    *Violation
	pin     func(cs *Case) // narrows a case down to the variant that is running
	simTime time.Duration

	stats   map[string]int64
	classes map[string]bool
	states  map[uint64]bool
}

// Result of one run.
type Result struct {
	Viol    *Violation       `json:"viol,omitempty"`
	Err     string           `json:"err,omitempty"`
	Hash    uint64           `json:"hash"`
	SimNS   int64            `json:"sim_ns"`
	Stats   map[string]int64 `json:"stats,omitempty"`
	Classes []string         `json:"classes,omitempty"`
	States  []uint64         `json:"states,omitempty"`
	Sched   []int            `json:"sched,omitempty"`
	Pin     *Case            `json:"pin,omitempty"`
}

type violPanic struct{ v *Violation }

// fail ends the run with a violation.
func (w *World) fail(class, detail string, args ...interface{}) {
	panic(violPanic{&Violation{Class: class, Where: w.opLabel, Detail: scrub(fmt.Sprintf(detail, args...))}})
}

var scratchRe = regexp.MustCompile(`[^ "':]*stfssim-[^ "':]*`)

// scrub removes names of scratch files, which are not the same in every run.
func scrub(s string) string {
	if strings.Contains(s, "stfssim-") {
		return scratchRe.ReplaceAllString(s, "<scratch>")
	}
	return s
}

func (w *World) logf(f string, a ...interface{}) {
	s := scrub(fmt.Sprintf(f, a...))
	w.log.Write([]byte(s))
	w.log.Write([]byte{0})
	if w.logSink != nil {
		w.logSink(s)
	}
}

func (w *World) count(k string)        { w.stats[k]++ }
func (w *World) add(k string, n int64) { w.stats[k] += n }

// class notes a reached situation (coverage of the search).
func (w *World) class(f string, a ...interface{}) { w.classes[fmt.Sprintf(f, a...)] = true }

func (w *World) state(s string) { w.states[hashStr(s)] = true }

func (w *World) path(name string) string {
	w.seq++
	d := filepath.Join(w.dir, fmt.Sprintf("%03d", w.seq))
	must(os.MkdirAll(d, 0o755))
	return filepath.Join(d, name)
}

// api runs one call into the system under test. A panic or a runaway call is
// an outcome of the call, not of the harness.
func (w *World) api(y *Sys, label string, f func() error) (err error) {
	w.prog++
	simrt.Progress(w.sched)
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case violPanic, harnessErr, skipRun:
				panic(r)
			case budgetExceeded:
				w.fail("hang", "%s does not return: still calling %s after %d drive/index operations", label, x.site, y.seam.budget)
			default:
				w.fail("crash", "%s panics: %v\n%s", label, r, trimStack(string(debug.Stack())))
			}
		}
	}()
	return f()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i+1], "pojntfx/stfs") || strings.Contains(lines[i+1], "/repo/") || strings.Contains(lines[i+1], "/f0") {
			out = append(out, strings.TrimSpace(lines[i]))
		}
		if len(out) > 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

var scratch string

func scratchRoot() string {
	if scratch != "" {
		return scratch
	}
	base := os.TempDir()
	shm := "/dev/shm"
	if strings.Contains(base, "stfssim-p-") { // a worker: the parent removes it, however the worker ends
		shm = base
	}
	if st, err := os.Stat(shm); err == nil && st.IsDir() {
		if d, err := os.MkdirTemp(shm, "stfssim-"); err == nil {
			probe := filepath.Join(d, "probe")
			if os.WriteFile(probe, make([]byte, 1<<20), 0o600) == nil {
				os.Remove(probe)
				scratch = d
			} else {
				os.RemoveAll(d)
			}
		}
	}
	if scratch == "" {
		d, err := os.MkdirTemp(base, "stfssim-")
		must(err)
		scratch = d
	}
	os.Setenv("TMPDIR", scratch)
	return scratch
}

// initWorker prepares what all runs of a process share.
func initWorker() {
	scratchRoot()
	var perr interface{}
	bubble(func() {
		defer func() { perr = recover() }()
		old := crand.Reader
		crand.Reader = entropy(4242)
		initKeys()
		crand.Reader = old
	})
	if perr != nil {
		panic(perr)
	}
}

func bubble(f func()) (leaked bool) {
	defer func() {
		if r := recover(); r != nil {
			if strings.Contains(fmt.Sprint(r), "blocked goroutines remain") {
				leaked = true
				return
			}
			panic(r)
		}
	}()
	synctest.Run(f)
	return false
}

// runCase executes one case: the deterministic simulation proper.
func runCase(cs *Case, logSink func(string)) (res Result) {
	p := props[cs.Prop]
	w := &World{cs: cs, log: fnv.New64a(), logSink: logSink, stats: map[string]int64{}, classes: map[string]bool{}, states: map[uint64]bool{}}
	w.dir = filepath.Join(scratchRoot(), "run")
	must(os.RemoveAll(w.dir))
	must(os.MkdirAll(w.dir, 0o755))
	defer os.RemoveAll(w.dir)
	oldRand := crand.Reader
	defer func() { crand.Reader = oldRand }()
	crand.Reader = entropy(cs.Seed ^ 0xabcdef)
	var herr error
	leaked := bubble(func() {
		start := time.Now()
		time.Sleep(24*time.Hour + time.Duration(cs.Seed%1000003)*time.Millisecond)
		s := &simrt.Sched{Explore: false}
		w.sched = s
		simrt.Install(s)
		if p.concurrent {
			herr = guard(w, func() { p.exec(w, cs) })
		} else {
			s.Client(func() { herr = guard(w, func() { p.exec(w, cs) }) })
			out := s.Drive(func(c []simrt.Choice) int { return 0 }, 5_000_000)
			if out.Deadlock && w.viol == nil && herr == nil {
				w.viol = &Violation{Class: "hang", Where: w.opLabel, Detail: "call never returns: every goroutine is blocked: " + strings.Join(out.Waiting, ", ")}
			}
			if out.Steps && w.viol == nil {
				herr = errors.New("step budget exhausted")
			}
		}
		if msg, stack, dead := s.Crashed(); dead && w.viol == nil && herr == nil {
			w.viol = &Violation{Class: "crash", Where: w.opLabel, Detail: scrub(msg) + "\n" + trimStack(stack)}
		}
		w.simTime = time.Since(start)
		if herr == nil {
			for _, y := range w.open {
				y.close()
			}
		}
		simrt.Install(nil)
	})
	simrt.Install(nil)
	if leaked {
		w.count("goroutines_left_blocked_runs")
	}
	if herr != nil {
		res.Err = herr.Error()
	}
	res.Viol = w.viol
	if w.viol != nil {
		if w.pin != nil {
			res.Pin = cs.Clone()
			w.pin(res.Pin)
		}
		w.logf("VIOL %s %s", w.viol.Class, w.viol.Where)
	}
	res.Hash = w.log.Sum64()
	res.SimNS = int64(w.simTime)
	res.Stats = w.stats
	for k := range w.classes {
		res.Classes = append(res.Classes, k)
	}
	for k := range w.states {
		res.States = append(res.States, k)
	}
	res.Sched = cs.Sched
	return res
}

func guard(w *World, f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case violPanic:
				w.viol = x.v
			case skipRun:
				w.count("skipped")
			case harnessErr:
				err = fmt.Errorf("harness: %v (at %s)\n%s", x.err, w.opLabel, debug.Stack())
			case budgetExceeded:
				w.viol = &Violation{Class: "hang", Where: w.opLabel, Detail: "still calling " + x.site}
			default:
				err = fmt.Errorf("harness panic: %v (at %s)\n%s", r, w.opLabel, debug.Stack())
			}
		}
	}()
	f()
	return nil
}

// advance moves the simulated clock.
func (w *World) advance(d time.Duration) {
	simrt.Progress(w.sched)
	simrt.Sleep(w.sched, d)
	simrt.Progress(w.sched)
}
