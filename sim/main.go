package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// propDef is one property's check.
type propDef struct {
	id         string
	gen        func(r *Rng, i int, thorough bool) *Case
	exec       func(w *World, cs *Case)
	concurrent bool
	level      string
	rule       string
	quick      int // runs in the quick tier
	stub       []string
	assume     []string
}

var props = map[string]*propDef{}

func register(p *propDef) { props[p.id] = p }

type request struct {
	Prop     string `json:"prop,omitempty"`
	I        int    `json:"i"`
	Seed     uint64 `json:"seed"`
	Thorough bool   `json:"th,omitempty"`
	Case     *Case  `json:"case,omitempty"`
	Log      bool   `json:"log,omitempty"`
}

type response struct {
	I   int    `json:"i"`
	R   Result `json:"r"`
	Log string `json:"log,omitempty"`
}

func makeCase(prop string, i int, seed uint64, thorough bool) *Case {
	cs := props[prop].gen(NewRng(seed), i, thorough)
	cs.Prop, cs.Seed = prop, seed
	return cs
}

// worker serves runs over stdin/stdout, one at a time.
func worker() {
	out := bufio.NewWriter(os.Stdout)
	real := os.Stdout
	os.Stdout = os.Stderr // nothing of the system under test may disturb the protocol
	_ = real
	debug.SetGCPercent(200)
	initWorker()
	defer os.RemoveAll(scratch)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var q request
		if err := json.Unmarshal(sc.Bytes(), &q); err != nil {
			panic(err)
		}
		var sink func(string)
		var lb strings.Builder
		if q.Log {
			sink = func(s string) { lb.WriteString(s); lb.WriteByte('\n') }
		}
		cs := q.Case
		if cs == nil {
			cs = makeCase(q.Prop, q.I, q.Seed, q.Thorough)
		}
		res := runCase(cs, sink)
		b, err := json.Marshal(response{I: q.I, R: res, Log: lb.String()})
		if err != nil {
			panic(err)
		}
		out.Write(b)
		out.WriteByte('\n')
		if err := out.Flush(); err != nil {
			return
		}
	}
}

type proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errb *tailBuf
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte(nil), t.b[len(t.b)-1<<15:]...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

var workDir string

func startWorker() (*proc, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	c := exec.Command(exe, "worker")
	c.Dir = workDir // sqlite DSNs make stfs create directories below the working directory
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "TZ=UTC", "TMPDIR="+workDir, "GORACE=halt_on_error=0 exitcode=0 history_size=3 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(workDir, "race"))
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p := &proc{cmd: c, in: in, out: bufio.NewReaderSize(out, 1<<20), errb: &tailBuf{}}
	c.Stderr = p.errb
	if err := c.Start(); err != nil {
		return nil, err
	}
	return p, nil
}

func (p *proc) stop() {
	p.in.Close()
	done := make(chan struct{})
	go func() { p.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		p.cmd.Process.Kill()
		<-done
	}
}

var errWall = fmt.Errorf("run exceeded its wall-clock limit")

// call runs one request; a dead worker is reported with its last output.
func (p *proc) call(q request, limit time.Duration) (response, error) {
	b, _ := json.Marshal(q)
	b = append(b, '\n')
	if _, err := p.in.Write(b); err != nil {
		return response{}, fmt.Errorf("worker died: %s", p.errb)
	}
	type rd struct {
		line []byte
		err  error
	}
	ch := make(chan rd, 1)
	go func() {
		l, err := p.out.ReadBytes('\n')
		ch <- rd{l, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			p.cmd.Wait()
			return response{}, fmt.Errorf("worker died: %s", p.errb)
		}
		var resp response
		if err := json.Unmarshal(r.line, &resp); err != nil {
			return response{}, err
		}
		return resp, nil
	case <-time.After(limit):
		p.cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(300 * time.Millisecond)
		p.cmd.Process.Kill()
		<-ch
		return response{}, errWall
	}
}

// pool hands out workers.
type pool struct {
	free  chan *proc
	limit time.Duration
	dump  func(string)
}

func newPool(n int) (*pool, error) {
	p := &pool{free: make(chan *proc, n), limit: 60 * time.Second}
	for i := 0; i < n; i++ {
		w, err := startWorker()
		if err != nil {
			return nil, err
		}
		p.free <- w
	}
	return p, nil
}

func (p *pool) call(q request) (response, error) {
	w := <-p.free
	r, err := w.call(q, p.limit)
	if err != nil {
		if err == errWall {
			err = fmt.Errorf("%w\n%s", errWall, w.errb)
		}
		nw, e2 := startWorker()
		if e2 != nil {
			p.free <- w
			return r, e2
		}
		w = nw
	}
	p.free <- w
	return r, err
}

func (p *pool) close() {
	for len(p.free) > 0 {
		(<-p.free).stop()
	}
}

// runOne runs a case; the death of the process is an outcome of the run.
func (p *pool) runOne(q request) (Result, error) {
	r, err := p.call(q)
	if err == nil {
		return r.R, nil
	}
	r2, err2 := p.call(q)
	if errors.Is(err, errWall) {
		if err2 == nil {
			return r2.R, nil // a slow machine, not the run
		}
		if errors.Is(err2, errWall) {
			return Result{Viol: &Violation{Class: "stall", Where: "process", Detail: "the run does not end although its clock and its schedule are simulated: " + busyStack(err2.Error())}}, nil
		}
		return Result{}, err2
	}
	if err2 == nil {
		return r2.R, fmt.Errorf("worker died once, not reproducible: %v", err)
	}
	if strings.Contains(err2.Error(), "out of memory") || strings.Contains(err2.Error(), "signal: killed") {
		return Result{}, err2
	}
	first := ""
	for _, l := range strings.Split(err2.Error(), "\n") {
		if strings.Contains(l, "panic:") || strings.Contains(l, "fatal error:") {
			first = l
			break
		}
	}
	if first == "" || strings.Contains(err2.Error(), "harness") {
		return Result{}, err2
	}
	return Result{Viol: &Violation{Class: "crash", Where: "process", Detail: first + "\n" + trimStack(err2.Error())}}, nil
}

// busyStack is the stack of the goroutine that was running.
func busyStack(dump string) string {
	for _, g := range strings.Split(dump, "\n\n") {
		if strings.Contains(g, "[running") && strings.Contains(g, "pojntfx/stfs") {
			return trimStack(g)
		}
	}
	return ""
}

type totals struct {
	evals    int
	simNS    float64
	stats    map[string]int64
	classes  map[string]int
	states   map[uint64]bool
	distinct map[uint64]bool
	nontriv  int
	samples  []json.RawMessage
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: sim worker | check PROP | replay FILE | run PROP SEED [log] | det PROP N | gen PROP SEED")
	os.Exit(2)
}

func envInt(k string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return def
}

func setup() {
	var err error
	base := os.TempDir()
	if st, e := os.Stat("/dev/shm"); e == nil && st.IsDir() {
		if d, e := os.MkdirTemp("/dev/shm", "stfssim-p-"); e == nil {
			workDir = d
		}
	}
	if workDir == "" {
		workDir, err = os.MkdirTemp(base, "stfssim-p-")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	c := make(chan os.Signal, 1)
	signal.Notify(c, os.Interrupt, syscall.SIGTERM)
	go func() {
		<-c
		os.RemoveAll(workDir)
		os.Exit(2)
	}()
}

func finish(code int) {
	os.RemoveAll(workDir)
	os.Exit(code)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "worker":
		worker()
	case "check":
		setup()
		finish(check(os.Args[2]))
	case "replay":
		setup()
		finish(replay(os.Args[2], len(os.Args) > 3))
	case "run":
		setup()
		seed, err := strconv.ParseUint(os.Args[3], 10, 64)
		if err != nil {
			usage()
		}
		finish(runSeed(os.Args[2], seed))
	case "det":
		setup()
		n, _ := strconv.Atoi(os.Args[3])
		finish(det(os.Args[2], n))
	default:
		usage()
	}
}

func runSeed(prop string, i uint64) int {
	p, err := newPool(1)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer p.close()
	base := envInt("VERIF_SEED", 1)
	q := request{Prop: prop, I: int(i), Seed: seedFor(base, prop, int(i)), Log: true, Thorough: os.Getenv("VERIF_TIER") == "thorough"}
	b, _ := json.MarshalIndent(makeCase(prop, q.I, q.Seed, q.Thorough), "", " ")
	fmt.Println(string(b))
	t := time.Now()
	r, err := p.call(q)
	fmt.Println(r.Log)
	fmt.Println("err", err, "wall", time.Since(t))
	b, _ = json.MarshalIndent(r.R, "", " ")
	fmt.Println(string(b))
	return 0
}

// replay re-executes a recorded run.
func replay(file string, log bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil || rf.Case == nil {
		fmt.Fprintln(os.Stderr, "not a replay file:", err)
		return 2
	}
	p, err := newPool(1)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer p.close()
	if log {
		r, _ := p.call(request{Case: rf.Case, Log: true})
		fmt.Println(r.Log)
	}
	res, err := p.runOne(request{Case: rf.Case})
	if err != nil {
		fmt.Fprintln(os.Stderr, "replay failed:", err)
		return 2
	}
	if res.Err != "" {
		fmt.Fprintln(os.Stderr, "replay failed:", res.Err)
		return 2
	}
	if res.Viol == nil {
		fmt.Printf("no violation: the recorded run holds on this tree (recorded: %s)\n", rf.Viol.Class)
		return 0
	}
	say("%s: %s\n%s\n", res.Viol.Class, res.Viol.Where, res.Viol.Detail)
	fmt.Printf("event log hash %016x (recorded %016x)\n", res.Hash, rf.Hash)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Case.Prop, file)
	return 1
}

type replayFile struct {
	Property string     `json:"property"`
	Viol     *Violation `json:"violation"`
	Seed     uint64     `json:"seed"`
	Hash     uint64     `json:"hash"`
	Readable []string   `json:"readable"`
	Original int        `json:"original_ops"`
	Case     *Case      `json:"case"`
	Note     string     `json:"note,omitempty"`
}

// det runs every case twice, in different processes, and compares event logs.
func det(prop string, n int) int {
	p, err := newPool(8)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer p.close()
	base := envInt("VERIF_SEED", 1)
	hash := make([][]uint64, n)
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	rounds := 3
	for k := 0; k < rounds; k++ {
		sem := make(chan bool, []int{8, 3, 8}[k])
		for i := 0; i < n; i++ {
			wg.Add(1)
			sem <- true
			j := i
			if k == 2 {
				j = n - 1 - i
			}
			go func() {
				defer wg.Done()
				r, err := p.call(request{Prop: prop, I: j, Seed: seedFor(base, prop, j)})
				mu.Lock()
				if err != nil || r.R.Err != "" {
					fmt.Println(j, err, r.R.Err)
					bad++
				}
				hash[j] = append(hash[j], r.R.Hash)
				mu.Unlock()
				<-sem
			}()
		}
		wg.Wait()
	}
	for i, h := range hash {
		for _, x := range h {
			if x != h[0] {
				fmt.Printf("%s run %d diverges: %x\n", prop, i, h)
				bad++
				break
			}
		}
	}
	fmt.Printf("%s: %d runs x%d, %d divergent\n", prop, n, rounds, bad)
	if bad > 0 {
		return 1
	}
	return 0
}

func sortedKeys(m map[string]int64) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 2 {
		n = 2
	}
	return n
}
