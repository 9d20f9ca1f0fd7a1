package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"
)

type violation struct {
	Class  string   `json:"class"`
	Detail string   `json:"detail"`
	Paths  []string `json:"paths,omitempty"`
	Op     int      `json:"op"`
	Task   int      `json:"task,omitempty"`
	OpT    string   `json:"opt,omitempty"`
	Stack  string   `json:"stack,omitempty"`
}

type replayFile struct {
	Property  string            `json:"property"`
	Violation *violation        `json:"violation,omitempty"`
	Real      bool              `json:"realcrash,omitempty"`
	Race      bool              `json:"race,omitempty"`
	Coarse    bool              `json:"coarse,omitempty"`
	Tries     int               `json:"tries,omitempty"`
	Plans     []json.RawMessage `json:"plans"`
	Texts     []string          `json:"texts,omitempty"`
	Trace     []string          `json:"trace,omitempty"`
}

type answer struct {
	Viol       *violation `json:"viol,omitempty"`
	Attributed bool       `json:"attributed"`
	Hash       uint64     `json:"hash"`
	Harness    string     `json:"harness,omitempty"`
	Trace      []string   `json:"trace,omitempty"`
	At         int        `json:"at,omitempty"`
}

type stats struct {
	Ops      map[string]int64 `json:"ops"`
	Faults   map[string]int64 `json:"faults"`
	Probes   map[string]int64 `json:"probes"`
	SimMs    int64            `json:"sim_ms"`
	Steps    int64            `json:"steps"`
	Switches int64            `json:"switches"`
	GenBad   int64            `json:"gen_bad"`
	Bytes    int64            `json:"bytes"`
}

type found struct {
	Seed    uint64          `json:"seed"`
	Viol    *violation      `json:"viol"`
	Plan    json.RawMessage `json:"plan"`
	History []uint64        `json:"history"`
	Leak    bool            `json:"leak,omitempty"`

	race   bool
	start  uint64
	worker int
}

type report struct {
	Runs      int64            `json:"runs"`
	Effective int64            `json:"effective"`
	SelfCheck int64            `json:"selfchecks"`
	Fresh     int64            `json:"fresh"`
	Other     map[string]int64 `json:"other"`
	OtherEx   []string         `json:"other_examples"`
	Stats     *stats           `json:"stats"`
	Samples   []string         `json:"samples"`
	Found     *found           `json:"found,omitempty"`
	Harness   string           `json:"harness,omitempty"`
	Hashes    []uint64         `json:"hashes"`
	InterH    []uint64         `json:"inter_hashes"`
	TraceH    []uint64         `json:"trace_hashes"`
	Seconds   float64          `json:"seconds"`
	Distinct  int64            `json:"distinct"`
	Inter     int64            `json:"interleavings"`
}

// total is what all workers did.
type total struct {
	mu       sync.Mutex
	runs     int64
	raceRuns int64
	selfs    int64
	fresh    int64
	cpu      float64
	other    map[string]int64
	otherEx  []string
	stats    stats
	samples  []string
	hashes   map[uint64]bool
	inter    map[uint64]bool
	traces   map[uint64]bool
	moreD    int64
	moreI    int64
	dead     []string // workers that ended without a report
	harness  []string // seeds the harness could not handle
	leaks    []string
	unconf   []string
	founds   []*found
}

func addMap(a *map[string]int64, b map[string]int64) {
	if *a == nil {
		*a = map[string]int64{}
	}
	for k, v := range b {
		(*a)[k] += v
	}
}

func (t *total) add(r *report, race bool) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.runs += r.Runs
	if race {
		t.raceRuns += r.Runs
	}
	t.selfs += r.SelfCheck
	t.fresh += r.Fresh
	t.cpu += r.Seconds
	addMap(&t.other, r.Other)
	if len(t.otherEx) < 5 {
		t.otherEx = append(t.otherEx, r.OtherEx...)
	}
	if r.Stats != nil {
		addMap(&t.stats.Ops, r.Stats.Ops)
		addMap(&t.stats.Faults, r.Stats.Faults)
		addMap(&t.stats.Probes, r.Stats.Probes)
		t.stats.SimMs += r.Stats.SimMs
		t.stats.Steps += r.Stats.Steps
		t.stats.Switches += r.Stats.Switches
		t.stats.GenBad += r.Stats.GenBad
		t.stats.Bytes += r.Stats.Bytes
	}
	if len(t.samples) < 4 {
		t.samples = append(t.samples, r.Samples...)
	}
	for _, h := range r.Hashes {
		t.hashes[h] = true
	}
	for _, h := range r.InterH {
		t.inter[h] = true
	}
	for _, h := range r.TraceH {
		t.traces[h] = true
	}
	t.moreD += r.Distinct - int64(len(r.Hashes))
	if r.Harness != "" {
		t.harness = append(t.harness, r.Harness)
	}
}

// checker runs one check.
type checker struct {
	prop   string
	tier   string
	seed   uint64
	b      *Build
	bin    string
	race   string
	coarse bool
	secs   float64
	begin  time.Time
	stop   chan struct{}
	t      total
}

// leakCounts tells for which properties a result that depends on what happened
// before in the process is a violation by itself.
func leakCounts(prop string) bool {
	switch prop {
	case "C05", "C13", "C14", "C17":
		return true
	}
	return false
}

var nworkers = 8

// buildAny tries the finest instrumentation first.
func (c *checker) buildAny(race bool) error {
	var last error
	for _, mode := range []string{"full", "nodeps", "coarse", "plain"} {
		b, err := NewBuild(verifDir(), repoDir(), mode)
		if err != nil {
			last = err
			continue
		}
		if mode != "coarse" && mode != "plain" && b.Stats.ChanOps > 0 {
			// channels are not under control: no preemption inside the library
			b.Close()
			continue
		}
		bin, err := b.Harness(false)
		if err != nil {
			last = err
			b.Close()
			continue
		}
		if race {
			if c.race, err = b.Harness(true); err != nil {
				fmt.Fprintf(os.Stderr, "driver: no race build: %v\n", clip(err.Error(), 300))
				c.race = ""
			}
		}
		c.b, c.bin, c.coarse = b, bin, mode == "coarse" || mode == "plain"
		return nil
	}
	return last
}

func clip(s string, n int) string {
	if len(s) > n {
		s = s[:n] + "..."
	}
	return plain(s)
}

// plain keeps what is printed text: bytes which are not are written as escapes.
func plain(s string) string {
	var b strings.Builder
	for i, r := range s {
		switch {
		case r == '\n' || r >= ' ' && r < 0x7f:
			b.WriteRune(r)
		case r == utf8.RuneError && s[i] != 0xef:
			fmt.Fprintf(&b, "\\x%02x", s[i])
		case unicode.IsPrint(r):
			b.WriteRune(r)
		default:
			b.WriteString(strings.Trim(strconv.QuoteRune(r), "'"))
		}
	}
	return b.String()
}

func (c *checker) env(extra ...string) []string {
	env := append(os.Environ(), "GOMAXPROCS=1", "TMPDIR="+c.b.Dir, "GORACE=halt_on_error=0 exitcode=0 log_path=/dev/null")
	if c.coarse {
		env = append(env, "VERIF_SIM_COARSE=1")
	}
	return append(env, extra...)
}

// worker runs seeds until the time is over; it starts again after a seed that
// ends the process.
func (c *checker) worker(i int, race bool, until time.Time) {
	bin := c.bin
	if race {
		bin = c.race
	}
	next := c.seed*1000000007 + uint64(i)*100000003
	for round := 0; ; round++ {
		left := time.Until(until).Seconds()
		if left < 1 {
			return
		}
		select {
		case <-c.stop:
			return
		default:
		}
		progress := filepath.Join(c.b.Dir, fmt.Sprintf("progress-%d-%v", i, race))
		args := []string{"worker", "-prop", c.prop, "-start", fmt.Sprint(next), "-secs", fmt.Sprintf("%.1f", left), "-progress", progress}
		if c.coarse {
			args = append(args, "-coarse")
		}
		cmd := exec.Command(bin, args...)
		cmd.Env = c.env()
		var out, errb bytes.Buffer
		cmd.Stdout = &out
		cmd.Stderr = &limited{b: &errb, n: 200000}
		if err := cmd.Start(); err != nil {
			c.t.mu.Lock()
			c.t.dead = append(c.t.dead, err.Error())
			c.t.mu.Unlock()
			return
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var err error
		ended := false
		select {
		case err = <-done:
		case <-c.stop:
			ended = true
		case <-time.After(time.Duration(left+130) * time.Second):
			err = fmt.Errorf("the worker does not end")
		}
		if ended || err != nil && cmd.ProcessState == nil {
			cmd.Process.Kill()
			<-done
		}
		if ended {
			return
		}
		at := uint64(0)
		if b, e := os.ReadFile(progress); e == nil {
			fmt.Sscanf(strings.TrimLeft(strings.TrimSpace(string(b)), "0"), "%d", &at)
		}
		var r report
		if err == nil {
			if e := json.Unmarshal(out.Bytes(), &r); e != nil {
				err = e
			}
		}
		if err != nil {
			// the process died: run the seed alone
			c.t.mu.Lock()
			c.t.dead = append(c.t.dead, fmt.Sprintf("seed %d: %v %s", at, err, clip(lastLine(errb.String()), 200)))
			n := len(c.t.dead)
			c.t.mu.Unlock()
			if at == 0 || n > 40 {
				return
			}
			f := &found{Seed: at, Viol: &violation{Class: "fatal", Detail: fatalLine(errb.String())}, race: race, worker: i}
			if f.Plan = c.plan(at); f.Plan != nil && f.Viol.Detail != "" && c.offer(f) {
				return
			}
			next = at + 1
			continue
		}
		c.t.add(&r, race)
		if r.Found != nil {
			r.Found.race, r.Found.worker, r.Found.start = race, i, next
			next = r.Found.Seed + 1
			if r.Found.Leak && !leakCounts(c.prop) {
				c.t.mu.Lock()
				c.t.leaks = append(c.t.leaks, fmt.Sprintf("seed %d: %s", r.Found.Seed, clip(r.Found.Viol.Detail, 300)))
				c.t.mu.Unlock()
				continue
			}
			if c.offer(r.Found) {
				return
			}
			continue
		}
		if r.Harness != "" {
			next = at + 1
			if round > 300 {
				return
			}
			continue
		}
		return
	}
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func fatalLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error: ") || strings.Contains(l, "goroutine stack exceeds") {
			if strings.Contains(l, "out of memory") && !strings.Contains(s, "stack overflow") {
				return ""
			}
			return l
		}
	}
	return ""
}

func lastLine(s string) string {
	if f := fatalLine(s); f != "" {
		return f
	}
	l := strings.Split(strings.TrimSpace(s), "\n")
	return l[len(l)-1]
}

// plans generates the plans of seeds.
func (c *checker) plans(seeds []uint64) []json.RawMessage {
	if len(seeds) == 0 {
		return nil
	}
	name := filepath.Join(c.b.Dir, fmt.Sprintf("seeds-%d", time.Now().UnixNano()))
	defer os.Remove(name)
	last := len(seeds) - 1
	var b strings.Builder
	for _, s := range seeds[:last] {
		fmt.Fprintln(&b, s)
	}
	if os.WriteFile(name, []byte(b.String()), 0o644) != nil {
		return nil
	}
	out, err := c.command(100, c.bin, "gen", "-prop", c.prop, "-seeds", name, "-seed", fmt.Sprint(seeds[last]))
	if err != nil {
		return nil
	}
	var r replayFile
	if json.Unmarshal(out, &r) != nil {
		return nil
	}
	return r.Plans
}

// plan generates the plan of a seed.
func (c *checker) plan(seed uint64) json.RawMessage {
	out, err := c.command(60, c.bin, "gen", "-prop", c.prop, "-seed", fmt.Sprint(seed))
	if err != nil {
		return nil
	}
	var r replayFile
	if json.Unmarshal(out, &r) != nil || len(r.Plans) == 0 {
		return nil
	}
	return r.Plans[0]
}

func (c *checker) command(secs int, bin string, args ...string) ([]byte, error) {
	cmd := exec.Command(bin, args...)
	cmd.Env = c.env()
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &limited{b: &errb, n: 200000}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	t := time.AfterFunc(time.Duration(secs)*time.Second, func() { cmd.Process.Kill() })
	defer t.Stop()
	if err := cmd.Wait(); err != nil {
		return nil, fmt.Errorf("%v: %s", err, errb.String())
	}
	return out.Bytes(), nil
}

// run executes a replay in a new process.
func (c *checker) run(r *replayFile, trace bool) (*answer, error) {
	name := filepath.Join(c.b.Dir, fmt.Sprintf("run-%d.json", time.Now().UnixNano()))
	if err := writeJSON(name, r); err != nil {
		return nil, err
	}
	defer os.Remove(name)
	bin := c.bin
	if r.Race {
		bin = c.race
	}
	args := []string{"run"}
	if trace {
		args = append(args, "-trace")
	}
	begin := time.Now()
	out, err := c.command(100, bin, append(args, name)...)
	if err != nil {
		l := fatalLine(err.Error())
		if l == "" && time.Since(begin) > 95*time.Second {
			l = "the run does not end"
		}
		if l != "" {
			return &answer{Attributed: true, Viol: &violation{Class: "fatal", Detail: l}}, nil
		}
		return nil, err
	}
	var a answer
	if err := json.Unmarshal(out, &a); err != nil {
		return nil, err
	}
	return &a, nil
}

func writeJSON(name string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(name, append(b, '\n'), 0o644)
}

// offer takes a violation that a worker found, and tells whether the search is
// over.
func (c *checker) offer(f *found) bool {
	c.t.mu.Lock()
	defer c.t.mu.Unlock()
	c.t.founds = append(c.t.founds, f)
	select {
	case <-c.stop:
	default:
		close(c.stop)
	}
	return true
}

func hasCrash(plan json.RawMessage) bool {
	return bytes.Contains(plan, []byte(`"mode":"crash"`)) || bytes.Contains(plan, []byte(`"mode": "crash"`))
}

// confirm reproduces a violation in a fresh process, alone or after the runs
// that came before it.
func (c *checker) confirm(f *found) *replayFile {
	match := func(r *replayFile) *replayFile {
		for i := 0; i < max(1, r.Tries); i++ {
			a, err := c.run(r, false)
			if err == nil && a.Viol != nil && a.Attributed {
				r.Violation = a.Viol
				if a.At > 0 && a.At < len(r.Plans) {
					r.Plans = r.Plans[:a.At]
				}
				return r
			}
		}
		return nil
	}
	r := &replayFile{Property: c.prop, Plans: []json.RawMessage{f.Plan}, Race: f.race, Coarse: c.coarse, Violation: f.Viol}
	if f.race {
		r.Tries = 3
	}
	if f.Leak {
		return c.confirmLeak(f, r)
	}
	r.Real = hasCrash(f.Plan)
	if x := match(r); x != nil {
		return x
	}
	if r.Real {
		r.Real = false
		if match(r) != nil {
			// state crossed a simulated crash: not what a real crash does
			return nil
		}
	}
	end := time.Now().Add(100 * time.Second)
	for _, n := range []int{1, 5, 40, 200, 1000, 1 << 20} {
		if n > 200 && time.Now().After(end) {
			break
		}
		h := f.History
		if len(h) > n {
			h = h[len(h)-n:]
		}
		q := *r
		q.Plans = c.plans(h)
		q.Plans = append(q.Plans, f.Plan)
		if x := match(&q); x != nil {
			return x
		}
		if len(f.History) <= n {
			break
		}
	}
	return nil
}

// confirmLeak shows that a run gives other results after other runs (or after
// itself) than alone.
func (c *checker) confirmLeak(f *found, r *replayFile) *replayFile {
	var alone *answer
	for i := 0; i < 3; i++ {
		a, err := c.run(r, false)
		if err != nil || a.Harness != "" {
			return nil
		}
		if alone != nil && a.Hash != alone.Hash {
			return nil // not even steady alone: not under control of the simulation
		}
		alone = a
	}
	h := append([]uint64{}, f.History...)
	if len(h) > 60 {
		h = h[len(h)-60:]
	}
	q := *r
	q.Plans = []json.RawMessage{f.Plan, f.Plan}
	for round := 0; round < 2; round++ {
		if round == 1 {
			q.Plans = c.plans(h)
			q.Plans = append(q.Plans, f.Plan)
		}
		differs := func(q *replayFile) bool {
			a, err := c.run(q, false)
			return err == nil && a.Harness == "" && a.Hash != alone.Hash
		}
		if !differs(&q) || !differs(&q) {
			continue
		}
		// fewer runs before
		end := time.Now().Add(20 * time.Second)
		for i := 0; i < len(q.Plans)-1 && time.Now().Before(end); {
			z := q
			z.Plans = append(append([]json.RawMessage{}, q.Plans[:i]...), q.Plans[i+1:]...)
			if differs(&z) {
				q = z
			} else {
				i++
			}
		}
		q.Violation = f.Viol
		return &q
	}
	return nil
}

// shrink makes the replay smaller and tells whether the result reproduces.
func (c *checker) shrink(r *replayFile, secs float64, to string) bool {
	in := to + ".in"
	if writeJSON(in, r) != nil {
		return false
	}
	defer os.Remove(in)
	bin := c.bin
	if r.Race {
		bin = c.race
	}
	if r.Violation.Class != "leak" {
		if _, err := c.command(int(secs)*2+60, bin, "shrink", "-secs", fmt.Sprintf("%.0f", secs), "-o", to, in); err == nil {
			var q replayFile
			b, e := os.ReadFile(to)
			if e == nil && json.Unmarshal(b, &q) == nil {
				q.Coarse = c.coarse
				for i := 0; i < 1+q.Tries; i++ {
					a, err := c.run(&q, true)
					if err == nil && a.Viol != nil && a.Attributed && a.Viol.Class == r.Violation.Class {
						q.Violation, q.Trace = a.Viol, a.Trace
						*r = q
						return writeJSON(to, &q) == nil
					}
				}
			}
		}
	}
	return writeJSON(to, r) == nil
}

func check(prop, tier string, seed uint64) int {
	c := &checker{prop: prop, tier: tier, seed: seed, begin: time.Now(), stop: make(chan struct{})}
	c.t.hashes, c.t.inter, c.t.traces = map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	c.secs = 50
	shrinkSecs := 20.0
	if tier == "thorough" {
		c.secs = 600
		shrinkSecs = 60
	}
	if s := os.Getenv("VERIF_SIM_SECS"); s != "" {
		fmt.Sscan(s, &c.secs)
	}
	evidence := filepath.Join(verifDir(), "evidence", prop+".json")
	os.MkdirAll(filepath.Dir(evidence), 0o755)
	os.Remove(evidence)
	if err := c.buildAny(prop == "C14" || prop == "C15"); err != nil {
		fatal("%v", err)
	}
	defer c.b.Close()
	end := c.begin.Add(time.Duration((c.secs + 120) * float64(time.Second)))
	until := time.Now().Add(time.Duration(c.secs * float64(time.Second)))
	var result *replayFile
	nfound := 0
	path := ""
	for round := 0; round < 12 && result == nil; round++ {
		c.stop = make(chan struct{})
		c.t.founds = nil
		var wg sync.WaitGroup
		for i := 0; i < nworkers; i++ {
			race := c.race != "" && i%4 == 3
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				c.worker(round*nworkers+i, race, until)
			}(i)
		}
		wg.Wait()
		if len(c.t.founds) == 0 {
			break
		}
		sort.Slice(c.t.founds, func(i, j int) bool { return len(c.t.founds[i].Plan) < len(c.t.founds[j].Plan) })
		for _, f := range c.t.founds {
			r := c.confirm(f)
			if r == nil {
				c.t.unconf = append(c.t.unconf, fmt.Sprintf("seed %d: %s %s", f.Seed, f.Viol.Class, clip(f.Viol.Detail, 400)))
				continue
			}
			nfound++
			result = r
			path = filepath.Join(verifDir(), "replays", fmt.Sprintf("%s-%d.json", prop, f.Seed))
			break
		}
		if time.Now().After(end) {
			break
		}
	}
	if result != nil {
		os.MkdirAll(filepath.Dir(path), 0o755)
		if !c.shrink(result, shrinkSecs, path) {
			writeJSON(path, result)
		}
	}
	known := c.known()
	c.evidence(evidence, nfound, known)
	for _, k := range known {
		fmt.Println("KNOWN-FINDING: property=" + prop + " " + k)
	}
	fmt.Printf("%s %s: %d runs in %.0f s on %d workers, %d distinct, %d interleavings\n", prop, tier, c.t.runs, time.Since(c.begin).Seconds(), nworkers, len(c.t.hashes), len(c.t.inter))
	for _, s := range c.t.otherEx {
		fmt.Fprintln(os.Stderr, "note: violation of another property:", clip(s, 300))
	}
	for _, s := range c.t.unconf {
		fmt.Fprintln(os.Stderr, "note: not reproduced:", s)
	}
	for _, s := range c.t.leaks {
		fmt.Fprintln(os.Stderr, "note: depends on earlier runs:", s)
	}
	for i, s := range append(append([]string{}, c.t.harness...), c.t.dead...) {
		if i < 5 {
			fmt.Fprintln(os.Stderr, "note: harness:", clip(s, 600))
		}
	}
	if result != nil {
		fmt.Printf("%s: %s\n", result.Violation.Class, clip(result.Violation.Detail, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return exitViolation
	}
	if c.t.runs < 20 || int64(len(c.t.harness)+len(c.t.dead))*4 > c.t.runs {
		fmt.Fprintln(os.Stderr, "driver: too few runs for an answer")
		return exitNoAnswer
	}
	return exitHeld
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

/* ---- known findings ---- */

// known runs the probes of the listed findings of the property.
func (c *checker) known() []string {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 4 || f[1] != "property="+c.prop {
			continue
		}
		id := strings.TrimPrefix(f[2], "id=")
		o, err := c.command(60, c.bin, "probe", id)
		if err != nil {
			fmt.Fprintf(os.Stderr, "note: probe %s: %v\n", id, clip(err.Error(), 200))
			continue
		}
		if strings.TrimSpace(string(o)) == "reproduced" {
			out = append(out, id+" "+strings.Join(f[3:], " "))
		} else {
			fmt.Fprintf(os.Stderr, "note: known finding %s: %s\n", id, clip(strings.TrimSpace(string(o)), 300))
		}
	}
	return out
}

/* ---- replay ---- */

func replay(name string) int {
	b, err := os.ReadFile(name)
	if err != nil {
		fatal("%v", err)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	c := &checker{prop: r.Property}
	if err := c.buildAny(r.Race); err != nil {
		fatal("%v", err)
	}
	defer c.b.Close()
	if r.Violation != nil && r.Violation.Class == "leak" {
		alone := r
		alone.Plans = r.Plans[len(r.Plans)-1:]
		x, err1 := c.run(&alone, false)
		y, err2 := c.run(&r, false)
		if err1 != nil || err2 != nil {
			fatal("%v %v", err1, err2)
		}
		if x.Hash != y.Hash {
			fmt.Printf("leak: %s\nVIOLATION property=%s replay=%s\n", plain(r.Violation.Detail), r.Property, name)
			return exitViolation
		}
		fmt.Println("not reproduced")
		return exitHeld
	}
	for i := 0; i < 1+r.Tries; i++ {
		a, err := c.run(&r, true)
		if err != nil {
			fatal("%v", err)
		}
		if a.Viol != nil && a.Attributed {
			for _, t := range a.Trace {
				fmt.Println(plain(t))
			}
			fmt.Printf("%s: %s\n", a.Viol.Class, plain(a.Viol.Detail))
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, name)
			return exitViolation
		}
	}
	fmt.Println("not reproduced")
	return exitHeld
}
