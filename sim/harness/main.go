package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verif.local/simrt"
)

// Replay is a replay file: the plans are executed one after the other in one
// process, and the last one shows the violation.
type Replay struct {
	Property  string     `json:"property"`
	Violation *Violation `json:"violation,omitempty"`
	Real      bool       `json:"realcrash,omitempty"` // every crash ends the real process
	Race      bool       `json:"race,omitempty"`      // needs the race build
	Tries     int        `json:"tries,omitempty"`
	Plans     []*Plan    `json:"plans"`
	Texts     []string   `json:"texts,omitempty"` // the documents of the last plan, for readers
	Trace     []string   `json:"trace,omitempty"`
}

// Answer of the run mode.
type Answer struct {
	Viol       *Violation `json:"viol,omitempty"`
	Attributed bool       `json:"attributed"`
	Hash       uint64     `json:"hash"`
	Harness    string     `json:"harness,omitempty"`
	Trace      []string   `json:"trace,omitempty"`
	At         int        `json:"at,omitempty"` // how many plans it took, if not all
}

// Report of a worker.
type Report struct {
	Runs      int64            `json:"runs"`
	Effective int64            `json:"effective"`
	Distinct  int64            `json:"distinct"`
	Inter     int64            `json:"interleavings"`
	SelfCheck int64            `json:"selfchecks"`
	Fresh     int64            `json:"fresh"`
	Other     map[string]int64 `json:"other"` // violations of other properties
	OtherEx   []string         `json:"other_examples"`
	Stats     *Stats           `json:"stats"`
	Samples   []string         `json:"samples"`
	Found     *Found           `json:"found,omitempty"`
	Harness   string           `json:"harness,omitempty"`
	Hashes    []uint64         `json:"hashes"`
	InterH    []uint64         `json:"inter_hashes"`
	TraceH    []uint64         `json:"trace_hashes"`
	Seconds   float64          `json:"seconds"`
}

// Found is a violation with everything needed to reproduce it.
type Found struct {
	Seed    uint64     `json:"seed"`
	Viol    *Violation `json:"viol"`
	Plan    *Plan      `json:"plan"`
	History []uint64   `json:"history"` // seeds run before in the same process
	Leak    bool       `json:"leak,omitempty"`
}

func main() {
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness worker|run|shrink|probe ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "run":
		runMode(os.Args[2:])
	case "shrink":
		shrinkMode(os.Args[2:])
	case "probe":
		probeMode(os.Args[2:])
	case "gen":
		genMode(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(2)
}

func genMode(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	seeds := fs.String("seeds", "", "file with more seeds that come first")
	fs.Parse(args)
	r := &Replay{Property: *prop}
	if *seeds != "" {
		b, err := os.ReadFile(*seeds)
		if err != nil {
			die("%v", err)
		}
		for _, f := range strings.Fields(string(b)) {
			s, _ := strconv.ParseUint(f, 10, 64)
			r.Plans = append(r.Plans, genPlan(*prop, s, newStats()))
		}
	}
	p := genPlan(*prop, *seed, newStats())
	r.Plans = append(r.Plans, p)
	for _, d := range p.Docs {
		r.Texts = append(r.Texts, d.text())
	}
	json.NewEncoder(os.Stdout).Encode(r)
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	start := fs.Uint64("start", 1, "")
	stride := fs.Uint64("stride", 1, "")
	secs := fs.Float64("secs", 10, "")
	max := fs.Int64("max", 1<<40, "")
	progress := fs.String("progress", "", "")
	ignore := fs.String("ignore", "", "seeds to leave out")
	all := fs.Bool("all", false, "treat every violation as found (development)")
	dbg := fs.Bool("dbg", false, "")
	coarse := fs.Bool("coarse", false, "")
	fs.Parse(args)
	simrt.SetCoarse(*coarse)
	debugGen = *dbg
	skip := map[string]bool{}
	for _, s := range strings.Split(*ignore, ",") {
		skip[s] = true
	}
	var pf *os.File
	if *progress != "" {
		pf, _ = os.Create(*progress)
	}
	rep := &Report{Other: map[string]int64{}, Stats: newStats()}
	seen, inter, traces := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	var history []uint64
	begin := time.Now()
	watchWorker(rep, &history, *all)
	for seed := *start; rep.Runs < *max; seed += *stride {
		if time.Since(begin).Seconds() > *secs {
			break
		}
		tick()
		if skip[fmt.Sprint(seed)] {
			continue
		}
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%020d\n", seed)), 0)
		}
		p := genPlan(*prop, seed, rep.Stats)
		p.Race = raceBuild
		nowPlan.Store(p)
		res := p.execute(rep.Stats)
		rep.Runs++
		if res.Harness != "" {
			rep.Harness = fmt.Sprintf("seed %d: %s", seed, res.Harness)
			break
		}
		h := hashPlan(p)
		if res.Effect > 1 && !seen[h] {
			rep.Distinct++
			seen[h] = true
		}
		inter[res.Inter] = true
		traces[res.Hash] = true
		if len(rep.Samples) < 2 && rep.Runs%7 == 3 {
			rep.Samples = append(rep.Samples, describe(p, res))
		}
		if res.Viol != nil {
			if *all || p.attributed(res.Viol) {
				if len(res.Switches) > 0 {
					p.Sched, p.UseSch = res.Switches, true
				}
				rep.Found = &Found{Seed: seed, Viol: res.Viol, Plan: p, History: history}
				break
			}
			k := res.Viol.Class
			rep.Other[k]++
			if len(rep.OtherEx) < 5 {
				rep.OtherEx = append(rep.OtherEx, fmt.Sprintf("seed %d: %s", seed, clip(res.Viol.Error())))
			}
		}
		if rep.Runs%53 == 0 && !raceBuild {
			// the same plan gives the same run
			rep.SelfCheck++
			q := genPlan(*prop, seed, newStats())
			again := q.execute(newStats())
			if again.Hash != res.Hash || again.Inter != res.Inter {
				rep.Found = &Found{Seed: seed, Plan: p, History: history, Leak: true,
					Viol: &Violation{Class: "leak", Detail: fmt.Sprintf("the same simulated run gives other results the second time: %s", firstOutcome(res, again))}}
				break
			}
		}
		if rep.Runs%301 == 0 && !raceBuild {
			// a fresh process gives the same run
			rep.Fresh++
			ans, err := fresh(&Replay{Property: *prop, Plans: []*Plan{p}}, false)
			if err == nil && ans.Hash != res.Hash {
				rep.Found = &Found{Seed: seed, Plan: p, History: append([]uint64{}, history...), Leak: true,
					Viol: &Violation{Class: "leak", Detail: "the simulated run gives other results in a fresh process than after other runs"}}
				break
			}
		}
		if rep.Runs%97 == 11 && raceBuild && len(p.Tasks) > 0 {
			// the first thing that happens in a process
			rep.Fresh++
			q := genPlan(*prop, seed, newStats())
			q.Race, q.First = true, true
			ans, err := fresh(&Replay{Property: *prop, Plans: []*Plan{q}}, false)
			if err == nil && ans.Viol != nil && ans.Attributed {
				rep.Found = &Found{Seed: seed, Viol: ans.Viol, Plan: q, History: append([]uint64{}, history...)}
				break
			}
		}
		history = append(history, seed)
	}
	rep.Seconds = time.Since(begin).Seconds()
	for h := range inter {
		rep.InterH = append(rep.InterH, h)
	}
	for h := range seen {
		rep.Hashes = append(rep.Hashes, h)
	}
	for h := range traces {
		rep.TraceH = append(rep.TraceH, h)
	}
	if len(rep.InterH) > 40000 {
		rep.InterH = rep.InterH[:40000]
	}
	rep.Inter = int64(len(inter))
	json.NewEncoder(os.Stdout).Encode(rep)
}

func firstOutcome(a, b *Result) string {
	var idx []int
	for i := range a.Outcomes {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	for _, i := range idx {
		x, y := strings.Join(a.Outcomes[i], "; "), strings.Join(b.Outcomes[i], "; ")
		if x != y {
			return fmt.Sprintf("operation %d: %s, then %s", i, clip(x), clip(y))
		}
	}
	for k, x := range a.Art {
		if y := b.Art[k]; x != y {
			return k + ": " + firstDiff([]byte(x), []byte(y))
		}
	}
	return "the traces differ"
}

func hashPlan(p *Plan) uint64 {
	b, _ := json.Marshal([]interface{}{p.Docs, p.Epochs, p.Tasks, p.Map, p.Quantum})
	return hashStr(1469, string(b))
}

func describe(p *Plan, r *Result) string {
	var b strings.Builder
	fmt.Fprintf(&b, "seed %d, %s:", p.Seed, p.Scen)
	for _, e := range p.Epochs {
		for i := range e.Ops {
			fmt.Fprintf(&b, " %s", opName(&e.Ops[i]))
		}
		if e.Kill != nil {
			fmt.Fprintf(&b, " [%s after %d]", e.Kill.Mode, e.Kill.After)
		}
	}
	for i, t := range p.Tasks {
		fmt.Fprintf(&b, " | task %d:", i)
		for j := range t {
			fmt.Fprintf(&b, " %s", opName(&t[j]))
		}
	}
	if p.Map != nil {
		b.WriteString(" " + p.Map.describe())
	}
	if len(p.Tasks) > 0 {
		fmt.Fprintf(&b, " (quantum %d, %d switches)", p.Quantum, len(r.Switches))
	}
	fmt.Fprintf(&b, " run %016x", r.Hash)
	s := b.String()
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	return s
}

func opName(op *Op) string {
	s := op.T
	if op.Rd != nil && op.Rd.FailAt > 0 || op.W.fails() {
		s += "!"
	}
	if isEdit(op) {
		s += "(" + strings.Join(append(append([]string{}, op.Path...), op.K), "/") + ")"
	}
	return s
}

func (w *WriterSpec) fails() bool { return w != nil && w.faulty() }

// fresh runs a replay in a new process.
func fresh(r *Replay, trace bool) (*Answer, error) {
	f, err := os.CreateTemp("", "verif-sim-plan-")
	if err != nil {
		return nil, err
	}
	defer os.Remove(f.Name())
	if err := json.NewEncoder(f).Encode(r); err != nil {
		return nil, err
	}
	f.Close()
	args := []string{"run"}
	if trace {
		args = append(args, "-trace")
	}
	cmd := exec.Command(os.Args[0], append(args, f.Name())...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	timer := time.AfterFunc(60*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	defer timer.Stop()
	var errb strings.Builder
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		if fatal := fatalText(errb.String()); fatal != "" {
			return &Answer{Attributed: true, Viol: &Violation{Class: "fatal", Detail: fatal}}, nil
		}
		return nil, fmt.Errorf("%v %s", err, clip(errb.String()))
	}
	var a Answer
	if err := json.Unmarshal(out, &a); err != nil {
		return nil, err
	}
	return &a, nil
}

// fatalText recognises errors that end a Go process whatever it does.
func fatalText(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error: ") || strings.Contains(l, "goroutine stack exceeds") {
			if strings.Contains(l, "out of memory") && !strings.Contains(s, "stack overflow") {
				return ""
			}
			return l
		}
	}
	return ""
}

func readReplay(name string) *Replay {
	b, err := os.ReadFile(name)
	if err != nil {
		die("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die("%v", err)
	}
	return &r
}

func runMode(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	trace := fs.Bool("trace", false, "")
	res := fs.String("resume", "", "")
	coarse := fs.Bool("coarse", os.Getenv("VERIF_SIM_COARSE") != "", "")
	fs.Parse(args)
	simrt.SetCoarse(*coarse)
	name := fs.Arg(0)
	r := readReplay(name)
	a := &Answer{}
	if *res != "" {
		b, err := os.ReadFile(*res)
		if err != nil {
			die("%v", err)
		}
		os.Remove(*res)
		resume = &resumeState{}
		if err := json.Unmarshal(b, resume); err != nil {
			die("%v", err)
		}
	}
	restart = func(st *resumeState) {
		f, err := os.CreateTemp("", "verif-sim-state-")
		if err != nil {
			die("%v", err)
		}
		json.NewEncoder(f).Encode(st)
		f.Close()
		argv := []string{os.Args[0], "run", "-resume", f.Name()}
		if *trace {
			argv = append(argv, "-trace")
		}
		err = syscall.Exec("/proc/self/exe", append(argv, name), os.Environ())
		die("exec: %v", err)
	}
	watchRun(r)
	for i, p := range r.Plans {
		last := i == len(r.Plans)-1
		atomic.StoreInt64(&nowIdx, int64(i))
		nowPlan.Store(p)
		tick()
		if !last && resume != nil {
			continue
		}
		wantTrace = *trace && last
		realCrash = last && r.Real
		out := p.execute(newStats())
		realCrash = false
		wantTrace = false
		if !last {
			continue
		}
		a.Viol, a.Hash, a.Harness, a.Trace = out.Viol, out.Hash, out.Harness, out.Trace
		if out.Viol != nil {
			a.Attributed = os.Getenv("VERIF_SIM_ALL") != "" || p.attributed(out.Viol)
		}
	}
	json.NewEncoder(os.Stdout).Encode(a)
}

var restart func(*resumeState)
