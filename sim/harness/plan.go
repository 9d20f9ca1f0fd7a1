package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"verif.local/simrt"
)

// Plan is one simulated run: content, operations, faults and schedule.  A plan
// and the code under test determine the run completely.
type Plan struct {
	Prop    string          `json:"property"`
	Scen    string          `json:"scenario"` // session, isolated, shared, maps
	Seed    uint64          `json:"seed"`
	MapSeed uint64          `json:"mapseed"`
	Obs     bool            `json:"obs,omitempty"`
	ObsAll  bool            `json:"obsall,omitempty"`
	Docs    []DocSpec       `json:"docs,omitempty"`
	Epochs  []Epoch         `json:"epochs,omitempty"`
	Tasks   [][]Op          `json:"tasks,omitempty"`
	Quantum int64           `json:"quantum,omitempty"`
	Sched   []simrt.Switch  `json:"sched,omitempty"`
	UseSch  bool            `json:"usesched,omitempty"`
	Map     *MapPlan        `json:"map,omitempty"`
	Race    bool            `json:"race,omitempty"`
	First   bool            `json:"first,omitempty"`
	Probe   string          `json:"probe,omitempty"`
	Rounds  int             `json:"rounds,omitempty"`
	Grow    *Grow           `json:"grow,omitempty"`
	Raw     json.RawMessage `json:"raw,omitempty"`
}

// Epoch is a part of a session that ends with its last operation; Kill says
// that this operation does not end by itself.
type Epoch struct {
	Ops  []Op  `json:"ops"`
	Kill *Kill `json:"kill,omitempty"`
}

// Kill ends the process (crash) or the task (seam) in the middle of an
// operation.
type Kill struct {
	Mode  string `json:"mode"` // crash: at any statement; seam: inside a source, destination or callback
	After int64  `json:"after"`
	Disk  uint64 `json:"disk,omitempty"` // what happens to data that was not synced
}

// Result of a run.
type Result struct {
	Viol     *Violation
	Hash     uint64
	Inter    uint64
	Content  uint64
	Art      map[string]string
	Outcomes map[int][]string
	Failed   map[int]bool
	Trace    []string
	Switches []simrt.Switch
	Effect   int // operations that did something
	Harness  string
}

const maxSteps = 150000000

func hashStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h*31 + 7
}

// runTasks runs functions under the scheduler and hands on what went wrong.
func (res *Result) runTasks(cfg simrt.Config, st *Stats, fns ...func()) simrt.Outcome {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = maxSteps
	}
	out := simrt.Run(cfg, fns)
	st.Steps += out.Steps
	st.Switches += int64(out.NSwitch)
	res.Inter = res.Inter*1099511628211 ^ out.Hash
	for i, p := range out.Panics {
		if p == nil {
			continue
		}
		v := violationOf(p.Val, p.Stack)
		if i >= len(fns) {
			// a task the library started itself
			switch {
			case v != nil && v.Class == "hang" && !out.Crashed:
				v = &Violation{Class: "left-running", Detail: "the library started a task that never ends: " + v.Detail}
			case v == nil:
				if _, own := p.Val.(harnessErr); !own {
					v = &Violation{Class: "panic", Detail: fmt.Sprintf("a task the library started panics, which ends the process: %v", p.Val)}
				}
			}
		}
		if v == nil {
			if res.Harness == "" {
				res.Harness = fmt.Sprintf("%v\n%s", p.Val, p.Stack)
			}
			continue
		}
		v.Task = min(i, len(fns)-1)
		if res.Viol == nil {
			res.Viol = v
		}
	}
	return out
}

func violationOf(x interface{}, stack string) *Violation {
	switch v := x.(type) {
	case *Violation:
		return v
	case harnessErr:
		return nil
	case simrt.StepLimit:
		return &Violation{Class: "hang", Detail: "the run does not end within the simulated step limit"}
	case simrt.Deadlock:
		return &Violation{Class: "hang", Detail: v.Error()}
	}
	return nil
}

func newWorld(p *Plan, st *Stats) *world {
	return &world{docs: p.Docs, disk: newDisk(), files: map[string]*fileModel{}, stats: st, obs: p.Obs, obsAll: p.ObsAll, prop: p.Prop,
		outcomes: map[int][]string{}, failed: map[int]bool{}, lists: p.pool(), log: 14695981039346656037}
}

// step runs the operation with the given number.
func (w *world) step(i int, op *Op) {
	w.opIdx = i
	if w.skip != nil && w.skip(op) {
		return
	}
	simrt.Advance(time.Duration(1+(i*7919+len(op.T)*131)%90000) * time.Millisecond)
	w.stats.SimMs += int64(1 + (i*7919+len(op.T)*131)%90000)
	w.do(op)
	if w.obsAll {
		for j, s := range w.slots {
			if s == nil || j == op.D {
				continue
			}
			w.checkDoc("other-diff", s, i%2 == 0)
		}
	}
}

// session runs the epochs of a plan in one world.
func (p *Plan) session(st *Stats, skip func(int, *Op) bool) *Result {
	res := &Result{}
	w := newWorld(p, st)
	w.skip = func(op *Op) bool { return skip != nil && skip(w.opIdx, op) }
	simrt.SetClock(0)
	idx := 0
	first := 0
	if resume != nil {
		first, idx = resume.Epoch, resume.Idx
		w.disk.durable = resume.Disk
		for k, f := range resume.Files {
			w.files[k] = &fileModel{api: f.API, model: f.Model}
		}
		resume = nil
	}
	for e := first; e < len(p.Epochs); e++ {
		ep := &p.Epochs[e]
		cfg := simrt.Config{Seed: p.Seed, MapSeed: mix(p.MapSeed, uint64(e)), Quantum: p.Quantum}
		base := idx
		last := len(ep.Ops) - 1
		killed := false
		out := res.runTasks(cfg, st, func() {
			for i := range ep.Ops {
				op := &ep.Ops[i]
				kill := ep.Kill != nil && i == last && !(skip != nil && skip(base+i, op))
				if kill {
					if ep.Kill.Mode == "crash" {
						simrt.KillAfter(ep.Kill.After)
					} else {
						simrt.KillAtYield(ep.Kill.After)
					}
				}
				w.step(base+i, op)
				if kill {
					simrt.DisarmKill()
				}
			}
		})
		killed = out.Crashed
		idx += len(ep.Ops)
		if res.Viol != nil || res.Harness != "" {
			break
		}
		if ep.Kill != nil {
			op := &ep.Ops[last]
			switch {
			case ep.Kill.Mode == "crash":
				w.crash(ep.Kill.Disk, killed)
				if realCrash {
					st := &resumeState{Epoch: e + 1, Idx: idx, Disk: w.disk.durable, Files: map[string]resumeFile{}}
					for k, f := range w.files {
						st.Files[k] = resumeFile{f.api, f.model}
					}
					restart(st)
				}
			case killed:
				st.fault("task killed inside " + op.T)
				w.mayTwo = nil
				if !readOnly(op.T) {
					w.setSlot(op.D, nil)
				}
			}
		}
	}
	if res.Viol == nil && res.Harness == "" {
		w.opIdx = idx
		res.runTasks(simrt.Config{Seed: p.Seed, MapSeed: mix(p.MapSeed, 998)}, st, func() { w.settle() })
	}
	if res.Viol == nil && res.Harness == "" {
		res.runTasks(simrt.Config{Seed: p.Seed, MapSeed: mix(p.MapSeed, 999)}, st, func() { w.finish(res) })
	}
	res.collect(w)
	return res
}

// resumeState is what a crashed process leaves to the next one.
type resumeState struct {
	Epoch, Idx int
	Disk       map[string][]byte
	Files      map[string]resumeFile // what was acknowledged
}

type resumeFile struct {
	API   bool
	Model *N
}

var (
	realCrash bool // end the real process at every simulated crash
	resume    *resumeState
)

func (res *Result) collect(w *world) {
	res.Hash = res.Hash*31 + w.log
	res.Outcomes = w.outcomes
	res.Failed = w.failed
	res.Trace = append(res.Trace, w.trace...)
	res.Effect += w.logN
	if res.Viol != nil {
		res.Hash = hashStr(res.Hash, res.Viol.Class+res.Viol.Detail)
	}
}

// crash ends the simulated process: only the disk survives.
func (w *world) crash(seed uint64, mid bool) {
	if mid {
		w.stats.fault("crash inside " + w.op.T)
	} else {
		w.stats.fault("process exit")
	}
	if w.mayTwo != nil {
		if _, tmp := w.disk.read(w.mayF + ".tmp"); !tmp {
			w.files[w.mayF] = w.mayTwo
		}
		w.mayTwo = nil
	}
	w.slots, w.strays = nil, nil
	w.disk.crash(newR(seed))
	w.event("crash %v", mid)
}

// settle lets everything happen that was put off.
func (w *world) settle() {
	for i := 0; i < 20; i++ {
		simrt.Advance(7 * time.Minute)
		simrt.Pass()
	}
	if simrt.Coarse() && w.prop == "C21" {
		for i := 0; i < 60 && leftovers() > 0; i++ {
			time.Sleep(5 * time.Millisecond)
		}
	}
	w.op = &Op{T: "settle"}
	if p := simrt.LoosePanic(); p != nil {
		panic(&Violation{Class: "panic", Detail: fmt.Sprintf("panic of a task of the library: %v", p.Val), Op: w.opIdx, OpT: "settle", Stack: p.Stack})
	}
	w.checkStreams()
}

// finish records what is left of every document, then ends the process and
// reads every file back.
func (w *world) finish(res *Result) {
	res.Art = map[string]string{}
	w.op = &Op{T: "finish"}
	enterOp("finish")
	for i, s := range w.slots {
		if s == nil || s.taint {
			continue
		}
		w.op.D = i
		var buf bytes.Buffer
		var err error
		w.guard("panic", func() { err = s.impl.(ramlWriter).WriteRAML(&buf) })
		k := fmt.Sprintf("doc%d", i)
		if err != nil {
			if len(w.sickIn(s, s.model)) == 0 {
				w.fail("write-fail", "writing to a working destination fails: %v", err)
			}
			res.Art[k] = "error " + err.Error()
			continue
		}
		res.Art[k] = buf.String()
		w.event("final %d", buf.Len())
		w.log = hashStr(w.log, buf.String())
		w.checkWritten(s, buf.Bytes())
		w.checkDoc("write-effect", s, i%2 == 0)
	}
	w.slots, w.strays = nil, nil
	names := make([]string, 0, len(w.files))
	for k := range w.files {
		names = append(names, k)
	}
	sortStrings(names)
	for _, k := range names {
		var d int
		fmt.Sscanf(k, "f%d", &d)
		w.op = &Op{T: "load", D: d}
		w.doLoad(w.op, "reload-diff")
	}
}

// twin compares the run with one in which some operations did not happen.
func (p *Plan) twin(st *Stats, a *Result, class string, skip func(int, *Op) bool) *Violation {
	b := p.session(newStats(), skip)
	st.probe("twin runs")
	if b.Viol != nil || b.Harness != "" {
		return nil // fails without them, too
	}
	for i := 0; i < p.nOps(); i++ {
		x, ok1 := a.Outcomes[i]
		y, ok2 := b.Outcomes[i]
		if ok1 && ok2 && strings.Join(x, "\n") != strings.Join(y, "\n") {
			return &Violation{Class: class, Op: i, Detail: fmt.Sprintf("operation %d gives %s; without the operations before it gives %s", i, clip(strings.Join(x, "; ")), clip(strings.Join(y, "; ")))}
		}
	}
	for k, x := range a.Art {
		if y, ok := b.Art[k]; ok && x != y {
			return &Violation{Class: class, Op: p.nOps(), Detail: fmt.Sprintf("in the end %s is written differently from a run without the operations: %s", k, firstDiff([]byte(x), []byte(y)))}
		}
	}
	return nil
}

func (p *Plan) nOps() int {
	n := 0
	for i := range p.Epochs {
		n += len(p.Epochs[i].Ops)
	}
	for i := range p.Tasks {
		n += len(p.Tasks[i])
	}
	return n
}

// isFailure tells whether the operation failed, for C17.
func (res *Result) isFailure(i int, op *Op) bool {
	switch op.T {
	case "damaged", "panicio", "callback":
		return true
	}
	return res.Failed[i]
}

// execute runs the plan; st collects statistics.
func (p *Plan) execute(st *Stats) *Result {
	var res *Result
	switch p.Scen {
	case "session":
		res = p.session(st, nil)
		if res.Viol == nil && res.Harness == "" {
			switch p.Prop {
			case "C21":
				res.Viol = p.leftRunning()
			case "C05":
				res.Viol = p.twin(st, res, "twin-write", func(_ int, op *Op) bool {
					return op.T == "write" || op.T == "marshal" || op.T == "json" || op.T == "observe"
				})
			case "C17":
				res.Viol = p.twinFailures(st, res)
			}
		}
	case "isolated", "shared":
		res = p.concurrent(st)
	case "maps":
		res = p.maps(st)
	case "rounds":
		res = p.rounds(st)
	case "scale":
		res = p.scale(st)
	default:
		res = &Result{Harness: "unknown scenario " + p.Scen}
	}
	if res.Viol != nil && res.Viol.Class != "grows-memory" { // which is measured
		res.Hash = hashStr(res.Hash, res.Viol.Class)
	}
	return res
}

// scratchSlot and above hold documents that only failing operations use.
const scratchSlot = 8

// leftRunning tells whether every execution of a session leaves more tasks of
// the library waiting, where the simulator does not schedule them itself.
func (p *Plan) leftRunning() *Violation {
	if !simrt.Coarse() {
		return nil
	}
	n := leftovers()
	for i := 0; i < 3; i++ {
		if n == 0 {
			return nil
		}
		p.session(newStats(), nil)
		m := leftovers()
		if m <= n {
			return nil
		}
		n = m
	}
	return &Violation{Class: "left-running", Detail: "the library leaves tasks running that never end, more with every call"}
}

// twinFailures drops some of the failing operations.
func (p *Plan) twinFailures(st *Stats, a *Result) *Violation {
	kill := map[int]bool{}
	i := 0
	for _, ep := range p.Epochs {
		for j := range ep.Ops {
			t := ep.Ops[j].T
			if ep.Kill != nil && ep.Kill.Mode == "seam" && j == len(ep.Ops)-1 && readOnly(t) && t != "parse" && t != "load" {
				kill[i] = true
			}
			i++
		}
	}
	for round := uint64(0); round < 2; round++ {
		v := p.twin(st, a, "twin-failure", func(i int, op *Op) bool {
			if op.D >= scratchSlot {
				return true
			}
			if !a.isFailure(i, op) && !kill[i] {
				return false
			}
			return round == 0 || mix(p.Seed, uint64(i))%2 == 0
		})
		if v != nil {
			for k := uint64(0); k < 4; k++ {
				q := *p
				q.MapSeed = mix(p.MapSeed, 500+k)
				if b := q.session(newStats(), nil); !sameArt(a.Art, b.Art) {
					return nil // differs from run to run without any failure
				}
			}
			return v
		}
	}
	return nil
}

func sameArt(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}
