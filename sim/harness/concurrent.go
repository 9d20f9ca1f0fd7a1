package main

import (
	"fmt"
	"sort"
	"strings"

	"verif.local/simrt"
)

// Concurrent scenarios.  "isolated": every task works on documents of its own
// (C14).  "shared": one document is prepared, then every task reads and
// serialises it (C15).  Every task first runs alone; together with the others,
// preempted anywhere, it has to get exactly the same results.

func genConcurrent(prop string, seed uint64, r *R, st *Stats, shared bool) *Plan {
	p := &Plan{Prop: prop, Scen: "isolated", Seed: seed, MapSeed: r.u64()}
	pr := profile{api: 0.5, docs: 2, slots: 1, w: map[string]float64{"parse": 2, "new": 1, "edit": 5, "stray": 0.5, "write": 2.5, "marshal": 1.5, "observe": 1, "save": 0.5, "load": 0.5, "damaged": 0.3, "writefault": 0.4, "parsefault": 0.4}}
	if shared {
		p.Scen = "shared"
		pr.docs = 1
		pr.w = map[string]float64{"write": 4, "marshal": 4, "observe": 4, "writefault": 0.5, "callback": 0.7, "json": 1.5, "save": 0.4}
	}
	pl := newPlanner(p, pr, r)
	if r.p(0.7) {
		pl.g.types = 1 + pl.g.types/2 // many short runs find more than few long ones
		pl.g.depth = 1 + pl.g.depth/2
	}
	for i := 0; i < pr.docs; i++ {
		if i > 0 && r.p(0.5) {
			d := p.Docs[0]
			d.Root = d.Root.clone()
			p.Docs = append(p.Docs, d)
			pl.norms = append(pl.norms, pl.norms[0])
			pl.texts = append(pl.texts, pl.texts[0])
			continue
		}
		pl.addDoc(st)
	}
	n := 2 + r.n(3)
	if r.p(0.1) {
		n = 5 + r.n(4)
	}
	if shared {
		var pre []Op
		pre = append(pre, *pl.make(r.pick("parse", "parse", "parse", "new"), 0))
		for i, c := 0, r.n(6); i < c; i++ {
			if op := pl.make("edit", 0); op != nil {
				pre = append(pre, *op)
			}
		}
		p.Epochs = []Epoch{{Ops: pre}}
		for t := 0; t < n; t++ {
			var ops []Op
			for i, c := 0, 1+r.n(4); i < c; i++ {
				if op := pl.draw(0); op != nil {
					ops = append(ops, *op)
				}
			}
			p.Tasks = append(p.Tasks, ops)
		}
	} else {
		same := r.p(0.3) // all tasks do the same
		for t := 0; t < n; t++ {
			if same && t > 0 {
				p.Tasks = append(p.Tasks, append([]Op{}, p.Tasks[0]...))
				continue
			}
			pl.slots, pl.files = map[int]*gslot{}, map[int]*fileModel{}
			var ops []Op
			for i, c := 0, 2+r.n(7); i < c; i++ {
				var op *Op
				if pl.slots[0] == nil {
					op = pl.first(0)
				} else {
					op = pl.draw(0)
				}
				if op != nil {
					ops = append(ops, *op)
				}
			}
			p.Tasks = append(p.Tasks, ops)
		}
	}
	p.First = r.p(0.3)
	if shared {
		for t := range p.Tasks {
			for i := range p.Tasks[t] {
				if in(p.Tasks[t][i].T, "write", "marshal", "json") && r.p(0.1) {
					p.Tasks[t][i].Forms = true
				}
			}
		}
	}
	switch r.n(5) {
	case 0:
		p.Quantum = 1 + int64(r.n(8))
	case 1:
		p.Quantum = int64(r.logN(20000))
	default:
		p.Quantum = 5 + int64(r.logN(800))
	}
	return p
}

// taskRun is what one task did.
type taskRun struct {
	w    *world
	viol *Violation
	harn string
}

func (t *taskRun) results() []string {
	var out []string
	var idx []int
	for i := range t.w.outcomes {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	for _, i := range idx {
		out = append(out, fmt.Sprintf("operation %d: %s", i, strings.Join(t.w.outcomes[i], "; ")))
	}
	if t.viol != nil {
		out = append(out, "violation "+t.viol.Class+" "+t.viol.Detail)
	}
	return out
}

// taskFn is the body of a task; problems are kept with the task.
func (p *Plan) taskFn(t *taskRun, ops []Op, res *Result) func() {
	return func() {
		defer func() {
			if r := recover(); r != nil {
				t.viol = violationOf(r, "")
				if t.viol == nil {
					if h, ok := r.(harnessErr); ok {
						t.harn = h.msg
						return
					}
					panic(r)
				}
			}
		}()
		for i := range ops {
			t.w.step(i, &ops[i])
		}
		if p.Scen == "isolated" {
			t.w.opIdx = len(ops)
			r := &Result{}
			t.w.finish(r)
			for _, k := range []string{"doc0", "doc1"} {
				t.w.event("%s: %s", k, r.Art[k])
			}
		}
	}
}

func (p *Plan) concurrent(st *Stats) *Result {
	res := &Result{}
	base := newWorld(p, st)
	// prepare makes the shared document
	prepare := func(st *Stats) bool {
		base = newWorld(p, st)
		res.runTasks(simrt.Config{Seed: p.Seed, MapSeed: p.MapSeed}, st, func() {
			for e := range p.Epochs {
				for i := range p.Epochs[e].Ops {
					base.step(i, &p.Epochs[e].Ops[i])
				}
			}
		})
		if res.Viol != nil {
			res.Viol.Class = "base-" + res.Viol.Class
		}
		return res.Viol == nil && res.Harness == "" && base.slot(0) != nil
	}
	if p.Scen == "shared" {
		ok := prepare(st)
		res.collect(base)
		if !ok {
			return res
		}
	}
	mk := func(i int, s *Stats) *taskRun {
		w := newWorld(p, s)
		w.task = i
		if p.Scen == "shared" {
			b := base.slot(0)
			w.setSlot(0, &slot{api: b.api, impl: b.impl, model: b.model})
		}
		return &taskRun{w: w}
	}
	runAlone := func(i int, ms uint64) *taskRun {
		t := mk(i, newStats())
		r := &Result{}
		r.runTasks(simrt.Config{Seed: p.Seed, MapSeed: ms}, newStats(), p.taskFn(t, p.Tasks[i], r))
		t.harn += r.Harness
		return t
	}
	var alone []*taskRun
	allAlone := func() bool {
		for i := range p.Tasks {
			t := runAlone(i, mix(p.MapSeed, uint64(i)))
			if t.harn != "" {
				res.Harness = t.harn
				return false
			}
			alone = append(alone, t)
		}
		return true
	}
	// With First the tasks come together before anything else has happened to
	// the document or in the process.
	if !p.First && !allAlone() {
		return res
	}
	if !p.First && p.Scen == "shared" && !prepare(newStats()) {
		return res
	}
	errsBefore := raceErrors()
	var together []*taskRun
	lists := p.pool()
	var fns []func()
	for i := range p.Tasks {
		t := mk(i, newStats())
		t.w.lists = lists
		together = append(together, t)
		fns = append(fns, p.taskFn(t, p.Tasks[i], res))
	}
	cfg := simrt.Config{Seed: p.Seed, MapSeed: mix(p.MapSeed, 77), Quantum: p.Quantum, List: p.Sched, UseList: p.UseSch}
	out := res.runTasks(cfg, st, fns...)
	res.Switches = out.Switches
	if out.NSwitch > 2*len(p.Tasks) {
		st.probe("preempted runs")
	}
	raced := raceErrors() - errsBefore
	whole := base
	if p.First {
		if p.Scen == "shared" && !prepare(newStats()) {
			return res
		}
		if !allAlone() {
			return res
		}
	}
	for i, t := range together {
		st.add(t.w.stats)
		res.collect(t.w)
		if t.harn != "" {
			res.Harness = t.harn
		}
		if res.Harness != "" {
			return res
		}
		x, y := alone[i].results(), t.results()
		if strings.Join(x, "\n") == strings.Join(y, "\n") {
			continue
		}
		steady := true
		for k := uint64(0); k < 4 && steady; k++ {
			z := runAlone(i, mix(p.MapSeed, 500+k)).results()
			steady = strings.Join(x, "\n") == strings.Join(z, "\n")
		}
		if !steady {
			continue // the result differs from run to run even alone
		}
		for j := 0; ; j++ {
			a, b := "nothing", "nothing"
			if j < len(x) {
				a = x[j]
			}
			if j < len(y) {
				b = y[j]
			}
			if a != b {
				if res.Viol == nil {
					cls := "together-diff"
					res.Viol = &Violation{Class: cls, Task: i, Op: j, Detail: fmt.Sprintf("task %d of %d alone: %s; together with the others: %s", i, len(p.Tasks), clip(a), clip(b))}
				}
				break
			}
		}
	}
	if res.Viol == nil && p.Scen == "shared" {
		// the document is what it was before
		res.runTasks(simrt.Config{Seed: p.Seed, MapSeed: mix(p.MapSeed, 78)}, st, func() {
			whole.op = &Op{T: "after"}
			whole.checkDoc("together-diff", whole.slot(0), true)
		})
	}
	if n := raced; n > 0 && res.Viol == nil {
		res.Viol = &Violation{Class: "race", Detail: fmt.Sprintf("the race detector reports %d unordered accesses to the same memory by different tasks", n)}
	}
	if res.Viol != nil {
		res.Hash = hashStr(res.Hash, res.Viol.Class)
	}
	return res
}
