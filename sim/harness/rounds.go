package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"strings"

	"verif.local/simrt"
)

// Rounds: the same operations, or the same ones with other names, again and
// again.  What they cost, and what is kept of them, must not depend on how
// many rounds went before.

const roundMark = "zq00000000"

// roundText gives every round names of its own, which no run before had.
func roundText(b []byte, from uint64, i int) []byte {
	n := fmt.Sprintf("q%08d", (from+uint64(i))%100000000)
	b = bytes.ReplaceAll(b, []byte(roundMark), []byte("z"+n))
	return bytes.ReplaceAll(b, []byte(strings.Title(roundMark)), []byte("Z"+n))
}

func genRounds(prop string, seed uint64, r *R, st *Stats) *Plan {
	pr := profiles[prop]
	p := &Plan{Prop: prop, Scen: "rounds", Seed: seed, MapSeed: r.u64(), Rounds: r.pick2(150, 150, 240, 360)}
	pl := newPlanner(p, pr, r)
	g := pl.g
	g.types = min(g.types, 3)
	g.depth = min(g.depth, 2)
	g.dens /= 2
	if g.micro == "" && r.p(0.5) {
		g.makeMicro()
	}
	again := r.p(0.6) // every round starts with documents of its own
	g.mark = again && r.p(0.7)
	pl.addDoc(st)
	var setup, round []Op
	if !again {
		for s := 0; s < pr.slots; s++ {
			setup = append(setup, *pl.make(r.pick("parse", "parse", "new"), s))
		}
		for i := r.n(4); i > 0; i-- {
			if op := pl.make("edit", r.n(pr.slots)); op != nil {
				setup = append(setup, *op)
			}
		}
	}
	n := pr.nops[0] + r.n(pr.nops[1]-pr.nops[0]+1)
	for i := 0; i < n; i++ {
		slot := r.n(pr.slots)
		if pl.slots[slot] == nil {
			op := pl.first(slot)
			op.D = slot
			round = append(round, *op)
			if pl.slots[slot] == nil {
				continue
			}
		}
		if r.p(0.3) {
			round = append(round, pl.inAndOut(slot)...)
			continue
		}
		if r.p(0.2) {
			round = append(round, pl.setAgain(slot)...)
			continue
		}
		if op := pl.draw(slot); op != nil && op.T != "poison" {
			round = append(round, *op)
		}
	}
	for i := 0; i < len(round); i++ {
		if growing(round, i) {
			round = append(round[:i:i], round[i+1:]...)
			i--
		}
	}
	p.Epochs = []Epoch{{Ops: setup}, {Ops: round}}
	return p
}

// growing tells whether an operation of a round puts an entry of another name
// into a document in each round, and nothing takes it out again.
func growing(round []Op, i int) bool {
	op := &round[i]
	if op.T != "map" || op.M == "del" || !strings.Contains(op.K, roundMark) && !strings.Contains(op.K, strings.Title(roundMark)) {
		return false
	}
	for j := range round {
		x := &round[j]
		if x.D == op.D && (in(x.T, "parse", "new") && x.Rd.works() || j > i && x.T == "map" && x.M == "del" && x.K == op.K && strings.Join(x.Path, "\x00") == strings.Join(op.Path, "\x00")) {
			return false
		}
	}
	return true
}

// works tells whether the source delivers everything.
func (sp *ReaderSpec) works() bool { return sp == nil || sp.FailAt == 0 }

// setAgain sets an attribute to the same value in every round, above all a map.
func (pl *planner) setAgain(slot int) []Op {
	s := pl.slots[slot]
	r := pl.r
	els := elements(s.model, s.api, 300)
	maps := r.p(0.7)
	for try := 0; try < 40 && len(els) > 0; try++ {
		e := els[r.n(len(els))]
		if try%2 == 0 {
			e = els[0]
		}
		op := pl.g.editOf(e)
		if op == nil || op.V == nil || !carriedN(op.V) || op.T != "setmap" && (op.T != "set" || maps && try < 30) || op.T == "setmap" && len(op.V.P) == 0 {
			continue
		}
		op.D, op.Path, op.Sh = slot, e.path, 0
		t := s.model.clone()
		var err error
		if x := catchNorm(func() { err = applyModel(t, s.api, op) }); x != nil || err != nil {
			continue
		}
		catchNorm(func() { applyModel(s.model, s.api, op) })
		return []Op{*op}
	}
	return nil
}

// inAndOut puts an entry into a map, under another key in every round, and
// takes it out again.
func (pl *planner) inAndOut(slot int) []Op {
	s := pl.slots[slot]
	r := pl.r
	var cs []elem
	for _, e := range elements(s.model, s.api, 300) {
		if isContainer(e.ref.class) {
			cs = append(cs, e)
		}
	}
	for try := 0; try < 20 && len(cs) > 0; try++ {
		e := cs[r.n(len(cs))]
		old := pl.g.mark
		pl.g.mark = true
		op := pl.g.editOf(e)
		pl.g.mark = old
		if op == nil || op.T != "map" || op.M == "del" || op.V == nil || !bytes.Contains([]byte(op.K), []byte(roundMark)) {
			continue
		}
		op.D, op.Path = slot, e.path
		if !carriedN(op.V) {
			continue
		}
		t := s.model.clone()
		var err error
		if x := catchNorm(func() { err = applyModel(t, s.api, op) }); x != nil || err != nil {
			continue
		}
		out := Op{T: "map", D: slot, Path: e.path, K: op.K, M: "del"}
		if x := catchNorm(func() { err = applyModel(t, s.api, &out) }); x != nil || err != nil {
			continue
		}
		ops := []Op{*op}
		if r.p(0.3) {
			ops = append(ops, *pl.make(r.pick("write", "marshal", "observe"), slot))
		}
		return append(ops, out)
	}
	return nil
}

// rounds runs the plan.
func (p *Plan) rounds(st *Stats) *Result {
	res := p.roundsOnce(st, 0)
	if res.Viol != nil && res.Viol.Class == "grows-memory" {
		// the memory of a process is not the library's alone
		for i := 0; i < 2; i++ {
			again := p.roundsOnce(newStats(), uint64(i+1))
			if again.Viol == nil || again.Viol.Class != res.Viol.Class {
				res.Viol = nil
				break
			}
		}
	}
	return res
}

type kept struct{ objects, bytes int64 }

func keptNow() kept {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return kept{int64(m.HeapObjects), int64(m.HeapAlloc)}
}

func (p *Plan) roundsOnce(st *Stats, attempt uint64) *Result {
	from := mix(p.Seed, attempt) % 90000000
	res := &Result{}
	w := newWorld(p, st)
	simrt.SetClock(0)
	b, err := json.Marshal([]interface{}{p.Docs, p.Epochs[1].Ops})
	if err != nil {
		return &Result{Harness: err.Error()}
	}
	memory := !raceBuild
	var costs [3][]int64
	for i := range costs {
		costs[i] = make([]int64, 0, p.Rounds)
	}
	var keep [3]kept
	setupLists := map[int]bool{}
	for sh := range (&Plan{Epochs: p.Epochs[:1]}).pool() {
		setupLists[sh] = true
	}
	done := 0
	out := res.runTasks(simrt.Config{Seed: p.Seed, MapSeed: p.MapSeed, MaxSteps: maxSteps * 2}, st, func() {
		for i := range p.Epochs[0].Ops {
			w.step(i, &p.Epochs[0].Ops[i])
		}
		rounds := p.Rounds
		for i := 0; i < rounds; i++ {
			var docs []DocSpec
			var ops []Op
			x := []interface{}{&docs, &ops}
			if err := json.Unmarshal(roundText(b, from, i), &x); err != nil {
				panic(harnessErr{err.Error()})
			}
			w.docs = docs
			if i > 0 && len(w.lists) > 0 {
				// the lists with the names of this round; those of the setup stay
				q := &Plan{Epochs: []Epoch{{Ops: ops}}}
				for sh, l := range q.pool() {
					if !setupLists[sh] {
						w.lists[sh] = l
					}
				}
			}
			simrt.SetMapSeed(p.MapSeed)
			before := simrt.Steps()
			for j := range ops {
				w.step(len(p.Epochs[0].Ops)+j, &ops[j])
			}
			cost := simrt.Steps() - before
			if i == 1 && cost*int64(rounds) > 20000000 {
				rounds = int(20000000 / cost)
				rounds -= rounds % 3
			}
			third := min(i*3/rounds, 2)
			if i >= 2 {
				costs[third] = append(costs[third], cost)
			}
			w.trace = w.trace[:min(len(w.trace), 200)]
			if w.outcomes != nil && i > 0 {
				w.outcomes = nil // of the first round only
			}
			w.failed = map[int]bool{}
			for _, s := range w.slots {
				if s != nil && len(s.said) > 0 {
					for k := range s.said {
						if bytes.Contains([]byte(k), []byte("zq")) {
							delete(s.said, k) // the names of this round
						}
					}
					s.said = s.said.clone() // a map does not shrink
				}
			}
			if (i+1)*3%rounds == 0 && memory {
				w.docs, w.streams = nil, nil
				x, docs, ops = nil, nil, nil
				keep[third] = keptNow()
			}
			done++
		}
	})
	_ = out
	st.probe("rounds")
	if w.outcomes == nil {
		w.outcomes = map[int][]string{}
	}
	if res.Viol == nil && res.Harness == "" && done >= 30 {
		t := int64(done / 3)
		var med [3]int64
		for i := range costs {
			c := append([]int64{}, costs[i]...)
			sort.Slice(c, func(a, b int) bool { return c[a] < c[b] })
			if len(c) > 0 {
				med[i] = c[len(c)/2]
			}
		}
		res.Trace = append(res.Trace, fmt.Sprintf("rounds %d, statements per round %v, kept %v", done, med, keep))
		for i := range p.Epochs[1].Ops {
			if growing(p.Epochs[1].Ops, i) {
				res.collect(w)
				return res
			}
		}
		grows := func(a, b, c, least int64) bool { return b-a >= least && c-b >= least }
		switch {
		case grows(med[0], med[1], med[2], t/2):
			res.Viol = &Violation{Class: "grows-work", Detail: "the same operations take more work with every round, although the documents stay the same"}
		case memory && done >= 150 && (grows(keep[0].objects, keep[1].objects, keep[2].objects, t*4/5) || grows(keep[0].bytes, keep[1].bytes, keep[2].bytes, 64*t)):
			res.Viol = &Violation{Class: "grows-memory", Detail: "more memory is kept after every round, although the documents stay the same"}
		}
	}
	res.collect(w)
	return res
}
