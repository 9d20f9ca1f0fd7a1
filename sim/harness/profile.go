package main

import (
	"bytes"
	"strings"

	"gopkg.in/yaml.v3"
)

// A profile decides what the runs of a property are made of.
type profile struct {
	api     float64
	nops    [2]int
	slots   int
	docs    int
	w       map[string]float64
	crash   float64
	seam    float64
	obs     float64
	obsAll  float64
	big     float64
	twin    string
	tune    func(*gcfg)
	onlyEnd bool
}

var profiles = map[string]profile{
	"C01": {api: 0.55, nops: [2]int{2, 7}, slots: 2, docs: 2, big: 0.06, w: map[string]float64{"parse": 10, "observe": 0.3}},
	"C02": {api: 0.55, nops: [2]int{2, 10}, slots: 1, docs: 2, big: 0.05, w: map[string]float64{"parsefault": 8, "panicio": 1, "parse": 3}},
	"C03": {api: 0.5, nops: [2]int{2, 10}, slots: 1, docs: 2, big: 0.01, w: map[string]float64{"damaged": 10, "parse": 0.5}},
	"C24": {api: 0.5, nops: [2]int{2, 10}, slots: 1, docs: 2, w: map[string]float64{"damaged": 10}},
	"C04": {api: 0.5, nops: [2]int{3, 12}, slots: 2, docs: 2, big: 0.05, obs: 0.3, w: map[string]float64{"parse": 1.5, "new": 0.5, "edit": 2, "write": 3, "writefault": 8, "panicio": 0.8, "savefault": 1}},
	"C05": {api: 0.5, nops: [2]int{4, 16}, slots: 2, docs: 2, obs: 0.5, w: map[string]float64{"parse": 1.5, "new": 0.5, "edit": 5, "write": 5, "writefault": 3, "marshal": 4, "json": 1, "observe": 2, "save": 0.5}},
	"C06": {api: 1, nops: [2]int{3, 14}, slots: 2, docs: 2, crash: 0.25, big: 0.03, obs: 0.1, w: map[string]float64{"parse": 3, "new": 0.5, "edit": 4, "save": 5, "savefault": 0.7, "load": 2, "write": 1}},
	"C07": {api: 0, nops: [2]int{3, 14}, slots: 2, docs: 2, crash: 0.25, big: 0.03, obs: 0.1, w: map[string]float64{"parse": 3, "new": 0.7, "edit": 4, "save": 5, "savefault": 0.7, "load": 2, "write": 1}},
	"C08": {api: 0.4, nops: [2]int{2, 8}, slots: 1, docs: 2, crash: 0.15, obs: 0.2, w: map[string]float64{"parse": 4, "save": 3, "load": 2, "write": 1, "edit": 0.7},
		tune: func(g *gcfg) {
			g.types += 4
			g.dens += 0.25
			g.raws, g.exs, g.anns = g.raws/3, g.exs/3, g.anns/3
		}},
	"C09": {api: 0.4, nops: [2]int{2, 8}, slots: 1, docs: 2, crash: 0.15, obs: 0.2, w: map[string]float64{"parse": 4, "save": 3, "load": 2, "write": 1, "edit": 0.7},
		tune: func(g *gcfg) { g.types += 4; g.exs = 0.9; g.dens = g.dens / 2; g.raws = g.raws / 3 }},
	"C10": {api: 0.6, nops: [2]int{2, 8}, slots: 1, docs: 2, crash: 0.15, obs: 0.2, w: map[string]float64{"parse": 4, "save": 3, "load": 2, "write": 1, "edit": 0.7},
		tune: func(g *gcfg) {
			g.raws += 0.3
			g.anns += 0.3
			g.extras += 0.3
			g.rawDepth += 1
			g.exs = g.exs / 3
		}},
	"C11": {api: 0.5, nops: [2]int{5, 40}, slots: 2, docs: 2, obs: 0.85, crash: 0.05, w: map[string]float64{"parse": 1, "new": 0.6, "edit": 25, "stray": 1.5, "save": 1, "load": 0.7, "write": 1}},
	"C14": {api: 0.5, nops: [2]int{4, 16}, slots: 3, docs: 2, obs: 0.3, obsAll: 1, w: map[string]float64{"parse": 3, "new": 1.5, "edit": 8, "stray": 1, "write": 1.5, "save": 0.5, "load": 0.5, "marshal": 0.5, "observe": 0.3}},
	"C16": {api: 0.5, nops: [2]int{4, 16}, slots: 1, docs: 1, obs: 0.6, w: map[string]float64{"parse": 0.7, "new": 0.5, "edit": 2, "poison": 5, "write": 3, "writefault": 0.5, "marshal": 4, "json": 1, "save": 0.7, "heal": 1, "cure": 2}},
	"C17": {api: 0.5, nops: [2]int{5, 20}, slots: 2, docs: 2, obs: 0.5, seam: 0.3, twin: "x", w: map[string]float64{"parse": 3, "new": 0.5, "edit": 3, "write": 2, "save": 0.7, "load": 0.5,
		"parsefault": 2, "damaged": 2, "writefault": 2, "panicio": 2, "callback": 2, "sick": 2}},
	"C20": {api: 0.5, nops: [2]int{4, 14}, slots: 2, docs: 2, obs: 0.1, w: map[string]float64{"parse": 2, "new": 0.5, "edit": 5, "write": 1, "marshal": 12, "json": 1, "save": 0.5, "load": 0.5, "observe": 0.3}},
	"C21": {api: 0.5, nops: [2]int{3, 14}, slots: 2, docs: 2, big: 0.05, obs: 0.1, seam: 0.1, w: map[string]float64{"parse": 3, "new": 0.3, "edit": 2, "write": 4, "save": 0.7, "load": 0.5, "marshal": 1, "json": 0.5, "observe": 0.5,
		"parsefault": 3, "damaged": 2, "writefault": 3, "panicio": 1, "callback": 0.7, "poison": 0.7}},
	"C22": {api: 0.5, nops: [2]int{1, 5}, slots: 2, docs: 1, w: map[string]float64{"parse": 2, "new": 0.7, "edit": 5, "write": 2, "save": 0.7, "load": 0.7, "marshal": 2, "json": 1, "observe": 1,
		"parsefault": 1, "damaged": 1, "writefault": 1, "panicio": 1, "callback": 1}},
	"C23": {api: 0.5, nops: [2]int{2, 6}, slots: 1, docs: 1, w: map[string]float64{"edit": 2, "write": 2, "save": 1, "load": 0.7, "marshal": 3, "json": 1, "observe": 2, "parse": 0.5,
		"writefault": 0.5, "callback": 0.3}},
}

type planner struct {
	r     *R
	g     *gcfg
	p     *Plan
	pr    profile
	slots map[int]*gslot
	files map[int]*fileModel
	norms []*N
	texts []string
	pois  int
}

type gslot struct {
	api   bool
	model *N
}

// genPlan draws the plan with the given number of a property.
func genPlan(prop string, seed uint64, st *Stats) *Plan {
	r := newR(mix(seed, hashStr(7, prop)))
	switch prop {
	case "C12", "C13":
		return genMaps(prop, seed, r)
	case "C22":
		return genRounds(prop, seed, r, st)
	case "C23":
		return genScale(prop, seed, r, st)
	case "C15":
		return genConcurrent(prop, seed, r, st, true)
	case "C14":
		if r.p(0.6) {
			return genConcurrent(prop, seed, r, st, false)
		}
	}
	return genSession(prop, seed, r, st)
}

func genSession(prop string, seed uint64, r *R, st *Stats) *Plan {
	p := &Plan{Prop: prop, Scen: "session", Seed: seed, MapSeed: r.u64()}
	pl := newPlanner(p, profiles[prop], r)
	pr := pl.pr
	if prop == "C21" && r.p(0.7) {
		p.Quantum = int64(r.logN(3000)) // for tasks of the library's own
	}
	p.Obs = r.p(pr.obs)
	p.ObsAll = r.p(pr.obsAll)
	for i := 0; i < pr.docs; i++ {
		if i > 0 && r.p(0.2) {
			d := p.Docs[0] // the same content twice
			d.Root = d.Root.clone()
			p.Docs = append(p.Docs, d)
			pl.norms = append(pl.norms, pl.norms[0])
			pl.texts = append(pl.texts, pl.texts[0])
			continue
		}
		pl.addDoc(st)
	}
	n := pr.nops[0] + r.n(pr.nops[1]-pr.nops[0]+1)
	if r.p(0.03) {
		n *= 4
	}
	var ops []Op
	flush := func(k *Kill) {
		p.Epochs = append(p.Epochs, Epoch{Ops: ops, Kill: k})
		ops = nil
	}
	for i := 0; i < n; i++ {
		if (prop == "C14" || prop == "C11") && r.p(0.04) {
			ops = append(ops, pl.exchange(pr.slots)...)
		}
		slot := r.n(pr.slots)
		var op *Op
		if pl.slots[slot] == nil {
			op = pl.first(slot)
		} else {
			op = pl.draw(slot)
		}
		if op == nil {
			continue
		}
		if in(op.T, "write", "save", "marshal", "json") {
			switch prop {
			case "C05":
				op.Forms, op.Nodes = r.p(0.3), r.p(0.3)
			case "C11", "C16":
				op.Nodes = r.p(0.05)
			}
		}
		ops = append(ops, *op)
		switch {
		case pr.crash > 0 && r.p(pr.crash):
			after := int64(r.logN(60000))
			if r.p(0.3) {
				after = 1 << 40 // after the operation
			}
			flush(&Kill{Mode: "crash", After: after, Disk: r.u64()})
			pl.slots = map[int]*gslot{}
		case pr.seam > 0 && r.p(pr.seam) && readOnly(op.T) && op.T != "parse" && op.T != "load":
			flush(&Kill{Mode: "seam", After: int64(r.logN(30))})
		}
	}
	if prop == "C17" && r.p(0.015) {
		st := pl.storm()
		i := r.n(len(ops) + 1)
		ops = append(append(append([]Op{}, ops[:i]...), st...), ops[i:]...)
	}
	if len(ops) > 0 {
		flush(nil)
	}
	if prop != "C17" && r.p(0.012) {
		pl.insist(p)
	}
	return p
}

// insist repeats one of the operations many times.
func (pl *planner) insist(p *Plan) {
	n := pl.r.pick2(12, 40, 110, 280)
	for _, t := range pl.texts {
		n = min(n, 300000/(len(t)+100))
	}
	var all []*Op
	for i := range p.Epochs {
		for j := range p.Epochs[i].Ops {
			op := &p.Epochs[i].Ops[j]
			if p.Epochs[i].Kill == nil && in(op.T, "parse", "parsefault", "damaged", "write", "writefault", "marshal", "json", "observe") {
				all = append(all, op)
			}
		}
	}
	if len(all) > 0 {
		all[pl.r.n(len(all))].Rep = n
	}
}

// exchange takes the same map out of several documents, one after the other,
// and goes on using what it took out.
func (pl *planner) exchange(n int) []Op {
	r := pl.r
	var have []int
	for i := 0; i < n; i++ {
		if pl.slots[i] != nil {
			have = append(have, i)
		}
	}
	if len(have) == 0 {
		return nil
	}
	shuffle := r.n(len(have))
	have = append(append([]int{}, have[shuffle:]...), have[:shuffle]...)
	s := pl.slots[have[0]]
	els := elements(s.model, s.api, 200)
	byPath := map[string]mref{}
	var cs []elem
	top := r.p(0.6)
	for _, e := range els {
		byPath[strings.Join(e.path, "\x00")] = e.ref
		if isContainer(e.ref.class) && len(e.path) > 0 && (len(e.path) == 1 || !top) {
			cs = append(cs, e)
		}
	}
	var out []Op
	for try := 0; try < 10 && len(cs) > 0 && out == nil; try++ {
		e := cs[r.n(len(cs))]
		at, k := e.path[:len(e.path)-1], e.path[len(e.path)-1]
		parent := byPath[strings.Join(at, "\x00")]
		op := pl.g.setMap(parent, k)
		if op == nil || !in(parent.class, "doc", "type") || op.V != nil && !carriedN(op.V) {
			continue
		}
		if r.p(0.7) {
			op.T, op.V = "unsetmap", nil
		}
		if len(e.ref.pairs()) > 0 && r.p(0.5) {
			// empty it first
			for _, p := range e.ref.pairs() {
				out = append(out, Op{T: "map", M: "del", D: have[0], Path: e.path, K: p.K.V})
			}
		}
		for _, sl := range have {
			o := *op
			o.D, o.Path = sl, at
			if o.V != nil {
				o.V = o.V.clone()
			}
			out = append(out, o)
			if sl == have[0] && r.p(0.3) {
				out = append(out, o)
			}
		}
		for i, c := 0, 1+r.n(3); i < c; i++ {
			out = append(out, Op{T: "stray", M: "last", D: have[r.n(len(have))], N: i + r.n(3)})
		}
	}
	ops := out[:0]
	for i := range out {
		g := pl.slots[out[i].D]
		if out[i].T != "stray" {
			if m, ok := resolveM(g.model, g.api, out[i].Path); !ok || out[i].T != "map" && !in(m.class, "doc", "type") || !m.offers(&out[i]) {
				continue
			}
			t := g.model.clone()
			var err error
			if x := catchNorm(func() { err = applyModel(t, g.api, &out[i]) }); x != nil || err != nil {
				continue
			}
			g.model = t
		}
		ops = append(ops, out[i])
	}
	return ops
}

// storm is a failing operation that happens again and again.
func (pl *planner) storm() []Op {
	r := pl.r
	n := r.pick2(30, 150, 400, 1100, 2200)
	slot := scratchSlot + 4
	d := 0
	for i := range pl.texts {
		if len(pl.texts[i]) < len(pl.texts[d]) {
			d = i
		}
	}
	if len(pl.texts[d]) > 6000 {
		n = min(n, 150)
	}
	parse := Op{T: "parse", D: slot, Doc: d}
	pl.slots[slot] = &gslot{pl.p.Docs[d].API, pl.norms[d].clone()}
	last := func(op *Op) *Op {
		if op != nil {
			op.Rep = n
			if op.D < scratchSlot {
				op.D = slot
			}
		}
		return op
	}
	var out []Op
	switch r.n(6) {
	case 0:
		op := pl.make("parsefault", slot)
		op.Doc = d
		op.Rd = &ReaderSpec{FailAt: 1 + r.n(len(pl.texts[d])+1), FailErr: r.n(readErrs)}
		out = append(out, *last(op))
	case 1:
		op := pl.make("damaged", slot)
		op.Rd = nil
		if len(op.B) > 4000 {
			op.Rep = 100
		}
		out = append(out, *last(op))
	case 2:
		out = append(out, parse)
		out = append(out, *last(pl.make("writefault", slot)))
	case 3:
		out = append(out, parse)
		out = append(out, *last(pl.make(r.pick("panicio", "callback"), slot)))
	default:
		out = append(out, parse)
		if p := pl.poison(slot); p != nil {
			out = append(out, *p)
		}
		out = append(out, *last(pl.make(r.pick("write", "marshal", "save"), slot)))
	}
	return out
}

func newPlanner(p *Plan, pr profile, r *R) *planner {
	g := newGcfg(r)
	if pr.tune != nil {
		pr.tune(g)
	}
	micro := 0.15
	switch p.Prop {
	case "C11":
		micro = 0.4
	case "C08", "C09":
		micro = 0.3
	}
	if r.p(micro) {
		g.makeMicro()
	}
	if p.Prop == "C11" && r.p(0.35) {
		if g.micro == "" {
			g.makeMicro()
		}
		g.drill, g.microEx, g.focus, g.echo, g.wide = true, false, nil, 0, 0
		g.exs = 0.4
		pr.nops, pr.slots, pr.docs = [2]int{30, 90}, 1, 1
		pr.w = map[string]float64{"parse": 0.7, "edit": 45, "stray": 0.5, "save": 0.5, "load": 0.3, "write": 0.7}
	} else if p.Prop == "C09" && r.p(0.12) {
		// one example, many edits
		g.makeMicro()
		g.microEx, g.echo, g.wide = true, 0, 0
		pr.nops, pr.slots, pr.docs = [2]int{15, 50}, 1, 1
		pr.w = map[string]float64{"parse": 0.7, "edit": 15, "save": 3, "load": 2, "write": 0.7}
	} else if p.Prop == "C11" && r.p(0.5) {
		// few elements, many edits of each
		g.types, g.depth = 1+g.types%2, 1
		g.dens += 0.4
		g.rawDepth = min(g.rawDepth, 1)
	}
	return &planner{r: r, g: g, p: p, pr: pr, slots: map[int]*gslot{}, files: map[int]*fileModel{}}
}

// addDoc draws a document whose spelling means what it should.
func (pl *planner) addDoc(st *Stats) {
	r := pl.r
	for try := 0; ; try++ {
		d := DocSpec{API: r.p(pl.pr.api), Root: pl.g.doc(true), Style: pl.g.styleOf()}
		if !d.API {
			d.Root = pl.g.doc(false)
		}
		if pl.pr.big > 0 && r.p(pl.pr.big) {
			d.big(r, pl.g)
		}
		if try < 5 && r.p(0.02) {
			d.deep(r, pl.g)
		}
		if try > 20 {
			d.Root = mp(kv("title", str("fallback")))
			if !d.API {
				d.Root = mp(kv("usage", str("fallback")))
			}
			d.Style = Style{}
		}
		text := d.text()
		want := d.Root.resolve()
		got, err := plainParse(text)
		var norm *N
		if err == nil && diff(want, got) == "" && carried(text, want) {
			err = catchNorm(func() { norm = normDoc(d.API, want) })
		} else if err == nil {
			st.GenBad++
			if debugGen {
				println("GENBAD", diff(want, got), clip(text))
			}
			continue
		}
		if err != nil {
			st.GenBad++
			if debugGen {
				println("GENBAD", err.Error(), text)
			}
			continue
		}
		pl.p.Docs = append(pl.p.Docs, d)
		pl.norms = append(pl.norms, norm)
		pl.texts = append(pl.texts, text)
		return
	}
}

var debugGen bool

// carried tells whether the YAML encoder itself carries the content: it is not
// part of the repository and loses some tags inside flow collections.
func carried(text string, want *N) bool {
	var n yaml.Node
	if yaml.Unmarshal([]byte(text), &n) != nil {
		return false
	}
	for _, in := range []int{2, 4} {
		b, err := encodeYAML(&n, in)
		if err != nil {
			return false
		}
		got, err := plainParse(string(b))
		if err != nil || diff(want, got) != "" {
			return false
		}
	}
	return true
}

func encodeYAML(n *yaml.Node, indent int) ([]byte, error) {
	var b bytes.Buffer
	e := yaml.NewEncoder(&b)
	e.SetIndent(indent)
	if err := e.Encode(n); err != nil {
		return nil, err
	}
	err := e.Close()
	return b.Bytes(), err
}

// big makes the document large.
func (d *DocSpec) big(r *R, g *gcfg) {
	size := r.pick2(5000, 70000, 140000, 300000, 1100000)
	switch r.n(4) {
	case 0:
		d.Style.PadTop = size
	case 1:
		d.Style.PadEnd = size
	case 2:
		k := "usage"
		if d.API {
			k = "description"
		}
		d.Root.set(k, str(strings.Repeat(g.word()+" ", size/6)+"end"))
	default:
		t := mp()
		for i := 0; i < size/60 && i < 3000; i++ {
			t.P = append(t.P, kv("T"+itoa(i), mp(kv("type", str(g.exprOf("string"))), kv("description", str("number "+itoa(i))))))
		}
		d.Root.del("types")
		d.Root.del("schemas")
		d.Root.P = append(d.Root.P, kv("types", t))
	}
}

// deep adds content that is nested deeply.
func (d *DocSpec) deep(r *R, g *gcfg) {
	n := 8 + r.logN(120)
	if r.p(0.5) {
		// types in types
		n = min(n, 60)
		t := g.typ(0)
		for i := 0; i < n; i++ {
			switch r.n(5) {
			case 0, 1:
				t = mp(kv("type", str("array")), kv("items", t))
			case 2:
				t = mp(kv("items", t))
			default:
				t = mp(kv("properties", mp(kv(g.word(), t))))
			}
			if r.p(0.3) {
				t.S = "f"
			}
		}
		for _, k := range []string{"types", "schemas"} {
			if s := d.Root.get(k); s != nil && s.K == "m" {
				s.set("deep", t)
				return
			}
		}
		d.Root.P = append(d.Root.P, kv("types", mp(kv("deep", t))))
		return
	}
	v := g.raw(0)
	for i := 0; i < n; i++ {
		if r.p(0.5) {
			v = lst(v)
		} else {
			v = mp(kv(g.word(), v))
		}
	}
	if r.p(0.3) {
		v.S = "f"
	}
	k := r.pick("x-deep", "(deep)", "traits", "resourceTypes", "/deep")
	switch {
	case strings.HasPrefix(k, "x") || strings.HasPrefix(k, "/") && d.API:
	default:
		v = mp(kv("deep", v))
	}
	d.Root.set(k, v)
}

// first makes the first operation on an empty slot.
func (pl *planner) first(slot int) *Op {
	r := pl.r
	w := pl.pr.w
	switch {
	case w["parsefault"] > 0 && r.p(0.6):
		return pl.make("parsefault", slot)
	case w["damaged"] > 0 && r.p(0.8) && (pl.p.Prop == "C03" || pl.p.Prop == "C24"):
		return pl.make("damaged", slot)
	case pl.files[slot] != nil && r.p(0.8):
		return pl.make("load", slot)
	case w["new"] > 0 && r.p(0.25):
		return pl.make("new", slot)
	}
	return pl.make("parse", slot)
}

var opOrder = []string{"parse", "parsefault", "damaged", "new", "edit", "write", "writefault", "save", "savefault", "load", "marshal", "json", "observe", "callback", "panicio", "stray", "poison", "heal", "cure", "sick"}

func (pl *planner) draw(slot int) *Op {
	ws := make([]float64, len(opOrder))
	for i, k := range opOrder {
		ws[i] = pl.pr.w[k]
	}
	return pl.make(opOrder[pl.r.weighted(ws)], slot)
}

func (pl *planner) reader(doc int) *ReaderSpec {
	sp := genReader(pl.r, len(pl.texts[doc]))
	return &sp
}

func (pl *planner) make(kind string, slot int) *Op {
	r := pl.r
	s := pl.slots[slot]
	fe := r.p(0.5)
	switch kind {
	case "parse":
		d := r.n(len(pl.p.Docs))
		pl.slots[slot] = &gslot{pl.p.Docs[d].API, pl.norms[d].clone()}
		return &Op{T: "parse", D: slot, Doc: d, Rd: pl.reader(d), FE: fe}
	case "parsefault":
		d := r.n(len(pl.p.Docs))
		sp := pl.reader(d)
		sp.FailAt = 1 + r.n(len(pl.texts[d])+1)
		if r.p(0.15) {
			sp.FailAt = 1 + len(pl.texts[d])
		}
		sp.FailErr, sp.FailDat, sp.Sticky = r.n(readErrs), r.p(0.4), r.p(0.5)
		return &Op{T: "parse", D: slot, Doc: d, Rd: sp, FE: fe}
	case "damaged":
		api := r.p(0.5)
		k := "lib"
		if api {
			k = "api"
		}
		op := &Op{T: "damaged", D: slot, K: k, FE: fe, B: pl.damaged()}
		if r.p(0.3) {
			sp := genReader(r, len(op.B))
			op.Rd = &sp
		}
		return op
	case "new":
		api := r.p(pl.pr.api)
		op := &Op{T: "new", D: slot, FE: fe}
		if api {
			op.K = "api"
		}
		pl.slots[slot] = &gslot{api, normDoc(api, mp())}
		return op
	case "edit":
		op := pl.g.genEdit(s.model, s.api, slot)
		if op == nil {
			return nil
		}
		op.FE = fe
		catchNorm(func() { applyModel(s.model, s.api, op) })
		return op
	case "write", "writefault":
		w := genWriter(r, kind == "writefault", pl.sizeOf(slot))
		return &Op{T: "write", D: slot, W: &w, FE: fe}
	case "save", "savefault":
		op := &Op{T: "save", D: slot, FE: fe}
		if kind == "savefault" {
			w := genWriter(r, true, pl.sizeOf(slot))
			op.W = &w
		} else {
			pl.files[slot] = &fileModel{api: s.api, model: s.model.clone()}
		}
		return op
	case "load":
		f := pl.files[slot]
		if f == nil {
			return nil
		}
		sp := genReader(r, 500)
		pl.slots[slot] = &gslot{f.api, f.model.clone()}
		return &Op{T: "load", D: slot, Rd: &sp, FE: fe}
	case "marshal":
		return &Op{T: "marshal", D: slot, N: r.n(1000), FE: fe}
	case "json":
		return &Op{T: "json", D: slot, N: r.n(1000), FE: fe}
	case "observe":
		return &Op{T: "observe", D: slot, FE: fe}
	case "callback":
		return &Op{T: "callback", D: slot, N: r.n(1000), Doc: r.n(10), FE: fe}
	case "stray":
		return &Op{T: "stray", D: slot, N: r.n(1000), FE: fe}
	case "panicio":
		return &Op{T: "panicio", D: slot, N: r.n(5000), Doc: r.n(len(pl.p.Docs)), FE: fe}
	case "poison":
		return pl.poison(slot)
	case "heal":
		return &Op{T: "heal", D: slot, FE: fe}
	case "cure":
		return &Op{T: "cure", D: slot, FE: fe}
	case "sick":
		// work on a document of its own that cannot be serialised
		sl := scratchSlot + r.n(2)
		g := pl.slots[sl]
		if g == nil {
			return pl.make(r.pick("parse", "new"), sl)
		}
		return pl.make(r.pick("poison", "poison", "write", "marshal", "save", "cure"), sl)
	}
	return nil
}

func (pl *planner) sizeOf(slot int) int {
	s := pl.slots[slot]
	if s == nil {
		return 100
	}
	return 20 + s.model.size()*18
}

// poison chooses where to put a value that fails to serialise.
func (pl *planner) poison(slot int) *Op {
	r := pl.r
	s := pl.slots[slot]
	els := elements(s.model, s.api, 400)
	pl.pois++
	for try := 0; try < 60; try++ {
		e := els[r.n(len(els))]
		op := &Op{T: "poison", D: slot, Path: e.path, N: pl.pois, M: poisonForms[r.n(len(poisonForms))]}
		switch e.ref.class {
		case "rawmap", "anymap":
			op.K = r.pick("bad", "bad2", "zz")
			if e.ref.key == "extra" {
				op.K = "x-" + op.K
			}
			if e.ref.key == "resources" {
				op.K = "/" + op.K
			}
			if e.ref.n != nil && len(e.ref.n.P) > 0 && r.p(0.4) {
				op.K = e.ref.n.P[r.n(len(e.ref.n.P))].K.V
			}
			if e.ref.key == "extra" && op.K == "default" {
				op.K = "x-default" // healed, it might fit
			}
			op.Text = r.pick("", "rop")
		case "type":
			var ks []string
			for _, f := range facetsOf(e.ref.n.get("kind").V) {
				if f.vk == "raw" || f.vk == "rawlist" || f.vk == "rawlist0" {
					ks = append(ks, f.key)
				}
			}
			if len(ks) == 0 {
				continue
			}
			op.K = ks[r.n(len(ks))]
		case "example":
			if exVK(e.ref.kind) != "raw" {
				continue
			}
			op.K = "value"
		default:
			continue
		}
		return op
	}
	return nil
}
