package main

import (
	"fmt"
	"strings"

	"verif.local/simrt"
)

// Scale: the same operations on documents that differ in size only.

// Grow tells where a document becomes larger, and how.
type Grow struct {
	Path []string `json:"path"` // of the node, keys and numbers
	How  string   `json:"how"`  // wide, deep, long
	Kind string   `json:"kind,omitempty"`
	Base int      `json:"base"`
}

func genScale(prop string, seed uint64, r *R, st *Stats) *Plan {
	pr := profiles[prop]
	p := &Plan{Prop: prop, Scen: "scale", Seed: seed, MapSeed: r.u64()}
	for try := 0; ; try++ {
		pl := newPlanner(p, pr, r)
		g := pl.g
		g.types = min(g.types, 3)
		g.depth = min(g.depth, 2)
		g.dens /= 2
		g.wide = 0
		p.Docs = nil
		pl.addDoc(st)
		if len(pl.texts[0]) > 4000 {
			continue
		}
		p.Grow = pl.grow()
		if p.Grow == nil {
			continue
		}
		var ops []Op
		ops = append(ops, *pl.make("parse", 0))
		n := pr.nops[0] + r.n(pr.nops[1]-pr.nops[0]+1)
		for i := 0; i < n; i++ {
			if op := pl.draw(0); op != nil {
				ops = append(ops, *op)
			}
		}
		p.Epochs = []Epoch{{Ops: ops}}
		return p
	}
}

type place struct {
	path []string
	n    *N
}

func places(n *N, path []string, out *[]place) {
	*out = append(*out, place{append([]string{}, path...), n})
	for i := range n.P {
		if n.P[i].K.K == "s" {
			places(n.P[i].V, append(path, n.P[i].K.V), out)
		}
	}
	for i := range n.L {
		places(n.L[i], append(path, itoa(i)), out)
	}
}

// grow chooses where the document grows.
func (pl *planner) grow() *Grow {
	r := pl.r
	d := &pl.p.Docs[0]
	var ps []place
	places(d.Root, nil, &ps)
	for try := 0; try < 60; try++ {
		x := ps[r.n(len(ps))]
		g := &Grow{Path: x.path}
		switch {
		case x.n.hasAnchor():
			continue
		case x.n.K == "m" && len(x.n.P) > 0 && r.p(0.6), x.n.K == "l" && len(x.n.L) > 0:
			g.How, g.Base = "wide", r.pick2(12, 25, 40)
			if len(x.path) == 0 {
				continue
			}
		case x.n.isStr() && r.p(0.3):
			g.How, g.Base = "long", r.pick2(60, 200, 700)
		default:
			g.How, g.Base = "deep", r.pick2(5, 7, 10)
			switch {
			case isTypePlace(x.path):
				g.Kind = r.pick("items", "props", "props2")
			case isRawPlace(x.path):
				g.Kind = r.pick("list", "map")
			default:
				continue
			}
		}
		ok := true
		for _, k := range []int{1, 2} {
			c := g.apply(d, k)
			if c == nil {
				ok = false
				break
			}
			text := c.text()
			got, err := plainParse(text)
			want := c.Root.resolve()
			if err != nil || diff(want, got) != "" || !carried(text, want) || catchNorm(func() { normDoc(c.API, want) }) != nil {
				ok = false
				break
			}
		}
		if ok {
			return g
		}
	}
	return nil
}

// isTypePlace tells whether a path leads to a type declaration.
func isTypePlace(path []string) bool {
	if len(path) < 2 || !in(path[0], "types", "schemas", "annotationTypes") {
		return false
	}
	i := 2
	for i < len(path) {
		switch {
		case path[i] == "properties" && i+1 < len(path):
			i += 2
		case path[i] == "items":
			i++
		default:
			return false
		}
	}
	return true
}

// isRawPlace tells whether a path leads to something that is passed through.
func isRawPlace(path []string) bool {
	if len(path) == 0 {
		return false
	}
	if in(path[0], "traits", "resourceTypes", "securitySchemes") {
		return len(path) > 1
	}
	for _, s := range path {
		if strings.HasPrefix(s, "(") || strings.HasPrefix(s, "x-") {
			return true
		}
	}
	return strings.HasPrefix(path[0], "/") && len(path) > 1
}

// apply makes the document k times the base larger.
func (g *Grow) apply(d *DocSpec, k int) *DocSpec {
	c := DocSpec{API: d.API, Root: d.Root.clone(), Style: d.Style}
	n := c.Root
	for _, s := range g.Path {
		switch n.K {
		case "l":
			i := 0
			fmt.Sscan(s, &i)
			if i >= len(n.L) {
				return nil
			}
			n = n.L[i]
		default:
			n = n.get(s)
		}
		if n == nil {
			return nil
		}
	}
	size := g.Base * k
	switch g.How {
	case "wide":
		if n.K == "l" {
			m := len(n.L)
			for i := 0; i < size; i++ {
				x := n.L[i%m].clone()
				if x.isStr() {
					x.V += itoa(i)
				}
				n.L = append(n.L, x)
			}
			break
		}
		m := len(n.P)
		for i := 0; i < size; i++ {
			x := P{n.P[i%m].K.clone(), n.P[i%m].V.clone()}
			if strings.HasSuffix(x.K.V, ")") {
				x.K.V = strings.TrimSuffix(x.K.V, ")") + "w" + itoa(i) + ")"
			} else {
				x.K.V += "w" + itoa(i)
			}
			n.P = append(n.P, x)
		}
	case "long":
		n.V = strings.Repeat(n.V+" ", size) + n.V
	case "deep":
		for i := 0; i < size; i++ {
			inner := *n
			in := &inner
			switch g.Kind {
			case "list":
				*n = *lst(in)
			case "map":
				*n = *mp(kv("in", in))
			case "items":
				*n = *mp(kv("type", str("array")), kv("items", in))
			case "props":
				*n = *mp(kv("properties", mp(kv("in", in))))
			case "props2":
				*n = *mp(kv("type", str("object")), kv("properties", mp(kv("in", in))), kv("description", str("d")))
			}
		}
	}
	return &c
}

// costs tells how many statements each operation takes.
func (p *Plan) costs(res *Result, st *Stats, k int) []int64 {
	q := p.clone()
	d := p.Grow.apply(&p.Docs[0], k)
	if d == nil {
		return nil
	}
	q.Docs = []DocSpec{*d}
	w := newWorld(q, st)
	simrt.SetClock(0)
	var out []int64
	ops := q.Epochs[0].Ops
	res.runTasks(simrt.Config{Seed: p.Seed, MapSeed: p.MapSeed}, st, func() {
		for i := range ops {
			simrt.SetMapSeed(mix(p.MapSeed, uint64(i)))
			before := simrt.Steps()
			w.step(i, &ops[i])
			out = append(out, simrt.Steps()-before)
		}
	})
	res.collect(w)
	return out
}

// scale runs the plan with documents of several sizes.
func (p *Plan) scale(st *Stats) *Result {
	res := &Result{}
	var cs [][]int64
	add := func(k int) bool {
		c := p.costs(res, st, k)
		if res.Viol != nil && res.Viol.Class == "hang" {
			res.Viol.Class = "out-of-proportion"
		}
		if res.Viol != nil || res.Harness != "" || c == nil {
			return false
		}
		cs = append(cs, c)
		return true
	}
	for _, k := range []int{1, 2, 4} {
		if !add(k) {
			return res
		}
	}
	st.probe("sizes compared")
	over := func(a, b, c int64) bool {
		d := max(b-a, 0)
		return c-b > d*28/5+4000 && c > a*20
	}
	for i := range cs[0] {
		if !over(cs[0][i], cs[1][i], cs[2][i]) {
			continue
		}
		// not only because something else is done beyond some size
		if len(cs) < 4 && !add(8) {
			return res
		}
		if over(cs[1][i], cs[2][i], cs[3][i]) {
			op := &p.Epochs[0].Ops[i]
			res.Trace = append(res.Trace, fmt.Sprintf("statements %d %d %d %d", cs[0][i], cs[1][i], cs[2][i], cs[3][i]))
			res.Viol = &Violation{Class: "out-of-proportion", Op: i, OpT: op.T, Detail: fmt.Sprintf("%s takes far more than four times the work for a document of twice the size", op.T)}
			return res
		}
	}
	return res
}
