package main

import "strings"

// Attribution: a run shows that something is broken; this decides whether what
// is broken is the property that the check is about.

// aspect tells which property looks after a path of a document.
func aspect(path string) string {
	parts := strings.Split(strings.TrimPrefix(path, "/"), "/")
	if parts[0] != "types" {
		switch parts[0] {
		case "", "title", "version", "baseUri", "description", "protocols", "mediaType", "securedBy", "uses", "usage":
			return "other"
		}
		return "C10"
	}
	i := 2 // a type starts behind its name
	for i < len(parts) {
		switch parts[i] {
		case "properties":
			i += 2
		case "items":
			i++
		case "facets":
			i += 3
		case "example", "examples":
			return "C09"
		case "annotations", "extra", "xml":
			return "C10"
		default:
			return "C08"
		}
	}
	return "C08"
}

// typeKeys are the facets of declarations that the library interprets.
var typeKeys = map[string]bool{"type": true, "schema": true}

func init() {
	for _, fs := range facetIndex {
		for k := range fs {
			typeKeys[k] = true
		}
	}
}

// The strippers remove a part of the content from a document.
func stripExamples(n *N) {
	if n == nil {
		return
	}
	var keep []P
	for _, p := range n.P {
		if p.K.V != "example" && p.K.V != "examples" {
			stripExamples(p.V)
			keep = append(keep, p)
		}
	}
	n.P = keep
	for _, x := range n.L {
		stripExamples(x)
	}
}

func stripRawType(n *N) {
	if n == nil || n.K != "m" {
		return
	}
	var keep []P
	for _, p := range n.P {
		k := p.K.V
		if !typeKeys[k] || k == "xml" {
			continue
		}
		switch k {
		case "properties":
			for _, q := range p.V.P {
				stripRawType(q.V)
			}
		case "facets":
			for _, q := range p.V.P {
				for _, z := range q.V.P {
					stripRawType(z.V)
				}
			}
		case "items":
			stripRawType(p.V)
		case "example":
			stripRawExample(p.V)
		case "examples":
			for _, q := range p.V.P {
				stripRawExample(q.V)
			}
		}
		keep = append(keep, p)
	}
	n.P = keep
}

func stripRawExample(n *N) {
	if n == nil || n.K != "m" || n.find("value") < 0 {
		return
	}
	var keep []P
	for _, p := range n.P {
		switch p.K.V {
		case "value", "displayName", "description", "strict":
			keep = append(keep, p)
		}
	}
	n.P = keep
}

var docKeep = map[string]bool{"title": true, "version": true, "baseUri": true, "description": true, "protocols": true, "mediaType": true, "securedBy": true, "uses": true, "usage": true, "types": true, "schemas": true}

func stripRawDoc(n *N) {
	if n == nil {
		return
	}
	var keep []P
	for _, p := range n.P {
		if !docKeep[p.K.V] {
			continue
		}
		if p.K.V == "types" || p.K.V == "schemas" {
			for _, q := range p.V.P {
				stripRawType(q.V)
			}
		}
		keep = append(keep, p)
	}
	n.P = keep
}

func stripTypesDoc(n *N) {
	if n != nil {
		n.del("types")
		n.del("schemas")
	}
}

// without returns the plan without a part of the content; strip is one of
// examples, raw, types.
func (p *Plan) without(strips ...string) *Plan {
	q := p.clone()
	for _, s := range strips {
		for i := range q.Docs {
			switch s {
			case "examples":
				stripExamples(q.Docs[i].Root)
			case "raw":
				stripRawDoc(q.Docs[i].Root)
			case "types":
				stripTypesDoc(q.Docs[i].Root)
			}
		}
		q.eachOps(func(op *Op) bool {
			if op.T == "poison" || op.T == "heal" || op.T == "cure" {
				return true
			}
			path := append(append([]string{}, op.Path...), op.K)
			if op.T != "map" && op.T != "set" && op.T != "unset" && op.T != "setmap" && op.T != "unsetmap" {
				return true
			}
			for i := range path {
				if path[0] == "schemas" {
					path[0] = "types"
				}
				a := aspect("/" + strings.Join(path[:i+1], "/"))
				if s == "examples" && a == "C09" || s == "raw" && a == "C10" || s == "types" && path[0] == "types" {
					return false
				}
			}
			if op.V != nil {
				switch s {
				case "examples":
					stripExamples(op.V)
				case "raw":
					stripRawType(op.V)
				}
			}
			return true
		})
	}
	return q
}

// eachOps keeps the operations for which f is true.
func (p *Plan) eachOps(f func(*Op) bool) {
	filter := func(ops []Op, kill *bool) []Op {
		var out []Op
		for i := range ops {
			if f(&ops[i]) {
				out = append(out, ops[i])
			} else if i == len(ops)-1 && kill != nil {
				*kill = true
			}
		}
		return out
	}
	for i := range p.Epochs {
		lost := false
		p.Epochs[i].Ops = filter(p.Epochs[i].Ops, &lost)
		if lost && p.Epochs[i].Kill != nil {
			k := *p.Epochs[i].Kill
			k.After = 1 << 40
			p.Epochs[i].Kill = &k
			if k.Mode == "seam" || len(p.Epochs[i].Ops) == 0 {
				p.Epochs[i].Kill = nil
			}
		}
	}
	for i := range p.Tasks {
		p.Tasks[i] = filter(p.Tasks[i], nil)
	}
}

func (p *Plan) clone() *Plan {
	q := *p
	q.Docs = append([]DocSpec{}, p.Docs...)
	for i := range q.Docs {
		q.Docs[i].Root = q.Docs[i].Root.clone()
	}
	cp := func(ops []Op) []Op {
		out := append([]Op{}, ops...)
		for i := range out {
			if out[i].V != nil {
				out[i].V = out[i].V.clone()
			}
		}
		return out
	}
	q.Epochs = append([]Epoch{}, p.Epochs...)
	for i := range q.Epochs {
		q.Epochs[i].Ops = cp(q.Epochs[i].Ops)
	}
	q.Tasks = append([][]Op{}, p.Tasks...)
	for i := range q.Tasks {
		q.Tasks[i] = cp(q.Tasks[i])
	}
	if p.Map != nil {
		m := *p.Map
		m.Clients = append([][]MapOp{}, p.Map.Clients...)
		q.Map = &m
	}
	return &q
}

// clean tells whether a changed plan runs without a violation.
func (p *Plan) clean() bool {
	r := p.execute(newStats())
	return r.Viol == nil && r.Harness == ""
}

// still tells whether a changed plan shows a violation of the same class.
func (p *Plan) still(class string) bool {
	r := p.execute(newStats())
	return r.Viol != nil && r.Viol.Class == class
}

func in(s string, xs ...string) bool { return contains(xs, s) }

// cleanWithout runs the plan without the operations for which drop is true.
func (p *Plan) cleanWithout(drop func(*Op) bool) bool {
	q := p.clone()
	hit := false
	q.eachOps(func(op *Op) bool {
		d := drop(op)
		hit = hit || d
		return !d
	})
	return hit && q.clean()
}

// pathsOf reports whether a violation concerns an aspect.
func (v *Violation) concerns(a string) bool {
	for _, p := range v.Paths {
		if aspect(p) == a {
			return true
		}
	}
	return false
}

func isEdit(op *Op) bool {
	return in(op.T, "map", "set", "unset", "setmap", "unsetmap", "stray")
}

// noPlainFault removes faults from sources and destinations.
func (p *Plan) plainIO() *Plan {
	q := p.clone()
	q.eachOps(func(op *Op) bool {
		op.Rd, op.W = nil, nil
		return op.T != "panicio"
	})
	return q
}

// ownWrite: the document that was to be written contains what it should, so
// the failure is one of writing.
func saves(v *Violation) bool {
	return in(v.Class, "written-diff", "writes-absent", "reload-reject", "reload-diff", "write-fail") ||
		v.Class == "panic" && in(v.OpT, "save", "write", "load", "finish") || v.Class == "hang" && in(v.OpT, "save", "write", "load", "finish")
}

// attributed decides whether the violation is one of the plan's property.
func (p *Plan) attributed(v *Violation) bool {
	c := v.Class
	switch p.Prop {
	case "C01":
		return v.OpT == "parse" && in(c, "parse-reject", "parse-diff", "parse-nil", "panic", "hang", "observe", "gone") || c == "source-failure-silent" && false
	case "C02":
		if strings.HasPrefix(c, "source-failure-") {
			return true
		}
		fault := func(op *Op) bool { return op.T == "parse" && op.Rd != nil && op.Rd.FailAt > 0 }
		return p.cleanWithout(fault)
	case "C03":
		return v.OpT == "damaged" && in(c, "panic", "hang", "both", "parse-nil", "observe", "gone") || v.OpT == "parse" && in(c, "panic", "hang", "both", "parse-nil")
	case "C04":
		if in(c, "write-dishonest", "write-cause", "write-prefix", "write-late") {
			return true
		}
		if in(c, "write-fail", "panic", "hang", "written-diff", "bytes-differ", "write-effect") && in(v.OpT, "write", "save", "finish") {
			if p.cleanWithout(func(op *Op) bool { return in(op.T, "write", "save") && op.W != nil && op.W.faulty() }) {
				return true
			}
			// the kind of destination matters
			return p.plainIO().clean()
		}
		return false
	case "C05":
		if in(c, "bytes-differ", "write-effect", "node-effect", "twin-write") {
			return true
		}
		return p.cleanWithout(func(op *Op) bool { return in(op.T, "write", "marshal", "json", "observe") }) && in(c, "edit-diff", "gone", "panic", "hang", "observe-diff", "written-diff", "write-fail", "reload-diff", "reload-reject", "observe", "chain")
	case "C06", "C07":
		// what the file said has to be there before it can be saved
		return saves(v) || in(v.OpT, "parse", "load") && in(c, "parse-diff", "parse-reject", "parse-nil", "panic", "hang") || c == "write-effect" || c == "bytes-differ"
	case "C08", "C09", "C10":
		if in(c, "parse-diff", "written-diff", "reload-diff", "write-effect", "observe-diff", "edit-diff") {
			return v.concerns(p.Prop)
		}
		if in(c, "parse-reject", "reload-reject", "write-fail", "panic", "hang", "observe", "gone", "parse-nil", "writes-absent", "bytes-differ") {
			switch p.Prop {
			case "C09":
				return !p.without("examples").still(c)
			case "C10":
				return !p.without("raw").still(c)
			}
			return !p.without("types").still(c)
		}
		return false
	case "C11":
		if in(c, "edit-diff", "chain", "gone") && (isEdit(&Op{T: v.OpT}) || v.OpT == "") {
			return true
		}
		if c == "donor" || c == "parse-diff" || c == "parse-reject" {
			return false
		}
		if c == "writes-absent" {
			return true
		}
		return p.cleanWithout(isEdit)
	case "C14":
		if p.Scen == "isolated" {
			return true
		}
		return c == "other-diff" || p.singleSlotsClean()
	case "C15":
		return !strings.HasPrefix(c, "base-")
	case "C16":
		if strings.HasPrefix(c, "poison-") || c == "cure-diff" {
			return true
		}
		return in(c, "panic", "hang", "edit-diff", "write-effect", "write-fail", "written-diff", "bytes-differ", "reload-diff", "reload-reject", "gone", "observe") &&
			p.cleanWithout(func(op *Op) bool { return in(op.T, "poison", "heal", "cure") })
	case "C17":
		if c == "twin-failure" || strings.HasPrefix(c, "callback-") {
			return true
		}
		q := p.clone()
		for i := range q.Epochs {
			if k := q.Epochs[i].Kill; k != nil && k.Mode == "seam" {
				q.Epochs[i].Kill = nil
				q.Epochs[i].Ops = q.Epochs[i].Ops[:len(q.Epochs[i].Ops)-1]
			}
		}
		if in(v.OpT, "damaged", "panicio") {
			return false // the failing operation itself misbehaves
		}
		res := p.session(newStats(), nil)
		i := -1
		q.eachOps(func(op *Op) bool { i++; return !res.isFailure(i, op) && op.D < scratchSlot })
		return q.clean()
	case "C20":
		return in(c, "written-diff", "write-fail", "writes-absent", "panic", "hang") && in(v.OpT, "marshal", "json", "write", "save", "finish") ||
			in(c, "write-effect", "gone", "edit-diff") && p.cleanWithout(func(op *Op) bool { return in(op.T, "marshal", "json") })
	case "C21":
		return in(c, "stream-misuse", "write-late", "left-running")
	case "C22":
		return in(c, "grows-work", "grows-memory")
	case "C23":
		return c == "out-of-proportion"
	case "C24":
		return strings.HasPrefix(c, "accepted-")
	case "C12":
		return strings.HasPrefix(c, "map-")
	case "C13":
		return strings.HasPrefix(c, "ser-")
	}
	return false
}

// singleSlotsClean tells that every document is clean without the others.
func (p *Plan) singleSlotsClean() bool {
	slots := map[int]bool{}
	p.clone().eachOps(func(op *Op) bool { slots[op.D] = true; return true })
	if len(slots) < 2 {
		return false
	}
	for s := range slots {
		s := s
		q := p.clone()
		q.eachOps(func(op *Op) bool { return op.D == s })
		if !q.clean() {
			return false
		}
	}
	return true
}
