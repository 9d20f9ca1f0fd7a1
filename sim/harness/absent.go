package main

import "strings"

// Attributes that are unset must not be written, neither empty nor with their
// default value.  What was never said in the history of a document must not be
// in its file: said collects the names of the attributes that were explicitly
// given as empty or with their default.

var defaultOf = map[string]map[string]string{} // facet -> value kind -> default

func init() {
	for _, fs := range facetIndex {
		for k, f := range fs {
			if f.def != "" {
				if defaultOf[k] == nil {
					defaultOf[k] = map[string]string{}
				}
				defaultOf[k][f.vk] = f.def
			}
		}
	}
	defaultOf["strict"] = map[string]string{"bool": "true"}
}

func isDefault(k string, v *N) bool {
	for vk, d := range defaultOf[k] {
		if x := normScalar(vk, v); x != nil && x.V == d {
			return true
		}
	}
	return false
}

func emptyColl(v *N) bool { return v.K == "l" && len(v.L) == 0 || v.K == "m" && len(v.P) == 0 }

type saidSet map[string]bool

func (s saidSet) look(k string, v *N) {
	if s == nil || v == nil {
		return
	}
	if emptyColl(v) || isDefault(k, v) {
		s[k] = true
	}
	for _, p := range v.P {
		s.look(p.K.V, p.V)
	}
	for _, x := range v.L {
		s.look("", x)
	}
}

func (s saidSet) clone() saidSet {
	if s == nil {
		return nil
	}
	o := saidSet{}
	for k := range s {
		o[k] = true
	}
	return o
}

// unsaid looks for attributes in a written file that nobody has set.
func unsaid(tree *N, api bool, said saidSet) string {
	if said == nil || tree.K != "m" {
		return ""
	}
	for _, p := range tree.P {
		k := p.K.V
		if emptyColl(p.V) && !said[k] && (k == "types" || k == "schemas" || k == "uses" || contains(docRawKeys, k) || api && (contains(docListKeys, k) || k == "documentation")) {
			return "the empty section " + k + " is written, but was never set"
		}
		if k == "types" || k == "schemas" {
			if p.V.K == "m" {
				for _, q := range p.V.P {
					if d := unsaidType(q.V, said, "types/"+q.K.V); d != "" {
						return d
					}
				}
			}
		}
	}
	return ""
}

func unsaidType(n *N, said saidSet, path string) string {
	if n == nil || n.K != "m" {
		return ""
	}
	kind := ""
	if catchNorm(func() { kind = kindOfDecl(n) }) != nil {
		return ""
	}
	fs, ok := facetIndex[kind]
	if !ok {
		return ""
	}
	for _, p := range n.P {
		k := p.K.V
		f, ok := fs[k]
		if !ok || strings.HasPrefix(k, "(") {
			continue
		}
		at := path + "/" + k
		if !said[k] {
			switch f.vk {
			case "strlist", "boollist", "intlist", "floatlist", "rawlist", "types", "facets", "examples":
				if emptyColl(p.V) {
					return at + " is written empty, but was never set"
				}
			}
			if f.def != "" && isDefault(k, p.V) {
				return at + " is written with its default, but was never set"
			}
		}
		if p.V.K != "m" {
			continue
		}
		d := ""
		switch f.vk {
		case "type":
			d = unsaidType(p.V, said, at)
		case "types":
			for _, q := range p.V.P {
				if d == "" {
					d = unsaidType(q.V, said, at+"/"+q.K.V)
				}
			}
		case "facets":
			for _, q := range p.V.P {
				for _, z := range q.V.P {
					if d == "" {
						d = unsaidType(z.V, said, at+"/"+q.K.V+"/"+z.K.V)
					}
				}
			}
		case "example":
			d = unsaidExample(kind, p.V, said, at)
		case "examples":
			for _, q := range p.V.P {
				if d == "" {
					d = unsaidExample(kind, q.V, said, at+"/"+q.K.V)
				}
			}
		}
		if d != "" {
			return d
		}
	}
	return ""
}

func unsaidExample(kind string, n *N, said saidSet, path string) string {
	if n == nil || n.K != "m" || untypedEx[kind] && n.find("value") < 0 || said["strict"] {
		return ""
	}
	if v := n.get("strict"); v != nil && isDefault("strict", v) {
		return path + "/strict is written with its default, but was never set"
	}
	return ""
}

// valueless tells that an example of the document has no value, which no file
// can say.
func valueless(model *N, api bool) bool {
	for _, e := range elements(model, api, 1<<20) {
		if e.ref.class == "example" && e.ref.n.get("value") == nil {
			return true
		}
	}
	return false
}
