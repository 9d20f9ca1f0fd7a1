package main

import (
	"strings"
)

// Damaged input: what a crash, a bad disk, a wrong file or a careless author
// leave in place of a document.

var ramlTokens = strings.Fields("title: version: types: schemas: type: properties: items: example: examples: enum: default: facets: xml: uses: usage: documentation: mediaType: protocols: securedBy: traits: resourceTypes: annotationTypes: securitySchemes: baseUriParameters: required: minimum: maximum: format: multipleOf: minLength: pattern: discriminator: additionalProperties: value: strict: content: (a): /r: ? : - | > [ ] { } , & * ! !!map !!seq !!str !!int !!binary !!null !include %YAML --- ... # ' \" ~ null true 1 -1 1.5 0x .inf .nan <<: *a &a string object array any nil integer number boolean file datetime date-only a|b a[] \t")

func (pl *planner) damaged() []byte {
	r := pl.r
	d := pl.p.Docs[r.n(len(pl.p.Docs))]
	b := []byte(pl.texts[r.n(len(pl.texts))])
	if len(b) > 200000 {
		b = b[:200000]
	}
	k := r.n(17)
	if pl.p.Prop == "C24" && r.p(0.5) {
		k = 14 + r.n(3)
		if k == 14 {
			k = 6
		}
	}
	switch k {
	case 0: // truncated
		return b[:r.n(len(b)+1)]
	case 1, 2: // bit flips
		b = append([]byte{}, b...)
		for i, n := 0, 1+r.logN(8); i < n && len(b) > 0; i++ {
			b[r.n(len(b))] ^= 1 << uint(r.n(8))
		}
		return b
	case 3: // spliced from two documents
		c := []byte(pl.texts[r.n(len(pl.texts))])
		if len(c) > 200000 {
			c = c[:200000]
		}
		return append(append([]byte{}, b[:r.n(len(b)+1)]...), c[r.n(len(c)+1):]...)
	case 4: // a range lost, repeated or zeroed
		if len(b) < 4 {
			return b
		}
		i := r.n(len(b) - 1)
		j := i + 1 + r.logN(len(b)-i-1)
		if j > len(b) {
			j = len(b)
		}
		switch r.n(3) {
		case 0:
			return append(append([]byte{}, b[:i]...), b[j:]...)
		case 1:
			return append(append([]byte{}, b[:j]...), b[i:]...)
		}
		c := append([]byte{}, b...)
		for k := i; k < j; k++ {
			c[k] = 0
		}
		return c
	case 5: // strange bytes
		return r.junk()
	case 6, 7, 8, 9, 10: // values of another shape
		root := d.Root.clone()
		for i, n := 0, 1+r.logN(4); i < n; i++ {
			reshape(r, pl.g, root)
		}
		st := d.Style
		st.PadTop, st.PadEnd = 0, 0
		return []byte(renderDoc(d.API, root, st))
	case 11: // the other kind of document
		st := d.Style
		st.PadTop, st.PadEnd = 0, 0
		return []byte(renderDoc(!d.API, d.Root, st))
	case 12:
		return []byte(r.soup())
	case 13:
		return []byte(r.special())
	case 14: // lines swapped, indentation changed
		ls := strings.Split(string(b), "\n")
		for i, n := 0, 1+r.logN(6); i < n; i++ {
			j, k := r.n(len(ls)), r.n(len(ls))
			switch r.n(4) {
			case 0:
				ls[j], ls[k] = ls[k], ls[j]
			case 1:
				ls[j] = "  " + ls[j]
			case 2:
				ls[j] = strings.TrimPrefix(ls[j], "  ")
			case 3:
				ls[j] = ls[k]
			}
		}
		return []byte(strings.Join(ls, "\n"))
	}
	if k == 15 {
		return []byte(reTyped(r, pl.g))
	}
	return []byte(rePlaced(r, pl.g))
}

var placeNames = map[string][]string{
	"api":   strings.Fields("title version description baseUri baseUriParameters protocols mediaType documentation securitySchemes securedBy uses traits resourceTypes types schemas annotationTypes (a) /r x"),
	"lib":   strings.Fields("usage uses traits resourceTypes types schemas annotationTypes securitySchemes (a) /r title x"),
	"doc":   strings.Fields("title content x (a)"),
	"xml":   strings.Fields("attribute wrapped name namespace prefix x"),
	"ex":    strings.Fields("value displayName description strict (a) x"),
	"type":  strings.Fields("default enum example examples required facets xml displayName description minimum maximum multipleOf format minLength maxLength pattern fileTypes minItems maxItems uniqueItems items properties minProperties maxProperties additionalProperties discriminator discriminatorValue (a) x"),
	"facet": strings.Fields("type default description displayName required (a) x"),
}

// rePlaced gives the attributes of some place in a document values of any
// shape, next to ones that are right.
func rePlaced(r *R, g *gcfg) string {
	any := func() *N {
		v := g.shape()
		switch r.n(9) {
		case 3: // a text that looks like a value of another type
			v = str(r.pick("true", "false", "12", "0", "1.5", "null", "~", "", "a, b", "a b", "[]", "{}", "2020-01-01"))
		case 4: // about what a place may take
			v = []*N{boolN(true), boolN(false), intN(int64(r.n(20)) - 2), scal(tFloat, r.pick("2.0", "0.5", "-1.0")), lst(str("a")),
				lst(lst(str("a"))), scal(tNull, "null")}[r.n(7)]
		case 0:
			v = lst(g.shape())
		case 1:
			v = mp(kv(r.pick("a", "b", "value"), g.shape()))
		case 2:
			v = str(g.word())
		}
		return v
	}
	some := func(place string) *N {
		o := mp()
		ks := placeNames[place]
		for i, n := 0, 1+r.n(3); i < n; i++ {
			if k := ks[r.n(len(ks))]; o.find(k) < 0 {
				o.P = append(o.P, kv(k, any()))
			}
		}
		return o
	}
	api := r.p(0.5)
	kind := r.pick("any", "array", "boolean", "date-only", "datetime", "datetime-only", "file", "integer", "number", "object", "string", "time-only", "a|b", "Foo")
	typ := func(k string, v *N) *N {
		return mp(kv("types", mp(kv("A", mp(kv("type", str(kind)), kv(k, v))))))
	}
	var o *N
	switch r.n(8) {
	case 6, 7:
		t := some("type")
		t.P = append(t.P, kv("type", str(kind)))
		o = mp(kv("types", mp(kv("A", t))))
	case 0:
		o = some("lib")
		api = false
	case 1:
		o = some("api")
		api = true
	case 2:
		o = mp(kv("title", str("t")), kv("documentation", lst(some("doc"), some("doc"))))
		api = true
	case 3:
		o = typ("xml", some("xml"))
	case 4:
		e := some("ex")
		if e.find("value") < 0 && r.p(0.8) {
			e.P = append(e.P, kv("value", any()))
		}
		if r.p(0.5) {
			o = typ("example", e)
		} else {
			o = typ("examples", mp(kv("one", e), kv("two", any())))
		}
	default:
		o = typ(r.pick("facets", "properties", "items"), mp(kv("f", some("facet"))))
	}
	return renderDoc(api, o, Style{})
}

// reshape replaces a value of the tree by a value of another shape.
func reshape(r *R, g *gcfg, root *N) {
	var all []*N
	var rec func(n *N)
	rec = func(n *N) {
		all = append(all, n)
		for i := range n.P {
			if r.p(0.08) {
				all = append(all, n.P[i].K)
			}
			rec(n.P[i].V)
		}
		for _, x := range n.L {
			rec(x)
		}
	}
	rec(root)
	t := all[r.n(len(all))]
	if r.p(0.03) {
		t = root
	}
	*t = *g.shape()
}

// shape draws a value of any shape.
func (g *gcfg) shape() *N {
	r := g.r
	switch r.n(13) {
	case 0:
		return scal(tNull, r.pick("", "~", "null"))
	case 1:
		return scal(tInt, r.pick("0", "1", "-1", "99999999999999999999", "0x10", "18446744073709551615", "-9223372036854775808"))
	case 2:
		return scal(tFloat, r.pick("1.5", ".inf", "-.inf", ".nan", "1e400", "-0.0"))
	case 3:
		return boolN(r.p(0.5))
	case 4:
		return lst()
	case 5:
		return mp()
	case 6:
		return lst(g.raw(1), g.raw(1))
	case 7:
		return g.rawMap(1)
	case 8:
		return scal("!include", "x.raml")
	case 9:
		return scal("!custom", "v")
	case 10:
		return g.typ(1)
	case 11:
		return lst(mp(kv("type", str("object"))))
	}
	return str(r.pick("", "object", "array", "x", "integer", "file", "nil", "any", "a|b", "string[]"))
}

func (r *R) junk() []byte {
	n := r.logN(400)
	b := make([]byte, n)
	for i := range b {
		switch r.n(3) {
		case 0:
			b[i] = byte(r.n(256))
		case 1:
			b[i] = byte(32 + r.n(95))
		default:
			const odd = "\n :-{}[],#&*!|>'\"%@`?\x00\xff\xfe\xef\xbb\xbf\t\r"
			b[i] = odd[r.n(len(odd))]
		}
	}
	if r.p(0.2) {
		b = append([]byte(r.pick("\xff\xfe", "\xfe\xff", "\xef\xbb\xbf", "#%RAML 1.0\n", "#%RAML 1.0 Library\n")), b...)
	}
	return b
}

func (r *R) soup() string {
	var b strings.Builder
	if r.p(0.5) {
		b.WriteString("#%RAML 1.0\n")
	}
	ind := 0
	for i, n := 0, r.logN(60); i < n; i++ {
		switch r.n(4) {
		case 0:
			b.WriteString("\n")
			switch r.n(3) {
			case 0:
				ind += 2
			case 1:
				if ind > 0 {
					ind -= 2
				}
			}
			b.WriteString(strings.Repeat(" ", ind))
		case 1:
			b.WriteString(" ")
		}
		b.WriteString(ramlTokens[r.n(len(ramlTokens))])
		if r.p(0.6) {
			b.WriteString(" ")
		}
	}
	return b.String()
}

// special inputs: cycles, nesting, merge keys, several documents.
func (r *R) special() string {
	depth := r.pick2(3, 30, 300, 2000)
	rep := strings.Repeat
	t := r.pick("types", "types", "types", "traits", "x", "(a)", "/r", "uses", "documentation", "securedBy")
	switch r.n(22) {
	case 0:
		return ""
	case 1:
		return r.pick(" ", "\n", "---\n", "...\n", "---\n...\n", "# only a comment\n", "#%RAML 1.0", "#%RAML 1.0\n---\n", "~", "null", "\"\"", "[]", "{}", "- a\n", "x", "1", "!!binary aGk=", "%YAML 1.1\n---\n{}")
	case 2:
		return t + ": &a\n  k: *a\n"
	case 3:
		return t + ": &a [*a]\n"
	case 4:
		return t + ": &a\n  type: object\n  properties: *a\n"
	case 5:
		return "types:\n  A: &a\n    type: array\n    items: *a\n"
	case 6:
		return "types:\n  A: &a\n    type: object\n    properties:\n      self: *a\n"
	case 7:
		return "types:\n  A: &a\n    type: any\n    example: *a\n    examples: {x: *a}\n"
	case 8:
		return "x: &b [1,2]\n" + t + ":\n  k: *b\n  <<: *b\n"
	case 9:
		return "x: &b {k: v, l: w}\n" + t + ":\n  <<: *b\n  k: z\n"
	case 10:
		return "types:\n  A: &a {type: string}\n  B: {<<: *a, minLength: 1}\n  C: {<<: [*a, *a]}\n"
	case 11:
		return t + ": " + rep("[", depth) + rep("]", depth) + "\n"
	case 12:
		return t + ": " + rep("{a: ", depth) + "1" + rep("}", depth) + "\n"
	case 13:
		if depth > 300 {
			depth = 300
		}
		var b strings.Builder
		b.WriteString("types:\n  A:\n")
		for i := 0; i < depth; i++ {
			b.WriteString(rep(" ", 4+4*i) + "properties:\n" + rep(" ", 6+4*i) + "p:\n")
		}
		b.WriteString(rep(" ", 8+4*depth) + "type: string\n")
		return b.String()
	case 14:
		if depth > 300 {
			depth = 300
		}
		return "types:\n  A: " + rep("{items: ", depth) + "string" + rep("}", depth) + "\n"
	case 15:
		return "title: a\ntitle: b\ntypes: {}\ntypes: {A: string}\nschemas: {A: integer}\n"
	case 16:
		return "title: a\n---\ntitle: b\n"
	case 17:
		return "x: &a [1,1,1]\ny: &b [*a,*a,*a]\nz: &c [*b,*b,*b]\n" + t + ": {k: *c}\n"
	case 18:
		return "? [a, b]\n: c\n? {x: y}\n: d\n1: e\n~: f\ntrue: g\n" + t + ":\n  ? [q]\n  : string\n  1: integer\n  ~: number\n"
	case 19:
		return "types:\n  A:\n    ? {a: b}\n    : c\n    1: 2\n    type: " + r.pick("object", "any", "string", "array", "file", "a|b", "Foo") + "\n    properties:\n      1: string\n      ~: {}\n    items: 5\n    enum: {a: b}\n    facets: [a]\n    xml: true\n    examples: 5\n"
	case 20:
		return "types:\n  A: &t {type: object}\n  *t : string\n"
	}
	return "types:\n  A:\n    type: *missing\n"
}

var facetNames = strings.Fields("type schema default example examples displayName description facets xml enum required properties minProperties maxProperties additionalProperties discriminator discriminatorValue items minItems maxItems uniqueItems pattern minLength maxLength minimum maximum format multipleOf fileTypes (a) x value strict")

// reTyped gives the facets of a type declaration values of any shape.
func reTyped(r *R, g *gcfg) string {
	o := mp()
	kind := r.pick("any", "array", "boolean", "date-only", "datetime", "datetime-only", "file", "integer", "nil", "number", "object", "string", "time-only", "a|b", "Foo", "Foo[]")
	if r.p(0.85) {
		o.P = append(o.P, kv("type", str(kind)))
	}
	for i, n := 0, 1+r.n(4); i < n; i++ {
		k := facetNames[r.n(len(facetNames))]
		v := g.shape()
		switch r.n(4) {
		case 0:
			v = mp(kv("a", g.shape()), kv("value", g.shape()))
		case 1:
			v = mp(kv("value", g.shape()), kv(r.pick("strict", "displayName", "(x)", "name", "wrapped"), g.shape()))
		case 2:
			v = lst(g.shape())
		}
		o.P = append(o.P, kv(k, v))
	}
	t := mp(kv("A", o))
	if r.p(0.3) {
		t = mp(kv("A", mp(kv(r.pick("properties", "facets", "items", "properties"), t))))
	}
	return renderDoc(false, mp(kv("types", t)), Style{})
}
