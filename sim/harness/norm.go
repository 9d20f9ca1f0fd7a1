package main

import (
	"fmt"
	"strings"
)

// The normaliser turns the content tree of a RAML file into the tree of what an
// observer of the document must see.  It is written from the RAML 1.0
// specification and the documentation of the public interfaces.

type facet struct {
	key string // RAML facet name
	m   string // accessor name; setters are Set+m, Unset+m
	vk  string // value kind: str uint int float bool raw rawlist strlist boollist intlist floatlist format type types facets xml example examples
	def string // default as canonical scalar text, "" if none
}

var commonFacets = []facet{
	{"displayName", "DisplayName", "str", ""},
	{"description", "Description", "str", ""},
	{"required", "Required", "bool", "true"},
	{"facets", "FacetDefinitions", "facets", ""},
	{"xml", "XML", "xml", ""},
	{"example", "Example", "example", ""},
	{"examples", "Examples", "examples", ""},
}

var kindFacets = map[string][]facet{
	"any":           {{"default", "Default", "raw", ""}, {"enum", "Enum", "rawlist", ""}},
	"custom":        {{"default", "Default", "raw", ""}, {"enum", "Enum", "rawlist", ""}},
	"union":         {{"default", "Default", "raw", ""}, {"enum", "Enum", "rawlist", ""}},
	"boolean":       {{"default", "Default", "bool", ""}, {"enum", "Enum", "boollist", ""}},
	"date-only":     {{"default", "Default", "str", ""}, {"enum", "Enum", "strlist", ""}},
	"time-only":     {{"default", "Default", "str", ""}, {"enum", "Enum", "strlist", ""}},
	"datetime-only": {{"default", "Default", "str", ""}, {"enum", "Enum", "strlist", ""}},
	"datetime":      {{"default", "Default", "str", ""}, {"enum", "Enum", "strlist", ""}, {"format", "Format", "format", ""}},
	"string": {{"default", "Default", "str", ""}, {"enum", "Enum", "strlist", ""}, {"pattern", "Pattern", "str", ""},
		{"minLength", "MinLength", "uint", "0"}, {"maxLength", "MaxLength", "uint", ""}},
	"file": {{"default", "Default", "raw", ""}, {"enum", "Enum", "rawlist", ""}, {"fileTypes", "FileTypes", "strlist", ""},
		{"minLength", "MinLength", "uint", "0"}, {"maxLength", "MaxLength", "uint", "2147483647"}},
	"integer": {{"default", "Default", "int", ""}, {"enum", "Enum", "intlist", ""}, {"minimum", "Minimum", "int", ""},
		{"maximum", "Maximum", "int", ""}, {"format", "Format", "format", ""}, {"multipleOf", "MultipleOf", "float", ""}},
	"number": {{"default", "Default", "float", ""}, {"enum", "Enum", "floatlist", ""}, {"minimum", "Minimum", "float", ""},
		{"maximum", "Maximum", "float", ""}, {"format", "Format", "format", ""}, {"multipleOf", "MultipleOf", "float", ""}},
	"array": {{"default", "Default", "rawlist0", ""}, {"enum", "Enum", "rawlist", ""}, {"items", "Items", "type", ""},
		{"minItems", "MinItems", "uint", "0"}, {"maxItems", "MaxItems", "uint", "2147483647"}, {"uniqueItems", "UniqueItems", "bool", "false"}},
	"object": {{"default", "Default", "raw", ""}, {"enum", "Enum", "rawlist", ""}, {"properties", "Properties", "types", ""},
		{"minProperties", "MinProperties", "uint", ""}, {"maxProperties", "MaxProperties", "uint", ""},
		{"additionalProperties", "AdditionalProperties", "bool", "true"}, {"discriminator", "Discriminator", "str", ""},
		{"discriminatorValue", "DiscriminatorValue", "raw", ""}},
}

var extendedKinds = []string{"any", "array", "boolean", "custom", "date-only", "datetime", "datetime-only", "file", "integer", "number", "object", "string", "time-only", "union"}
var builtinKinds = []string{"any", "array", "boolean", "date-only", "datetime", "datetime-only", "file", "integer", "nil", "number", "object", "string", "time-only"}

// untyped: example values may be mappings
var untypedEx = map[string]bool{"any": true, "custom": true, "file": true, "object": true, "union": true}

var facetIndex = map[string]map[string]facet{}

func init() {
	for k, fs := range kindFacets {
		facetIndex[k] = map[string]facet{}
		for _, f := range append(append([]facet{}, commonFacets...), fs...) {
			facetIndex[k][f.key] = f
		}
	}
}

// facetsOf returns all facets of a kind in a fixed order.
func facetsOf(kind string) []facet {
	if kind == "nil" || kind == "include" {
		return nil
	}
	return append(append([]facet{}, commonFacets...), kindFacets[kind]...)
}

func isBuiltin(s string) bool {
	for _, k := range builtinKinds {
		if k == s {
			return true
		}
	}
	return false
}

// kindOfExpr is the kind of a type expression.
func kindOfExpr(s string) string {
	switch {
	case isBuiltin(s):
		return s
	case strings.HasPrefix(s, "!include "):
		return "include"
	case strings.Contains(s, "|"):
		return "union"
	}
	return "custom"
}

type normErr struct{ msg string }

func (e normErr) Error() string { return "model: " + e.msg }

func bad(f string, a ...interface{}) { panic(normErr{fmt.Sprintf(f, a...)}) }

// catchNorm converts a failed normalisation to an error.
func catchNorm(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(normErr); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func wantStr(n *N) *N {
	if !n.isStr() {
		bad("expected a string, got %s", strings.Join(dump(n), " "))
	}
	return str(n.V)
}

// badKey is the start of complaints about keys.
const badKey = "model: key "

func wantKey(n *N) *N {
	if !n.isStr() {
		bad("key %s is not a string", keyName(n))
	}
	return str(n.V)
}

func strList(n *N) *N {
	if n.K != "l" {
		bad("expected a list")
	}
	o := lst()
	for _, x := range n.L {
		o.L = append(o.L, wantStr(x))
	}
	return o
}

func rawMap(n *N) *N {
	if n.K != "m" {
		bad("expected a mapping")
	}
	o := mp()
	for _, p := range n.P {
		wantKey(p.K)
		o.put(p.K.V, p.V)
	}
	return o
}

// addNonEmpty adds a section unless it has no entries.
func addNonEmpty(o *N, k string, v *N) {
	if v != nil && (len(v.P) > 0 || len(v.L) > 0) {
		o.P = append(o.P, kv(k, v))
	}
}

var docStrKeys = []string{"title", "version", "baseUri", "description"}
var docListKeys = []string{"protocols", "securedBy", "mediaType"}
var docRawKeys = []string{"securitySchemes", "baseUriParameters", "traits", "annotationTypes", "resourceTypes"}
var libRawKeys = []string{"securitySchemes", "traits", "annotationTypes", "resourceTypes"}

func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

// normDoc normalises the content of an API document or library.
func normDoc(api bool, n *N) *N {
	o := uset()
	if !api && n.K == "s" && n.T == tNull {
		return o
	}
	if n.K != "m" {
		bad("document is not a mapping")
	}
	anns, res, extra := mp(), mp(), mp()
	types := mp()
	if api {
		o.set("title", str(""))
	}
	for _, p := range n.P {
		k := p.K.V
		if !p.K.isStr() {
			wantKey(p.K)
		}
		switch {
		case strings.HasPrefix(k, "("):
			anns.put(k, rawMap(p.V))
		case api && strings.HasPrefix(k, "/"):
			res.put(k, p.V)
		case api && contains(docStrKeys, k), !api && k == "usage":
			o.set(k, wantStr(p.V))
		case api && k == "mediaType" && p.V.K == "s":
			o.set(k, lst(wantStr(p.V)))
		case api && contains(docListKeys, k):
			o.set(k, strList(p.V))
		case api && k == "documentation":
			d := lst()
			if p.V.K != "l" {
				bad("documentation is not a list")
			}
			for _, x := range p.V.L {
				d.L = append(d.L, normDocEntry(x))
			}
			o.set(k, d)
		case k == "uses":
			u := rawMap(p.V)
			for _, q := range u.P {
				wantStr(q.V)
			}
			o.set(k, u)
		case api && contains(docRawKeys, k), !api && contains(libRawKeys, k):
			o.set(k, rawMap(p.V))
		case k == "types" || k == "schemas":
			for _, q := range p.V.P {
				types.put(wantKey(q.K).V, normType(q.V))
			}
		default:
			extra.put(k, p.V)
		}
	}
	for i := 0; i < len(o.P); i++ {
		v := o.P[i].V
		if v.K != "s" && len(v.P) == 0 && len(v.L) == 0 {
			o.P = append(o.P[:i], o.P[i+1:]...)
			i--
		}
	}
	addNonEmpty(o, "types", types)
	addNonEmpty(o, "annotations", anns)
	addNonEmpty(o, "resources", res)
	addNonEmpty(o, "extra", extra)
	return o
}

func normDocEntry(n *N) *N {
	if n.K != "m" {
		bad("documentation entry is not a mapping")
	}
	o, extra := uset(), mp()
	o.set("title", str(""))
	o.set("content", str(""))
	for _, p := range n.P {
		switch p.K.V {
		case "title", "content":
			o.set(p.K.V, p.V)
		default:
			extra.put(wantKey(p.K).V, p.V)
		}
	}
	addNonEmpty(o, "extra", extra)
	return o
}

func kindOfDecl(n *N) string {
	switch {
	case n.isStr():
		return kindOfExpr(n.V)
	case n.isScalar() && n.T == "!include":
		return "include"
	case n.isScalar() && n.T == tNull:
		return "string"
	case n.K == "m":
		props, items := false, false
		for _, p := range n.P {
			switch p.K.V {
			case "type", "schema":
				if p.V.isStr() {
					return kindOfExpr(p.V.V)
				}
				if p.V.isScalar() && p.V.T == "!include" {
					return "include"
				}
				bad("type facet")
			case "properties":
				props = true
			case "items":
				items = true
			}
		}
		if props {
			return "object"
		}
		if items {
			return "array"
		}
		return "string"
	}
	bad("type declaration")
	return ""
}

// normType normalises a type declaration.  The result has the pseudo facet
// "kind" and the groups "annotations" and "extra".
func normType(n *N) *N {
	kind := kindOfDecl(n)
	o := uset()
	o.set("kind", str(kind))
	o.set("type", str(kind))
	if n.K == "s" {
		if n.T != tNull {
			o.set("type", str(n.V))
		}
		return o
	}
	basic := kind == "nil" || kind == "include"
	anns, extra := mp(), mp()
	for _, p := range n.P {
		k := p.K.V
		if k == "type" || k == "schema" {
			o.set("type", str(p.V.V))
			continue
		}
		if !basic {
			if strings.HasPrefix(k, "(") {
				anns.put(k, rawMap(p.V))
				continue
			}
			if f, ok := facetIndex[kind][k]; ok {
				v := normFacet(kind, f, p.V)
				if v != nil {
					if f.def == "" || v.V != f.def {
						if !(v.K != "s" && len(v.P) == 0 && len(v.L) == 0 && f.vk != "raw" && f.vk != "rawlist0" && f.vk != "example" && f.vk != "xml") {
							o.set(k, v)
						}
					}
					continue
				}
				if k != "default" {
					bad("facet %s", k)
				}
				// a default of another shape is an extra facet
			}
		}
		extra.put(wantKey(p.K).V, p.V)
	}
	addNonEmpty(o, "annotations", anns)
	addNonEmpty(o, "extra", extra)
	return o
}

// normFacet returns nil if the value does not have the right shape.
func normFacet(kind string, f facet, v *N) *N {
	switch f.vk {
	case "raw":
		return v
	case "rawlist", "rawlist0":
		if v.K == "l" {
			o := lst(v.L...)
			return o
		}
		return nil
	case "strlist":
		if v.K != "l" {
			return nil
		}
		return strList(v)
	case "boollist", "intlist", "floatlist":
		if v.K != "l" {
			return nil
		}
		o := lst()
		for _, x := range v.L {
			y := normScalar(strings.TrimSuffix(f.vk, "list"), x)
			if y == nil {
				return nil
			}
			o.L = append(o.L, y)
		}
		return o
	case "type":
		return normType(v)
	case "types":
		o := mp()
		if v.K != "m" {
			return nil
		}
		for _, p := range v.P {
			o.put(wantKey(p.K).V, normType(p.V))
		}
		return o
	case "facets":
		o := mp()
		if v.K != "m" {
			return nil
		}
		for _, p := range v.P {
			d := mp()
			if p.V.K != "m" {
				bad("facet definition")
			}
			for _, q := range p.V.P {
				d.put(wantKey(q.K).V, normType(q.V))
			}
			o.put(wantKey(p.K).V, d)
		}
		return o
	case "xml":
		return normXML(v)
	case "example":
		return normExample(kind, v)
	case "examples":
		o := mp()
		if v.K != "m" {
			return nil
		}
		for _, p := range v.P {
			o.put(wantKey(p.K).V, normExample(kind, p.V))
		}
		return o
	}
	return normScalar(f.vk, v)
}

func normScalar(vk string, v *N) *N {
	if !v.isScalar() {
		return nil
	}
	switch vk {
	case "str", "format":
		if v.T == tStr {
			return str(v.V)
		}
	case "bool":
		if v.T == tBool {
			return scal(tBool, canonScalar(tBool, v.V))
		}
	case "uint":
		if v.T == tInt && !strings.HasPrefix(v.V, "-") {
			return scal(tInt, canonScalar(tInt, v.V))
		}
	case "int":
		if v.T == tInt {
			return scal(tInt, canonScalar(tInt, v.V))
		}
	case "float":
		if v.T == tFloat || v.T == tInt {
			if c, ok := canonFloat(v.V); ok {
				return scal(tFloat, c)
			}
		}
	default:
		bad("value kind %s", vk)
	}
	return nil
}

func normXML(v *N) *N {
	if v.K != "m" {
		return nil
	}
	o, extra := uset(), mp()
	for _, p := range v.P {
		switch p.K.V {
		case "attribute", "wrapped":
			x := normScalar("bool", p.V)
			if x == nil {
				bad("xml")
			}
			o.set(p.K.V, x)
		case "name", "namespace", "prefix":
			o.set(p.K.V, wantStr(p.V))
		default:
			extra.put(wantKey(p.K).V, p.V)
		}
	}
	// user defined XML settings have no accessor: they are checked in the
	// written bytes only
	addNonEmpty(o, "extra", extra)
	return o
}

// exVK is the value kind of the examples of a type kind.
func exVK(kind string) string {
	switch kind {
	case "array":
		return "rawlist0"
	case "boolean":
		return "bool"
	case "integer":
		return "int"
	case "number":
		return "float"
	}
	if untypedEx[kind] {
		return "raw"
	}
	return "str"
}

func normExample(kind string, v *N) *N {
	o := uset()
	vk := exVK(kind)
	expanded := v.K == "m"
	if untypedEx[kind] && v.find("value") < 0 {
		expanded = false
	}
	set := func(x *N) {
		y := normFacet(kind, facet{vk: vk}, x)
		if y == nil {
			bad("example value")
		}
		o.set("value", y)
	}
	if !expanded {
		set(v)
		return o
	}
	anns, extra := mp(), mp()
	for _, p := range v.P {
		k := wantKey(p.K).V
		switch {
		case strings.HasPrefix(k, "("):
			anns.put(k, rawMap(p.V))
		case k == "displayName" || k == "description":
			o.set(k, wantStr(p.V))
		case k == "strict":
			x := normScalar("bool", p.V)
			if x == nil {
				bad("strict")
			}
			if x.V == "false" {
				o.set(k, x)
			}
		case k == "value":
			set(p.V)
		default:
			extra.put(k, p.V)
		}
	}
	addNonEmpty(o, "annotations", anns)
	addNonEmpty(o, "extra", extra)
	return o
}
