package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
	"gopkg.in/yaml.v3"
)

// Op is one step of a plan.
type Op struct {
	T    string      `json:"op"`
	D    int         `json:"d,omitempty"` // document slot
	Path []string    `json:"path,omitempty"`
	K    string      `json:"key,omitempty"`
	M    string      `json:"m,omitempty"`
	V    *N          `json:"v,omitempty"`
	Doc  int         `json:"doc,omitempty"`
	N    int         `json:"n,omitempty"`
	FE   bool        `json:"fe,omitempty"`
	Rd   *ReaderSpec `json:"rd,omitempty"`
	W    *WriterSpec `json:"w,omitempty"`
	Text string      `json:"text,omitempty"`
	B    []byte      `json:"b,omitempty"` // damaged input
	// Rep repeats the operation; Forms looks at the form of every map, Nodes at
	// the YAML nodes that were handed out.
	Rep   int  `json:"rep,omitempty"`
	Forms bool `json:"forms,omitempty"`
	Nodes bool `json:"nodes,omitempty"`
	// Sh numbers the list that is handed in; operations with the same number
	// hand in the same one.
	Sh int `json:"sh,omitempty"`
}

// pool holds the lists that are handed in several times, with room behind
// their end.
type pool map[int][]reflect.Value

var poolTypes = map[string]reflect.Type{
	"str":   reflect.TypeOf([]string{}),
	"bool":  reflect.TypeOf([]bool{}),
	"int":   reflect.TypeOf([]int64{}),
	"float": reflect.TypeOf([]float64{}),
}

func (p *Plan) pool() pool {
	out := pool{}
	add := func(op *Op) {
		if op.Sh == 0 || op.V == nil || op.V.K != "l" || out[op.Sh] != nil {
			return
		}
		for _, vk := range []string{"str", "bool", "int", "float"} {
			catchNorm(func() {
				defer func() {
					if recover() != nil {
						return // another kind of list
					}
				}()
				t := poolTypes[vk]
				v := reflect.MakeSlice(t, 0, len(op.V.L)+4)
				for _, x := range op.V.L {
					v = reflect.Append(v, scalarGo(vk, x, t.Elem()))
				}
				out[op.Sh] = append(out[op.Sh], v)
			})
		}
	}
	for i := range p.Epochs {
		for j := range p.Epochs[i].Ops {
			add(&p.Epochs[i].Ops[j])
		}
	}
	for i := range p.Tasks {
		for j := range p.Tasks[i] {
			add(&p.Tasks[i][j])
		}
	}
	return out
}

// list returns the list with a number, if it has the type.
func (p pool) list(n int, want reflect.Type) (reflect.Value, bool) {
	for _, v := range p[n] {
		if v.Type().ConvertibleTo(want) && v.Type().Elem() == want.Elem() {
			return v.Convert(want), true
		}
	}
	return reflect.Value{}, false
}

/* ---- model side ---- */

// mref points to an element or container of the model.
type mref struct {
	class  string // doc type xml example docentry | types props facets anns rawmap anymap strmap examples doclist
	n      *N     // nil if an absent container
	parent *N
	key    string
	kind   string // of the surrounding type
	api    bool
}

// pairs lists the entries.
func (m mref) pairs() []P {
	if m.n == nil {
		return nil
	}
	return m.n.P
}

func isContainer(class string) bool {
	switch class {
	case "types", "props", "facets", "anns", "rawmap", "anymap", "strmap", "examples":
		return true
	}
	return false
}

func sub(p mref, key, class string) (mref, bool) {
	return mref{class: class, n: p.n.get(key), parent: p.n, key: key, kind: p.kind, api: p.api}, true
}

func (m mref) step(s string) (mref, bool) {
	no := mref{}
	if m.n == nil {
		return no, false
	}
	switch m.class {
	case "doc":
		switch {
		case s == "types" || s == "schemas":
			return sub(m, "types", "types")
		case s == "annotations":
			return sub(m, s, "anns")
		case s == "uses":
			return sub(m, s, "strmap")
		case s == "extra":
			return sub(m, s, "anymap")
		case m.api && (s == "resources" || contains(docRawKeys, s)), !m.api && contains(libRawKeys, s):
			return sub(m, s, "rawmap")
		case m.api && s == "documentation":
			return sub(m, s, "doclist")
		}
	case "type":
		k := m.n.get("kind")
		if k == nil {
			return no, false
		}
		m.kind = k.V
		if s == "extra" {
			return sub(m, s, "anymap")
		}
		if _, ok := facetIndex[k.V]; !ok {
			return no, false
		}
		if s == "annotations" {
			return sub(m, s, "anns")
		}
		f, ok := facetIndex[k.V][s]
		if !ok {
			return no, false
		}
		switch f.vk {
		case "types":
			return sub(m, s, "props")
		case "facets":
			return sub(m, s, "facets")
		case "examples":
			return sub(m, s, "examples")
		case "type":
			r, _ := sub(m, s, "type")
			return r, r.n != nil
		case "xml", "example":
			r, _ := sub(m, s, f.vk)
			return r, r.n != nil
		}
	case "example":
		switch s {
		case "annotations":
			return sub(m, s, "anns")
		case "extra":
			return sub(m, s, "anymap")
		}
	case "docentry":
		if s == "extra" {
			return sub(m, s, "anymap")
		}
	case "doclist":
		i, err := strconv.Atoi(s)
		if err != nil || i < 0 || i >= len(m.n.L) {
			return no, false
		}
		return mref{class: "docentry", n: m.n.L[i], api: m.api}, true
	case "types", "props":
		r, _ := sub(m, s, "type")
		return r, r.n != nil
	case "facets":
		r, _ := sub(m, s, "types")
		return r, r.n != nil
	case "anns":
		r, _ := sub(m, s, "rawmap")
		return r, r.n != nil
	case "examples":
		r, _ := sub(m, s, "example")
		return r, r.n != nil
	}
	return no, false
}

func resolveM(root *N, api bool, path []string) (mref, bool) {
	m := mref{class: "doc", n: root, api: api}
	for _, s := range path {
		var ok bool
		if m, ok = m.step(s); !ok {
			return m, false
		}
	}
	return m, true
}

type elem struct {
	path []string
	ref  mref
}

// elements lists everything that can be edited.
func elements(root *N, api bool, limit int) []elem {
	var out []elem
	var rec func(path []string, m mref)
	add := func(path []string, m mref, s string) {
		if c, ok := m.step(s); ok && len(out) < limit {
			rec(append(append([]string{}, path...), s), c)
		}
	}
	rec = func(path []string, m mref) {
		out = append(out, elem{path, m})
		switch m.class {
		case "doc":
			for _, s := range []string{"types", "annotations", "uses", "extra", "resources", "documentation"} {
				add(path, m, s)
			}
			for _, s := range docRawKeys {
				add(path, m, s)
			}
		case "type":
			k := m.n.get("kind").V
			add(path, m, "extra")
			for _, f := range facetsOf(k) {
				add(path, m, f.key)
			}
			add(path, m, "annotations")
		case "example":
			add(path, m, "annotations")
			add(path, m, "extra")
		case "docentry":
			add(path, m, "extra")
		case "doclist":
			if m.n != nil {
				for i := range m.n.L {
					add(path, m, strconv.Itoa(i))
				}
			}
		case "types", "props", "facets", "anns", "examples":
			if m.n != nil {
				for _, p := range m.n.P {
					add(path, m, p.K.V)
				}
			}
		}
	}
	rec(nil, mref{class: "doc", n: root, api: api})
	return out
}

// normVal normalises the raw value of a map entry.
func normVal(class, kind string, v *N) *N {
	switch class {
	case "types", "props":
		return normType(v)
	case "facets":
		o := mp()
		if v.K != "m" {
			bad("facet")
		}
		for _, q := range v.P {
			o.put(wantStr(q.K).V, normType(q.V))
		}
		return o
	case "anns":
		return rawMap(v)
	case "strmap":
		return wantStr(v)
	case "examples":
		return normExample(kind, v)
	}
	return v
}

// box returns the container for writing.
func (m *mref) box() *N {
	if m.n == nil {
		m.n = mp()
		m.parent.P = append(m.parent.P, kv(m.key, m.n))
	}
	return m.n
}

// trim removes the container from its parent if it is empty.  Annotations and
// facet definitions without content stay.
func (m *mref) trim(path []string) {
	if m.n == nil || len(m.n.P) > 0 || m.parent == nil || m.parent.K != "u" {
		return
	}
	m.parent.del(m.key)
}

var errSkip = fmt.Errorf("operation does not apply")

// applyModel applies an edit to the model.
func applyModel(root *N, api bool, op *Op) error {
	m, ok := resolveM(root, api, op.Path)
	if !ok {
		return errSkip
	}
	if !m.offers(op) {
		return errSkip
	}
	var v *N
	if op.V != nil {
		v = op.V.resolve()
	}
	switch op.T {
	case "map":
		if !isContainer(m.class) {
			return errSkip
		}
		old := m.n.find(op.K)
		switch op.M {
		case "del":
			if old >= 0 {
				m.n.del(op.K)
			}
		case "putnil":
		case "put", "putnn":
			nv := normVal(m.class, m.kind, v)
			m.box().put(op.K, nv)
		case "rop":
			nv := normVal(m.class, m.kind, v)
			m.box().set(op.K, nv)
		case "rie":
			nv := normVal(m.class, m.kind, v)
			if old >= 0 {
				m.n.set(op.K, nv)
			}
		default:
			return errSkip
		}
		m.trim(op.Path)
		return nil
	case "setmap", "unsetmap":
		c, ok := m.step(op.K)
		if !ok || !isContainer(c.class) {
			return errSkip
		}
		n := mp()
		if v != nil && op.T == "setmap" {
			if v.K != "m" {
				return errSkip
			}
			for _, p := range v.P {
				n.put(wantStr(p.K).V, normVal(c.class, c.kind, p.V))
			}
		}
		c.parent.del(c.key)
		if len(n.P) > 0 {
			c.parent.P = append(c.parent.P, kv(c.key, n))
		}
		return nil
	case "set":
		if m.class == "type" && strings.HasPrefix(op.M, "detour") {
			return nil
		}
		return m.set(op.K, v)
	case "unset":
		return m.unset(op.K)
	}
	return errSkip
}

func storeFacet(o *N, f facet, v *N) {
	empty := v.K != "s" && len(v.P) == 0 && len(v.L) == 0 && f.vk != "raw" && f.vk != "rawlist0" && f.vk != "example" && f.vk != "xml"
	if f.def != "" && v.V == f.def || empty {
		o.del(f.key)
		return
	}
	o.set(f.key, v)
}

func (m mref) set(k string, v *N) error {
	if v == nil {
		return errSkip
	}
	switch m.class {
	case "doc":
		switch {
		case m.api && contains(docStrKeys, k), !m.api && k == "usage":
			m.n.set(k, wantStr(v))
		case m.api && contains(docListKeys, k):
			l := strList(v)
			m.n.del(k)
			addNonEmpty(m.n, k, l)
		case m.api && k == "documentation":
			l := lst()
			for _, x := range v.L {
				l.L = append(l.L, normDocEntry(x))
			}
			m.n.del(k)
			addNonEmpty(m.n, k, l)
		default:
			return errSkip
		}
		return nil
	case "type":
		kind := m.n.get("kind").V
		if k == "type" {
			if !v.isStr() || kindOfExpr(v.V) != kind || kind == "include" || kind == "nil" {
				return errSkip
			}
			m.n.set("type", str(v.V))
			return nil
		}
		f, ok := facetIndex[kind][k]
		if !ok {
			return errSkip
		}
		nv := normFacet(kind, f, v)
		if nv == nil {
			return errSkip
		}
		storeFacet(m.n, f, nv)
		if k == "default" {
			if e := m.n.get("extra"); e != nil {
				e.del("default")
				if len(e.P) == 0 {
					m.n.del("extra")
				}
			}
		}
		return nil
	case "xml":
		switch k {
		case "attribute", "wrapped":
			if v.T != tBool {
				return errSkip
			}
			m.n.set(k, v)
		case "name", "namespace", "prefix":
			m.n.set(k, wantStr(v))
		default:
			return errSkip
		}
		return nil
	case "docentry":
		if k != "title" && k != "content" {
			return errSkip
		}
		m.n.set(k, wantStr(v))
		return nil
	case "example":
		switch k {
		case "displayName", "description":
			m.n.set(k, wantStr(v))
		case "strict":
			if v.T != tBool {
				return errSkip
			}
			if v.V == "true" {
				m.n.del(k)
			} else {
				m.n.set(k, v)
			}
		case "value":
			nv := normFacet(m.kind, facet{vk: exVK(m.kind)}, v)
			if nv == nil {
				return errSkip
			}
			m.n.set(k, nv)
		default:
			return errSkip
		}
		return nil
	}
	return errSkip
}

func (m mref) unset(k string) error {
	ok := false
	switch m.class {
	case "doc":
		ok = m.api && (k != "title" && contains(docStrKeys, k) || contains(docListKeys, k) || k == "documentation") || !m.api && k == "usage"
	case "type":
		f, known := facetIndex[m.n.get("kind").V][k]
		ok = known && f.def == ""
		if ok && f.key == "default" {
			// one of another shape is an extra facet
			if e := m.n.get("extra"); e != nil && e.find("default") >= 0 {
				e.del("default")
				if len(e.P) == 0 {
					m.n.del("extra")
				}
			}
		}
	case "xml":
		ok = k == "attribute" || k == "wrapped" || k == "name" || k == "namespace" || k == "prefix"
	case "example":
		ok = k == "displayName" || k == "description" || k == "value"
	}
	if !ok {
		return errSkip
	}
	m.n.del(k)
	return nil
}

/* ---- implementation side ---- */

var docMethods = map[string]string{"title": "Title", "version": "Version", "baseUri": "BaseURI", "description": "Description",
	"protocols": "Protocols", "securedBy": "SecuredBy", "mediaType": "MediaTypes", "documentation": "Documentation", "usage": "Usage",
	"uses": "Uses", "types": "Types", "schemas": "Schemas", "annotations": "Annotations", "extra": "ExtraFacets", "resources": "Resources",
	"securitySchemes": "SecuritySchemes", "baseUriParameters": "BaseURIParameters", "traits": "Traits",
	"annotationTypes": "AnnotationTypes", "resourceTypes": "ResourceTypes"}

var otherMethods = map[string]string{"annotations": "Annotations", "extra": "ExtraFacets", "title": "Title", "content": "Content",
	"attribute": "IsAttribute", "wrapped": "IsWrapped", "name": "Name", "namespace": "Namespace", "prefix": "Prefix",
	"displayName": "DisplayName", "description": "Description", "strict": "Strict", "value": "Value", "type": "Type"}

func (m mref) method(k string) string {
	switch m.class {
	case "doc":
		return docMethods[k]
	case "type":
		if f, ok := facetIndex[m.n.get("kind").V][k]; ok {
			return f.m
		}
	}
	return otherMethods[k]
}

type goneErr struct{ msg string }

func (g goneErr) Error() string { return g.msg }

// resolveI walks the same path through the document's accessors.
func resolveI(doc interface{}, root *N, api bool, path []string) reflect.Value {
	cur := reflect.ValueOf(doc)
	m := mref{class: "doc", n: root, api: api}
	for i, s := range path {
		next, ok := m.step(s)
		if !ok {
			panic("resolveI: model path")
		}
		switch m.class {
		case "types", "props", "facets", "anns", "examples":
			out := cur.MethodByName("Get").Call([]reflect.Value{reflect.ValueOf(s)})
			if !out[1].Bool() {
				panic(goneErr{fmt.Sprintf("%s: no entry %q", strings.Join(path[:i], "/"), s)})
			}
			cur = out[0]
		case "doclist":
			j, _ := strconv.Atoi(s)
			if j >= cur.Len() {
				panic(goneErr{fmt.Sprintf("%s: no entry %d", strings.Join(path[:i], "/"), j)})
			}
			cur = cur.Index(j)
		default:
			cur = call(cur, m.method(s))
		}
		for cur.Kind() == reflect.Interface && !cur.IsNil() {
			cur = cur.Elem()
		}
		if isNilVal(cur) && next.class != "doclist" {
			panic(goneErr{fmt.Sprintf("%s is nil", strings.Join(path[:i+1], "/"))})
		}
		m = next
	}
	return cur
}

var mapMakers = map[string]func() interface{}{
	"AnnotationMap":          func() interface{} { return raml.NewAnnotationMap(0).SerializeOrdered(false) },
	"AnyExampleMap":          func() interface{} { return raml.NewAnyExampleMap(0).SerializeOrdered(false) },
	"AnyMap":                 func() interface{} { return raml.NewAnyMap(0).SerializeOrdered(false) },
	"ArrayExampleMap":        func() interface{} { return raml.NewArrayExampleMap(0).SerializeOrdered(false) },
	"BoolExampleMap":         func() interface{} { return raml.NewBoolExampleMap(0).SerializeOrdered(false) },
	"CustomExampleMap":       func() interface{} { return raml.NewCustomExampleMap(0).SerializeOrdered(false) },
	"DataTypeMap":            func() interface{} { return raml.NewDataTypeMap(0).SerializeOrdered(false) },
	"DateOnlyExampleMap":     func() interface{} { return raml.NewDateOnlyExampleMap(0).SerializeOrdered(false) },
	"DatetimeExampleMap":     func() interface{} { return raml.NewDatetimeExampleMap(0).SerializeOrdered(false) },
	"DatetimeOnlyExampleMap": func() interface{} { return raml.NewDatetimeOnlyExampleMap(0).SerializeOrdered(false) },
	"FacetMap":               func() interface{} { return raml.NewFacetMap(0).SerializeOrdered(false) },
	"FileExampleMap":         func() interface{} { return raml.NewFileExampleMap(0).SerializeOrdered(false) },
	"IntegerExampleMap":      func() interface{} { return raml.NewIntegerExampleMap(0).SerializeOrdered(false) },
	"NumberExampleMap":       func() interface{} { return raml.NewNumberExampleMap(0).SerializeOrdered(false) },
	"ObjectExampleMap":       func() interface{} { return raml.NewObjectExampleMap(0).SerializeOrdered(false) },
	"PropertyMap":            func() interface{} { return raml.NewPropertyMap(0).SerializeOrdered(false) },
	"StringExampleMap":       func() interface{} { return raml.NewStringExampleMap(0).SerializeOrdered(false) },
	"StringMap":              func() interface{} { return raml.NewStringMap(0).SerializeOrdered(false) },
	"TimeOnlyExampleMap":     func() interface{} { return raml.NewTimeOnlyExampleMap(0).SerializeOrdered(false) },
	"UnionExampleMap":        func() interface{} { return raml.NewUnionExampleMap(0).SerializeOrdered(false) },
	"UntypedMap":             func() interface{} { return raml.NewUntypedMap(0).SerializeOrdered(false) },
}

// donorErr tells that the library rejected a tiny document made to obtain an
// element.
type donorErr struct{ msg string }

func (d donorErr) Error() string { return d.msg }

func donorType(decl *N, prop bool) reflect.Value {
	t := mp(kv("d", decl))
	if prop {
		t = mp(kv("o", mp(kv("type", str("object")), kv("properties", mp(kv("d", decl))))))
	}
	text := renderDoc(false, mp(kv("types", t)), Style{})
	lib, err := rparse.ParseLibrary(strings.NewReader(text))
	if err != nil {
		panic(donorErr{fmt.Sprintf("rejected %q: %v", clip(text), err)})
	}
	if prop {
		o, _ := lib.Types().Get("o")
		ob, ok := o.(raml.ObjectType)
		if !ok {
			panic(donorErr{fmt.Sprintf("object declaration gives %T", o)})
		}
		p, ok := ob.Properties().Get("d")
		if !ok {
			panic(donorErr{"property lost"})
		}
		return reflect.ValueOf(p)
	}
	d, ok := lib.Types().Get("d")
	if !ok {
		panic(donorErr{"type lost"})
	}
	return reflect.ValueOf(d)
}

var kindExpr = map[string]string{"custom": "Foo", "union": "A | B"}

// donorFacet obtains a facet value of a kind through a tiny document.
func donorFacet(kind string, f facet, v *N) reflect.Value {
	e := kind
	if x, ok := kindExpr[kind]; ok {
		e = x
	}
	return call(donorType(mp(kv("type", str(e)), kv(f.key, v)), false), f.m)
}

// builder makes a simple type with the constructors of rbuild.
var builders = map[string]func() interface{}{
	"any":     func() interface{} { return rbuild.NewAnyDataType() },
	"array":   func() interface{} { return rbuild.NewArrayDataType() },
	"boolean": func() interface{} { return rbuild.NewBoolDataType() },
	"integer": func() interface{} { return rbuild.NewIntegerDataType() },
	"number":  func() interface{} { return rbuild.NewNumberDataType() },
	"string":  func() interface{} { return rbuild.NewStringDataType() },
}

func implType(decl *N, prop bool) reflect.Value {
	if decl.isStr() && decl.Go == "new" {
		if b, ok := builders[decl.V]; ok {
			return reflect.ValueOf(b())
		}
	}
	return donorType(decl, prop)
}

// rawGo turns a raw value into what a caller would pass.
func rawGo(v *N) interface{} {
	if v.Go != "" {
		switch {
		case v.T == tStr:
			return v.V
		case v.T == tBool:
			return v.V == "true"
		case v.T == tInt:
			i, err := strconv.ParseInt(v.V, 10, 64)
			if err == nil {
				if v.Go == "int" {
					return int(i)
				}
				return i
			}
		case v.T == tFloat:
			if f, err := strconv.ParseFloat(v.V, 64); err == nil {
				return f
			}
		case v.T == tNull:
			return nil
		case v.K == "l":
			out := []interface{}{}
			for _, x := range v.L {
				out = append(out, rawGo(x))
			}
			return out
		case v.K == "m":
			o := raml.NewAnyMap(0).SerializeOrdered(false)
			for _, p := range v.P {
				o.Put(p.K.V, rawGo(p.V))
			}
			return o
		}
	}
	return toYAML(v)
}

// implVal builds the Go value for a map entry.
func implVal(class, kind string, v *N, want reflect.Type) reflect.Value {
	var out reflect.Value
	switch class {
	case "types":
		out = implType(v, false)
	case "props":
		out = implType(v, true)
	case "facets":
		m := raml.NewDataTypeMap(0).SerializeOrdered(false)
		for _, p := range v.P {
			m.Put(p.K.V, implType(p.V, false).Interface().(raml.DataType))
		}
		out = reflect.ValueOf(m)
	case "anns":
		m := raml.NewUntypedMap(0).SerializeOrdered(false)
		for _, p := range v.P {
			m.Put(p.K.V, rawGo(p.V))
		}
		out = reflect.ValueOf(m)
	case "strmap":
		out = reflect.ValueOf(v.V)
	case "examples":
		out = donorFacet(kind, facetIndex[kind]["example"], v)
		for out.Kind() == reflect.Interface && !out.IsNil() {
			out = out.Elem()
		}
	default:
		x := rawGo(v)
		if x == nil {
			return reflect.Zero(want)
		}
		out = reflect.ValueOf(x)
	}
	return convert(out, want)
}

func convert(v reflect.Value, want reflect.Type) reflect.Value {
	if v.Type() == want {
		return v
	}
	if want.Kind() == reflect.Interface {
		if !v.Type().Implements(want) {
			panic(donorErr{fmt.Sprintf("%s does not implement %s", v.Type(), want)})
		}
		w := reflect.New(want).Elem()
		w.Set(v)
		return w
	}
	return v.Convert(want)
}

func newMapFor(want reflect.Type) reflect.Value {
	mk, ok := mapMakers[want.Name()]
	if !ok {
		panic(observeErr{"unknown map type " + want.String()})
	}
	return reflect.ValueOf(mk())
}

func sameObj(a, b reflect.Value) bool {
	for a.Kind() == reflect.Interface && !a.IsNil() {
		a = a.Elem()
	}
	for b.Kind() == reflect.Interface && !b.IsNil() {
		b = b.Elem()
	}
	return a.Kind() == reflect.Ptr && b.Kind() == reflect.Ptr && a.Pointer() == b.Pointer()
}

// applyImpl applies an edit to the document; m is the resolved model element
// before the edit.  It returns a complaint about the call itself.
func applyImpl(doc interface{}, root *N, api bool, op *Op, lists pool) string {
	m, ok := resolveM(root, api, op.Path)
	if !ok {
		return ""
	}
	el := resolveI(doc, root, api, op.Path)
	chain := func(out []reflect.Value, name string) string {
		if len(out) == 1 && !sameObj(out[0], el) {
			return name + " does not return its receiver"
		}
		return ""
	}
	if in(op.T, "set", "unset", "setmap", "unsetmap") {
		// what was handed out before is no longer part of the element
		if old, ok := m.handedOut(el, op.K); ok {
			before := snap(old, 3)
			inner := chain
			chain = func(out []reflect.Value, name string) string {
				if now := snap(old, 3); now != before {
					return fmt.Sprintf("%s changes the former value, which was handed out, from %s to %s", name, clip(noAddr(before)), clip(noAddr(now)))
				}
				return inner(out, name)
			}
		}
	}
	switch op.T {
	case "map":
		key := reflect.ValueOf(op.K)
		name := map[string]string{"put": "Put", "putnn": "PutIfNotNil", "putnil": "PutIfNotNil", "rop": "ReplaceOrPut", "rie": "ReplaceIfExists", "del": "Delete"}[op.M]
		meth := el.MethodByName(name)
		if op.M == "del" {
			return chain(meth.Call([]reflect.Value{convert(key, meth.Type().In(0))}), name)
		}
		want := el.MethodByName("Put").Type().In(1)
		pw := meth.Type().In(1)
		var arg reflect.Value
		switch {
		case op.M == "putnil":
			if pw.Kind() == reflect.Interface {
				var p *string
				arg = reflect.Zero(pw)
				if op.N%2 == 1 {
					arg = convert(reflect.ValueOf(p), pw)
				}
			} else {
				arg = reflect.Zero(pw)
			}
		case op.M == "putnn" && pw.Kind() == reflect.Ptr:
			v := implVal(m.class, m.kind, op.V, want)
			arg = reflect.New(want)
			arg.Elem().Set(v)
		default:
			arg = implVal(m.class, m.kind, op.V, want)
		}
		return chain(meth.Call([]reflect.Value{convert(key, meth.Type().In(0)), arg}), name)
	case "setmap", "unsetmap":
		c, ok := m.step(op.K)
		if !ok {
			return ""
		}
		name := m.method(op.K)
		if m.class == "type" && op.K == "extra" {
			name = "ExtraFacets"
		}
		if op.T == "unsetmap" {
			return chain(el.MethodByName("Unset"+name).Call(nil), "Unset"+name)
		}
		set := el.MethodByName("Set" + name)
		want := set.Type().In(0)
		if op.V == nil {
			return chain(set.Call([]reflect.Value{reflect.Zero(want)}), "Set"+name)
		}
		nm := newMapFor(want)
		put := nm.MethodByName("Put")
		for _, p := range op.V.P {
			put.Call([]reflect.Value{convert(reflect.ValueOf(p.K.V), put.Type().In(0)), implVal(c.class, c.kind, p.V, put.Type().In(1))})
		}
		return chain(set.Call([]reflect.Value{convert(nm, want)}), "Set"+name)
	case "unset":
		name := "Unset" + m.method(op.K)
		return chain(el.MethodByName(name).Call(nil), name)
	case "set":
		name := "Set" + m.method(op.K)
		if m.class == "type" && op.K == "type" && op.M == "override" {
			name = "OverrideType"
		}
		if m.class == "type" && op.K == "type" && strings.HasPrefix(op.M, "detour") {
			return detour(el, m, op, chain)
		}
		set := el.MethodByName(name)
		if !set.IsValid() {
			return "no method " + name
		}
		want := set.Type().In(0)
		if op.Sh != 0 && want.Kind() == reflect.Slice {
			if v, ok := lists.list(op.Sh, want); ok {
				return chain(set.Call([]reflect.Value{v}), name)
			}
		}
		return chain(set.Call([]reflect.Value{setArg(m, op.K, op.V, want)}), name)
	}
	return ""
}

// handedOut asks an element for the map, list or element in one of its
// attributes.
func (m mref) handedOut(el reflect.Value, k string) (reflect.Value, bool) {
	name := m.method(k)
	if m.class == "type" && k == "extra" {
		name = "ExtraFacets"
	}
	f := el.MethodByName(name)
	if !f.IsValid() || f.Type().NumIn() != 0 || f.Type().NumOut() != 1 {
		return f, false
	}
	v, ok := opt(f.Call(nil)[0])
	for ok && v.Kind() == reflect.Interface && !v.IsNil() {
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice:
		return v, ok && !v.IsNil()
	}
	return v, false
}

// snap describes a value that a document handed out.
func snap(v reflect.Value, depth int) string {
	for v.Kind() == reflect.Interface && !v.IsNil() {
		v = v.Elem()
	}
	if isNilVal(v) {
		return "nil"
	}
	if depth < 0 {
		return "..."
	}
	ob := observer{}
	switch x := v.Interface().(type) {
	case *yaml.Node:
		return nodeText(x)
	case raml.DataType:
		return fmt.Sprint(dump(ob.typ(x)))
	case raml.XML:
		s := fmt.Sprint(dump(ob.xml(x)))
		if e := v.MethodByName("ExtraFacets"); e.IsValid() {
			s += fmt.Sprint(dump(ob.rawMap(e.Call(nil)[0].Interface())))
		}
		return s
	case []byte:
		return fmt.Sprintf("%q", x)
	case raml.Example:
		s := fmt.Sprintf("example %v %v %t ", snap(reflect.ValueOf(x.DisplayName()), 0), snap(reflect.ValueOf(x.Description()), 0), x.Strict())
		s += fmt.Sprint(dump(ob.annMap(x.Annotations())), dump(ob.rawMap(x.ExtraFacets())))
		if val := v.MethodByName("Value"); val.IsValid() {
			s += snap(val.Call(nil)[0], depth-1)
		}
		return s
	}
	if isRamlMap(v) {
		s := "{"
		ob.eachEntry(v, func(k, x interface{}) {
			s += snap(reflect.ValueOf(k), 0) + ": " + snap(reflect.ValueOf(x), depth-1) + ", "
		})
		return s + "}"
	}
	if v.Kind() == reflect.Slice {
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += snap(v.Index(i), depth-1) + ", "
		}
		return s + "]"
	}
	if o, ok := opt(v); !ok {
		return "absent"
	} else if o != v {
		return snap(o, depth)
	}
	if v.Kind() == reflect.Ptr {
		return fmt.Sprintf("%T %p", v.Interface(), v.Interface())
	}
	return fmt.Sprintf("%#v", v.Interface())
}

// detour gives a type another name and back, which does not change its kind.
func detour(el reflect.Value, m mref, op *Op, chain func([]reflect.Value, string) string) string {
	name := "SetType"
	if op.M == "detour-override" || !el.MethodByName(name).IsValid() {
		name = "OverrideType"
	}
	t, ok := el.Interface().(raml.DataType)
	if !ok {
		return fmt.Sprintf("%s is no DataType", el.Type())
	}
	old, kind := t.Type(), t.Kind()
	if c := chain(el.MethodByName(name).Call([]reflect.Value{reflect.ValueOf(op.V.V)}), name); c != "" {
		return c
	}
	if t.Type() != op.V.V || t.Schema() != op.V.V || t.Kind() != kind {
		return fmt.Sprintf("after %s(%q) of a type %q the type is %q, the schema %q, the kind %q", name, op.V.V, kind, t.Type(), t.Schema(), t.Kind())
	}
	if y, ok := t.(interface{ ToYAML() (*yaml.Node, error) }); ok {
		n, err := y.ToYAML()
		if err == nil && n != nil {
			w := fromYAML(n)
			if w.K == "m" {
				w = w.get("type")
			}
			if w == nil || w.V != op.V.V {
				return fmt.Sprintf("after %s(%q) a type is written as %q", name, op.V.V, clip(fmt.Sprint(dump(fromYAML(n)))))
			}
		}
	}
	return chain(el.MethodByName(name).Call([]reflect.Value{reflect.ValueOf(old)}), name)
}

func setArg(m mref, k string, v *N, want reflect.Type) reflect.Value {
	vk := "str"
	kind := m.kind
	var f facet
	switch m.class {
	case "doc":
		if contains(docListKeys, k) {
			vk = "strlist"
		}
		if k == "documentation" {
			text := renderDoc(true, mp(kv("documentation", v)), Style{})
			d, err := rparse.ParseApiDoc(strings.NewReader(text))
			if err != nil {
				panic(donorErr{fmt.Sprintf("rejected %q: %v", clip(text), err)})
			}
			return reflect.ValueOf(d.Documentation())
		}
	case "type":
		kind = m.n.get("kind").V
		f = facetIndex[kind][k]
		if k != "type" {
			vk = f.vk
		}
	case "xml":
		if k == "attribute" || k == "wrapped" {
			vk = "bool"
		}
	case "example":
		if k == "strict" {
			vk = "bool"
		}
		if k == "value" {
			vk = exVK(kind)
		}
	}
	switch vk {
	case "type":
		return convert(implType(v, false), want)
	case "xml", "example", "format":
		x := donorFacet(kind, f, v)
		for x.Kind() == reflect.Interface && !x.IsNil() {
			x = x.Elem()
		}
		if m, ok := x.Interface().(interface{ IsPresent() bool }); ok && m.IsPresent() {
			x = x.MethodByName("Get").Call(nil)[0]
		}
		if isNilVal(x) && x.Kind() != reflect.String {
			panic(donorErr{"facet " + k + " of a tiny document is empty"})
		}
		return convert(x, want)
	case "raw":
		x := rawGo(v)
		if x == nil {
			return reflect.Zero(want)
		}
		return convert(reflect.ValueOf(x), want)
	case "rawlist", "rawlist0":
		out := []interface{}{}
		for _, x := range v.L {
			out = append(out, rawGo(x))
		}
		return reflect.ValueOf(out)
	case "strlist", "boollist", "intlist", "floatlist":
		out := reflect.MakeSlice(want, 0, len(v.L))
		for _, x := range v.L {
			out = reflect.Append(out, scalarGo(strings.TrimSuffix(vk, "list"), x, want.Elem()))
		}
		return out
	}
	return scalarGo(vk, v, want)
}

func scalarGo(vk string, v *N, want reflect.Type) reflect.Value {
	switch vk {
	case "str":
		return reflect.ValueOf(v.V).Convert(want)
	case "bool":
		return reflect.ValueOf(v.V == "true").Convert(want)
	case "uint":
		u, err := strconv.ParseUint(v.V, 10, 64)
		if err != nil {
			panic("uint " + v.V)
		}
		return reflect.ValueOf(u).Convert(want)
	case "int":
		i, err := strconv.ParseInt(v.V, 10, 64)
		if err != nil {
			panic("int " + v.V)
		}
		return reflect.ValueOf(i).Convert(want)
	case "float":
		f, err := strconv.ParseFloat(v.V, 64)
		if err != nil {
			panic("float " + v.V)
		}
		return reflect.ValueOf(f).Convert(want)
	}
	panic("scalarGo " + vk)
}

var apiIface = reflect.TypeOf((*raml.APISpec)(nil)).Elem()
var libIface = reflect.TypeOf((*raml.Library)(nil)).Elem()
var xmlIface = reflect.TypeOf((*raml.XML)(nil)).Elem()

// hasMethod tells whether the public interface of an element has a method.
func (m mref) hasMethod(name string) bool {
	var t reflect.Type
	switch m.class {
	case "doc":
		t = libIface
		if m.api {
			t = apiIface
		}
	case "type":
		t = kindTypes[m.n.get("kind").V]
	case "xml":
		t = xmlIface
	default:
		return true
	}
	if t == nil {
		return false
	}
	_, ok := t.MethodByName(name)
	return ok
}

// offers tells whether an element has the method an edit needs.  An edit that
// is repeated may find an element of another kind in the place of its own.
func (m mref) offers(op *Op) bool {
	name := m.method(op.K)
	if m.class == "type" && op.K == "extra" {
		name = "ExtraFacets"
	}
	switch op.T {
	case "map":
		// a pointer is taken for what it points to where values are untyped
		if op.M == "putnn" && (m.class == "rawmap" || m.class == "anymap") {
			return op.V != nil && op.V.K == "s" && op.V.Go == "v"
		}
		return op.M != "putnn" || m.class != "examples" || m.kind != "any"
	case "setmap":
		return m.hasMethod("Set" + name)
	case "unsetmap", "unset":
		return m.hasMethod("Unset" + name)
	case "set":
		switch {
		case m.class != "type" || op.M == "":
			return m.hasMethod("Set" + name)
		case op.M == "override":
			return m.hasMethod("OverrideType")
		}
	}
	return true
}

// misplacedExtra tells whether the edit gives an element an extra facet that may
// have a meaning there, such as a path in an API, which a library does not know.
func misplacedExtra(root *N, api bool, op *Op) bool {
	m, ok := resolveM(root, api, op.Path)
	if ok && op.T == "map" && m.key == "extra" && op.K == "default" && op.M != "del" {
		return true
	}
	return ok && op.T == "map" && m.key == "extra" && !strings.HasPrefix(op.K, "x-") && (m.n == nil || m.n.get(op.K) == nil)
}

// drillOf leaves the elements of one class that has setters of its own.
func drillOf(r *R, els []elem) []elem {
	class := r.pick("type", "type", "type", "example", "xml")
	var out []elem
	for _, e := range els {
		if e.ref.class == class && len(e.path) < 6 {
			out = append(out, e)
			if class == "type" && len(e.path) == 2 {
				out = append(out, e, e, e)
			}
		}
	}
	if len(out) == 0 {
		return els
	}
	return out
}

// genEdit draws an edit that applies to the model.
func (g *gcfg) genEdit(root *N, api bool, slot int) *Op {
	r := g.r
	if len(g.past) > 0 && r.p(0.15) {
		// the same again, here or in another document
		op := *g.past[r.n(len(g.past))]
		op.D, op.Sh = slot, 0
		if op.V != nil {
			op.V = op.V.clone()
		}
		t := root.clone()
		var err error
		if e := catchNorm(func() { err = applyModel(t, api, &op) }); e == nil && err == nil && !op.V.unusualNumber() && !misplacedExtra(root, api, &op) {
			g.follow(&op)
			return &op
		}
	}
	els := elements(root, api, 400)
	if g.drill && r.p(0.9) {
		els = drillOf(r, els)
	}
	for try := 0; try < 30; try++ {
		e := els[r.n(len(els))]
		if try%4 == 1 {
			// prefer types and their surroundings
			for i := 0; i < 6 && e.ref.class != "type" && e.ref.class != "example" && e.ref.class != "examples"; i++ {
				e = els[r.n(len(els))]
			}
		}
		if r.p(0.12) || g.sharing && r.p(0.5) {
			e = els[0]
		}
		stay := 0.45
		if g.micro != "" {
			stay = 0.75
		}
		if g.focus != nil && try < 10 && r.p(stay) && !(g.sharing && r.p(0.6)) {
			// stay where the last edit was
			for _, x := range els {
				if strings.Join(x.path, "\x00") == *g.focus {
					e = x
				}
			}
		}
		if op := g.editOf(e); op != nil {
			op.D = slot
			op.Path = e.path
			if len(op.Path) > 0 && op.Path[0] == "types" && r.p(0.3) {
				op.Path = append([]string{"schemas"}, op.Path[1:]...)
			}
			if op.V != nil && !carriedN(op.V) {
				continue
			}
			t := root.clone()
			var err error
			if e := catchNorm(func() { err = applyModel(t, api, op) }); e != nil || err != nil {
				continue
			}
			f := strings.Join(e.path, "\x00")
			if g.micro == "" {
				g.focus = &f
			}
			g.past = append(g.past, op)
			g.follow(op)
			return op
		}
	}
	return nil
}

// follow goes on with a map that was just set or unset.
func (g *gcfg) follow(op *Op) {
	if (op.T == "setmap" || op.T == "unsetmap") && g.micro == "" && g.r.p(0.4) {
		f := strings.Join(append(append([]string{}, op.Path...), op.K), "\x00")
		g.focus = &f
	}
}

func carriedN(v *N) bool {
	in := mp(kv("a", v), kv("b", lst(v)), kv("c", mp(kv("d", mp(kv("e", v))))))
	want := mp(kv("a", v.resolve()), kv("b", lst(v.resolve())), kv("c", mp(kv("d", mp(kv("e", v.resolve()))))))
	if v.hasAnchor() {
		in, want = mp(kv("c", v)), mp(kv("c", v.resolve()))
	}
	for _, w := range []int{2, 4} {
		b, err := encodeYAML(toYAML(in), w)
		if err != nil {
			return false
		}
		got, err := plainParse(string(b))
		if err != nil || diff(want, got) != "" {
			return false
		}
	}
	return true
}

func (g *gcfg) entryVal(class, kind string) *N {
	switch class {
	case "types", "props":
		t := noComments(g.typ(min(g.depth, 2)))
		if g.r.p(0.15) {
			t = str(g.r.pick("any", "array", "boolean", "integer", "number", "string"))
		}
		if t.isStr() && builders[t.V] != nil && g.r.p(0.6) {
			t.Go = "new"
		}
		return t
	case "facets":
		return noComments(g.types_(1, g.r.n(3)))
	case "anns":
		return g.goRaw(g.annValue())
	case "strmap":
		return str(g.str().V)
	case "examples":
		return noComments(g.example(kind))
	}
	return g.goRaw(g.raw(g.rawDepth))
}

// goRaw decides how an uninterpreted value is passed.
func (g *gcfg) goRaw(v *N) *N {
	v = noComments(v)
	if g.r.p(0.5) && goable(v) {
		markGo(v, g.r.pick("v", "int"))
	}
	return v
}

func goable(v *N) bool {
	if v.A != "" || v.K == "a" || v.K != "s" && v.T != "" {
		return false
	}
	if v.K == "s" {
		switch v.T {
		case tStr, tNull:
			return true
		case tBool:
			return v.V == "true" || v.V == "false"
		case tInt:
			_, err := strconv.ParseInt(v.V, 10, 64)
			return err == nil && !strings.HasPrefix(v.V, "+") && (v.V == "0" || !strings.HasPrefix(v.V, "0"))
		case tFloat:
			// floats passed as Go values keep ten digits
			f, err := strconv.ParseFloat(v.V, 64)
			if err != nil || strings.Contains(v.V, "inf") {
				return false
			}
			back, _ := strconv.ParseFloat(strconv.FormatFloat(f, 'g', 10, 64), 64)
			return back == f
		}
		return false
	}
	for _, p := range v.P {
		if !p.K.isStr() || !goable(p.V) {
			return false
		}
	}
	for _, x := range v.L {
		if !goable(x) {
			return false
		}
	}
	return true
}

func markGo(v *N, how string) {
	v.Go = how
	for _, p := range v.P {
		markGo(p.V, how)
	}
	for _, x := range v.L {
		markGo(x, how)
	}
}

func noComments(v *N) *N {
	v.C = ""
	for _, p := range v.P {
		noComments(p.K)
		noComments(p.V)
	}
	for _, x := range v.L {
		noComments(x)
	}
	return v
}

func (g *gcfg) editOf(e elem) *Op {
	r := g.r
	m := e.ref
	if isContainer(m.class) {
		op := &Op{T: "map", M: r.pick("put", "put", "put", "rop", "rop", "rie", "del", "del", "putnn", "putnil"), N: r.n(2)}
		switch {
		case m.n != nil && len(m.n.P) > 0 && r.p(0.6):
			op.K = m.n.P[r.n(len(m.n.P))].K.V
		case m.class == "anns" && m.kind != "-":
			op.K = "(" + g.key(nil) + ")"
		case m.key == "resources":
			op.K = g.resource()
		case m.key == "extra":
			op.K = "x-" + g.word()
		default:
			op.K = g.key(nil)
		}
		if m.key == "extra" && op.K == "default" && op.M != "del" {
			op.K = "x-default" // one that fits would be the default
		}
		if op.M != "del" && op.M != "putnil" {
			op.V = g.entryVal(m.class, m.kind)
			if op.M == "putnn" && (m.class == "rawmap" || m.class == "anymap") {
				op.V = &N{K: "s", T: tStr, V: g.str().V, Go: "v"}
			}
			if op.M == "putnn" && m.class == "examples" && m.kind == "any" {
				op.M = "put"
			}
		}
		return op
	}
	switch m.class {
	case "doc":
		if r.p(0.25) && !g.sharing {
			k := r.pick("types", "schemas", "annotations", "uses", "traits", "resourceTypes", "annotationTypes", "securitySchemes")
			return g.setMap(m, k)
		}
		ks := []string{"usage"}
		if m.api {
			ks = []string{"title", "version", "baseUri", "description", "protocols", "securedBy", "mediaType", "documentation"}
		}
		k := ks[r.n(len(ks))]
		if g.sharing && m.api && r.p(0.8) {
			k = r.pick(docListKeys...)
		}
		if k != "title" && r.p(0.3) {
			return &Op{T: "unset", K: k}
		}
		switch {
		case contains(docListKeys, k):
			l := lst()
			for i, c := 0, r.n(4); i < c; i++ {
				l.L = append(l.L, str(g.str().V))
			}
			return g.share("strlist", &Op{T: "set", K: k, V: l})
		case k == "documentation":
			l := lst()
			for i, c := 0, r.n(3); i < c; i++ {
				l.L = append(l.L, noComments(g.docEntry()))
			}
			return &Op{T: "set", K: k, V: l}
		}
		return &Op{T: "set", K: k, V: str(g.str().V)}
	case "type":
		kind := m.n.get("kind").V
		fs := facetsOf(kind)
		if len(fs) == 0 {
			return nil
		}
		if r.p(0.1) {
			return g.setMap(m, r.pick("annotations", "extra"))
		}
		if r.p(0.03) {
			return &Op{T: "set", K: "type", V: str(g.word()), M: r.pick("detour", "detour-override")}
		}
		if r.p(0.05) && (kind == "custom" || kind == "union") {
			return &Op{T: "set", K: "type", V: str(g.exprOf(kind)), M: r.pick("", "override")}
		}
		f := fs[r.n(len(fs))]
		if g.sharing {
			// a facet with a list
			for i := 0; i < 4 && !strings.HasSuffix(f.vk, "list"); i++ {
				f = fs[r.n(len(fs))]
			}
		} else if r.p(0.4) {
			// something that is there
			k := m.n.P[r.n(len(m.n.P))].K.V
			if k == "extra" && m.n.get(k).find("default") >= 0 {
				k = "default"
			}
			if x, ok := facetIndex[kind][k]; ok {
				f = x
			}
		}
		switch f.vk {
		case "types", "facets", "examples":
			return g.setMap(m, f.key)
		}
		un := 0.15
		if m.n.get(f.key) != nil || f.key == "default" && m.n.get("extra").find("default") >= 0 {
			un = 0.5
		}
		if f.def == "" && r.p(un) && m.hasMethod("Unset"+f.m) {
			return &Op{T: "unset", K: f.key}
		}
		if !m.hasMethod("Set" + f.m) {
			return nil
		}
		v := g.facet(kind, f, 1)
		if v == nil {
			return nil
		}
		v = noComments(v)
		switch f.vk {
		case "raw":
			v = g.goRaw(v)
		case "rawlist", "rawlist0":
			for i := range v.L {
				v.L[i] = g.goRaw(v.L[i])
			}
		}
		return g.share(f.vk, &Op{T: "set", K: f.key, V: v})
	case "xml":
		k := r.pick("attribute", "wrapped", "name", "namespace", "prefix")
		if r.p(0.35) {
			return &Op{T: "unset", K: k}
		}
		if k == "attribute" || k == "wrapped" {
			return &Op{T: "set", K: k, V: boolN(r.p(0.5))}
		}
		return &Op{T: "set", K: k, V: str(g.str().V)}
	case "docentry":
		return &Op{T: "set", K: r.pick("title", "content"), V: str(g.str().V)}
	case "example":
		switch r.n(6) {
		case 0:
			return g.setMap(m, "annotations")
		case 1:
			return &Op{T: "unset", K: r.pick("displayName", "description", "displayName", "description", "value", "value")}
		case 2:
			return &Op{T: "set", K: "strict", V: boolN(r.p(0.4))}
		case 3:
			v := noComments(g.exValue(m.kind))
			if exVK(m.kind) == "raw" {
				v = g.goRaw(v)
			}
			if v.K == "l" {
				for i := range v.L {
					v.L[i] = g.goRaw(v.L[i])
				}
			}
			return &Op{T: "set", K: "value", V: v}
		}
		return &Op{T: "set", K: r.pick("displayName", "description"), V: str(g.str().V)}
	}
	return nil
}

// share hands in a list that was handed in before.
func (g *gcfg) share(vk string, op *Op) *Op {
	if !contains([]string{"strlist", "boollist", "intlist", "floatlist"}, vk) {
		return op
	}
	if old := g.lists[vk]; len(old) > 0 && (g.r.p(0.4) || g.sharing && g.r.p(0.3)) {
		x := old[len(old)-1-g.r.n(min(4, len(old)))]
		op.V, op.Sh = x.V.clone(), x.Sh
		return op
	}
	if g.r.p(0.7) {
		g.uniq++
		op.Sh = g.uniq
		g.lists[vk] = append(g.lists[vk], op)
	}
	return op
}

func (g *gcfg) setMap(m mref, k string) *Op {
	r := g.r
	c, ok := m.step(k)
	if !ok {
		return nil
	}
	name := m.method(k)
	if m.class == "type" && k == "extra" {
		name = "ExtraFacets"
	}
	if !m.hasMethod("Set"+name) || !m.hasMethod("Unset"+name) {
		return nil
	}
	switch r.n(4) {
	case 0:
		return &Op{T: "unsetmap", K: k}
	case 1:
		return &Op{T: "setmap", K: k}
	}
	v := mp()
	used := map[string]bool{}
	for i, n := 0, r.n(4); i < n; i++ {
		key := g.key(used)
		switch {
		case c.class == "anns":
			key = "(" + key + ")"
		case k == "extra":
			key = "x-" + key
		}
		v.P = append(v.P, kv(key, g.entryVal(c.class, c.kind)))
	}
	return &Op{T: "setmap", K: k, V: v}
}

// unusualNumber tells whether there is a number in the value that typed places
// do not take, such as a hexadecimal one.
func (n *N) unusualNumber() bool {
	if n == nil {
		return false
	}
	if n.K == "s" && (n.T == tInt || n.T == tFloat) && strings.ContainsAny(n.V, "_xXob") {
		return true
	}
	for _, p := range n.P {
		if p.K.unusualNumber() || p.V.unusualNumber() {
			return true
		}
	}
	for _, x := range n.L {
		if x.unusualNumber() {
			return true
		}
	}
	return false
}

func (n *N) hasAnchor() bool {
	if n == nil {
		return false
	}
	if n.A != "" || n.K == "a" {
		return true
	}
	for _, p := range n.P {
		if p.K.hasAnchor() || p.V.hasAnchor() {
			return true
		}
	}
	for _, x := range n.L {
		if x.hasAnchor() {
			return true
		}
	}
	return false
}
