package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

// The observer reads a document through its public accessors only and builds
// the tree the normaliser predicts.

type observer struct {
	forEach bool          // iterate maps with ForEach instead of Len and At
	nodes   *[]*yaml.Node // collects the nodes that are handed out
}

func isNilVal(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Invalid:
		return true
	case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
		return v.IsNil()
	}
	return false
}

func call(recv reflect.Value, name string, args ...reflect.Value) reflect.Value {
	m := recv.MethodByName(name)
	if !m.IsValid() {
		panic(observeErr{fmt.Sprintf("%s has no method %s", recv.Type(), name)})
	}
	out := m.Call(args)
	if len(out) == 0 {
		return reflect.Value{}
	}
	return out[0]
}

type observeErr struct{ msg string }

func (e observeErr) Error() string { return e.msg }

// eachEntry calls fn for every entry of one of the library's maps.
func (ob observer) eachEntry(m reflect.Value, fn func(k, v interface{})) {
	for m.Kind() == reflect.Interface {
		m = m.Elem()
	}
	if ob.forEach {
		fe := m.MethodByName("ForEach")
		ft := fe.Type().In(0)
		cb := reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
			fn(args[0].Interface(), args[1].Interface())
			return nil
		})
		fe.Call([]reflect.Value{cb})
		return
	}
	n := int(call(m, "Len").Int())
	at := m.MethodByName("At")
	for i := 0; i < n; i++ {
		e := at.Call([]reflect.Value{reflect.ValueOf(i)})[0]
		k := e.Field(0).Interface()
		if s, ok := k.(string); ok && (i < 5 || i >= n-3) {
			// another way to the entry that leads elsewhere shows in its key
			k = s + lookup(m, e.Field(0), e.Field(1), i)
		}
		fn(k, e.Field(1).Interface())
	}
}

// lookup tells what looking up an entry by its key gives that is not the entry.
func lookup(m, key, val reflect.Value, at int) string {
	if key.Kind() == reflect.Interface {
		key = key.Elem()
	}
	if i := call(m, "IndexOf", key).Int(); i != int64(at) {
		return fmt.Sprintf(" (IndexOf: %d instead of %d)", i, at)
	}
	if !call(m, "Has", key).Bool() {
		return " (Has: false)"
	}
	out := m.MethodByName("Get").Call([]reflect.Value{key})
	if !out[1].Bool() {
		return " (Get: nothing)"
	}
	if k := val.Kind(); k == reflect.Interface || k == reflect.Ptr {
		a, b := val, out[0]
		for a.Kind() == reflect.Interface {
			a = a.Elem()
		}
		for b.Kind() == reflect.Interface {
			b = b.Elem()
		}
		if a.IsValid() != b.IsValid() || a.IsValid() && (a.Type() != b.Type() || a.Kind() == reflect.Ptr && a.Pointer() != b.Pointer()) {
			return " (Get: another value)"
		}
	} else if k == reflect.String && val.String() != out[0].String() {
		return " (Get: another value)"
	}
	return ""
}

func isRamlMap(v reflect.Value) bool {
	return v.IsValid() && v.MethodByName("SerializeOrdered").IsValid() && v.MethodByName("ReplaceOrPut").IsValid()
}

// rawN converts a value the library hands out untyped.
func (ob observer) rawN(x interface{}) *N {
	switch v := x.(type) {
	case nil:
		return scal(tNull, "")
	case *yaml.Node:
		if ob.nodes != nil {
			*ob.nodes = append(*ob.nodes, v)
		}
		return fromYAML(v)
	case yaml.Node:
		return fromYAML(&v)
	case string:
		return str(v)
	case bool:
		return boolN(v)
	case int:
		return intN(int64(v))
	case int64:
		return intN(v)
	case uint:
		return uintN(uint64(v))
	case float64:
		return floatN(v)
	case []interface{}:
		o := lst()
		for _, e := range v {
			o.L = append(o.L, ob.rawN(e))
		}
		return o
	case []string:
		o := lst()
		for _, e := range v {
			o.L = append(o.L, str(e))
		}
		return o
	case raml.DataType:
		return scal("!!go", "DataType")
	case *failing:
		if v.p.healed {
			return str("healed " + v.p.id)
		}
		return scal("!!poison", v.p.id)
	case unserialisable:
		return scal("!!poison", "struct")
	case complex128:
		return scal("!!poison", "complex")
	case map[string]interface{}:
		o := mp()
		for k, e := range v { // one entry only
			o.P = append(o.P, kv(k, ob.rawN(e)))
		}
		return o
	}
	rv := reflect.ValueOf(x)
	switch rv.Kind() {
	case reflect.Func:
		return scal("!!poison", "func")
	case reflect.Chan:
		return scal("!!poison", "chan")
	}
	if isRamlMap(rv) {
		o := mp()
		ob.eachEntry(rv, func(k, v interface{}) { o.P = append(o.P, P{ob.rawN(k), ob.rawN(v)}) })
		return o
	}
	return scal("!!go", fmt.Sprintf("%T", x))
}

func (ob observer) rawMap(m interface{}) *N {
	o := mp()
	ob.eachEntry(reflect.ValueOf(m), func(k, v interface{}) { o.P = append(o.P, P{ob.rawN(k), ob.rawN(v)}) })
	return o
}

func (ob observer) annMap(m raml.AnnotationMap) *N {
	o := mp()
	ob.eachEntry(reflect.ValueOf(m), func(k, v interface{}) { o.P = append(o.P, P{ob.rawN(k), ob.rawMap(v)}) })
	return o
}

// opt unwraps an option; ok is false if it is empty.
func opt(v reflect.Value) (reflect.Value, bool) {
	if m := v.MethodByName("IsPresent"); m.IsValid() {
		p := m.Call(nil)[0].Bool()
		if n := v.MethodByName("IsNil"); n.IsValid() && n.Call(nil)[0].Bool() == p {
			panic(observeErr{"option is both present and empty"})
		}
		if !p {
			return v, false
		}
		return v.MethodByName("Get").Call(nil)[0], true
	}
	return v, true
}

func (ob observer) value(kind, vk string, v reflect.Value) *N {
	v, ok := opt(v)
	if !ok {
		return nil
	}
	switch vk {
	case "str":
		return str(v.String())
	case "bool":
		return boolN(v.Bool())
	case "uint":
		return uintN(v.Uint())
	case "int":
		return intN(v.Int())
	case "float":
		return floatN(v.Float())
	case "format":
		if isNilVal(v) {
			return nil
		}
		text := v.Interface().(fmt.Stringer).String()
		if f := formatText(v, text); f != text {
			return scal("!!format", f)
		}
		return str(text)
	case "raw":
		if !v.IsValid() {
			return scal(tNull, "")
		}
		return ob.rawN(v.Interface())
	case "rawlist", "rawlist0":
		if v.IsNil() || vk == "rawlist" && v.Len() == 0 {
			return nil
		}
		return ob.rawN(v.Interface())
	case "strlist", "boollist", "intlist", "floatlist":
		if v.Len() == 0 {
			return nil
		}
		o := lst()
		for i := 0; i < v.Len(); i++ {
			o.L = append(o.L, ob.value(kind, vk[:len(vk)-4], v.Index(i)))
		}
		return o
	case "type":
		if isNilVal(v) {
			return nil
		}
		return ob.typ(v.Interface().(raml.DataType))
	case "types":
		o := mp()
		ob.eachEntry(v, func(k, x interface{}) { o.P = append(o.P, P{ob.rawN(k), ob.typ(x.(raml.DataType))}) })
		if len(o.P) == 0 {
			return nil
		}
		return o
	case "facets":
		o := mp()
		ob.eachEntry(v, func(k, x interface{}) {
			d := mp()
			ob.eachEntry(reflect.ValueOf(x), func(k2, x2 interface{}) {
				d.P = append(d.P, P{ob.rawN(k2), ob.typ(x2.(raml.DataType))})
			})
			o.P = append(o.P, P{ob.rawN(k), d})
		})
		if len(o.P) == 0 {
			return nil
		}
		return o
	case "xml":
		if isNilVal(v) {
			return nil
		}
		return ob.xml(v.Interface().(raml.XML))
	case "example":
		if isNilVal(v) {
			return nil
		}
		return ob.example(kind, v.Interface())
	case "examples":
		o := mp()
		ob.eachEntry(v, func(k, x interface{}) { o.P = append(o.P, P{ob.rawN(k), ob.example(kind, x)}) })
		if len(o.P) == 0 {
			return nil
		}
		return o
	}
	panic("value kind " + vk)
}

func (ob observer) xml(x raml.XML) *N {
	o := uset()
	add := func(k string, vk string, v interface{}) {
		if n := ob.value("", vk, reflect.ValueOf(v)); n != nil {
			o.set(k, n)
		}
	}
	add("attribute", "bool", x.IsAttribute())
	add("wrapped", "bool", x.IsWrapped())
	add("name", "str", x.Name())
	add("namespace", "str", x.Namespace())
	add("prefix", "str", x.Prefix())
	return o
}

func (ob observer) example(kind string, x interface{}) *N {
	e, ok := x.(raml.Example)
	if !ok {
		return scal("!!go", fmt.Sprintf("%T is no example", x))
	}
	o := uset()
	rv := reflect.ValueOf(x)
	if n := ob.value(kind, exVK(kind), call(rv, "Value")); n != nil {
		o.set("value", n)
	}
	if n := ob.value(kind, "str", reflect.ValueOf(e.DisplayName())); n != nil {
		o.set("displayName", n)
	}
	if n := ob.value(kind, "str", reflect.ValueOf(e.Description())); n != nil {
		o.set("description", n)
	}
	if !e.Strict() {
		o.set("strict", boolN(false))
	}
	addNonEmpty(o, "annotations", ob.annMap(e.Annotations()))
	addNonEmpty(o, "extra", ob.rawMap(e.ExtraFacets()))
	return o
}

func (ob observer) typ(t raml.DataType) *N {
	o := uset()
	kind := string(t.Kind())
	o.set("kind", str(kind))
	o.set("type", str(t.Type()))
	if t.Schema() != t.Type() {
		o.set("schema differs from type", str(t.Schema()))
	}
	rv := reflect.ValueOf(t)
	if _, ok := facetIndex[kind]; ok {
		if want, got := kindTypes[kind], rv.Type(); want != nil && !got.Implements(want) {
			o.set("go type", str(got.String()))
			return o
		}
		for _, f := range facetsOf(kind) {
			n := ob.value(kind, f.vk, call(rv, f.m))
			if n == nil || f.def != "" && n.V == f.def {
				continue
			}
			o.set(f.key, n)
		}
		addNonEmpty(o, "annotations", ob.annMap(call(rv, "Annotations").Interface().(raml.AnnotationMap)))
	}
	extra := ob.rawMap(t.ExtraFacets())
	if q, ok := t.(raml.Property); ok && facetIndex[kind] == nil {
		// the basic types keep the flag among their extra facets
		want := "true"
		if i := extra.find("required"); i >= 0 && extra.P[i].V.T == tBool {
			want = extra.P[i].V.V
		}
		if got := q.Required(); (want == "true" || want == "false") && strconv.FormatBool(got) != want {
			o.set("required", boolN(got))
		}
	}
	addNonEmpty(o, "extra", extra)
	return o
}

var kindTypes = map[string]reflect.Type{
	"any":           reflect.TypeOf((*raml.AnyType)(nil)).Elem(),
	"array":         reflect.TypeOf((*raml.ArrayType)(nil)).Elem(),
	"boolean":       reflect.TypeOf((*raml.BoolType)(nil)).Elem(),
	"custom":        reflect.TypeOf((*raml.CustomType)(nil)).Elem(),
	"date-only":     reflect.TypeOf((*raml.DateOnlyType)(nil)).Elem(),
	"datetime":      reflect.TypeOf((*raml.DatetimeType)(nil)).Elem(),
	"datetime-only": reflect.TypeOf((*raml.DatetimeOnlyType)(nil)).Elem(),
	"file":          reflect.TypeOf((*raml.FileType)(nil)).Elem(),
	"integer":       reflect.TypeOf((*raml.IntegerType)(nil)).Elem(),
	"number":        reflect.TypeOf((*raml.NumberType)(nil)).Elem(),
	"object":        reflect.TypeOf((*raml.ObjectType)(nil)).Elem(),
	"string":        reflect.TypeOf((*raml.StringType)(nil)).Elem(),
	"time-only":     reflect.TypeOf((*raml.TimeOnlyType)(nil)).Elem(),
	"union":         reflect.TypeOf((*raml.UnionType)(nil)).Elem(),
}

func (ob observer) doc(d interface{}) *N {
	o := uset()
	addStr := func(k string, v interface{}) {
		if n := ob.value("", "str", reflect.ValueOf(v)); n != nil {
			o.set(k, n)
		}
	}
	types := func(m raml.DataTypeMap) {
		if n := ob.value("", "types", reflect.ValueOf(m)); n != nil {
			o.set("types", n)
		}
	}
	list := func(k string, xs []string) {
		if len(xs) > 0 {
			o.set(k, ob.rawN(xs))
		}
	}
	switch x := d.(type) {
	case raml.APISpec:
		o.set("title", str(x.Title()))
		addStr("version", x.Version())
		addStr("baseUri", x.BaseURI())
		addStr("description", x.Description())
		list("protocols", x.Protocols())
		list("securedBy", x.SecuredBy())
		list("mediaType", x.MediaTypes())
		docs := lst()
		for _, e := range x.Documentation() {
			n := uset()
			parts := raml.NewAnyMap(0)
			if _, err := e.MarshalRAML(parts); err != nil {
				parts = raml.NewAnyMap(0)
			}
			n.set("title", docPart(e.Title(), "title", parts))
			n.set("content", docPart(e.Content(), "content", parts))
			addNonEmpty(n, "extra", ob.rawMap(e.ExtraFacets()))
			docs.L = append(docs.L, n)
		}
		addNonEmpty(o, "documentation", docs)
		addNonEmpty(o, "uses", ob.rawMap(x.Uses()))
		addNonEmpty(o, "securitySchemes", ob.rawMap(x.SecuritySchemes()))
		addNonEmpty(o, "baseUriParameters", ob.rawMap(x.BaseURIParameters()))
		addNonEmpty(o, "traits", ob.rawMap(x.Traits()))
		addNonEmpty(o, "annotationTypes", ob.rawMap(x.AnnotationTypes()))
		addNonEmpty(o, "resourceTypes", ob.rawMap(x.ResourceTypes()))
		types(x.Types())
		if x.Types() != x.Schemas() {
			o.set("schemas are not the types", str(strconv.Itoa(x.Schemas().Len())))
		}
		addNonEmpty(o, "annotations", ob.annMap(x.Annotations()))
		addNonEmpty(o, "resources", ob.rawMap(x.Resources()))
		addNonEmpty(o, "extra", ob.rawMap(x.ExtraFacets()))
	case raml.Library:
		addStr("usage", x.Usage())
		addNonEmpty(o, "uses", ob.rawMap(x.Uses()))
		addNonEmpty(o, "securitySchemes", ob.rawMap(x.SecuritySchemes()))
		addNonEmpty(o, "traits", ob.rawMap(x.Traits()))
		addNonEmpty(o, "annotationTypes", ob.rawMap(x.AnnotationTypes()))
		addNonEmpty(o, "resourceTypes", ob.rawMap(x.ResourceTypes()))
		types(x.Types())
		if x.Types() != x.Schemas() {
			o.set("schemas are not the types", str(strconv.Itoa(x.Schemas().Len())))
		}
		addNonEmpty(o, "annotations", ob.annMap(x.Annotations()))
		addNonEmpty(o, "extra", ob.rawMap(x.ExtraFacets()))
	default:
		panic(observeErr{fmt.Sprintf("not a document: %T", d)})
	}
	return o
}

// withoutXMLExtra drops what has no accessor.
func withoutXMLExtra(n *N) *N {
	c := n.clone()
	var rec func(n *N, inXML bool)
	rec = func(n *N, isXML bool) {
		if n == nil {
			return
		}
		if isXML {
			n.del("extra")
		}
		for i := range n.P {
			rec(n.P[i].V, n.K == "u" && n.P[i].K.V == "xml" && n.get("kind") != nil)
		}
		for _, x := range n.L {
			rec(x, false)
		}
	}
	rec(c, false)
	return c
}

// docPart returns a part of a documentation entry, which is a string unless it
// was read as something else, an !include in most cases.
func docPart(text, key string, parts raml.AnyMap) *N {
	if v, ok := parts.Get(key); ok {
		if y, ok := v.(*yaml.Node); ok {
			n := fromYAML(y)
			if n.K != "s" || n.T == tStr || strings.HasPrefix(n.T, "!!") || n.V == text {
				return n
			}
		}
	}
	return str(text)
}

// formatText returns what the own YAML form of a format says, read back.
func formatText(v reflect.Value, text string) string {
	m, ok := v.Interface().(yaml.Marshaler)
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	back, ok2 := reflect.New(v.Type()).Interface().(yaml.Unmarshaler)
	if !ok || !ok2 {
		return text
	}
	y, err := m.MarshalYAML()
	if err != nil {
		return "error: " + err.Error()
	}
	n, ok := y.(*yaml.Node)
	if !ok {
		n = &yaml.Node{Kind: yaml.ScalarNode, Tag: tStr, Value: fmt.Sprint(y)}
	}
	if err := back.UnmarshalYAML(n); err != nil {
		return "error: " + err.Error()
	}
	return back.(fmt.Stringer).String()
}
