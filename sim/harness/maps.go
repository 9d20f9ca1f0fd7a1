package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
	"verif.local/simrt"
)

// Histories of maps: several clients take turns on a few maps.  The model is a
// list of entries; a client can be ended or panic in the middle of an
// iteration or a serialisation, and values can fail to serialise for a while.

// MapOp is one step of a client.
type MapOp struct {
	T string `json:"t"`
	M int    `json:"m,omitempty"` // map
	K int    `json:"k,omitempty"` // key
	V int    `json:"v,omitempty"` // value
	N int    `json:"n,omitempty"`
}

// MapPlan is a history.
type MapPlan struct {
	Types   []string  `json:"types"`
	Sizes   []int     `json:"sizes"`
	Keys    []MapKey  `json:"keys"`
	Clients [][]MapOp `json:"clients"`
	Full    bool      `json:"full,omitempty"` // compare everything after every operation
}

// MapKey is a key and its Go type.
type MapKey struct {
	T string `json:"t"`
	V string `json:"v,omitempty"`
}

type mapType struct {
	name  string
	fresh func(int) interface{}
	elem  string // what is kept in it
}

var mapTypes = []mapType{
	{"AnyMap", func(n int) interface{} { return raml.NewAnyMap(n) }, "plain"},
	{"UntypedMap", func(n int) interface{} { return raml.NewUntypedMap(n) }, "plain"},
	{"StringMap", func(n int) interface{} { return raml.NewStringMap(n) }, "string"},
	{"DataTypeMap", func(n int) interface{} { return raml.NewDataTypeMap(n) }, "type"},
	{"PropertyMap", func(n int) interface{} { return raml.NewPropertyMap(n) }, "property"},
	{"AnnotationMap", func(n int) interface{} { return raml.NewAnnotationMap(n) }, "annotation"},
	{"FacetMap", func(n int) interface{} { return raml.NewFacetMap(n) }, "facet"},
	{"AnyExampleMap", func(n int) interface{} { return raml.NewAnyExampleMap(n) }, "ex:any"},
	{"ArrayExampleMap", func(n int) interface{} { return raml.NewArrayExampleMap(n) }, "ex:array"},
	{"BoolExampleMap", func(n int) interface{} { return raml.NewBoolExampleMap(n) }, "ex:boolean"},
	{"CustomExampleMap", func(n int) interface{} { return raml.NewCustomExampleMap(n) }, "ex:custom"},
	{"DateOnlyExampleMap", func(n int) interface{} { return raml.NewDateOnlyExampleMap(n) }, "ex:date-only"},
	{"DatetimeExampleMap", func(n int) interface{} { return raml.NewDatetimeExampleMap(n) }, "ex:datetime"},
	{"DatetimeOnlyExampleMap", func(n int) interface{} { return raml.NewDatetimeOnlyExampleMap(n) }, "ex:datetime-only"},
	{"FileExampleMap", func(n int) interface{} { return raml.NewFileExampleMap(n) }, "ex:file"},
	{"IntegerExampleMap", func(n int) interface{} { return raml.NewIntegerExampleMap(n) }, "ex:integer"},
	{"NumberExampleMap", func(n int) interface{} { return raml.NewNumberExampleMap(n) }, "ex:number"},
	{"ObjectExampleMap", func(n int) interface{} { return raml.NewObjectExampleMap(n) }, "ex:object"},
	{"StringExampleMap", func(n int) interface{} { return raml.NewStringExampleMap(n) }, "ex:string"},
	{"TimeOnlyExampleMap", func(n int) interface{} { return raml.NewTimeOnlyExampleMap(n) }, "ex:time-only"},
	{"UnionExampleMap", func(n int) interface{} { return raml.NewUnionExampleMap(n) }, "ex:union"},
}

func mapTypeOf(name string) *mapType {
	for i := range mapTypes {
		if mapTypes[i].name == name {
			return &mapTypes[i]
		}
	}
	panic(harnessErr{"no map type " + name})
}

/* ---- keys and values ---- */

var mapKeyPool = []string{"", " ", "a", "b", "c", "A", "key", "key?", "a b", "0", "1", "true", "null", "~", "1.5", "x: y", "# c", "- a", "é", "日本", "\n", "a\nb", "\t", "'", "\"", "*a", "&a", "!t", "{", "[", "%", "@", "key", "value", "=", "/r", "(a)", "strict", "\u00a0", "bell\a", "\x00", "\x7f", "\u2028", "a\\b", "<b>&", "😀", "\v\x1b", "1e3", "0x1F", "yes", "2020-01-01", "very long key that goes on and on and on and on and on and on and on and on and on and on and on"}

// plainStruct is a value of a type of the caller.
type plainStruct struct {
	Name  string `json:"name" yaml:"name"`
	Count int    `json:"count,omitempty" yaml:"count,omitempty"`
}

type keyStruct struct {
	A int
	B string
}

func (k MapKey) value() interface{} {
	i, _ := strconv.ParseInt(k.V, 10, 64)
	f, _ := strconv.ParseFloat(k.V, 64)
	switch k.T {
	case "int":
		return int(i)
	case "int64":
		return i
	case "int8":
		return int8(i)
	case "uint":
		return uint(i)
	case "uint8":
		return uint8(i)
	case "float":
		return f
	case "bool":
		return k.V == "true"
	case "nil":
		return nil
	case "struct":
		return keyStruct{int(i), k.V}
	case "array":
		return [2]string{k.V, "x"}
	case "dur":
		return time.Duration(i)
	}
	return k.V
}

// tree is the key in YAML.
func (k MapKey) tree() *N {
	switch k.T {
	case "int", "int64", "int8", "uint", "uint8":
		return scal(tInt, k.V)
	case "float":
		f, _ := strconv.ParseFloat(k.V, 64)
		return floatN(f)
	case "bool":
		return scal(tBool, k.V)
	case "nil":
		return scal(tNull, "")
	}
	return str(k.V)
}

func (r *R) mapKey(any, ser bool) MapKey {
	if any && r.p(0.45) {
		switch r.n(8) {
		case 0:
			return MapKey{"int", itoa(r.n(5) - 1)}
		case 1:
			return MapKey{"int64", itoa(r.n(5) - 1)}
		case 2:
			return MapKey{r.pick("uint", "uint8", "int8"), itoa(r.n(4))}
		case 3:
			return MapKey{"float", r.pick("1", "1.5", "-2.25", "0")}
		case 4:
			return MapKey{"bool", r.pick("true", "false")}
		case 5:
			return MapKey{T: "nil"}
		default:
			if !ser {
				return MapKey{r.pick("struct", "array", "dur"), itoa(r.n(3))}
			}
		}
	}
	if r.p(0.3) {
		return MapKey{"s", "k" + itoa(r.n(300))}
	}
	return MapKey{"s", mapKeyPool[r.n(len(mapKeyPool))]}
}

const (
	plainKinds = 40
	failFrom   = 34 // values from here on may fail to serialise
)

// sulky is a value of the caller whose serialisation does unusual things.
type sulky struct {
	h    *mapRun
	mode string
	m    int
	id   int
}

func (s *sulky) text() string { return "sulky " + itoa(s.id) }
func (s *sulky) sick() bool   { return !s.h.healed && s.mode != "reader" }
func (s *sulky) act() error {
	simrt.Yield()
	switch {
	case s.mode == "reader":
		m := s.h.maps[s.m%len(s.h.maps)]
		s.h.readSome(m, s.id)
	case s.h.healed:
	case s.mode == "panic":
		panic(simPanic{})
	case s.mode == "exit":
		s.h.ended = true
		runtime.Goexit()
	default:
		return errors.New(s.text() + " cannot be serialised")
	}
	return nil
}

func (s *sulky) ToYAML() (*yaml.Node, error) {
	if err := s.act(); err != nil {
		return nil, err
	}
	return &yaml.Node{Kind: yaml.ScalarNode, Tag: tStr, Value: s.text()}, nil
}

func (s *sulky) MarshalJSON() ([]byte, error) {
	if err := s.act(); err != nil {
		return nil, err
	}
	return json.Marshal(s.text())
}

// value makes or finds the value with the given number.
func (h *mapRun) value(elem string, i int) interface{} {
	k := elem + itoa(i)
	if v, ok := h.vals[k]; ok {
		return v
	}
	v := h.newValue(elem, i)
	h.vals[k] = v
	return v
}

func (h *mapRun) newValue(elem string, i int) interface{} {
	n := strconv.Itoa(i)
	switch {
	case elem == "string":
		if i%4 == 0 {
			return mapKeyPool[i%len(mapKeyPool)]
		}
		return "value " + n
	case elem == "type" || elem == "property":
		if i == 0 {
			return nil
		}
		k := []string{"string", "integer", "object", "array", "any", "Foo", "A | B", "file", "nil", "datetime"}[i%10]
		d := mp(kv("type", str(k)), kv("description", str("number "+n)))
		if i%3 == 0 {
			d = mp(kv("type", str(k)))
		}
		return donorType(d, elem == "property").Interface()
	case elem == "annotation":
		if i == 0 {
			return nil
		}
		m := raml.NewUntypedMap(0).Put("n", i).Put("text", "annotation "+n)
		if i%2 == 0 {
			m.SerializeOrdered(false)
		}
		return m
	case elem == "facet":
		if i == 0 {
			return nil
		}
		m := raml.NewDataTypeMap(0).Put("f"+n, donorType(str("string"), false).Interface().(raml.DataType))
		if i%2 == 0 {
			m.SerializeOrdered(false)
		}
		return m
	case strings.HasPrefix(elem, "ex:"):
		kind := elem[3:]
		if i == 0 {
			return nil
		}
		if kind == "any" && i%3 == 0 {
			return h.plain(i)
		}
		var raw *N
		switch kind {
		case "array":
			raw = lst(str("item"), str(n))
		case "boolean":
			raw = boolN(i%2 == 0)
		case "integer", "number":
			raw = scal(tInt, n)
		case "object":
			raw = mp(kv("n", str(n)))
		default:
			raw = str("example " + n)
		}
		v := mp(kv("value", raw), kv("displayName", str("example "+n)))
		e := kind
		if x, ok := kindExpr[kind]; ok {
			e = x
		}
		return call(donorType(mp(kv("type", str(e)), kv("example", v)), false), facetIndex[kind]["example"].m).Interface()
	}
	return h.plain(i)
}

// plain values of any Go type.
func (h *mapRun) plain(i int) interface{} {
	switch i % plainKinds {
	case 0:
		return nil
	case 1:
		return "text " + itoa(i)
	case 2:
		return i
	case 3:
		return int64(-i)
	case 4:
		return uint8(i)
	case 5:
		return float64(i) + 0.5
	case 6:
		return true
	case 7:
		return ""
	case 8:
		return []interface{}{"a", i, nil, []interface{}{}}
	case 9:
		return map[string]interface{}{"only": i}
	case 10:
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: tStr, Value: "node " + itoa(i)}
	case 11:
		return raml.NewUntypedMap(2).Put("z", i).Put("a", "x")
	case 12:
		return raml.NewAnyMap(2).Put("z", i).Put(7, "x").SerializeOrdered(false)
	case 13:
		return raml.NewStringMap(0).Put("", "empty").Put("b", itoa(i))
	case 14:
		return donorType(str("string"), false).Interface()
	case 15:
		return []string{"x", "", itoa(i)}
	case 16:
		return "~"
	case 17:
		return "12"
	case 18:
		return math.MaxInt32 + int64(i)
	case 19:
		return "line\nline " + itoa(i)
	case 20:
		return int64(math.MaxInt64 - i)
	case 21:
		return uint64(math.MaxUint64) - uint64(i)
	case 22:
		return int64(1)<<53 + int64(i) + 1
	case 23:
		return int64(math.MinInt64 + i)
	case 24:
		return float32(i) + 0.25
	case 25:
		return []float64{1e300, -1e-300, 1e21, 12345.125, 0.1}[i/plainKinds%5]
	case 26:
		return json.Number("12345678901234567" + itoa(i))
	case 27:
		return uint16(i)
	case 28:
		return int32(-i)
	case 29:
		return plainStruct{Name: "name " + itoa(i), Count: i - 30}
	case 30:
		return map[string]interface{}{"big": int64(1)<<60 + int64(i)}
	case 31:
		return []int{i, -i, 0}
	case 32:
		return map[string]string{"<k>": "a & b " + itoa(i)}
	case 33:
		return []string{"<b>&amp;</b>", "2020-01-02", "0x10", "yes"}[i/plainKinds%4]
	case 34:
		return &sulky{h, "error", i, i}
	case 35:
		return &sulky{h, "panic", i, i}
	case 36:
		return &sulky{h, "exit", i, i}
	case 37:
		return &sulky{h, "reader", i, i}
	case 38:
		return []interface{}{"before", &sulky{h, "error", i, i}}
	}
	return raml.NewUntypedMap(1).Put("in", &sulky{h, "error", i, i}).SerializeOrdered(false)
}

// sickness tells how the serialisation of a value fails.
func (h *mapRun) sickness(v interface{}) string {
	switch x := v.(type) {
	case *sulky:
		if x.sick() {
			return x.mode
		}
	case []interface{}:
		for _, e := range x {
			if s := h.sickness(e); s != "" {
				return s
			}
		}
	case raml.UntypedMap:
		out := ""
		if x.Len() == 1 {
			out = h.sickness(x.At(0).Val)
		}
		return out
	}
	return ""
}

/* ---- generator ---- */

func genMaps(prop string, seed uint64, r *R) *Plan {
	p := &Plan{Prop: prop, Scen: "maps", Seed: seed, MapSeed: r.u64(), Obs: true}
	m := &MapPlan{Full: r.p(0.8)}
	p.Map = m
	any := false
	for i, n := 0, 1+r.n(3); i < n; i++ {
		t := mapTypes[r.n(len(mapTypes))].name
		if r.p(0.35) {
			t = r.pick("AnyMap", "UntypedMap", "StringMap", "DataTypeMap")
		}
		any = any || t == "AnyMap"
		m.Types = append(m.Types, t)
		m.Sizes = append(m.Sizes, r.pick2(0, 0, 1, 2, 10, 100))
	}
	for i, n := 0, 1+r.n(12)+r.n(2)*r.n(20); i < n; i++ {
		k := r.mapKey(any, prop == "C13")
		dup := false
		for _, o := range m.Keys {
			dup = dup || o == k
		}
		if !dup {
			m.Keys = append(m.Keys, k)
		}
	}
	total := 4 + r.n(40)
	if r.p(0.06) {
		total = 300 + r.n(900)
		for i := 0; i < 150; i++ {
			m.Keys = append(m.Keys, MapKey{"s", "many" + itoa(i)})
		}
	}
	w := []float64{14, 3, 1.5, 5, 4, 2, 1.5, 1, 1, 1, 1, 6, 2, 1, 0.4, 0.3, 0.7, 0.7, 0.7}
	if prop == "C13" {
		w = []float64{14, 2, 1, 4, 3, 0.3, 0.3, 0.3, 0.3, 0.3, 0.3, 4, 0.7, 0.5, 0.5, 0.3, 5, 8, 8}
	}
	names := []string{"put", "putnn", "putnil", "rop", "rie", "get", "getopt", "at", "len", "has", "idx", "del", "foreach", "panic", "exit", "heal", "ordered", "yaml", "json"}
	clients := 1 + r.n(4)
	m.Clients = make([][]MapOp, clients)
	hot := r.n(len(m.Keys))
	sick := r.p(0.3)
	for i := 0; i < total; i++ {
		c := r.n(clients)
		op := MapOp{T: names[r.weighted(w)], M: r.n(len(m.Types)), K: r.n(len(m.Keys)), V: r.n(2 * plainKinds), N: r.n(1000)}
		if r.p(0.25) {
			op.K = hot
		}
		if !sick && op.V%plainKinds >= failFrom {
			op.V = r.n(failFrom)
		}
		if (op.T == "exit" || op.T == "panic") && r.p(0.5) {
			op.T = "foreach"
		}
		m.Clients[c] = append(m.Clients[c], op)
	}
	return p
}

func (m *MapPlan) describe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s with %d keys;", strings.Join(m.Types, ", "), len(m.Keys))
	for i, c := range m.Clients {
		fmt.Fprintf(&b, " client %d:", i)
		for _, op := range c {
			fmt.Fprintf(&b, " %s(%d,k%d)", op.T, op.M, op.K)
		}
	}
	return b.String()
}

/* ---- execution ---- */

type mapEntry struct {
	key int
	val interface{}
}

// simMap is a map of the library with its model.
type simMap struct {
	t       *mapType
	impl    interface{}
	v       reflect.Value
	model   []mapEntry
	ordered bool
	lastY   []byte // last YAML form, while the map does not change
	lastJ   []byte
}

type mapRun struct {
	w      *world
	p      *MapPlan
	maps   []*simMap
	vals   map[string]interface{}
	healed bool
	ended  bool
	cur    *simMap
	nest   int
}

func (h *mapRun) fail(class, f string, a ...interface{}) {
	h.w.fail(class, f, a...)
}

// guard runs code of the library; panics of the library are violations.
func (h *mapRun) guard(class string, fn func()) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *Violation:
				panic(x)
			case simPanic, harnessErr:
				panic(x)
			case donorErr:
				h.fail("donor", "%s", x.msg)
			case simrt.StepLimit, simrt.Deadlock:
				h.fail(class+"-hang", "the operation does not end within %d simulated steps", maxSteps)
			}
			buf := make([]byte, 6000)
			buf = buf[:runtime.Stack(buf, false)]
			panic(&Violation{Class: class + "-panic", Detail: fmt.Sprintf("%s: panic: %v", h.cur.t.name, r), Op: h.w.opIdx, Task: h.w.task, Stack: string(buf), OpT: h.w.op.T})
		}
	}()
	fn()
}

func (m *simMap) call(name string, args ...interface{}) []reflect.Value {
	f := m.v.MethodByName(name)
	if !f.IsValid() {
		panic(harnessErr{"no method " + name})
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		t := f.Type().In(i)
		if a == nil {
			in[i] = reflect.Zero(t)
			continue
		}
		in[i] = reflect.ValueOf(a)
		if !in[i].Type().AssignableTo(t) {
			panic(harnessErr{fmt.Sprintf("%s.%s: %T is no %s", m.t.name, name, a, t)})
		}
	}
	return f.Call(in)
}

func (m *simMap) find(k int) int {
	for i := range m.model {
		if m.model[i].key == k {
			return i
		}
	}
	return -1
}

// same compares values by identity where they have one.
func same(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Type() != y.Type() {
		return false
	}
	switch x.Kind() {
	case reflect.Slice:
		return x.Len() == y.Len() && (x.Len() == 0 || x.Pointer() == y.Pointer())
	case reflect.Map:
		return x.Pointer() == y.Pointer()
	}
	return a == b
}

func show(v interface{}) string { return clip(fmt.Sprintf("%#v", v)) }

func (h *mapRun) key(m *simMap, k int) interface{} {
	mk := h.p.Keys[k%len(h.p.Keys)]
	if m.t.name != "AnyMap" {
		return mk.V
	}
	return mk.value()
}

// keyOf makes the number of a key unique for maps with string keys.
func (h *mapRun) keyOf(m *simMap, k int) int {
	k %= len(h.p.Keys)
	if m.t.name == "AnyMap" {
		return k
	}
	for i := range h.p.Keys {
		if h.p.Keys[i].V == h.p.Keys[k].V {
			return i
		}
	}
	return k
}

// check compares everything a map reports with the model.
func (h *mapRun) check(m *simMap, class string) {
	h.cur = m
	h.guard(class, func() {
		if n := int(m.call("Len")[0].Int()); n != len(m.model) {
			h.fail(class+"-len", "%s reports the size %d, but has %d entries", m.t.name, n, len(m.model))
		}
		for i, e := range m.model {
			x := m.call("At", i)[0]
			if k := x.Field(0).Interface(); k != h.key(m, e.key) {
				h.fail(class+"-at", "%s: At(%d) has the key %s instead of %s", m.t.name, i, show(k), show(h.key(m, e.key)))
			}
			if v := x.Field(1).Interface(); !same(v, e.val) {
				h.fail(class+"-at", "%s: At(%d) has the value %s instead of %s", m.t.name, i, show(v), show(e.val))
			}
		}
		step := 1
		if len(h.p.Keys) > 60 {
			step = 1 + len(h.p.Keys)/40
		}
		for k := h.w.opIdx % step; k < len(h.p.Keys); k += step {
			h.lookup(m, h.keyOf(m, k), class)
		}
		i := 0
		each := m.v.MethodByName("ForEach")
		cb := reflect.MakeFunc(each.Type().In(0), func(a []reflect.Value) []reflect.Value {
			if i >= len(m.model) {
				h.fail(class+"-foreach", "%s: ForEach visits more than %d entries", m.t.name, len(m.model))
			}
			e := m.model[i]
			if k := a[0].Interface(); k != h.key(m, e.key) {
				h.fail(class+"-foreach", "%s: ForEach visits the key %s instead of %s at position %d", m.t.name, show(k), show(h.key(m, e.key)), i)
			}
			if v := a[1].Interface(); !same(v, e.val) {
				h.fail(class+"-foreach", "%s: ForEach visits the value %s instead of %s at position %d", m.t.name, show(v), show(e.val), i)
			}
			i++
			return nil
		})
		out := each.Call([]reflect.Value{cb})
		if i != len(m.model) {
			h.fail(class+"-foreach", "%s: ForEach visits %d of %d entries", m.t.name, i, len(m.model))
		}
		h.chain(m, out, "ForEach", class)
	})
}

func (h *mapRun) lookup(m *simMap, k int, class string) {
	pos := m.find(k)
	key := h.key(m, k)
	if has := m.call("Has", key)[0].Bool(); has != (pos >= 0) {
		h.fail(class+"-has", "%s: Has(%s) is %v", m.t.name, show(key), has)
	}
	if i := int(m.call("IndexOf", key)[0].Int()); i != pos {
		h.fail(class+"-index", "%s: IndexOf(%s) is %d instead of %d", m.t.name, show(key), i, pos)
	}
	out := m.call("Get", key)
	v, ok := out[0].Interface(), out[1].Bool()
	if ok != (pos >= 0) {
		h.fail(class+"-get", "%s: Get(%s) reports presence %v", m.t.name, show(key), ok)
	}
	if pos >= 0 && !same(v, m.model[pos].val) {
		h.fail(class+"-get", "%s: Get(%s) gives %s instead of %s", m.t.name, show(key), show(v), show(m.model[pos].val))
	}
	if pos < 0 && !reflect.ValueOf(&v).Elem().IsZero() && !reflect.ValueOf(v).IsZero() {
		h.fail(class+"-get", "%s: Get(%s) gives %s for a key that is not in the map", m.t.name, show(key), show(v))
	}
	if f := m.v.MethodByName("GetOpt"); f.IsValid() {
		o := m.call("GetOpt", key)[0]
		is := o.MethodByName("IsPresent").Call(nil)[0].Bool()
		switch {
		case pos >= 0 && m.model[pos].val == nil: // an option of nothing
		case is != (pos >= 0):
			h.fail(class+"-getopt", "%s: GetOpt(%s) reports presence %v", m.t.name, show(key), is)
		case is:
			if v := o.MethodByName("Get").Call(nil)[0].Interface(); !same(v, m.model[pos].val) {
				h.fail(class+"-getopt", "%s: GetOpt(%s) gives %s instead of %s", m.t.name, show(key), show(v), show(m.model[pos].val))
			}
		}
	}
}

func (h *mapRun) chain(m *simMap, out []reflect.Value, name, class string) {
	if len(out) != 1 || out[0].Interface() != m.impl {
		h.fail(class+"-chain", "%s: %s does not return the map itself", m.t.name, name)
	}
}

// readSome reads a map from inside of a callback.
func (h *mapRun) readSome(m *simMap, n int) {
	if h.nest > 2 {
		return
	}
	h.nest++
	defer func() { h.nest-- }()
	if len(h.p.Keys) == 0 {
		return
	}
	h.lookup(m, h.keyOf(m, n%len(h.p.Keys)), "map")
	if n%4 == 0 {
		h.check(m, "map")
	}
	if l := int(m.call("Len")[0].Int()); l != len(m.model) {
		h.fail("map-len", "%s reports the size %d, but has %d entries, when asked during an iteration", m.t.name, l, len(m.model))
	}
}

func (m *simMap) changed() { m.lastY, m.lastJ = nil, nil }

func (h *mapRun) sickIn(m *simMap) (string, string) {
	for _, e := range m.model {
		if s := h.sickness(e.val); s != "" {
			return s, show(e.val)
		}
	}
	return "", ""
}

func (h *mapRun) do(op *MapOp) {
	m := h.maps[op.M%len(h.maps)]
	h.cur = m
	k := h.keyOf(m, op.K)
	key := h.key(m, k)
	pos := m.find(k)
	elem := m.t.elem
	switch op.T {
	case "put", "rop", "rie", "putnn", "putnil":
		v := h.value(elem, op.V)
		name := map[string]string{"put": "Put", "rop": "ReplaceOrPut", "rie": "ReplaceIfExists", "putnn": "PutIfNotNil", "putnil": "PutIfNotNil"}[op.T]
		var arg interface{} = v
		if name == "PutIfNotNil" {
			arg = h.pointer(m, op, &v)
		}
		var out []reflect.Value
		h.guard("map", func() { out = m.call(name, key, arg) })
		h.chain(m, out, name, "map")
		switch {
		case op.T == "putnil" || op.T == "putnn" && v == nil && elem != "type" && isUntyped(elem):
			break
		case op.T == "put" || op.T == "putnn" || op.T == "rop" && pos < 0:
			if pos >= 0 {
				m.model = append(append([]mapEntry{}, m.model[:pos]...), m.model[pos+1:]...)
			}
			m.model = append(m.model, mapEntry{k, v})
			m.changed()
		case pos >= 0:
			m.model = append([]mapEntry{}, m.model...)
			m.model[pos].val = v
			m.changed()
		}
	case "del":
		var out []reflect.Value
		h.guard("map", func() { out = m.call("Delete", key) })
		h.chain(m, out, "Delete", "map")
		if pos >= 0 {
			m.model = append(append([]mapEntry{}, m.model[:pos]...), m.model[pos+1:]...)
			m.changed()
		}
	case "get", "getopt", "has", "idx":
		h.guard("map", func() { h.lookup(m, k, "map") })
	case "at":
		if len(m.model) > 0 {
			i := op.N % len(m.model)
			h.guard("map", func() {
				x := m.call("At", i)[0]
				if x.Field(0).Interface() != h.key(m, m.model[i].key) || !same(x.Field(1).Interface(), m.model[i].val) {
					h.fail("map-at", "%s: At(%d) gives %s", m.t.name, i, show(x.Interface()))
				}
			})
		}
	case "len":
		h.guard("map", func() {
			if n := int(m.call("Len")[0].Int()); n != len(m.model) {
				h.fail("map-len", "%s reports the size %d, but has %d entries", m.t.name, n, len(m.model))
			}
		})
	case "foreach", "panic", "exit":
		h.iterate(m, op)
	case "heal":
		h.healed = op.N%2 == 0
		for _, x := range h.maps {
			x.changed()
		}
	case "ordered":
		b := op.N%2 == 0
		var out []reflect.Value
		h.guard("map", func() { out = m.call("SerializeOrdered", b) })
		h.chain(m, out, "SerializeOrdered", "map")
		if m.ordered != b {
			m.changed()
		}
		m.ordered = b
	case "yaml":
		h.check(m, "map")
		h.yaml(m, op)
		h.check(m, "ser-effect")
	case "json":
		h.check(m, "map")
		h.json(m)
		h.check(m, "ser-effect")
	}
	h.w.stats.op("map " + op.T)
	h.w.event("%s %s k%d size %d", m.t.name, op.T, k, len(m.model))
}

func isUntyped(elem string) bool { return elem == "plain" || elem == "ex:any" }

// pointer makes the argument of PutIfNotNil and tells the value it stands for.
func (h *mapRun) pointer(m *simMap, op *MapOp, v *interface{}) interface{} {
	t := m.v.MethodByName("PutIfNotNil").Type().In(1)
	if t.Kind() == reflect.Ptr {
		if op.T == "putnil" {
			return reflect.Zero(t).Interface()
		}
		p := reflect.New(t.Elem())
		if *v != nil {
			p.Elem().Set(reflect.ValueOf(*v))
		}
		return p.Interface()
	}
	if op.T == "putnil" {
		switch op.N % 3 {
		case 0:
			return (*string)(nil)
		case 1:
			return (*int)(nil)
		}
		return nil
	}
	// pointers are followed, so only plain values keep their identity
	switch op.N % 5 {
	case 0:
		s := "pointed at " + itoa(op.V)
		*v = s
		return &s
	case 1:
		i := op.V
		*v = i
		return &i
	case 2:
		b := op.V%2 == 0
		*v = b
		return &b
	case 3:
		*v = op.V
		return op.V
	}
	*v = "direct " + itoa(op.V)
	return *v
}

// iterate runs ForEach with a callback that reads, panics or ends the task.
func (h *mapRun) iterate(m *simMap, op *MapOp) {
	at := -1
	if op.T != "foreach" {
		if len(m.model) == 0 {
			return
		}
		at = op.N % len(m.model)
	}
	seen, returned := 0, false
	h.guard("map", func() {
		defer func() {
			if at >= 0 {
				if r := recover(); r != nil {
					if _, ok := r.(simPanic); !ok {
						panic(r)
					}
				}
			}
		}()
		each := m.v.MethodByName("ForEach")
		cb := reflect.MakeFunc(each.Type().In(0), func(a []reflect.Value) []reflect.Value {
			simrt.Yield()
			if seen >= len(m.model) {
				h.fail("map-foreach", "%s: ForEach visits more than %d entries", m.t.name, len(m.model))
			}
			e := m.model[seen]
			if a[0].Interface() != h.key(m, e.key) || !same(a[1].Interface(), e.val) {
				h.fail("map-foreach", "%s: ForEach visits %s at position %d", m.t.name, show(a[0].Interface()), seen)
			}
			if op.V%2 == 0 {
				h.readSome(h.maps[(op.V/2)%len(h.maps)], op.N+seen)
				h.cur = m
			}
			if seen == at {
				if op.T == "exit" {
					h.w.stats.fault("task ended inside a callback")
					h.ended = true
					runtime.Goexit()
				}
				h.w.stats.fault("callback panics")
				panic(simPanic{})
			}
			seen++
			return nil
		})
		each.Call([]reflect.Value{cb})
		returned = true
	})
	if at >= 0 && returned {
		h.fail("map-foreach", "%s: the panic of a callback is swallowed", m.t.name)
	}
	if at < 0 && seen != len(m.model) {
		h.fail("map-foreach", "%s: ForEach visits %d of %d entries", m.t.name, seen, len(m.model))
	}
}

// attempt runs a serialisation that may be interrupted by a value.
func (h *mapRun) attempt(fn func()) (interrupted bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(simPanic); !ok {
				panic(r)
			}
			h.w.stats.fault("value panics while it is serialised")
			interrupted = true
		}
	}()
	h.guard("ser", fn)
	return false
}

func (h *mapRun) serialised(m *simMap, err error, form string) bool {
	sick, what := h.sickIn(m)
	if sick != "" {
		h.w.stats.fault("value fails to serialise")
		if err == nil {
			h.fail("ser-silent", "%s contains a value that fails to serialise (%s), but serialises as %s", m.t.name, what, form)
		}
		return false
	}
	if err != nil {
		h.fail("ser-error", "%s cannot be serialised as %s: %v", m.t.name, form, err)
	}
	return true
}

// alone is the YAML form of a value without the map.
func (h *mapRun) alone(v interface{}) *N {
	switch x := v.(type) {
	case nil:
		return scal(tNull, "")
	case string, bool, int, int64, float64, *yaml.Node, []interface{}, []string:
		if l, ok := v.([]interface{}); ok {
			o := lst()
			for _, e := range l {
				o.L = append(o.L, h.alone(e))
			}
			return o
		}
		return observer{}.rawN(x)
	case uint8:
		return intN(int64(x))
	case map[string]interface{}:
		o := mp()
		for k, e := range x {
			o.P = append(o.P, kv(k, h.alone(e)))
		}
		return o
	case *sulky:
		return str(x.text())
	}
	if isRamlMap(reflect.ValueOf(v)) {
		// a nested map with known entries
		var o *N
		ordered := isOrdered(v)
		if ordered {
			o = lst()
			o.T = "!!omap"
		} else {
			o = mp()
		}
		rv := reflect.ValueOf(v)
		n := int(rv.MethodByName("Len").Call(nil)[0].Int())
		for i := 0; i < n; i++ {
			e := rv.MethodByName("At").Call([]reflect.Value{reflect.ValueOf(i)})[0]
			k := observer{}.rawN(e.Field(0).Interface())
			p := P{k, h.alone(e.Field(1).Interface())}
			if ordered {
				o.L = append(o.L, &N{K: "m", P: []P{p}})
			} else {
				o.P = append(o.P, p)
			}
		}
		return o
	}
	if y, ok := v.(interface{ ToYAML() (*yaml.Node, error) }); ok {
		node, err := y.ToYAML()
		if err != nil {
			h.fail("ser-error", "%T cannot be serialised alone: %v", v, err)
		}
		return fromYAML(node)
	}
	b, err := encode(v)
	if err != nil {
		panic(harnessErr{fmt.Sprintf("%T: %v", v, err)})
	}
	n, err := plainParse(string(b))
	if err != nil {
		panic(harnessErr{err.Error()})
	}
	return n
}

// nested maps are built with known modes: those with an odd number or of the
// kinds below are ordered
func isOrdered(v interface{}) bool {
	switch x := v.(type) {
	case raml.UntypedMap:
		if x.Len() == 0 {
			return true
		}
		if x.At(0).Key == "z" {
			return true
		}
		if x.At(0).Key == "n" {
			return x.At(0).Val.(int)%2 == 1
		}
		return false
	case raml.AnyMap:
		return false
	case raml.StringMap:
		return true
	case raml.DataTypeMap:
		i, _ := strconv.Atoi(x.At(0).Key[1:])
		return i%2 == 1
	}
	panic(harnessErr{fmt.Sprintf("mode of %T", v)})
}

func encode(v interface{}) ([]byte, error) {
	var buf bytes.Buffer
	enc := yaml.NewEncoder(&buf)
	enc.SetIndent(2)
	if err := enc.Encode(v); err != nil {
		return nil, err
	}
	enc.Close()
	return buf.Bytes(), nil
}

func (h *mapRun) keyTree(m *simMap, k int) *N {
	mk := h.p.Keys[k]
	if m.t.name != "AnyMap" {
		return str(mk.V)
	}
	return mk.tree()
}

func (h *mapRun) wantYAML(m *simMap) *N {
	if m.ordered {
		o := lst()
		o.T = "!!omap"
		for _, e := range m.model {
			o.L = append(o.L, &N{K: "m", P: []P{{h.keyTree(m, e.key), h.alone(e.val)}}})
		}
		return o
	}
	o := mp()
	for _, e := range m.model {
		o.P = append(o.P, P{h.keyTree(m, e.key), h.alone(e.val)})
	}
	return o
}

func (h *mapRun) strangeKeys(m *simMap) bool {
	if m.t.name != "AnyMap" {
		return false
	}
	for _, e := range m.model {
		switch h.p.Keys[e.key].T {
		case "struct", "array", "dur":
			return true
		}
	}
	return false
}

// jsonOnly: lib-go-yaml has no form for values of the caller's own types.
func (h *mapRun) jsonOnly(m *simMap) bool {
	for _, e := range m.model {
		switch e.val.(type) {
		case json.Number, plainStruct:
			return true
		}
	}
	return false
}

func (h *mapRun) yaml(m *simMap, op *MapOp) {
	if h.strangeKeys(m) || h.jsonOnly(m) {
		return
	}
	var node *yaml.Node
	var err error
	if h.attempt(func() {
		if op.N%3 == 0 {
			var x interface{}
			x, err = m.impl.(yaml.Marshaler).MarshalYAML()
			node, _ = x.(*yaml.Node)
			if err == nil && node == nil {
				h.fail("ser-yaml", "%s: MarshalYAML gives a %T", m.t.name, x)
			}
			return
		}
		out := m.call("ToYAML")
		node, _ = out[0].Interface().(*yaml.Node)
		err, _ = out[1].Interface().(error)
	}) {
		return
	}
	if !h.serialised(m, err, "YAML") {
		return
	}
	want := h.wantYAML(m)
	if d := diff(want, fromYAML(node)); d != "" {
		h.fail("ser-yaml", "%s (ordered: %v) is serialised wrongly: %s", m.t.name, m.ordered, d)
	}
	for _, e := range m.model {
		if m.t.name == "AnyMap" && h.p.Keys[e.key].T == "nil" {
			return // the YAML library writes a key without text as an empty string
		}
	}
	var b []byte
	if h.attempt(func() { b, err = encode(m.impl) }) {
		return
	}
	if !h.serialised(m, err, "YAML text") {
		return
	}
	got, err := plainParse(string(b))
	if err != nil {
		h.fail("ser-yaml", "%s: the YAML form cannot be read: %v\n%s", m.t.name, err, clip(string(b)))
	}
	if d := diff(want, got); d != "" {
		h.fail("ser-yaml", "%s (ordered: %v) is written wrongly: %s", m.t.name, m.ordered, d)
	}
	if m.lastY != nil && !bytes.Equal(m.lastY, b) {
		h.fail("ser-repeat", "%s: serialising again gives another YAML form: %s", m.t.name, firstDiff(m.lastY, b))
	}
	m.lastY = b
}

/* ---- JSON ---- */

// jsonTree reads JSON with the order of members.
func jsonTree(b []byte) (*N, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	n, err := jsonValue(d)
	if err == nil && d.More() {
		err = errors.New("more than one value")
	}
	return n, err
}

func jsonValue(d *json.Decoder) (*N, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case json.Delim:
		if x == '[' {
			o := lst()
			for d.More() {
				e, err := jsonValue(d)
				if err != nil {
					return nil, err
				}
				o.L = append(o.L, e)
			}
			_, err := d.Token()
			return o, err
		}
		o := mp()
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			e, err := jsonValue(d)
			if err != nil {
				return nil, err
			}
			o.P = append(o.P, kv(k.(string), e))
		}
		_, err := d.Token()
		return o, err
	case string:
		return str(x), nil
	case json.Number:
		return scal("number", x.String()), nil
	case bool:
		return boolN(x), nil
	}
	return scal(tNull, ""), nil
}

func (h *mapRun) jsonAlone(v interface{}) (*N, bool) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, false
	}
	n, err := jsonTree(b)
	return n, err == nil
}

func (h *mapRun) json(m *simMap) {
	if h.strangeKeys(m) {
		return
	}
	// a value that has no JSON form of its own makes the map fail, too
	possible := true
	for _, e := range m.model {
		if h.sickness(e.val) == "" {
			if _, ok := h.jsonAlone(e.val); !ok {
				possible = false
			}
		}
		if f, ok := e.val.(float64); ok && (math.IsNaN(f) || math.IsInf(f, 0)) {
			possible = false
		}
	}
	if m.ordered {
		for _, e := range m.model {
			if _, ok := h.jsonAlone(h.key(m, e.key)); !ok {
				possible = false
			}
		}
	}
	var b []byte
	var err error
	if h.attempt(func() { b, err = m.impl.(json.Marshaler).MarshalJSON() }) {
		return
	}
	if !possible && err != nil {
		return
	}
	if !m.ordered && err == nil {
		// different keys with the same text share one member of an object
		texts := map[string]bool{}
		for _, e := range m.model {
			texts[fmt.Sprint(h.key(m, e.key))] = true
		}
		if sick, _ := h.sickIn(m); sick != "" && len(texts) < len(m.model) {
			return
		}
	}
	if !h.serialised(m, err, "JSON") {
		return
	}
	if m.lastJ != nil && !bytes.Equal(m.lastJ, b) {
		h.fail("ser-repeat", "%s: serialising again gives another JSON form: %s", m.t.name, firstDiff(m.lastJ, b))
	}
	m.lastJ = append([]byte{}, b...)
	got, err := jsonTree(b)
	if err != nil {
		h.fail("ser-json", "%s: the JSON form cannot be read: %v %s", m.t.name, err, clip(string(b)))
	}
	if !possible {
		return
	}
	if m.ordered {
		if got.K != "l" || len(got.L) != len(m.model) {
			h.fail("ser-json", "%s: the ordered JSON form has not %d entries: %s", m.t.name, len(m.model), clip(string(b)))
		}
		for i, e := range m.model {
			k, _ := h.jsonAlone(h.key(m, e.key))
			v, _ := h.jsonAlone(e.val)
			want := mp(kv("key", k), kv("value", v))
			x := got.L[i]
			if !x.isMap() || len(x.P) != 2 || diff(want, &N{K: "m", P: []P{kv("key", x.get("key")), kv("value", x.get("value"))}}) != "" {
				h.fail("ser-json", "%s: entry %d of the ordered JSON form is wrong: %s", m.t.name, i, clip(string(b)))
			}
		}
		return
	}
	names := map[string][]int{}
	for i, e := range m.model {
		n := fmt.Sprint(h.key(m, e.key))
		names[n] = append(names[n], i)
	}
	if !got.isMap() || len(got.P) != len(names) {
		h.fail("ser-json", "%s: the unordered JSON form has not %d members: %s", m.t.name, len(names), clip(string(b)))
	}
	for n, is := range names {
		i := got.find(jsonText(n))
		if i < 0 {
			h.fail("ser-json", "%s: the unordered JSON form misses %q: %s", m.t.name, n, clip(string(b)))
		}
		ok := false
		for _, j := range is {
			v, _ := h.jsonAlone(m.model[j].val)
			ok = ok || diff(v, got.P[i].V) == ""
		}
		if !ok {
			h.fail("ser-json", "%s: %q has another value in the unordered JSON form: %s", m.t.name, n, clip(string(b)))
		}
	}
}

// jsonText is what a text becomes in JSON.
func jsonText(s string) string {
	b, _ := json.Marshal(s)
	var o string
	json.Unmarshal(b, &o)
	return o
}

func (p *Plan) maps(st *Stats) *Result {
	res := &Result{}
	w := newWorld(p, st)
	w.op = &Op{T: "map"}
	h := &mapRun{w: w, p: p.Map, vals: map[string]interface{}{}}
	if len(p.Map.Types) == 0 || len(p.Map.Keys) == 0 {
		return res
	}
	simrt.SetClock(0)
	res.runTasks(simrt.Config{Seed: p.Seed, MapSeed: p.MapSeed}, st, func() {
		for i, t := range p.Map.Types {
			m := &simMap{t: mapTypeOf(t), ordered: true}
			n := 0
			if i < len(p.Map.Sizes) {
				n = p.Map.Sizes[i]
			}
			h.cur = m
			h.guard("map", func() { m.impl = m.t.fresh(n) })
			m.v = reflect.ValueOf(m.impl)
			h.maps = append(h.maps, m)
			h.check(m, "map")
		}
	})
	if res.Viol != nil || res.Harness != "" {
		res.collect(w)
		return res
	}
	var fns []func()
	idx := 0
	for c := range p.Map.Clients {
		c := c
		fns = append(fns, func() {
			simrt.Pass()
			for i := range p.Map.Clients[c] {
				op := &p.Map.Clients[c][i]
				w.task, w.opIdx = c, idx
				idx++
				h.nest = 0
				simrt.Advance(time.Duration(1+idx%977) * time.Millisecond)
				st.SimMs += int64(1 + idx%977)
				enterOp("map")
				h.do(op)
				if p.Map.Full {
					h.check(h.maps[op.M%len(h.maps)], "map")
				}
				simrt.Pass()
			}
		})
	}
	out := res.runTasks(simrt.Config{Seed: p.Seed, MapSeed: mix(p.MapSeed, 1), List: p.Sched, UseList: p.UseSch, PassOnly: true}, st, fns...)
	res.Switches = out.Switches
	if res.Viol == nil && res.Harness == "" {
		res.runTasks(simrt.Config{Seed: p.Seed, MapSeed: mix(p.MapSeed, 2)}, st, func() {
			h.healed = true
			for _, m := range h.maps {
				m.changed()
				h.check(m, "map")
				for i := 0; i < 2; i++ {
					h.yaml(m, &MapOp{})
					h.json(m)
				}
				h.check(m, "ser-effect")
			}
		})
	}
	res.collect(w)
	return res
}
