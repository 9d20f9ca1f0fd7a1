package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

// N is a node of the reference model: a plain content tree that knows nothing
// about the library.
type N struct {
	K  string `json:"k"`            // "s" scalar, "m" mapping (ordered), "u" mapping (unordered), "l" list, "a" alias
	T  string `json:"t,omitempty"`  // short tag of a scalar or custom tag of a collection
	V  string `json:"v,omitempty"`  // scalar text, alias name
	P  []P    `json:"p,omitempty"`  // mapping entries
	L  []*N   `json:"l,omitempty"`  // list items
	S  string `json:"s,omitempty"`  // presentation: ' " | > f(low) ~ (spelling of null)
	A  string `json:"a,omitempty"`  // anchor
	C  string `json:"c,omitempty"`  // comment
	Go string `json:"go,omitempty"` // pass as a Go value instead of a YAML node when edited
}

// P is an entry of a mapping.
type P struct {
	K *N `json:"k"`
	V *N `json:"v"`
}

const (
	tStr   = "!!str"
	tInt   = "!!int"
	tFloat = "!!float"
	tBool  = "!!bool"
	tNull  = "!!null"
)

func str(s string) *N       { return &N{K: "s", T: tStr, V: s} }
func scal(t, v string) *N   { return &N{K: "s", T: t, V: v} }
func boolN(b bool) *N       { return &N{K: "s", T: tBool, V: strconv.FormatBool(b)} }
func mp(ps ...P) *N         { return &N{K: "m", P: ps} }
func uset() *N              { return &N{K: "u"} }
func lst(xs ...*N) *N       { return &N{K: "l", L: xs} }
func kv(k string, v *N) P   { return P{str(k), v} }
func uintN(u uint64) *N     { return scal(tInt, strconv.FormatUint(u, 10)) }
func intN(i int64) *N       { return scal(tInt, strconv.FormatInt(i, 10)) }
func floatN(f float64) *N   { return scal(tFloat, strconv.FormatFloat(f, 'g', -1, 64)) }
func (n *N) isMap() bool    { return n != nil && (n.K == "m" || n.K == "u") }
func (n *N) isStr() bool    { return n != nil && n.K == "s" && n.T == tStr }
func (n *N) isScalar() bool { return n != nil && n.K == "s" }

func (n *N) find(k string) int {
	if n == nil {
		return -1
	}
	for i := range n.P {
		if n.P[i].K.V == k && n.P[i].K.K == "s" {
			return i
		}
	}
	return -1
}

func (n *N) get(k string) *N {
	if i := n.find(k); i >= 0 {
		return n.P[i].V
	}
	return nil
}

func (n *N) del(k string) bool {
	if i := n.find(k); i >= 0 {
		n.P = append(append([]P{}, n.P[:i]...), n.P[i+1:]...)
		return true
	}
	return false
}

// set replaces in place or appends.
func (n *N) set(k string, v *N) {
	if i := n.find(k); i >= 0 {
		n.P[i].V = v
		return
	}
	n.P = append(n.P, kv(k, v))
}

// put removes and appends, like the maps of the library.
func (n *N) put(k string, v *N) {
	n.del(k)
	n.P = append(n.P, kv(k, v))
}

func (n *N) clone() *N {
	if n == nil {
		return nil
	}
	c := *n
	if n.P != nil {
		c.P = make([]P, len(n.P))
		for i := range n.P {
			c.P[i] = P{n.P[i].K.clone(), n.P[i].V.clone()}
		}
	}
	if n.L != nil {
		c.L = make([]*N, len(n.L))
		for i := range n.L {
			c.L[i] = n.L[i].clone()
		}
	}
	return &c
}

func (n *N) size() int {
	s := 1
	for i := range n.P {
		s += 1 + n.P[i].V.size()
	}
	for i := range n.L {
		s += n.L[i].size()
	}
	return s
}

// canonScalar gives scalars with the same meaning the same text.
func canonScalar(t, v string) string {
	switch t {
	case tNull:
		return ""
	case tBool:
		return strings.ToLower(v)
	case tInt:
		if c, ok := canonInt(v); ok {
			return c
		}
	case tFloat:
		if c, ok := canonFloat(v); ok {
			return c
		}
	}
	return v
}

func canonInt(v string) (string, bool) {
	s := strings.ReplaceAll(v, "_", "")
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		neg := strings.HasPrefix(s, "-")
		s = strings.TrimLeft(s, "+-")
		b, ok = new(big.Int).SetString(s, 0)
		if ok && neg {
			b.Neg(b)
		}
	}
	if !ok {
		return "", false
	}
	return b.String(), true
}

func canonFloat(v string) (string, bool) {
	s := strings.ToLower(strings.ReplaceAll(v, "_", ""))
	switch strings.TrimLeft(s, "+-") {
	case ".inf", "+inf", "inf":
		if strings.HasPrefix(s, "-") {
			return "-inf", true
		}
		return "inf", true
	case ".nan", "nan":
		return "nan", true
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return "", false
	}
	return strconv.FormatFloat(f, 'g', -1, 64), true
}

// fromYAML converts a YAML node to a content tree with aliases resolved.
func fromYAML(y *yaml.Node) *N {
	u := unfolder{open: map[*yaml.Node]bool{}}
	return u.node(y, 0)
}

// unfolder resolves aliases up to cycles and a limit of unfolded nodes.
type unfolder struct {
	open   map[*yaml.Node]bool
	alias  int
	copied int
}

func (u *unfolder) node(y *yaml.Node, depth int) *N {
	if y == nil {
		return scal("!!gonil", "")
	}
	if depth > 200 {
		return scal("!!toodeep", "")
	}
	if u.alias > 0 {
		if u.copied++; u.copied > 200000 {
			return scal("!!toomany", "")
		}
	}
	switch y.Kind {
	case yaml.ScalarNode:
		t := y.ShortTag()
		return scal(t, canonScalar(t, y.Value))
	case yaml.DocumentNode:
		if len(y.Content) == 0 {
			return scal(tNull, "")
		}
		return u.node(y.Content[0], depth+1)
	}
	if u.open[y] {
		return scal("!!cycle", "")
	}
	u.open[y] = true
	defer delete(u.open, y)
	switch y.Kind {
	case yaml.AliasNode:
		u.alias++
		defer func() { u.alias-- }()
		return u.node(y.Alias, depth+1)
	case yaml.SequenceNode:
		n := lst()
		if t := y.ShortTag(); t != "!!seq" {
			n.T = t
		}
		for _, c := range y.Content {
			n.L = append(n.L, u.node(c, depth+1))
		}
		return n
	case yaml.MappingNode:
		n := mp()
		if t := y.ShortTag(); t != "!!map" {
			n.T = t
		}
		for i := 0; i+1 < len(y.Content); i += 2 {
			n.P = append(n.P, P{u.node(y.Content[i], depth+1), u.node(y.Content[i+1], depth+1)})
		}
		return n
	}
	return scal("!!kind"+strconv.Itoa(int(y.Kind)), y.Value)
}

// resolve returns the tree with aliases replaced by what they refer to.
func (n *N) resolve() *N {
	anchors := map[string]*N{}
	var walk func(n *N) *N
	walk = func(n *N) *N {
		if n.K == "a" {
			if t, ok := anchors[n.V]; ok {
				return t.clone()
			}
			return scal("!!badalias", n.V)
		}
		c := &N{K: n.K, T: n.T, V: n.V}
		if n.K == "s" {
			c.V = canonScalar(n.T, n.V)
		}
		for i := range n.P {
			k := walk(n.P[i].K)
			c.P = append(c.P, P{k, walk(n.P[i].V)})
		}
		for i := range n.L {
			c.L = append(c.L, walk(n.L[i]))
		}
		if n.A != "" {
			anchors[n.A] = c
		}
		return c
	}
	return walk(n)
}

// dump flattens a tree to one line per leaf; unordered mappings are sorted.
func dump(n *N) []string {
	var out []string
	var rec func(path string, n *N)
	rec = func(path string, n *N) {
		if n == nil {
			out = append(out, path+" = <absent>")
			return
		}
		switch n.K {
		case "s":
			out = append(out, path+" = "+n.T+" "+strconv.Quote(n.V))
		case "a":
			out = append(out, path+" = *"+n.V)
		case "l":
			out = append(out, fmt.Sprintf("%s = list%s(%d)", path, n.T, len(n.L)))
			for i, x := range n.L {
				rec(path+"/"+strconv.Itoa(i), x)
			}
		case "m":
			out = append(out, fmt.Sprintf("%s = map%s(%d)", path, n.T, len(n.P)))
			for i := range n.P {
				rec(path+"/"+strconv.Itoa(i)+":"+keyName(n.P[i].K), n.P[i].V)
			}
		case "u":
			idx := make([]int, len(n.P))
			for i := range idx {
				idx[i] = i
			}
			sort.SliceStable(idx, func(a, b int) bool { return n.P[idx[a]].K.V < n.P[idx[b]].K.V })
			out = append(out, fmt.Sprintf("%s = set(%d)", path, len(n.P)))
			for _, i := range idx {
				rec(path+"/"+keyName(n.P[i].K), n.P[i].V)
			}
		}
	}
	rec("", n)
	return out
}

func keyName(k *N) string {
	if k.K == "s" && k.T == tStr {
		return strconv.Quote(k.V)
	}
	if k.K == "s" {
		return k.T + " " + strconv.Quote(k.V)
	}
	return "{" + strings.Join(dump(k), ";") + "}"
}

// diff returns "" if both trees are equal, otherwise the first differing lines.
func diff(want, got *N) string {
	a, b := dump(want), dump(got)
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<nothing>", "<nothing>"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("expected %s, got %s", clip(x), clip(y))
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:200] + "..." + s[len(s)-180:]
	}
	return s
}

// diffPath returns the paths that differ (at most 40) and a description of the
// first difference; both are empty if the trees are equal.
func diffPath(want, got *N) ([]string, string) {
	d := diff(want, got)
	if d == "" {
		return nil, ""
	}
	var out []string
	diffRec("", want, got, &out)
	if len(out) == 0 {
		out = append(out, "")
	}
	return out, out[0] + ": " + d
}

func diffRec(path string, a, b *N, out *[]string) {
	if len(*out) >= 40 {
		return
	}
	hit := func(p string) { *out = append(*out, p) }
	if a == nil || b == nil || a.K != b.K && !(a.isMap() && b.isMap()) || a.T != b.T {
		if a != nil || b != nil {
			hit(path)
		}
		return
	}
	switch {
	case a.K == "s" || a.K == "a":
		if a.V != b.V {
			hit(path)
		}
	case a.K == "l":
		n := len(*out)
		for i := 0; i < len(a.L) && i < len(b.L); i++ {
			diffRec(path+"/"+strconv.Itoa(i), a.L[i], b.L[i], out)
		}
		if len(a.L) != len(b.L) && n == len(*out) {
			hit(path)
		}
	default:
		at := map[string]int{}
		for i, p := range b.P {
			at[keyName(p.K)] = i
		}
		n := len(*out)
		seen := map[string]bool{}
		last, order := -1, false
		for _, p := range a.P {
			k := keyName(p.K)
			seen[k] = true
			i, ok := at[k]
			if !ok {
				hit(path + "/" + pathKey(p.K))
				continue
			}
			if i < last {
				order = true
			}
			last = i
			diffRec(path+"/"+pathKey(p.K), p.V, b.P[i].V, out)
		}
		for _, p := range b.P {
			if !seen[keyName(p.K)] {
				hit(path + "/" + pathKey(p.K))
			}
		}
		if n == len(*out) && a.K != "u" && b.K != "u" && order {
			hit(path)
		}
	}
}

// pathKey is a key without characters that separate paths.
func pathKey(k *N) string {
	s := keyName(k)
	if k.isStr() {
		s = k.V
	}
	return strings.NewReplacer("~", "~0", "/", "~1").Replace(s)
}

// containerPath is the path of a container in the notation of diffPath.
func containerPath(p []string) string {
	var b strings.Builder
	for _, s := range p {
		if s == "schemas" && b.Len() == 0 {
			s = "types"
		}
		b.WriteString("/" + pathKey(str(s)))
	}
	return b.String()
}
