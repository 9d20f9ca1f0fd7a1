package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Seeded generation of documents.  Every run draws its own configuration
// (swarm testing), so that runs differ in what they contain, not only in how.

type gcfg struct {
	r                                *R
	types, depth, rawDepth           int
	dens, exs, anns, extras, raws    float64
	weird, style, flow, comm, anchor float64
	mlong                            float64 // multi line and long strings
	coll                             float64 // equal values in many places
	uniq                             int
	wide                             float64 // containers with many entries
	budget                           int     // entries they may still have
	echo                             float64 // texts that occur elsewhere
	seen                             []string
	near                             float64
	sharing                          bool // many lists, handed in several times
	past                             []*Op
	focus                            *string          // where the last edit was
	micro                            string           // the only type of a tiny document
	drill                            bool             // setters and unsetters above all
	microEx                          bool             // with edits of an example
	mark                             bool             // texts that differ from round to round
	loose                            []*N             // uninterpreted parts of the last document
	lists                            map[string][]*Op // lists that were handed in
}

func newGcfg(r *R) *gcfg {
	lvl := func() float64 {
		switch r.n(4) {
		case 0:
			return 0
		case 1:
			return 0.1
		case 2:
			return 0.3
		}
		return 0.6
	}
	g := &gcfg{r: r, lists: map[string][]*Op{}, types: r.logN(8), depth: 1 + r.n(4), rawDepth: r.n(4),
		dens: 0.1 + lvl(), exs: lvl(), anns: lvl(), extras: lvl(), raws: lvl(),
		weird: lvl(), style: lvl(), flow: lvl() / 3, comm: lvl() / 3, anchor: lvl() / 2, mlong: lvl() / 3, near: lvl() / 3}
	if r.p(0.05) {
		g.types = 10 + r.n(60)
	}
	g.sharing = r.p(0.15)
	if r.p(0.1) {
		g.wide = 0.05 + lvl()/2
	}
	if r.p(0.3) {
		g.echo = 0.1 + lvl()/2
	}
	if r.p(0.35) {
		g.coll = 0.5 + lvl()/2
	}
	return g
}

var words = strings.Fields("alpha beta gamma delta user order item price name id Status value list kind Version Address street city code total count ref self next")

var nasty = []string{"true", "false", "null", "~", "yes", "No", "on", "123", "-4", "0x1F", "1e3", "1.5", ".inf", ".nan", "2020-01-02", "2020-01-02T10:00:00Z",
	"a: b", "a #b", "# c", "- x", "? q", "[x", "{x", "x]", "}", "&a", "*a", "!t", "!!int", "| x", "> x", "%x", "@x", "`x", "'", "\"", "it's", "say \"hi\"",
	"=", "---", "...", ":", "a:", ",", "a,b", " lead", "trail ", "  ", " ", "\t", "tab\tin", "back\\slash", "nul\\0",
	"ünïcödé", "日本語", "emoji 😀", "\u00a0nbsp", "\u2028", "\ufeffbom", "e\u0301", "0", "00", "1_000", "+1", "0o7", "NaN", "Infinity", "null ", "|", "a|b", "(x)", "/x",
	"<<resourcePathName>>", "<<x | !singularize>>", "{version}", "string[]", "application/json", "*/*", "$ref", "${HOME}", "%20", "&amp;", "<b>", "http://x.y/{version}?a=b&c=d#e", "2020",
	"12:30:00", "1:20", "-", "--", "C:\\x", "a\\nb", "#%RAML 1.0", "%s", "%!d", "(a)", "a.b", "\x01", "\x7f", "\u0085", "\"", "''", "\"\""}

var multi = []string{"line one\nline two\n", "a\nb", "\n", "x\n\n", "first\n\n  indented\nlast", "ends\n\n\n", "\nstarts", "tab\n\tline\n", "crlf\r\nline", "trail \nspace \n", "# not a comment\nx", "key: value\n- item\n"}

func (g *gcfg) word() string {
	w := words[g.r.n(len(words))]
	if g.mark && g.r.p(0.3) {
		w = roundMark
	}
	if g.r.p(0.3) {
		w += strconv.Itoa(g.r.n(100))
	}
	return w
}

// count draws how many of n possible entries a container has; now and then it
// has many.
func (g *gcfg) count(c int) int {
	if g.wide > 0 && g.budget > 0 && g.r.p(g.wide) {
		c = 5 + g.r.logN(60)
		g.budget -= c
	}
	return c
}

// remember keeps texts for use in other places.
func (g *gcfg) remember(s string) string {
	if g.echo > 0 && s != "" && len(s) < 60 && !strings.ContainsAny(s, "\n\r\t") && len(g.seen) < 200 {
		g.seen = append(g.seen, s)
	}
	return s
}

// str draws a string value.
func (g *gcfg) str() *N {
	r := g.r
	var s string
	switch {
	case r.p(g.coll):
		s = r.pick("same", "same", "1", "")
	case len(g.seen) > 0 && r.p(g.echo):
		s = g.seen[r.n(len(g.seen))]
		if r.p(0.4) {
			s = g.seen[len(g.seen)-1-r.n(min(3, len(g.seen)))] // the name of this element, for example
		}
	case r.p(g.weird * 0.6):
		s = nasty[r.n(len(nasty))]
		if r.p(0.05) {
			s = ""
		}
	case r.p(g.mlong):
		if r.p(0.5) {
			s = multi[r.n(len(multi))]
		} else {
			s = g.long(r.logN(600))
		}
	case r.p(0.03):
		s = ""
	default:
		s = g.word()
		for r.p(0.35) {
			s += " " + g.word()
		}
	}
	n := str(g.remember(s))
	g.dress(n)
	return n
}

func (g *gcfg) long(n int) string {
	var b strings.Builder
	for b.Len() < n {
		b.WriteString(g.word())
		switch g.r.n(12) {
		case 0:
			b.WriteString(", ")
		case 1:
			b.WriteString("-")
		default:
			b.WriteString(" ")
		}
	}
	return strings.TrimSpace(b.String())
}

// dress chooses a presentation.
func (g *gcfg) dress(n *N) *N {
	r := g.r
	if n.K == "s" && n.T == tStr && (r.p(g.style) || strings.Contains(n.V, "\n") && r.p(0.7)) {
		n.S = r.pick("'", "\"", "|", ">", "\"")
		if strings.HasPrefix(n.V, "\t") {
			n.S = r.pick("'", "\"") // K10
		}
	}
	if n.K != "s" && r.p(g.flow) {
		n.S = "f"
	}
	if r.p(g.comm) {
		n.C = r.pick("h:", "l:") + g.word() + " comment"
	}
	return n
}

func (g *gcfg) key(used map[string]bool) string {
	r := g.r
	for {
		var k string
		switch {
		case r.p(g.weird * 0.3):
			k = nasty[r.n(len(nasty))]
			if r.p(0.08) {
				k = ""
			}
		case len(g.seen) > 0 && r.p(g.echo*0.7):
			k = g.seen[r.n(len(g.seen))]
		case r.p(0.08):
			k = g.word() + "?"
		case r.p(g.near) && len(used) > 0:
			k = g.nearKey(used)
		case r.p(0.01):
			k = r.pick("alpha|beta", "alpha[]", "(alpha|beta)[]", "application/json", "/^x-/", "//", "name??", "a.b.c", strings.Repeat("long key ", 12+r.n(8)))
		default:
			k = g.word()
			if r.p(0.2) {
				k += "." + g.word()
			}
		}
		if k == "<<" || strings.HasPrefix(k, "!include ") {
			continue
		}
		if used == nil || !used[k] {
			if used != nil {
				used[k] = true
			}
			return g.remember(k)
		}
		g.uniq++
		k = fmt.Sprintf("%s_%d", g.word(), g.uniq)
		if !used[k] {
			used[k] = true
			return k
		}
	}
}

// nearKey changes a key a little.
func (g *gcfg) nearKey(used map[string]bool) string {
	var ks []string
	for k := range used {
		ks = append(ks, k)
	}
	sortStrings(ks)
	k := ks[g.r.n(len(ks))]
	switch g.r.n(9) {
	case 0:
		return strings.ToUpper(k)
	case 1:
		return strings.ToLower(k)
	case 2:
		return k + " "
	case 3:
		return " " + k
	case 4:
		return k + "?"
	case 5:
		return strings.TrimSuffix(k, "?")
	case 6:
		return k + "/"
	case 7:
		return k + k
	}
	return strings.Title(k)
}

// resource draws the path of a resource.
func (g *gcfg) resource() string {
	r := g.r
	switch r.n(9) {
	case 0:
		return "/"
	case 1:
		return "/" + g.word() + "/"
	case 2:
		return "/{" + g.word() + "}"
	case 3:
		return "/" + g.word() + "/{id}/" + g.word()
	case 4:
		return r.pick("//", "/Users", "/users", "/users/", "/users//all", "/a b", "/\u00e9t\u00e9", "/x?y=1", "/.", "/{a}{b}", "/a#b", "/users.json", "/~")
	}
	return "/" + g.word()
}

func (g *gcfg) keyN(used map[string]bool) *N {
	n := str(g.key(used))
	if g.r.p(g.style * 0.5) {
		n.S = g.r.pick("'", "\"")
	}
	return n
}

func (g *gcfg) intText() string {
	r := g.r
	switch r.n(8) {
	case 0:
		return "0"
	case 1:
		return r.pick("9223372036854775807", "-9223372036854775808", "2147483647", "2147483648", "4294967296", "-2147483649")
	case 2, 3:
		return strconv.Itoa(-r.n(1000))
	}
	return strconv.Itoa(r.logN(1000000))
}

func (g *gcfg) floatText() string {
	r := g.r
	switch r.n(8) {
	case 0:
		return r.pick("0.1", "0.3333333333333333", "1e300", "1e-300", "1.7976931348623157e+308", "5e-324", "123456789.123456789", "-0.5", "3.14159265358979", "1e21", "100000000000000000000.5")
	case 1:
		return fmt.Sprintf("%d.%d", -r.n(100), r.n(1000000))
	case 2:
		return fmt.Sprintf("%d.5e%d", r.n(9)+1, r.n(40)-20)
	}
	return fmt.Sprintf("%d.%d", r.n(100000), r.n(100000))
}

// raw draws uninterpreted content.
func (g *gcfg) raw(depth int) *N {
	n := g.rawN(depth)
	if g.r.p(g.anchor*0.5) && n.K == "m" && n.S != "f" && len(n.P) > 0 {
		// anchor and alias inside one value
		a := fmt.Sprintf("a%d", g.uniq)
		g.uniq++
		src := n.P[g.r.n(len(n.P))].V
		if src.A == "" && src.K != "a" && src.T != tNull {
			src.A = a
			used := map[string]bool{}
			for _, p := range n.P {
				used[p.K.V] = true
			}
			if src.K == "m" && g.r.p(0.4) && len(src.P) > 0 {
				n.P = append(n.P, P{g.keyN(used), &N{K: "m", P: []P{{scal("!!merge", "<<"), &N{K: "a", V: a}}, {str("own" + a), g.rawN(0)}}}})
			} else {
				n.P = append(n.P, P{g.keyN(used), &N{K: "a", V: a}})
			}
		}
	}
	return n
}

func (g *gcfg) rawN(depth int) *N {
	r := g.r
	if depth <= 0 || r.p(0.55) {
		switch r.n(16) {
		case 0, 1:
			return g.dress(scal(tInt, r.pick(g.intText(), g.intText(), "0x1F", "1_000", "0b11")))
		case 2:
			return g.dress(scal(tFloat, r.pick(g.floatText(), g.floatText(), ".inf", "-.inf", ".5", "1e3")))
		case 3, 4:
			return g.dress(scal(tBool, r.pick("true", "false", "True", "FALSE")))
		case 5:
			return g.dress(scal(tNull, r.pick("null", "~", "", "Null")))
		case 6:
			if r.p(g.weird) {
				return scal(r.pick("!include", "!foo", "!my-tag"), r.pick("some/file.raml", "x", "a b"))
			}
		case 7:
			if r.p(g.weird) {
				return g.dress(scal("!!timestamp", r.pick("2020-01-02", "2001-12-14T21:59:43.1Z", "2015-07-04T21:00:00Z")))
			}
		case 8:
			if r.p(g.weird * 0.5) {
				return scal("!!binary", "aGVsbG8=")
			}
		}
		return g.str()
	}
	if r.p(0.4) {
		o := lst()
		for i, c := 0, g.count(r.n(4)); i < c; i++ {
			o.L = append(o.L, g.rawN(depth-1))
		}
		if r.p(g.weird * 0.1) {
			o.T = "!seqtag"
		}
		return g.dress(o)
	}
	return g.rawMap(depth)
}

func (g *gcfg) rawMap(depth int) *N {
	r := g.r
	o := mp()
	used := map[string]bool{}
	for i, c := 0, g.count(r.n(4)); i < c; i++ {
		k := g.keyN(used)
		if r.p(g.weird * 0.15) {
			// keys of uninterpreted nested mappings may be anything
			k = scal(tInt, strconv.Itoa(100+i))
			if r.p(0.3) {
				k = scal(tBool, strconv.FormatBool(i%2 == 0))
				if i > 1 {
					continue
				}
			}
		}
		o.P = append(o.P, P{k, g.rawN(depth - 1)})
	}
	if r.p(g.weird * 0.1) {
		o.T = "!maptag"
	}
	return g.dress(o)
}

// section draws a mapping of names to raw content.
func (g *gcfg) section(max int) *N {
	o := mp()
	used := map[string]bool{}
	for i, c := 0, g.count(1+g.r.n(max)); i < c; i++ {
		o.P = append(o.P, P{g.keyN(used), g.looseRaw()})
	}
	return g.dress(o)
}

// looseRaw draws uninterpreted content that may be replaced by an alias.
func (g *gcfg) looseRaw() *N {
	n := g.raw(g.rawDepth)
	g.loose = append(g.loose, n)
	return n
}

// crossAlias replaces uninterpreted parts by aliases to other parts of the
// document in front of them, which need not be written in front of them.
func (g *gcfg) crossAlias(doc *N) {
	for i := 0; i < 3 && len(g.loose) > 0 && g.r.p(g.anchor); i++ {
		dst := g.loose[g.r.n(len(g.loose))]
		if dst.K == "a" || dst.hasAnchor() {
			continue
		}
		var cand []*N
		found := false
		var walk func(n *N)
		walk = func(n *N) {
			if found = found || n == dst; found {
				return
			}
			for _, p := range n.P {
				walk(p.V)
			}
			for _, x := range n.L {
				walk(x)
			}
			if !found && n.K != "a" && n.A == "" && n.plain() {
				cand = append(cand, n)
			}
		}
		walk(doc)
		if !found || len(cand) == 0 {
			continue
		}
		src := cand[g.r.n(len(cand))]
		if g.r.p(0.4) {
			src = cand[len(cand)-1-g.r.n(min(3, len(cand)))]
		}
		a := "c"
		if g.r.p(0.7) {
			a = fmt.Sprintf("c%d", g.uniq)
			g.uniq++
		}
		src.A = a
		*dst = N{K: "a", V: a}
	}
}

// plain tells that the YAML library can write the content in any place.
func (n *N) plain() bool {
	if n.C != "" || n.K == "s" && (n.T == tNull || n.T == "!!timestamp") {
		return false
	}
	for _, p := range n.P {
		if p.K.C != "" || !p.V.plain() {
			return false
		}
	}
	for _, x := range n.L {
		if !x.plain() {
			return false
		}
	}
	return true
}

func (g *gcfg) annValue() *N {
	o := mp()
	used := map[string]bool{}
	for i, c := 0, g.count(g.r.n(3)); i < c; i++ {
		o.P = append(o.P, P{g.keyN(used), g.looseRaw()})
	}
	return g.dress(o)
}

// annotate inserts annotations at random places.
func (g *gcfg) annotate(o *N) {
	if !g.r.p(g.anns * 0.6) {
		return
	}
	used := map[string]bool{}
	for i, c := 0, g.count(1+g.r.n(2)); i < c; i++ {
		k := "(" + g.key(used) + ")"
		g.insert(o, P{str(k), g.annValue()})
	}
}

func (g *gcfg) insert(o *N, p P) {
	i := g.r.n(len(o.P) + 1)
	o.P = append(o.P[:i:i], append([]P{p}, o.P[i:]...)...)
}

var knownDoc = map[string]bool{}

func init() {
	for _, k := range strings.Fields("title version baseUri description protocols mediaType documentation securedBy uses securitySchemes baseUriParameters traits annotationTypes resourceTypes types schemas usage") {
		knownDoc[k] = true
	}
}

var lookalike = []string{"Types", "schema", "type", "titles", "mediaTypes", "x-foo", "X-Vendor", "uses?", "annotation", "displayName", "example", "baseURI", "examples", "default", "enum", "pattern", "required", "items", "properties", "format", "minLength", "strict", "value", "content", "name"}

func (g *gcfg) extraKeys(o *N, skip func(string) bool, c int) {
	used := map[string]bool{}
	for _, p := range o.P {
		used[p.K.V] = true
	}
	for i, c := 0, g.count(c); i < c; i++ {
		k := g.keyN(used)
		if g.r.p(0.3) {
			l := lookalike[g.r.n(len(lookalike))]
			if !used[l] {
				k = str(l)
				used[l] = true
			}
		}
		if skip(k.V) || strings.HasPrefix(k.V, "(") || strings.HasPrefix(k.V, "/") {
			continue
		}
		v := g.raw(g.rawDepth)
		if !contains(lookalike, k.V) {
			g.loose = append(g.loose, v)
		}
		g.insert(o, P{k, v})
	}
}

func (g *gcfg) strListN(max int) *N {
	o := lst()
	for i, c := 0, g.count(g.r.n(max+1)); i < c; i++ {
		o.L = append(o.L, g.nearly(o.L, g.str()))
	}
	return g.dress(o)
}

// nearly replaces an entry, now and then, by one like an entry before it.
func (g *gcfg) nearly(before []*N, n *N) *N {
	r := g.r
	if len(before) == 0 || !r.p(0.12) {
		return n
	}
	old := before[r.n(len(before))]
	if old.K != "s" || old.T != tStr || old.V == "" || strings.HasPrefix(n.T, "!in") {
		return n
	}
	s := old.V
	switch r.n(7) {
	case 0:
		s = strings.ToUpper(s)
	case 1:
		s = strings.Title(s)
	case 2:
		s += "s"
	case 3:
		s += r.pick(" ", "/", "?", "/x", "0")
	case 4:
		s = s[:len(s)-1]
		if !utf8.ValidString(s) {
			return n
		}
	case 5:
		s = r.pick(" ", "/", "x/") + s
	}
	return str(s)
}

// typeName draws the name used in the section types.
func (g *gcfg) customExpr() string {
	r := g.r
	e := strings.Title(g.word())
	if g.mark && r.p(0.5) {
		return strings.Title(roundMark) + r.pick("", "[]", "Item")
	}
	if len(g.seen) > 0 && r.p(0.5) {
		// a text that occurs elsewhere, as the name of a declared type does
		if s := g.seen[r.n(len(g.seen))]; identifier.MatchString(s) && !contains(extendedKinds, s) && s != "nil" {
			e = s
		}
	}
	if r.p(0.2) {
		e = "lib." + e
	}
	if r.p(0.3) {
		e += "[]"
	}
	if r.p(0.1) {
		e = r.pick("string[]", "integer[]", "string[][]", "(Foo)[]", "string?", "String", "int", "date", "Object")
		if k := builtinKinds[r.n(len(builtinKinds))]; r.p(0.6) {
			// close to the name of a built-in type
			e = r.pick(strings.Title(k), strings.ToUpper(k), k+"s", k+" ", " "+k, k+"?", k+"[]", "("+k+")", "lib."+k, k+"-type", "the-"+k, strings.ReplaceAll(k, "-", ""), strings.ReplaceAll(k, "-", "_"), k[:len(k)-1])
		}
	}
	return e
}

var identifier = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_]*$`)

func (g *gcfg) unionExpr() string {
	r := g.r
	if r.p(0.2) {
		if g.mark {
			return strings.Title(roundMark) + " | Cat"
		}
		return r.pick("string|string", "|", "string |", "| object", "array | nil[]", "(string | nil)?", "a.B|c.D", "integer|number|any|file")
	}
	return r.pick("Cat | Dog", "string | nil", "A|B|C", "(Cat | Dog)[]", "integer | string | boolean", strings.Title(g.word())+" | "+strings.Title(g.word()))
}

// exprOf draws a type expression of a kind.
func (g *gcfg) exprOf(kind string) string {
	switch kind {
	case "custom":
		e := g.customExpr()
		if kindOfExpr(e) != kind {
			e = strings.Title(e) + "Item"
		}
		return e
	case "union":
		return g.unionExpr()
	}
	return kind
}

func (g *gcfg) kind() string {
	r := g.r
	if g.mark && r.p(0.25) {
		return r.pick("custom", "custom", "union")
	}
	if r.p(0.25) {
		return r.pick("object", "string", "array", "integer", "number")
	}
	ks := append(append([]string{}, extendedKinds...), "nil", "include")
	return ks[r.n(len(ks))]
}

// typ draws a type declaration.
func (g *gcfg) typ(depth int) *N {
	r := g.r
	kind := g.kind()
	if kind == "include" {
		inc := scal("!include", g.word()+".raml")
		if r.p(0.7) {
			return inc
		}
		o := mp(P{str(r.pick("type", "type", "schema")), inc})
		g.extraKeys(o, func(k string) bool { return k == "type" || k == "schema" }, r.n(2))
		g.basicRequired(o)
		return o
	}
	if r.p(0.25) {
		if r.p(0.06) {
			return scal(tNull, r.pick("", "~", "null"))
		}
		return g.dress(str(g.exprOf(kind)))
	}
	return g.decl(kind, depth)
}

// basicRequired adds the required flag to a declaration of a kind that keeps it
// among its extra facets.
func (g *gcfg) basicRequired(o *N) {
	if o.find("required") < 0 && g.r.p(0.2) {
		g.insert(o, kv("required", boolN(g.r.p(0.3))))
	}
}

// decl draws an expanded declaration of a kind.
func (g *gcfg) decl(kind string, depth int) *N {
	r := g.r
	o := mp()
	expr := g.remember(g.exprOf(kind))
	if fs := facetsOf(kind); len(fs) > 0 && r.p(0.08) {
		// nothing but one facet
		f := fs[r.n(len(fs))]
		if v := g.facet(kind, f, min(depth, 1)); v != nil {
			o.P = append(o.P, P{str(r.pick("type", "type", "type", "schema")), str(expr)}, kv(f.key, v))
			return g.dress(o)
		}
	}
	for _, f := range kindFacets[kind] {
		if (f.key == "properties" || f.key == "items") && depth > 0 {
			if r.p(0.75) {
				o.P = append(o.P, kv(f.key, g.facet(kind, f, depth)))
			}
			continue
		}
		if r.p(g.dens * 0.7) {
			v := g.facet(kind, f, depth)
			if f.key == "default" && r.p(g.misfits()) {
				if m := g.misfit(f.vk); m != nil {
					v = m
				}
			}
			if v != nil {
				g.insert(o, kv(f.key, v))
			}
		}
	}
	if kind != "nil" {
		ex := false
		for _, f := range commonFacets {
			p := g.dens * 0.5
			switch f.key {
			case "example", "examples":
				p = g.exs
				if ex {
					p = 0.05
				}
			case "facets":
				p = g.dens * 0.25
			}
			if r.p(p) {
				if v := g.facet(kind, f, depth); v != nil {
					g.insert(o, kv(f.key, v))
					ex = ex || strings.HasPrefix(f.key, "example")
				}
			}
		}
		g.annotate(o)
	}
	if r.p(g.extras * 0.5) {
		g.extraKeys(o, func(k string) bool {
			_, known := facetIndex[kind][k]
			return known || k == "type" || k == "schema"
		}, 1+r.n(2))
	}
	if p := 0.03 + g.extras*0.15; r.p(p) && kind != "object" && o.find("properties") < 0 {
		// a subtype of an object, for example
		v := g.types_(1, r.n(3))
		if r.p(0.3) {
			v = g.raw(g.rawDepth)
		}
		g.insert(o, kv("properties", v))
	}
	if p := 0.03 + g.extras*0.15; r.p(p) && kind != "array" && o.find("items") < 0 {
		v := g.typ(0)
		if r.p(0.3) {
			v = g.raw(g.rawDepth)
		}
		g.insert(o, kv("items", v))
	}
	if kind == "nil" {
		g.basicRequired(o)
	}
	implied := kind == "object" && o.find("properties") >= 0 || kind == "array" && o.find("items") >= 0 && o.find("properties") < 0 ||
		kind == "string" && o.find("properties") < 0 && o.find("items") < 0
	if !implied || r.p(0.6) {
		e := str(expr)
		if r.p(g.style) {
			e.S = r.pick("'", "\"")
		}
		p := P{str("type"), e}
		if r.p(0.12) {
			p.K = str("schema")
		}
		if r.p(0.7) {
			o.P = append([]P{p}, o.P...)
		} else {
			g.insert(o, p)
		}
	}
	return g.dress(o)
}

// misfits is how often a default is none of its type.
func (g *gcfg) misfits() float64 {
	if g.micro != "" {
		return 0.3
	}
	return 0.03 + g.extras*0.15
}

// misfit draws a default that its type does not take.
func (g *gcfg) misfit(vk string) *N {
	text := str(g.r.pick("some text", "none", "12", "true", ""))
	list := lst(str(g.word()))
	switch vk {
	case "str":
		return []*N{list, boolN(true), intN(3), mp(kv("a", str("b")))}[g.r.n(4)]
	case "bool", "int", "float":
		return []*N{list, text, mp(kv("a", str("b")))}[g.r.n(3)]
	case "rawlist0":
		return []*N{text, intN(3), mp(kv("a", str("b")))}[g.r.n(3)]
	}
	return nil
}

var intFormats = []string{"int", "int8", "int16", "int32", "int64", "long", "uint128"}

// facet draws a raw facet value, nil if none is possible.
func (g *gcfg) facet(kind string, f facet, depth int) *N {
	r := g.r
	switch f.vk {
	case "format":
		switch kind {
		case "datetime":
			return str(r.pick("rfc3339", "rfc2616", "custom-format"))
		case "integer":
			return str(r.pick(intFormats...))
		}
		return str(r.pick(append([]string{"float", "double", "float", "double"}, intFormats...)...))
	case "raw":
		if f.key == "example" {
			return nil
		}
		return g.raw(g.rawDepth)
	case "rawlist", "rawlist0":
		o := lst()
		for i, c := 0, g.count(r.n(4)); i < c; i++ {
			o.L = append(o.L, g.raw(g.rawDepth))
		}
		return g.dress(o)
	case "strlist", "boollist", "intlist", "floatlist":
		o := lst()
		for i, c := 0, g.count(r.n(4)); i < c; i++ {
			v := g.scalarOf(strings.TrimSuffix(f.vk, "list"))
			if f.key == "fileTypes" && r.p(0.4) {
				v = g.dress(str(r.pick("image/png", "*/*", "application/json", "text/x-"+g.word(), "audio/*")))
			}
			o.L = append(o.L, g.nearly(o.L, v))
		}
		return g.dress(o)
	case "type":
		return g.typ(depth - 1)
	case "types":
		return g.types_(depth-1, r.n(5))
	case "facets":
		o := mp()
		used := map[string]bool{}
		for i, c := 0, g.count(1+r.n(2)); i < c; i++ {
			o.P = append(o.P, P{g.keyN(used), g.types_(min(depth-1, 1), r.n(3))})
		}
		return g.dress(o)
	case "xml":
		o := mp()
		for _, k := range []string{"attribute", "wrapped"} {
			if r.p(0.4) {
				o.P = append(o.P, kv(k, boolN(r.p(0.5))))
			}
		}
		for _, k := range []string{"name", "namespace", "prefix"} {
			if r.p(0.5) {
				g.insert(o, kv(k, g.str()))
			}
		}
		if r.p(g.extras * 0.5) {
			g.extraKeys(o, func(k string) bool {
				return k == "attribute" || k == "wrapped" || k == "name" || k == "namespace" || k == "prefix"
			}, 1)
		}
		return g.dress(o)
	case "example":
		return g.example(kind)
	case "examples":
		o := mp()
		used := map[string]bool{}
		for i, c := 0, g.count(1+r.n(4)); i < c; i++ {
			o.P = append(o.P, P{g.keyN(used), g.example(kind)})
		}
		return g.dress(o)
	}
	return g.scalarOf(f.vk)
}

func (g *gcfg) scalarOf(vk string) *N {
	r := g.r
	if r.p(g.coll) {
		switch vk {
		case "uint", "int":
			return g.dress(scal(tInt, r.pick("1", "1", "2", "0")))
		case "float":
			return g.dress(scal(tFloat, r.pick("1.0", "1.0", "2.5", "0.0")))
		}
	}
	switch vk {
	case "str":
		return g.str()
	case "bool":
		return g.dress(boolN(r.p(0.5)))
	case "uint":
		if r.p(0.1) {
			return scal(tInt, r.pick("4294967295", "2147483647", "2147483646", "9007199254740993", "0", "9223372036854775807", "9223372036854775808", "18446744073709551615"))
		}
		return g.dress(scal(tInt, strconv.Itoa(r.logN(5000)-1)))
	case "int":
		return g.dress(scal(tInt, g.intText()))
	case "float":
		if r.p(0.3) {
			return g.dress(scal(tInt, strconv.Itoa(r.n(2000)-1000)))
		}
		return g.dress(scal(tFloat, g.floatText()))
	}
	panic("scalarOf " + vk)
}

func (g *gcfg) exValue(kind string) *N {
	switch vk := exVK(kind); vk {
	case "raw":
		n := g.raw(g.rawDepth)
		if n.K == "m" && n.find("value") >= 0 {
			n.del("value")
		}
		return n
	case "rawlist0":
		return g.facet(kind, facet{vk: vk}, 0)
	default:
		return g.scalarOf(vk)
	}
}

func (g *gcfg) example(kind string) *N {
	r := g.r
	if r.p(0.45) {
		v := g.exValue(kind)
		if v.K == "m" && len(v.P) == 0 {
			// an empty mapping is a value for untyped kinds
			return v
		}
		return v
	}
	return g.longExample(kind)
}

// longExample draws an expanded example.
func (g *gcfg) longExample(kind string) *N {
	r := g.r
	o := mp(kv("value", g.exValue(kind)))
	if r.p(0.4) {
		g.insert(o, kv("displayName", g.str()))
	}
	if r.p(0.4) {
		g.insert(o, kv("description", g.str()))
	}
	if r.p(0.4) {
		g.insert(o, kv("strict", boolN(r.p(0.3))))
	}
	g.annotate(o)
	if r.p(g.extras * 0.4) {
		g.extraKeys(o, func(k string) bool {
			return k == "value" || k == "displayName" || k == "description" || k == "strict"
		}, 1)
	}
	return g.dress(o)
}

func (g *gcfg) types_(depth, c int) *N {
	o := mp()
	used := map[string]bool{}
	if c > 0 {
		c = g.count(c)
	}
	for i := 0; i < c; i++ {
		o.P = append(o.P, P{g.keyN(used), g.typ(depth)})
	}
	return g.dress(o)
}

func (g *gcfg) docEntry() *N {
	r := g.r
	part := func() *N {
		switch {
		case r.p(0.12):
			return g.dress(scal("!include", r.pick("docs/intro.md", g.word()+".md", g.word())))
		case r.p(0.04):
			return g.raw(min(1, g.rawDepth))
		}
		return g.str()
	}
	o := mp(kv("title", part()), kv("content", part()))
	if r.p(g.anchor*0.3) && o.P[0].V.K == "s" {
		o.P[0].V.A = fmt.Sprintf("t%d", g.uniq)
		o.P[1].V = &N{K: "a", V: o.P[0].V.A}
		g.uniq++
		return o
	}
	if r.p(0.2) {
		o.P[0], o.P[1] = o.P[1], o.P[0]
	}
	if r.p(g.extras * 0.5) {
		g.extraKeys(o, func(k string) bool { return k == "title" || k == "content" }, 1)
	}
	return g.dress(o)
}

// doc draws the content of a whole document.
func (g *gcfg) doc(api bool) *N {
	g.loose, g.seen, g.budget = nil, nil, 120
	o := g.doc0(api)
	g.crossAlias(o)
	if g.r.p(g.style * 0.5) {
		g.quoteKeys(o)
	}
	return o
}

// quoteKeys writes some keys in quotes, which does not change what they mean.
func (g *gcfg) quoteKeys(n *N) {
	for _, x := range n.L {
		g.quoteKeys(x)
	}
	for i := range n.P {
		if k := n.P[i].K; k.K == "s" && k.T == tStr && k.S == "" && !strings.ContainsAny(k.V, "\n") && g.r.p(0.15) {
			k.S = g.r.pick("'", "\"")
		}
		g.quoteKeys(n.P[i].V)
	}
}

func (g *gcfg) doc0(api bool) *N {
	r := g.r
	o := mp()
	add := func(p float64, k string, v func() *N) {
		if r.p(p) {
			if r.p(0.7) {
				o.P = append(o.P, kv(k, v()))
			} else {
				g.insert(o, kv(k, v()))
			}
		}
	}
	d := 0.15 + g.dens*0.5
	if g.micro != "" {
		// one type with most of its facets, and little else
		ks := append(append([]string{}, extendedKinds...), "integer", "number", "string", "object", "array")
		kind := ks[r.n(len(ks))]
		decl := g.decl(kind, 1)
		if g.microEx && decl.K == "m" {
			w := r.pick("one", "two")
			f := "types\x00" + g.micro + "\x00example"
			switch {
			case r.p(0.5):
				decl.set("example", g.longExample(kind))
			default:
				f = "types\x00" + g.micro + "\x00examples\x00" + w
				decl.set("examples", mp(kv(w, g.longExample(kind))))
			}
			g.focus = &f
		}
		o.P = append(o.P, kv(r.pick("types", "types", "schemas"), mp(kv(g.micro, decl))))
		if api && r.p(0.8) {
			g.insert(o, kv("title", g.str()))
		}
		if r.p(0.3) {
			g.annotate(o)
		}
		return o
	}
	uses := func() *N {
		u := mp()
		used := map[string]bool{}
		for i, c := 0, g.count(1+r.n(3)); i < c; i++ {
			u.P = append(u.P, P{g.keyN(used), g.str()})
		}
		return g.dress(u)
	}
	if api {
		add(0.95, "title", g.str)
		add(d, "version", g.str)
		add(d, "baseUri", func() *N { return str(r.pick("http://example.com/{version}", "https://x.y/api", g.word())) })
		add(d, "description", g.str)
		add(d, "protocols", func() *N {
			if r.p(0.5) {
				return lst(str("HTTP"), str("HTTPS"))
			}
			l := lst()
			for i, c := 0, r.n(4); i < c; i++ {
				l.L = append(l.L, str(r.pick("HTTP", "HTTPS", "http", "https", "WS", "")))
			}
			return g.dress(l)
		})
		add(d, "mediaType", func() *N {
			if r.p(0.5) {
				return str("application/json")
			}
			return g.strListN(3)
		})
		add(d, "documentation", func() *N {
			l := lst()
			for i, c := 0, g.count(1+r.n(3)); i < c; i++ {
				l.L = append(l.L, g.docEntry())
			}
			return l
		})
		add(d, "securedBy", func() *N { return g.strListN(3) })
	} else {
		add(d, "usage", g.str)
	}
	add(d, "uses", uses)
	for _, k := range docRawKeys {
		if !api && k == "baseUriParameters" {
			continue
		}
		add(d*0.7, k, func() *N { return g.section(3) })
	}
	tk := "types"
	if r.p(0.15) {
		tk = "schemas"
	}
	add(0.9, tk, func() *N { return g.types_(g.depth, r.n(g.types+1)) })
	g.annotate(o)
	if api {
		for i, c := 0, g.count(r.n(3)); i < c && (c > 3 || r.p(g.raws)); i++ {
			k := g.resource()
			if o.find(k) >= 0 {
				k = "/" + g.word() + strconv.Itoa(i)
			}
			o.P = append(o.P, P{str(k), g.looseRaw()})
		}
	}
	if r.p(g.extras) {
		g.extraKeys(o, func(k string) bool {
			if k == "usage" {
				return !api
			}
			if !api {
				return k == "uses" || k == "types" || k == "schemas" || contains(libRawKeys, k)
			}
			return knownDoc[k]
		}, 1+r.n(3))
	}
	return o
}

func (g *gcfg) styleOf() Style {
	r := g.r
	st := Style{Indent: 2}
	if r.p(g.style) {
		st.Indent = 1 + r.n(4)
	}
	st.SeqIn = r.p(0.4)
	st.NoHeader = r.p(0.1)
	st.BOM = r.p(0.04)
	st.CRLF = r.p(0.08)
	if r.p(0.03) {
		st.UTF16 = 1 + r.n(2)
	}
	st.Start = r.p(0.1)
	st.End = r.p(0.06)
	st.NoEOL = r.p(0.15)
	st.Flow = r.p(g.flow * 0.3)
	if r.p(0.08) {
		st.PadTop = r.logN(20000)
	}
	if r.p(0.08) {
		st.PadEnd = r.logN(20000)
	}
	return st
}

// makeMicro turns to tiny documents with a single type and equal values.
func (g *gcfg) makeMicro() {
	g.micro = g.word()
	g.dens = 0.5 + float64(g.r.n(3))*0.35
	g.rawDepth = min(g.rawDepth, 1)
	if g.r.p(0.7) {
		g.coll = 0.7
	}
	f := "types\x00" + g.micro
	g.focus = &f
	g.microEx = g.r.p(0.4)
}
