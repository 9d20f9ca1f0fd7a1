package main

import (
	"bytes"
	"math"
	"regexp"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

// What a parse accepts must be kept whole.  The text is read with the YAML
// library alone and brought into the normal form of the model; what the
// accessors say, what is written, and what is read back must be just that.

// hasOdd looks for what gives a text several readings: keys that occur twice
// (type and schema are the same), merge keys, aliases that were not unfolded,
// mappings with the tag of something else.
func hasOdd(n *N) bool {
	switch n.T {
	case "!!merge", "!!cycle", "!!toodeep", "!!toomany", "!!gonil":
		return true
	}
	if n.K == "s" && n.T == tStr && n.V == "<<" {
		return true // K9: it is written as a merge key
	}
	if n.K != "s" && strings.HasPrefix(n.T, "!!") || n.get("type") != nil && n.get("schema") != nil {
		return true
	}
	for _, p := range n.P {
		if hasOdd(p.K) || hasOdd(p.V) {
			return true
		}
	}
	for _, x := range n.L {
		if hasOdd(x) {
			return true
		}
	}
	return false
}

func (w *world) checkAccepted(api bool, doc interface{}, text []byte, fe bool) {
	tree, err := plainParse(string(text))
	if err != nil {
		w.fail("accepted-unreadable", "a text is accepted that is not YAML: %v\n%s", err, clip(string(text)))
	}
	if hasOdd(tree) || dupKey(tree) != "" {
		w.stats.probe("accepted with several readings")
		return
	}
	if !carriedByYAML(text, tree) {
		w.stats.probe("accepted, but not carried by YAML")
		return
	}
	if oddKey(tree) {
		w.stats.probe("accepted with tagged or composed keys")
		return
	}
	var m *N
	if tree.K == "s" && tree.T == tNull {
		tree = mp() // nothing
	}
	if err := catchNorm(func() { m = normDoc(api, tree) }); err != nil {
		if strings.HasPrefix(err.Error(), badKey) {
			w.stats.probe("accepted with keys that are not strings") // K1
			return
		}
		w.fail("accepted-malformed", "a document is accepted that cannot be represented: %v\n%s", err, clip(string(text)))
	}
	w.stats.probe("accepted and represented")
	s := &slot{api: api, impl: doc, model: m, said: saidSet{}}
	s.said.look("", tree)
	w.checkDoc("accepted-diff", s, fe)
	var buf bytes.Buffer
	w.guard("panic", func() { err = doc.(ramlWriter).WriteRAML(&buf) })
	if err != nil {
		w.fail("accepted-unwritable", "an accepted document cannot be written: %v", err)
	}
	var got *N
	out, err := plainParse(buf.String())
	if err == nil {
		err = catchNorm(func() { got = normDoc(api, out) })
	}
	if err != nil {
		w.fail("accepted-written", "an accepted document is written as something else: %v\n%s", err, clip(buf.String()))
	}
	if p, d := diffPath(m, got); d != "" {
		w.failPath("accepted-written", p, "written: %s", d)
	}
	var again interface{}
	w.guard("panic", func() { again, err = parse(api, bytes.NewReader(buf.Bytes())) })
	if err != nil || again == nil {
		w.fail("accepted-reject", "an accepted document is rejected after it was saved: %v\n%s", err, clip(buf.String()))
	}
	t := &slot{api: api, impl: again, model: m}
	w.checkDoc("accepted-reload", t, !fe)
}

// carriedByYAML reports whether the YAML library can write what it has read.
// Numbers in other than plain decimal notation are left out as well: in typed
// places they are rejected or kept as they are.
func carriedByYAML(text []byte, tree *N) bool {
	var y yaml.Node
	if yaml.Unmarshal(text, &y) != nil || oddNumber(&y) {
		return false
	}
	if y.Kind == 0 {
		return true
	}
	var buf bytes.Buffer
	enc := yaml.NewEncoder(&buf)
	enc.SetIndent(2)
	if enc.Encode(&y) != nil {
		return false
	}
	again, err := plainParse(buf.String())
	return err == nil && diff(tree, again) == ""
}

func oddKey(n *N) bool {
	for _, p := range n.P {
		if p.K.K != "s" || !strings.HasPrefix(p.K.T, "!!") || oddKey(p.V) {
			return true
		}
	}
	for _, x := range n.L {
		if oddKey(x) {
			return true
		}
	}
	return false
}

var decimal = regexp.MustCompile(`^-?(0|[1-9][0-9]*)$`)

func oddNumber(y *yaml.Node) bool {
	if y.Kind == yaml.ScalarNode && y.ShortTag() == tInt {
		if _, err := strconv.ParseInt(y.Value, 10, 64); err != nil || !decimal.MatchString(y.Value) {
			return true
		}
	}
	if y.Kind == yaml.ScalarNode && y.ShortTag() == tFloat {
		if f, err := strconv.ParseFloat(y.Value, 64); err != nil || math.IsInf(f, 0) || math.IsNaN(f) {
			return true
		}
	}
	for _, c := range y.Content {
		if oddNumber(c) {
			return true
		}
	}
	return false
}
