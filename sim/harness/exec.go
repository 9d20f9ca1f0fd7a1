package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"regexp"
	"runtime"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
	"gopkg.in/yaml.v3"

	"verif.local/simrt"
)

// DocSpec is a document of a plan: content and spelling.
type DocSpec struct {
	API   bool  `json:"api,omitempty"`
	Root  *N    `json:"root"`
	Style Style `json:"style"`
}

func (d *DocSpec) text() string { return renderDoc(d.API, d.Root, d.Style) }

// Violation is a broken property.
type Violation struct {
	Class  string   `json:"class"`
	Detail string   `json:"detail"`
	Paths  []string `json:"paths,omitempty"` // differing paths, if any
	Op     int      `json:"op"`
	Task   int      `json:"task"`
	Stack  string   `json:"stack,omitempty"`
	OpT    string   `json:"opt,omitempty"`
}

func (v *Violation) Error() string { return v.Class + ": " + v.Detail }

type slot struct {
	api   bool
	impl  interface{}
	model *N
	last  []byte // what the last write produced, nil after edits
	sick  []*poison
	taint bool // was poisoned
	said  saidSet
	noVal bool // an example may have lost its value
}

type fileModel struct {
	api   bool
	model *N
	said  saidSet
}

// world is the state of one simulated client process.
type world struct {
	docs     []DocSpec
	slots    []*slot
	disk     *Disk
	files    map[string]*fileModel
	stats    *Stats
	rng      *R // fault details that are not part of the plan (disk crash)
	opIdx    int
	task     int
	op       *Op
	log      uint64
	viol     *Violation
	mayTwo   *fileModel // save in flight: file may hold the old or this one
	mayF     string
	logN     int
	trace    []string
	skip     func(*Op) bool
	obs      bool // observe after every operation
	obsAll   bool // check the documents that were not touched, too
	prop     string
	outcomes map[int][]string
	failed   map[int]bool // operations that failed
	kept     int          // operations that had an effect
	lists    pool
	streams  []*streamUse // of calls that have returned
	strays   []stray      // elements that are no longer part of a document
}

// returned checks how a source was used; nothing may happen to it from now on.
func (w *world) returned(s *simReader, u *streamUse) {
	if s != nil {
		if u = &s.streamUse; s.pos < s.high {
			s.touch("moved back")
		}
	}
	if u == nil {
		return
	}
	u.over = true
	w.streams = append(w.streams, u)
	if w.prop == "C21" {
		w.checkStreams()
	}
}

// checkStreams looks for streams of the caller that were not left alone.
func (w *world) checkStreams() {
	for _, u := range w.streams {
		if u.misuse != "" {
			w.fail("stream-misuse", "a stream of the caller is %s", u.misuse)
		}
	}
	if n := len(w.streams); n > 40 {
		w.streams = append([]*streamUse{}, w.streams[n-30:]...)
	}
}

// Stats of runs.
type Stats struct {
	Ops      map[string]int64 `json:"ops"`
	Faults   map[string]int64 `json:"faults"`
	Probes   map[string]int64 `json:"probes"`
	SimMs    int64            `json:"sim_ms"`
	Steps    int64            `json:"steps"`
	Switches int64            `json:"switches"`
	GenBad   int64            `json:"gen_bad"`
	Bytes    int64            `json:"bytes"`
}

func newStats() *Stats {
	return &Stats{Ops: map[string]int64{}, Faults: map[string]int64{}, Probes: map[string]int64{}}
}

func (s *Stats) op(k string)    { s.Ops[k]++ }
func (s *Stats) fault(k string) { s.Faults[k]++ }
func (s *Stats) probe(k string) { s.Probes[k]++ }

func (s *Stats) add(o *Stats) {
	for k, v := range o.Ops {
		s.Ops[k] += v
	}
	for k, v := range o.Faults {
		s.Faults[k] += v
	}
	for k, v := range o.Probes {
		s.Probes[k] += v
	}
	s.SimMs += o.SimMs
	s.Steps += o.Steps
	s.Switches += o.Switches
	s.GenBad += o.GenBad
	s.Bytes += o.Bytes
}

// event adds to the event log of the run.  Only its hash is kept, unless a
// trace is wanted.
func (w *world) event(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	h := w.log
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	w.log = h*31 + 7
	w.logN++
	tick()
	if w.outcomes != nil {
		w.outcomes[w.opIdx] = append(w.outcomes[w.opIdx], s)
	}
	if wantTrace {
		w.trace = append(w.trace, fmt.Sprintf("t%d op%d %s", w.task, w.opIdx, clip(s)))
	}
}

var wantTrace bool

func (w *world) fail(class, f string, a ...interface{}) {
	w.failPath(class, nil, f, a...)
}

func (w *world) failPath(class string, paths []string, f string, a ...interface{}) {
	v := &Violation{Class: class, Detail: fmt.Sprintf(f, a...), Paths: paths, Op: w.opIdx, Task: w.task}
	if w.op != nil {
		v.OpT = w.op.T
	}
	panic(v)
}

// guard runs library code and turns panics into violations.
func (w *world) guard(class string, fn func()) {
	defer func() {
		if r := recover(); r != nil {
			if isSimPanic(r) {
				panic(r)
			}
			switch x := r.(type) {
			case *Violation:
				panic(x)
			case donorErr:
				w.fail("donor", "%s", x.msg)
			case goneErr:
				w.fail("gone", "element not reachable: %s", x.msg)
			case observeErr:
				w.fail("observe", "%s", x.msg)
			case harnessErr:
				panic(x)
			case simrt.StepLimit:
				w.fail("hang", "the operation does not end within %d simulated steps", maxSteps)
			case simrt.Deadlock:
				w.fail("hang", "%s", x.Error())
			}
			buf := make([]byte, 8192)
			buf = buf[:runtime.Stack(buf, false)]
			panic(&Violation{Class: class, Detail: fmt.Sprintf("panic: %v", r), Op: w.opIdx, Task: w.task, Stack: string(buf), OpT: w.op.T})
		}
	}()
	fn()
}

func (w *world) normOf(i int) *N {
	d := &w.docs[i%len(w.docs)]
	var m *N
	if err := catchNorm(func() { m = normDoc(d.API, d.Root.resolve()) }); err != nil {
		panic(harnessErr{err.Error()})
	}
	return m
}

type harnessErr struct{ msg string }

func (h harnessErr) Error() string { return h.msg }

type simPanic struct{}

type simPanicError struct{}

func (simPanicError) Error() string { return "simulated panic 4721" }

const simPanicText = "simulated panic 4722"

func isSimPanic(r interface{}) bool {
	switch r {
	case simPanic{}, simPanicError{}, simPanicText:
		return true
	}
	return false
}

func parse(api bool, r io.Reader) (interface{}, error) {
	if api {
		d, err := rparse.ParseApiDoc(r)
		if d == nil || err == nil && reflect.ValueOf(d).IsNil() {
			return nil, err
		}
		return d, err // a nil pointer is a document for everyone who compares it with nil
	}
	d, err := rparse.ParseLibrary(r)
	if d == nil || err == nil && reflect.ValueOf(d).IsNil() {
		return nil, err
	}
	return d, err
}

type ramlWriter interface{ WriteRAML(io.Writer) error }

func (w *world) slot(i int) *slot {
	if i < 0 || i >= len(w.slots) {
		return nil
	}
	return w.slots[i]
}

func (w *world) setSlot(i int, s *slot) {
	for len(w.slots) <= i {
		w.slots = append(w.slots, nil)
	}
	w.slots[i] = s
}

// checkDoc compares everything a document reports with the model.
func (w *world) checkDoc(class string, s *slot, forEach bool) {
	var got *N
	w.guard("panic", func() { got = observer{forEach: forEach}.doc(s.impl) })
	if p, d := diffPath(withoutXMLExtra(s.model), got); d != "" {
		w.failPath(class, p, "%s", d)
	}
}

// checkBytes compares a written file with the model, independently of the
// library's own parser.
func (w *world) checkBytes(class string, api bool, model *N, said saidSet, b []byte) {
	w.stats.Bytes += int64(len(b))
	want := libHeader
	if api {
		want = apiHeader
	}
	line := string(b)
	if i := strings.IndexByte(line, '\n'); i >= 0 {
		line = line[:i]
	}
	if line != want {
		w.fail(class, "the first line is %q, not the header %q", clip(line), want)
	}
	tree, err := plainParse(string(b))
	if err != nil {
		w.fail(class, "the written document is not YAML: %v", err)
	}
	if k := dupKey(tree); k != "" {
		w.fail(class, "the written document has a duplicate key %s", k)
	}
	var m *N
	if err := catchNorm(func() { m = normDoc(api, tree) }); err != nil {
		w.fail(class, "the written document is not valid: %v", err)
	}
	if p, d := diffPath(model, m); d != "" {
		w.failPath(class, p, "written: %s", d)
	}
	if d := checkAbsent(tree, api); d != "" {
		w.fail("writes-absent", "%s", d)
	}
	if d := unsaid(tree, api, said); d != "" {
		w.fail("writes-absent", "%s", d)
	}
}

func dupKey(n *N) string {
	if n == nil {
		return ""
	}
	seen := map[string]bool{}
	for _, p := range n.P {
		k := keyName(p.K)
		if seen[k] {
			return k
		}
		seen[k] = true
		if d := dupKey(p.V); d != "" {
			return d
		}
	}
	for _, x := range n.L {
		if d := dupKey(x); d != "" {
			return d
		}
	}
	return ""
}

// checkAbsent looks for attributes that are written without being set.
func checkAbsent(tree *N, api bool) string {
	if tree.K != "m" {
		return ""
	}
	for _, p := range tree.P {
		k := p.K.V
		known := k == "types" || k == "uses" || k == "traits" || k == "resourceTypes" || k == "annotationTypes" || k == "securitySchemes" || api && k == "baseUriParameters"
		if known && p.V.K == "m" && len(p.V.P) == 0 {
			return "the empty section " + k + " is written"
		}
		if p.V.K == "s" && p.V.T == tNull && (known || k == "title" || api && (contains(docStrKeys, k) || contains(docListKeys, k) || k == "documentation") || !api && k == "usage") {
			return "the absent attribute " + k + " is written as null"
		}
	}
	return ""
}

// doParse parses a document of the plan.
func (w *world) doParse(op *Op) {
	d := &w.docs[op.Doc%len(w.docs)]
	text := d.text()
	sp := ReaderSpec{}
	if op.Rd != nil {
		sp = *op.Rd
	}
	rd, sr := sp.open(text)
	var doc interface{}
	var err error
	w.stats.fault2(sp)
	w.guard("panic", func() { doc, err = parse(d.API, rd) })
	w.returned(sr, nil)
	fired := sr != nil && sr.fired
	if fired {
		w.stats.fault("read error: " + failNames[sp.FailErr%writeErrs])
		w.failed[w.opIdx] = true
		w.event("parse fault err=%v doc=%v", err, doc != nil)
		_, cause := failErr(sp.FailErr)
		lenient := d.Style.End && sp.FailAt-1 >= strings.LastIndex(text, "...")
		switch {
		case lenient && err == nil && doc != nil:
			// the document ended before the failure
		case err == nil:
			w.fail("source-failure-silent", "the source failed with %q after %d of %d bytes, but the parse reports success", cause, sp.FailAt-1, len(text))
		case doc != nil:
			w.fail("source-failure-doc", "the parse returns a document together with the error %v", err)
		case !strings.Contains(err.Error(), cause):
			w.fail("source-failure-cause", "the source failed with %q, but the parse reports %q", cause, err)
		}
		return
	}
	w.event("parse err=%v", err)
	if err != nil {
		w.fail("parse-reject", "a valid document is rejected: %v\n%s", err, clip(text))
	}
	if doc == nil {
		w.fail("parse-nil", "the parse returns neither a document nor an error")
	}
	s := &slot{api: d.API, impl: doc, model: w.normOf(op.Doc), said: saidSet{}}
	s.said.look("", d.Root)
	if w.prop == "C06" || w.prop == "C07" {
		w.confirmLoss(s, op.FE)
	}
	w.checkDoc("parse-diff", s, op.FE)
	w.setSlot(op.D, s)
}

// confirmLoss looks at a document that is not what the file said: it is a
// matter of saving only if a save loses something.
func (w *world) confirmLoss(s *slot, fe bool) {
	var got *N
	w.guard("panic", func() { got = observer{forEach: fe}.doc(s.impl) })
	if _, d := diffPath(withoutXMLExtra(s.model), got); d == "" {
		return
	}
	b := w.cleanBytes(s)
	w.checkBytes("written-diff", s.api, s.model, s.said, b)
	doc, err := parse(s.api, bytes.NewReader(b))
	if err != nil || doc == nil {
		w.fail("reload-reject", "the saved document cannot be read back: %v", err)
	}
	var again *N
	w.guard("panic", func() { again = observer{forEach: fe}.doc(doc) })
	if p, d := diffPath(got, again); d != "" {
		w.failPath("reload-diff", p, "saved and read back: %s", d)
	}
}

func (s *Stats) fault2(sp ReaderSpec) {
	if len(sp.Chunks) > 0 {
		s.fault("fragmented delivery")
	}
	if sp.Zero > 0 {
		s.fault("empty reads")
	}
	if sp.DataEOF {
		s.fault("data together with EOF")
	}
	if sp.Prefix > 0 {
		s.fault("partly consumed source")
	}
	if sp.Scratch {
		s.fault("scratch use of the read buffer")
	}
	if sp.Slow > 0 {
		s.fault("slow source")
	}
}

// cleanBytes writes to a destination that works.
func (w *world) cleanBytes(s *slot) []byte {
	var buf bytes.Buffer
	var err error
	w.guard("panic", func() { err = s.impl.(ramlWriter).WriteRAML(&buf) })
	if err != nil {
		w.fail("write-fail", "writing to a working destination fails: %v", err)
	}
	return buf.Bytes()
}

// sickIn lists the values below n that fail to serialise.
func (w *world) sickIn(s *slot, n *N) []*poison {
	var out []*poison
	for _, p := range s.sick {
		if !p.healed && p.in(n) {
			out = append(out, p)
		}
	}
	return out
}

// checkSick compares the error of a serialisation with the values that fail.
func (w *world) checkSick(ps []*poison, err error, what, got string) {
	if err == nil {
		w.fail("poison-silent", "%s contains a value that fails to serialise (%s), but succeeds: %s", what, ps[0].name(), clip(got))
	}
	for _, p := range ps {
		if p.msg == "" || strings.Contains(err.Error(), p.msg) {
			return
		}
	}
	w.fail("poison-cause", "%s contains a value that fails to serialise (%s), but reports %q", what, ps[0].name(), err)
}

func (w *world) doWrite(op *Op, s *slot) {
	sp := WriterSpec{}
	if op.W != nil {
		sp = *op.W
	}
	dst, sw := sp.open()
	var err error
	w.guard("panic", func() { err = s.impl.(ramlWriter).WriteRAML(dst) })
	if sw.fill != nil {
		sw.fill()
	}
	sw.closed = true
	w.returned(nil, &sw.streamUse)
	got := append([]byte{}, sw.buf...)
	w.event("write %d bytes err=%v", len(got), err)
	if sw.fired > 0 {
		w.failed[w.opIdx] = true
	}
	if ps := w.sickIn(s, s.model); len(ps) > 0 {
		w.stats.fault("value fails to serialise")
		if sw.fired > 0 && err != nil {
			return
		}
		w.checkSick(ps, err, "the written document", string(got))
		return
	}
	if sw.fired > 0 {
		w.stats.fault("write error: " + failNames[sp.FailErr%writeErrs])
		_, cause := failErr(sp.FailErr)
		if err == nil {
			w.fail("write-dishonest", "the destination failed with %q after %d bytes, but the write reports success", cause, len(got))
		}
		if !strings.Contains(err.Error(), cause) {
			w.fail("write-cause", "the destination failed with %q, but the write reports %q", cause, err)
		}
		full := w.cleanBytes(s)
		if !bytes.HasPrefix(full, got) {
			w.fail("write-prefix", "after a failed write the destination holds %q, which is no prefix of the document %q", clip(string(got)), clip(string(full)))
		}
		got = full
	} else if err != nil {
		w.fail("write-fail", "writing to a working destination fails: %v", err)
	}
	w.checkWritten(s, got)
	if sw.late > 0 {
		w.fail("write-late", "the destination is written to after the call returned")
	}
}

func (w *world) checkWritten(s *slot, b []byte) {
	if s.last != nil && !bytes.Equal(s.last, b) {
		w.fail("bytes-differ", "writing the same document again gives other bytes: %s", firstDiff(s.last, b))
	}
	if w.prop == "C05" && w.obs {
		// what is written may be wrong because the document was changed by it
		w.checkDoc("write-effect", s, len(b)%2 == 0)
	}
	if s.last == nil && !(s.noVal && valueless(s.model, s.api)) {
		w.checkBytes("written-diff", s.api, s.model, s.said, b)
	}
	s.last = b
}

func firstDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 40
	if lo < 0 {
		lo = 0
	}
	cut := func(x []byte) string {
		hi := i + 60
		if hi > len(x) {
			hi = len(x)
		}
		if lo > hi {
			return ""
		}
		return string(x[lo:hi])
	}
	return fmt.Sprintf("at offset %d (lengths %d and %d): %q and %q", i, len(a), len(b), cut(a), cut(b))
}

// diskWriter streams into a volatile file.
type diskWriter struct {
	w    *world
	name string
	buf  []byte
	sw   *simWriter
}

func (d *diskWriter) Write(p []byte) (int, error) {
	n, err := d.sw.Write(p)
	d.buf = append(d.buf, p[:n]...)
	d.w.disk.write(d.name, d.buf)
	return n, err
}

func (w *world) doSave(op *Op, s *slot) {
	name := fmt.Sprintf("f%d", op.D)
	sp := WriterSpec{}
	if op.W != nil {
		sp = *op.W
	}
	_, sw := sp.open()
	dw := &diskWriter{w: w, name: name + ".tmp", sw: sw}
	w.disk.write(dw.name, nil)
	var err error
	w.guard("panic", func() { err = s.impl.(ramlWriter).WriteRAML(dw) })
	w.returned(nil, &sw.streamUse)
	w.event("save %d bytes err=%v", len(dw.buf), err)
	if sw.fired > 0 {
		w.failed[w.opIdx] = true
	}
	if ps := w.sickIn(s, s.model); len(ps) > 0 {
		w.stats.fault("value fails to serialise")
		if sw.fired > 0 && err != nil {
			return
		}
		w.checkSick(ps, err, "the saved document", string(dw.buf))
		return
	}
	if sw.fired > 0 {
		w.stats.fault("disk error: " + failNames[sp.FailErr%writeErrs])
		if err == nil {
			w.fail("write-dishonest", "the disk failed after %d bytes, but the write reports success", len(dw.buf))
		}
		return
	}
	if err != nil {
		w.fail("write-fail", "saving to a working disk fails: %v", err)
	}
	if s.noVal && valueless(s.model, s.api) {
		return // not a document that a file can hold; the copy is dropped
	}
	m := &fileModel{s.api, s.model.clone(), s.said.clone()}
	w.mayTwo, w.mayF = m, name
	simrt.Yield()
	w.disk.syncFile(dw.name)
	simrt.Yield()
	w.disk.rename(dw.name, name)
	w.files[name] = m
	w.mayTwo = nil
	w.checkWritten(s, append([]byte{}, dw.buf...))
	w.stats.probe("saved")
}

// doLoad parses a file of the simulated disk and compares it with what was
// acknowledged.
func (w *world) doLoad(op *Op, class string) {
	name := fmt.Sprintf("f%d", op.D)
	fm := w.files[name]
	b, ok := w.disk.read(name)
	if fm == nil {
		return
	}
	if !ok {
		panic(harnessErr{"simulated disk lost " + name})
	}
	sp := ReaderSpec{}
	if op.Rd != nil {
		sp = *op.Rd
		sp.FailAt = 0
	}
	rd, sr := sp.open(string(b))
	var doc interface{}
	var err error
	w.guard("panic", func() { doc, err = parse(fm.api, rd) })
	w.returned(sr, nil)
	w.event("load err=%v", err)
	if err != nil || doc == nil {
		w.fail("reload-reject", "the saved document cannot be read back: %v\n%s", err, clip(string(b)))
	}
	s := &slot{api: fm.api, impl: doc, model: fm.model.clone(), said: fm.said.clone()}
	w.checkDoc(class, s, op.FE)
	w.setSlot(op.D, s)
	w.stats.probe("reloaded")
}

// doDamaged parses arbitrary bytes.
func (w *world) doDamaged(op *Op) {
	api := op.K == "api"
	sp := ReaderSpec{}
	if op.Rd != nil {
		sp = *op.Rd
	}
	rd, sr := sp.open(string(op.B))
	var doc interface{}
	var err error
	w.guard("panic", func() { doc, err = parse(api, rd) })
	w.returned(sr, nil)
	w.event("damaged err=%v doc=%v", err, doc != nil)
	switch {
	case err != nil && doc != nil:
		w.fail("both", "the parse returns a document and the error %v", err)
	case err == nil && doc == nil:
		w.fail("parse-nil", "the parse returns neither a document nor an error")
	case err != nil:
		w.stats.probe("damaged input rejected")
		return
	}
	w.stats.probe("damaged input accepted")
	if w.prop == "C24" {
		w.checkAccepted(api, doc, op.B, op.FE)
		return
	}
	w.guard("panic", func() { observer{forEach: op.FE}.doc(doc) })
	if ts, ok := doc.(interface{ Types() raml.DataTypeMap }); ok {
		w.guard("panic", func() {
			ts.Types().ForEach(func(k string, t raml.DataType) {
				text, err := t.ToRAML()
				w.event("type %s %d err=%v", k, len(text), err)
			})
		})
	}
	var buf bytes.Buffer
	w.guard("panic", func() { doc.(ramlWriter).WriteRAML(&buf) })
	w.guard("panic", func() { observer{forEach: !op.FE}.doc(doc) })
	w.event("damaged written %d", buf.Len())
}

// containers lists the maps of a document.
func (w *world) pickContainer(s *slot, n int) (elem, bool) {
	var cs []elem
	for _, e := range elements(s.model, s.api, 300) {
		if isContainer(e.ref.class) {
			cs = append(cs, e)
		}
	}
	if len(cs) == 0 {
		return elem{}, false
	}
	return cs[n%len(cs)], true
}

// formsOf tells how each map of the document serialises by itself, the
// innermost first.
func (w *world) formsOf(s *slot) map[string]string {
	out := map[string]string{}
	es := elements(s.model, s.api, 250)
	for i := len(es) - 1; i >= 0; i-- {
		e := es[i]
		if !isContainer(e.ref.class) {
			continue
		}
		w.guard("panic", func() {
			m := resolveI(s.impl, s.model, s.api, e.path)
			f := ""
			if y, ok := m.Interface().(interface{ ToYAML() (*yaml.Node, error) }); ok {
				n, err := y.ToYAML()
				switch {
				case err != nil:
					f = "error"
				case n != nil:
					f = fmt.Sprint(n.Kind)
				}
			}
			if j, ok := m.Interface().(json.Marshaler); ok && len(es) < 60 {
				if b, err := j.MarshalJSON(); err == nil && len(b) > 0 {
					f += " " + string(b[:1])
				}
			}
			out[strings.Join(e.path, "/")] = f
		})
	}
	return out
}

// withForms checks that an operation leaves the maps with the form they had.
func (w *world) withForms(op *Op, s *slot, do func(*Op, *slot)) {
	if op.Nodes {
		inner := do
		do = func(op *Op, s *slot) { w.withNodes(op, s, inner) }
	}
	if !op.Forms {
		do(op, s)
		return
	}
	before := w.formsOf(s)
	do(op, s)
	after := w.formsOf(s)
	var ks []string
	for k := range before {
		ks = append(ks, k)
	}
	sortStrings(ks)
	for _, k := range ks {
		if before[k] != after[k] {
			w.failPath("write-effect", []string{containerPath(strings.Split(k, "/"))}, "the map at %s serialises in another form than before (%q, then %q)", k, before[k], after[k])
		}
	}
}

// withNodes checks that an operation leaves the YAML nodes as they were that
// the document handed out.
func (w *world) withNodes(op *Op, s *slot, do func(*Op, *slot)) {
	var roots []*yaml.Node
	w.guard("panic", func() { observer{forEach: op.FE, nodes: &roots}.doc(s.impl) })
	seen := map[*yaml.Node]bool{}
	var nodes []*yaml.Node
	var before []string
	var walk func(n *yaml.Node)
	walk = func(n *yaml.Node) {
		if n == nil || seen[n] || len(nodes) > 5000 {
			return
		}
		seen[n] = true
		nodes = append(nodes, n)
		before = append(before, nodeText(n))
		walk(n.Alias)
		for _, c := range n.Content {
			walk(c)
		}
	}
	for _, n := range roots {
		walk(n)
	}
	do(op, s)
	for i, n := range nodes {
		if now := nodeText(n); now != before[i] {
			w.fail("node-effect", "a YAML node the document handed out before was %s, and is %s now", clip(noAddr(before[i])), clip(noAddr(now)))
		}
	}
}

var addr = regexp.MustCompile(`0x[0-9a-f]{5,}`)

// noAddr leaves out memory addresses, which differ between runs.
func noAddr(s string) string { return addr.ReplaceAllString(s, "@") }

func nodeText(n *yaml.Node) string {
	s := fmt.Sprintf("kind %d style %d tag %q value %q anchor %q at %d:%d comments %q %q %q alias %p content", n.Kind, n.Style, n.Tag, n.Value, n.Anchor, n.Line, n.Column, n.HeadComment, n.LineComment, n.FootComment, n.Alias)
	for _, c := range n.Content {
		s += fmt.Sprintf(" %p", c)
	}
	return s
}

// doMarshal serialises a part of the document.
func (w *world) doMarshal(op *Op, s *slot) {
	var node *yaml.Node
	var err error
	if op.N%3 == 0 {
		w.guard("panic", func() {
			var b []byte
			if b, err = encodeAny(s.impl); err == nil {
				w.event("marshal %s", b)
				node = &yaml.Node{}
				if e := yaml.Unmarshal(b, node); e != nil {
					w.fail("written-diff", "the serialised document is not YAML: %v", e)
				}
			}
		})
		w.event("marshal err=%v", err)
		if ps := w.sickIn(s, s.model); len(ps) > 0 {
			w.stats.fault("value fails to serialise")
			w.checkSick(ps, err, "the serialised document", "")
			return
		}
		if err != nil {
			w.fail("write-fail", "serialising the document fails: %v", err)
		}
		if node != nil && !(s.noVal && valueless(s.model, s.api)) {
			var m *N
			if err := catchNorm(func() { m = normDoc(s.api, fromYAML(node)) }); err != nil {
				w.fail("written-diff", "the serialised document is not valid: %v", err)
			}
			if p, d := diffPath(s.model, m); d != "" {
				w.failPath("written-diff", p, "serialised: %s", d)
			}
		}
		return
	}
	if op.N%3 == 1 && w.marshalElement(op, s) {
		return
	}
	e, ok := w.pickContainer(s, op.N/3)
	if !ok {
		return
	}
	ps := w.sickIn(s, e.ref.n)
	w.guard("panic", func() {
		m := resolveI(s.impl, s.model, s.api, e.path)
		if y, ok := m.Interface().(yaml.Marshaler); ok && op.N/3%4 == 1 {
			var b []byte
			if b, err = encodeAny(y); err == nil {
				if n, e := partNode(y); e != nil || !closed(n) {
					return // finding K12
				}
				node = &yaml.Node{}
				if x := yaml.Unmarshal(b, node); x != nil {
					w.fail("written-diff", "the map at %s serialised with an encoder is not YAML: %v", strings.Join(e.path, "/"), x)
				}
				if len(node.Content) > 0 {
					node = node.Content[0]
				}
			}
			return
		}
		if !m.MethodByName("ToYAML").IsValid() {
			return
		}
		out := m.MethodByName("ToYAML").Call(nil)
		if x := out[1].Interface(); x != nil {
			err = x.(error)
		}
		node, _ = out[0].Interface().(*yaml.Node)
	})
	w.event("marshal map err=%v", err)
	if len(ps) > 0 {
		w.stats.fault("value fails to serialise")
		w.checkSick(ps, err, "the map at "+strings.Join(e.path, "/"), "")
		return
	}
	if err != nil {
		w.fail("write-fail", "serialising the map at %s fails: %v", strings.Join(e.path, "/"), err)
	}
	if node != nil && (node.Kind == yaml.MappingNode || node.Kind == yaml.SequenceNode) && !(s.noVal && valueless(s.model, s.api)) {
		var m *N
		if err := catchNorm(func() {
			m = mp()
			t := fromYAML(node)
			ps := t.P
			for _, x := range t.L {
				if x.K != "m" || len(x.P) != 1 {
					bad("an ordered map is a sequence of single entries")
				}
				ps = append(ps, x.P[0])
			}
			for _, q := range ps {
				m.put(q.K.V, normVal(e.ref.class, e.ref.kind, q.V))
			}
		}); err != nil {
			w.fail("written-diff", "the serialised map at %s is not valid: %v", strings.Join(e.path, "/"), err)
		}
		want := e.ref.n
		if want == nil {
			want = mp()
		}
		if p, d := diffPath(want, m); d != "" {
			for i := range p {
				p[i] = containerPath(e.path) + p[i]
			}
			w.failPath("written-diff", p, "serialised map: %s", d)
		}
	}
}

// partNode gives the node of a part of a document.
func partNode(x interface{}) (*yaml.Node, error) {
	switch x := x.(type) {
	case interface{ ToYAML() (*yaml.Node, error) }:
		return x.ToYAML()
	case raml.Marshaler:
		out := raml.NewAnyMap(0).SerializeOrdered(false)
		if _, err := x.MarshalRAML(out); err != nil {
			return nil, err
		}
		return out.ToYAML()
	}
	return nil, fmt.Errorf("%T has no node", x)
}

// staleNode gives the node of a part that is put into a map which has one of its
// attributes already.
func staleNode(x raml.Marshaler, n int) (*yaml.Node, error) {
	fresh := raml.NewAnyMap(0).SerializeOrdered(false)
	if short, err := x.MarshalRAML(fresh); err != nil || short || fresh.Len() == 0 {
		return nil, err
	}
	out := raml.NewAnyMap(0).SerializeOrdered(false).Put(fresh.At(n/15%fresh.Len()).Key, "stale")
	if _, err := x.MarshalRAML(out); err != nil {
		return nil, err
	}
	return out.ToYAML()
}

// closed tells whether the aliases of a node refer to anchors inside of it, as
// they do in the text of the node.
func closed(n *yaml.Node) bool {
	at := map[string]*yaml.Node{}
	var walk func(*yaml.Node) bool
	walk = func(n *yaml.Node) bool {
		if n == nil {
			return true
		}
		if n.Kind == yaml.AliasNode {
			return at[n.Value] == n.Alias
		}
		if n.Anchor != "" {
			at[n.Anchor] = n
		}
		for _, c := range n.Content {
			if !walk(c) {
				return false
			}
		}
		return true
	}
	return walk(n)
}

// encodeAny serialises with the encoder of YAML.
func encodeAny(x interface{}) ([]byte, error) {
	var buf bytes.Buffer
	enc := yaml.NewEncoder(&buf)
	enc.SetIndent(2) // with more, the encoder itself breaks some texts
	if err := enc.Encode(x); err != nil {
		return nil, err
	}
	err := enc.Close()
	return buf.Bytes(), err
}

// marshalElement serialises one element of the document on its own.
func (w *world) marshalElement(op *Op, s *slot) bool {
	var es []elem
	for _, e := range elements(s.model, s.api, 300) {
		if in(e.ref.class, "type", "example", "xml", "docentry") && e.ref.n != nil {
			es = append(es, e)
		}
	}
	if len(es) == 0 {
		return false
	}
	e := es[op.N/3%len(es)]
	var err error
	var node *yaml.Node
	done := false
	at := strings.Join(e.path, "/")
	w.guard("panic", func() {
		el := resolveI(s.impl, s.model, s.api, e.path).Interface()
		if t, ok := el.(raml.DataType); ok && op.N/3%2 == 0 {
			var text string
			if text, err = t.ToRAML(); err == nil {
				node = &yaml.Node{}
				if e := yaml.Unmarshal([]byte(text), node); e != nil {
					w.fail("written-diff", "the RAML text of the type at %s is not YAML: %v", at, e)
				}
			}
			done = true
			return
		}
		if y, ok := el.(yaml.Marshaler); ok && op.N/3%5 == 1 {
			if b, e := encodeAny(y); e != nil {
				err = e
			} else if n, e := partNode(el); e == nil && closed(n) {
				node = &yaml.Node{}
				if e := yaml.Unmarshal(b, node); e != nil {
					w.fail("written-diff", "the element at %s serialised with an encoder is not YAML: %v", at, e)
				}
			}
			done = true
			return
		}
		if x, ok := el.(raml.Marshaler); ok && op.N/3%5 == 3 {
			if node, err = staleNode(x, op.N); node != nil || err != nil {
				done = true
				return
			}
		}
		switch el.(type) {
		case interface{ ToYAML() (*yaml.Node, error) }, raml.Marshaler:
			node, err = partNode(el)
			done = true
		}
	})
	if !done {
		return false
	}
	w.event("marshal %s err=%v", e.ref.class, err)
	if ps := w.sickIn(s, e.ref.n); len(ps) > 0 {
		w.stats.fault("value fails to serialise")
		w.checkSick(ps, err, "the element at "+at, "")
		return true
	}
	if err != nil {
		w.fail("write-fail", "serialising the element at %s fails: %v", at, err)
	}
	if node == nil || e.ref.class == "example" && e.ref.n.get("value") == nil || s.noVal && valueless(s.model, s.api) {
		return true
	}
	var m *N
	if err := catchNorm(func() {
		t := fromYAML(node)
		switch e.ref.class {
		case "type":
			m = normType(t)
		case "example":
			m = normExample(e.ref.kind, t)
		case "xml":
			m = normXML(t)
		case "docentry":
			m = normDocEntry(t)
		}
	}); err != nil {
		w.fail("written-diff", "the serialised element at %s is not valid: %v", at, err)
	}
	if p, d := diffPath(e.ref.n, m); d != "" {
		for i := range p {
			p[i] = containerPath(e.path) + p[i]
		}
		w.failPath("written-diff", p, "serialised element at %s: %s", at, d)
	}
	return true
}

// doJSON serialises a map of the document as JSON.
func (w *world) doJSON(op *Op, s *slot) {
	e, ok := w.pickContainer(s, op.N)
	if !ok {
		return
	}
	var out []byte
	var err error
	w.guard("panic", func() {
		m := resolveI(s.impl, s.model, s.api, e.path)
		j, ok := m.Interface().(json.Marshaler)
		if !ok {
			return
		}
		out, err = j.MarshalJSON()
	})
	w.event("json err=%v %s", err, out)
	if e.ref.class == "rawmap" || e.ref.class == "anymap" {
		for _, p := range w.sickIn(s, e.ref.n) {
			if canHeal(p.form) && err == nil {
				w.fail("poison-silent", "the map at %s contains a value that fails to serialise (%s), but serialises as JSON", strings.Join(e.path, "/"), p.name())
			}
		}
	}
}

// doCallback iterates a map with a callback that panics.
func (w *world) doCallback(op *Op, s *slot) {
	e, ok := w.pickContainer(s, op.N)
	if !ok || e.ref.n == nil || len(e.ref.n.P) == 0 {
		return
	}
	at := op.Doc % len(e.ref.n.P)
	var m reflect.Value
	w.guard("panic", func() { m = resolveI(s.impl, s.model, s.api, e.path) })
	seen, returned := 0, false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(simPanic); !ok {
					w.fail("panic", "panic: %v", r)
				}
			}
		}()
		fe := m.MethodByName("ForEach")
		cb := reflect.MakeFunc(fe.Type().In(0), func([]reflect.Value) []reflect.Value {
			simrt.Yield()
			if seen == at {
				panic(simPanic{})
			}
			seen++
			return nil
		})
		fe.Call([]reflect.Value{cb})
		returned = true
	}()
	w.stats.fault("callback panics")
	w.event("callback panic at %d returned %v", seen, returned)
	if returned {
		w.fail("callback-swallowed", "the panic of an iteration callback is swallowed")
	}
}

/* ---- values that fail to serialise ---- */

type poison struct {
	id     string
	msg    string
	healed bool
	form   string
}

// failing is a value of the caller that may fail to serialise.
type failing struct{ p *poison }

func (f *failing) ToYAML() (*yaml.Node, error) {
	if f.p.healed {
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: tStr, Value: "healed " + f.p.id}, nil
	}
	return nil, errors.New(f.p.msg)
}
func (f *failing) MarshalYAML() (interface{}, error) { return f.ToYAML() }
func (f *failing) MarshalJSON() ([]byte, error) {
	if f.p.healed {
		return json.Marshal("healed " + f.p.id)
	}
	return nil, errors.New(f.p.msg)
}

type unserialisable struct{ A, B int }

func (p *poison) value() interface{} {
	switch p.form {
	case "struct":
		return unserialisable{1, 2}
	case "func":
		return func() {}
	case "chan":
		return make(chan int)
	case "complex":
		return complex(1, 2)
	case "list":
		return []interface{}{"ok", 1, &failing{p}}
	case "map":
		return map[string]interface{}{"only": &failing{p}}
	case "nested":
		o := raml.NewAnyMap(0).SerializeOrdered(false)
		o.Put("a", "fine").Put("b", &failing{p})
		return o
	}
	return &failing{p}
}

// node is the model of the value.
func (p *poison) node() *N {
	self := scal("!!poison", p.id)
	if p.healed {
		self = str("healed " + p.id)
	}
	switch p.form {
	case "struct", "func", "chan", "complex":
		return scal("!!poison", p.form)
	case "list":
		return lst(str("ok"), scal(tInt, "1"), self)
	case "map":
		return mp(kv("only", self))
	case "nested":
		return mp(kv("a", str("fine")), kv("b", self))
	}
	return self
}

func (p *poison) name() string {
	if p.msg == "" {
		return "a " + p.form
	}
	return p.msg
}

func (p *poison) in(n *N) bool {
	if n == nil {
		return false
	}
	if n.K == "s" && n.T == "!!poison" && (n.V == p.id || n.V == p.form) {
		return true
	}
	for i := range n.P {
		if p.in(n.P[i].V) {
			return true
		}
	}
	for _, x := range n.L {
		if p.in(x) {
			return true
		}
	}
	return false
}

func replaceN(n *N, f func(*N) *N) *N {
	if n == nil {
		return nil
	}
	if r := f(n); r != nil {
		return r
	}
	c := *n
	if n.P != nil {
		c.P = make([]P, len(n.P))
		for i := range n.P {
			c.P[i] = P{n.P[i].K, replaceN(n.P[i].V, f)}
		}
	}
	if n.L != nil {
		c.L = make([]*N, len(n.L))
		for i := range n.L {
			c.L[i] = replaceN(n.L[i], f)
		}
	}
	return &c
}

var poisonForms = []string{"", "", "", "struct", "func", "chan", "complex", "list", "map", "nested"}

func canHeal(form string) bool {
	return form == "" || form == "list" || form == "map" || form == "nested"
}

// doPoison puts a failing value into the document.
func (w *world) doPoison(op *Op, s *slot) {
	m, ok := resolveM(s.model, s.api, op.Path)
	if !ok {
		return
	}
	p := &poison{id: fmt.Sprintf("p%d", op.N), msg: fmt.Sprintf("cannot serialise p%d", op.N), form: op.M}
	if !canHeal(op.M) {
		p.msg = "" // the library finds the words
	}
	done := false
	w.guard("panic", func() {
		el := resolveI(s.impl, s.model, s.api, op.Path)
		v := reflect.ValueOf(p.value())
		switch m.class {
		case "rawmap", "anymap":
			put := el.MethodByName(map[string]string{"rop": "ReplaceOrPut"}[op.Text] + map[string]string{"": "Put", "rop": ""}[op.Text])
			put.Call([]reflect.Value{convert(reflect.ValueOf(op.K), put.Type().In(0)), convert(v, put.Type().In(1))})
			if op.Text == "rop" {
				m.box().set(op.K, p.node())
			} else {
				m.box().put(op.K, p.node())
			}
			done = true
		case "type", "example":
			set := el.MethodByName("Set" + m.method(op.K))
			if !set.IsValid() {
				return
			}
			want := set.Type().In(0)
			nv := p.node()
			switch {
			case want.Kind() == reflect.Interface:
				set.Call([]reflect.Value{convert(v, want)})
			case want == reflect.TypeOf([]interface{}{}):
				set.Call([]reflect.Value{reflect.ValueOf([]interface{}{"first", p.value(), "last"})})
				nv = lst(str("first"), nv, str("last"))
			default:
				return
			}
			m.n.set(op.K, nv)
			if op.K == "default" {
				if e := m.n.get("extra"); e != nil {
					e.del("default")
					if len(e.P) == 0 {
						m.n.del("extra")
					}
				}
			}
			done = true
		}
	})
	if !done {
		return
	}
	s.last = nil
	s.sick = append(s.sick, p)
	s.taint = true
	w.event("poison %s", p.form)
}

// doHeal makes failing values serialise again.
func (w *world) doHeal(s *slot) {
	for _, p := range s.sick {
		if !p.healed && canHeal(p.form) {
			p.healed = true
			s.last = nil
			s.model = replaceN(s.model, func(n *N) *N {
				if n.K == "s" && n.T == "!!poison" && n.V == p.id {
					return str("healed " + p.id)
				}
				return nil
			})
		}
	}
	w.event("heal")
}

// doCure takes every failing value out again.
func (w *world) doCure(s *slot) {
	for round := 0; round < 50; round++ {
		var hit *elem
		var key string
		var p *poison
		for _, e := range elements(s.model, s.api, 2000) {
			e := e
			if e.ref.n == nil {
				continue
			}
			for _, q := range e.ref.n.P {
				for _, x := range s.sick {
					if x.in(q.V) && (e.ref.class == "rawmap" || e.ref.class == "anymap" || (e.ref.class == "type" || e.ref.class == "example") && isPoisonFacet(e.ref, q.K.V)) {
						hit, key, p = &e, q.K.V, x
					}
				}
			}
			if hit != nil {
				break
			}
		}
		if hit == nil {
			break
		}
		_ = p
		w.guard("panic", func() {
			el := resolveI(s.impl, s.model, s.api, hit.path)
			switch hit.ref.class {
			case "rawmap", "anymap":
				del := el.MethodByName("Delete")
				del.Call([]reflect.Value{convert(reflect.ValueOf(key), del.Type().In(0))})
				hit.ref.n.del(key)
				hit.ref.trim(hit.path)
			default:
				name := hit.ref.method(key)
				if un := el.MethodByName("Unset" + name); un.IsValid() && hit.ref.class == "type" {
					un.Call(nil)
					hit.ref.n.del(key)
					break
				}
				set := el.MethodByName("Set" + name)
				set.Call([]reflect.Value{convert(reflect.ValueOf("cured"), set.Type().In(0))})
				hit.ref.n.set(key, str("cured"))
			}
		})
	}
	s.last = nil
	w.event("cure")
}

func isPoisonFacet(m mref, k string) bool {
	if m.class == "example" {
		return k == "value"
	}
	f, ok := facetIndex[m.n.get("kind").V][k]
	return ok && (f.vk == "raw" || f.vk == "rawlist" || f.vk == "rawlist0")
}

/* ---- operations ---- */

func readOnly(t string) bool {
	switch t {
	case "write", "observe", "marshal", "json", "parse", "damaged", "callback", "load":
		return true
	}
	return false
}

// do executes one operation.
func (w *world) do(op *Op) {
	for i := 1; i < op.Rep; i++ {
		if i > 1 {
			w.trace = w.trace[:min(len(w.trace), 2000)]
		}
		w.do1(op)
	}
	w.do1(op)
	w.checkStreams()
}

func (w *world) do1(op *Op) {
	w.op = op
	w.stats.op(op.T)
	enterOp(op.T)
	s := w.slot(op.D)
	simrt.Yield()
	switch op.T {
	case "new":
		var ns *slot
		w.guard("panic", func() {
			if op.K == "api" {
				ns = &slot{api: true, impl: rbuild.NewAPISpec(), model: normDoc(true, mp()), said: saidSet{}}
			} else {
				ns = &slot{impl: rbuild.NewLibrary(), model: normDoc(false, mp()), said: saidSet{}}
			}
		})
		w.checkDoc("new-diff", ns, op.FE)
		w.setSlot(op.D, ns)
		return
	case "parse":
		w.doParse(op)
		return
	case "damaged":
		w.doDamaged(op)
		return
	case "load":
		w.doLoad(op, "reload-diff")
		return
	case "panicio":
		w.doPanicIO(op)
		return
	case "stray":
		w.doStray(op)
		if s == nil {
			return
		}
	}
	if s == nil {
		return
	}
	class := "edit-diff"
	switch op.T {
	case "stray":
	case "map", "set", "unset", "setmap", "unsetmap":
		next := s.model.clone()
		var err error
		if e := catchNorm(func() { err = applyModel(next, s.api, op) }); e != nil || err != nil {
			w.event("skip")
			return
		}
		var complaint string
		s.last = nil
		var old, now reflect.Value
		var class string
		w.guard("panic", func() { old, class = w.former(s, op) })
		w.guard("panic", func() { complaint = applyImpl(s.impl, s.model, s.api, op, w.lists) })
		if class != "" {
			w.guard("panic", func() { now, _ = w.former(s, op) })
			if !now.IsValid() || !sameObj(now, old) {
				w.strays = append(w.strays, stray{old, class})
			}
		}
		s.model = next
		if op.V != nil {
			s.said.look(op.K, op.V)
		}
		s.noVal = s.noVal || op.T == "unset" && op.K == "value"
		w.event("edit %s %s", op.T, op.K)
		if complaint != "" {
			w.fail("chain", "%s", complaint)
		}
	case "write":
		w.withForms(op, s, w.doWrite)
		class = "write-effect"
	case "save":
		w.withForms(op, s, w.doSave)
		class = "write-effect"
	case "marshal":
		w.withForms(op, s, w.doMarshal)
		class = "write-effect"
	case "observe":
		w.checkDoc("observe-diff", s, op.FE)
		w.event("observe")
		return
	case "json":
		w.withForms(op, s, w.doJSON)
		class = "write-effect"
	case "callback":
		w.doCallback(op, s)
		class = "callback-effect"
	case "poison":
		w.doPoison(op, s)
	case "heal":
		w.doHeal(s)
	case "cure":
		w.doCure(s)
		class = "cure-diff"
	default:
		panic(harnessErr{"unknown operation " + op.T})
	}
	if w.obs {
		w.checkDoc(class, s, op.FE)
	}
}

// stray is an element that a document handed out and is no longer part of it.
type stray struct {
	v     reflect.Value
	class string
}

// former gives the element that an edit takes out of a document.
func (w *world) former(s *slot, op *Op) (v reflect.Value, class string) {
	if w.prop != "C11" && w.prop != "C14" {
		return
	}
	m, ok := resolveM(s.model, s.api, op.Path)
	if !ok {
		return
	}
	c, ok := m.step(op.K)
	if !ok {
		return
	}
	el := resolveI(s.impl, s.model, s.api, op.Path)
	if op.T != "map" {
		v, ok = m.handedOut(el, op.K)
	} else if op.M == "putnil" {
		ok = false
	} else {
		out := el.MethodByName("Get").Call([]reflect.Value{convert(reflect.ValueOf(op.K), el.MethodByName("Get").Type().In(0))})
		for v, ok = out[0], out[1].Bool(); ok && v.Kind() == reflect.Interface && !v.IsNil(); {
			v = v.Elem()
		}
	}
	if !ok || v.Kind() != reflect.Ptr && v.Kind() != reflect.Map || isNilVal(v) {
		return reflect.Value{}, ""
	}
	return v, c.class
}

// doStray edits an element that is no longer part of a document.
func (w *world) doStray(op *Op) {
	if len(w.strays) == 0 {
		w.event("skip")
		return
	}
	st := w.strays[op.N%len(w.strays)]
	if op.M == "last" {
		st = w.strays[len(w.strays)-1-op.N%len(w.strays)]
	}
	w.guard("panic", func() {
		put := st.v.MethodByName("Put")
		if !put.IsValid() {
			for _, name := range []string{"SetDescription", "SetName", "SetUsage"} {
				set := st.v.MethodByName(name)
				if set.IsValid() && set.Type().NumIn() == 1 && set.Type().In(0).Kind() == reflect.String {
					set.Call([]reflect.Value{reflect.ValueOf("stray edit")})
				}
			}
			return
		}
		key, want := convert(reflect.ValueOf("stray"), put.Type().In(0)), put.Type().In(1)
		val := str("stray edit")
		switch st.class {
		case "types", "props":
			put.Call([]reflect.Value{key, convert(donorType(str("string"), st.class == "props"), want)})
		case "anns", "facets":
			put.Call([]reflect.Value{key, implVal(st.class, "", mp(), want)})
		case "examples":
			del := st.v.MethodByName("Delete")
			for i := st.v.MethodByName("Len").Call(nil)[0].Int(); i > 0; i-- {
				e := st.v.MethodByName("At").Call([]reflect.Value{reflect.ValueOf(int(0))})[0]
				del.Call([]reflect.Value{e.FieldByName("Key")})
			}
		default:
			put.Call([]reflect.Value{key, implVal(st.class, "", val, want)})
		}
	})
	w.event("stray edit of a former %s", st.class)
}

// doPanicIO parses from a source, or writes to a destination, that panics.
// The panic may come out of the call, or be turned into an error; the call
// must not report success.
func (w *world) doPanicIO(op *Op) {
	if simrt.Coarse() {
		return // the panic may end a task of the library, and with it the process
	}
	p := panicker{left: op.N % 700, kind: op.N / 2 % 3}
	returned := func(call func()) bool {
		done := false
		func() {
			defer func() {
				if r := recover(); r != nil && !isSimPanic(r) {
					panic(r)
				}
			}()
			w.guard("panic", call)
			done = true
		}()
		return done
	}
	w.stats.fault("source or destination panics")
	if s := w.slot(op.D); s != nil && op.N%2 == 0 {
		var err error
		done := returned(func() { err = s.impl.(ramlWriter).WriteRAML(&p) })
		w.event("write to a destination that panics: returned %v err=%v", done, err)
		if p.fired && done && err == nil {
			w.fail("write-dishonest", "the destination panicked after %d bytes, but the write reports success", len(p.got))
		}
		if p.fired && len(w.sickIn(s, s.model)) == 0 {
			if full := w.cleanBytes(s); !bytes.HasPrefix(full, p.got) {
				w.fail("write-prefix", "after a write that panicked the destination holds %q, which is no prefix of the document %q", clip(string(p.got)), clip(string(full)))
			}
		}
		return
	}
	d := &w.docs[op.Doc%len(w.docs)]
	text := d.text()
	p.left = op.N % (len(text) + 1)
	at := p.left
	p.r = strings.NewReader(text)
	var doc interface{}
	var err error
	done := returned(func() { doc, err = parse(d.API, &p) })
	w.event("parse from a source that panics: returned %v err=%v", done, err)
	if p.fired && done && !(d.Style.End && at >= strings.LastIndex(text, "...")) {
		switch {
		case err == nil:
			w.fail("source-failure-silent", "the source panicked after %d of %d bytes, but the parse reports success", at, len(text))
		case doc != nil:
			w.fail("source-failure-doc", "the parse returns a document together with the error %v", err)
		}
	}
}

// panicker is a source, or a destination, that panics after so many bytes.
type panicker struct {
	left, kind int
	r          io.Reader
	got        []byte
	fired      bool
}

func (p *panicker) fire() {
	p.fired = true
	switch p.kind {
	case 1:
		panic(simPanicError{})
	case 2:
		panic(simPanicText)
	}
	panic(simPanic{})
}

func (p *panicker) Read(b []byte) (int, error) {
	simrt.Yield()
	if p.left <= 0 {
		p.fire()
	}
	if len(b) > p.left {
		b = b[:p.left]
	}
	n, err := p.r.Read(b)
	p.left -= n
	return n, err
}

func (p *panicker) Write(b []byte) (int, error) {
	simrt.Yield()
	if len(b) >= p.left {
		p.fire()
	}
	p.left -= len(b)
	p.got = append(p.got, b...)
	return len(b), nil
}
