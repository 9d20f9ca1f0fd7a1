package main

import (
	"encoding/json"
	"flag"
	"os"
	"strconv"
	"sync"
	"time"

	"verif.local/simrt"
)

// The shrinker makes a failing plan smaller.  Every candidate runs in a fresh
// process and has to show an attributed violation of the same class.

type shrinker struct {
	best  *Replay
	class string
	end   time.Time
	tries int
	runs  int
	odd   bool // the content of the original plan is not well-formed
}

// sane tells that the content of a plan is well-formed: no key occurs twice
// and every alias has its anchor.
func sane(p *Plan) bool {
	var bad func(n *N) bool
	bad = func(n *N) bool {
		if n.K == "s" && n.T == "!!badalias" {
			return true
		}
		for i := range n.P {
			if bad(n.P[i].K) || bad(n.P[i].V) {
				return true
			}
		}
		for _, x := range n.L {
			if bad(x) {
				return true
			}
		}
		return false
	}
	for _, r := range p.roots() {
		if r == nil {
			continue
		}
		c := r.resolve()
		if bad(c) || dupKey(c) != "" {
			return false
		}
	}
	return true
}

func (s *shrinker) last() *Plan { return s.best.Plans[len(s.best.Plans)-1] }

func (s *shrinker) out() bool { return time.Now().After(s.end) }

func (s *shrinker) fails(r *Replay) bool {
	if !s.odd && !sane(r.Plans[len(r.Plans)-1]) {
		return false
	}
	for i := 0; i < s.tries; i++ {
		s.runs++
		a, err := fresh(r, false)
		if err == nil && a.Viol != nil && a.Viol.Class == s.class && a.Attributed {
			return true
		}
	}
	return false
}

func (s *shrinker) withPlan(p *Plan) *Replay {
	r := *s.best
	r.Plans = append(append([]*Plan{}, s.best.Plans[:len(s.best.Plans)-1]...), p)
	return &r
}

// tryAll tests candidates in parallel and takes the first that still fails.
func (s *shrinker) tryAll(cands []*Plan) bool {
	const par = 6
	for i := 0; i < len(cands) && !s.out(); i += par {
		n := len(cands) - i
		if n > par {
			n = par
		}
		ok := make([]bool, n)
		var wg sync.WaitGroup
		for j := 0; j < n; j++ {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				ok[j] = s.fails(s.withPlan(cands[i+j]))
			}(j)
		}
		wg.Wait()
		for j := 0; j < n; j++ {
			if ok[j] {
				s.best = s.withPlan(cands[i+j])
				return true
			}
		}
	}
	return false
}

// chunks removes ranges of a list of n things, large ones first.
func (s *shrinker) chunks(n func() int, without func(lo, hi int) *Plan) {
	size := n()
	for size > 0 && !s.out() {
		c := size
		if c > n() {
			c = n()
		}
		if c == 0 {
			return
		}
		progressed := false
		for !s.out() {
			var cands []*Plan
			for lo := 0; lo < n(); lo += c {
				hi := lo + c
				if hi > n() {
					hi = n()
				}
				if p := without(lo, hi); p != nil {
					cands = append(cands, p)
				}
			}
			if !s.tryAll(cands) {
				break
			}
			progressed = true
		}
		_ = progressed
		if c == 1 {
			return
		}
		size = c / 2
	}
}

func dropRange(ops []Op, lo, hi int, at *int) []Op {
	var out []Op
	for i := range ops {
		if *at < lo || *at >= hi {
			out = append(out, ops[i])
		}
		*at++
	}
	return out
}

func (s *shrinker) run() {
	s.odd = !sane(s.last())
	// earlier runs of the same process
	for size := len(s.best.Plans) - 1; size > 0 && !s.out(); size /= 2 {
		for i := 0; i < len(s.best.Plans)-1 && !s.out(); {
			r := *s.best
			r.Plans = append(append([]*Plan{}, s.best.Plans[:i]...), s.best.Plans[minInt(i+size, len(s.best.Plans)-1):]...)
			if s.fails(&r) {
				s.best = &r
			} else {
				i += size
			}
		}
	}
	for round := 0; round < 3 && !s.out(); round++ {
		before, _ := json.Marshal(s.last())
		s.tasks()
		s.chunks(func() int { return s.last().nOps() }, func(lo, hi int) *Plan {
			q := s.last().clone()
			at := 0
			for i := range q.Epochs {
				n := len(q.Epochs[i].Ops)
				q.Epochs[i].Ops = dropRange(q.Epochs[i].Ops, lo, hi, &at)
				if n > 0 && len(q.Epochs[i].Ops) == 0 {
					q.Epochs[i].Kill = nil
				}
			}
			for i := range q.Tasks {
				q.Tasks[i] = dropRange(q.Tasks[i], lo, hi, &at)
			}
			return q
		})
		s.mapOps()
		s.kills()
		s.styles()
		s.specs()
		s.trees()
		s.damaged()
		s.schedule()
		after, _ := json.Marshal(s.last())
		if string(before) == string(after) {
			break
		}
	}
	q := s.last().clone()
	var keep []Epoch
	for _, e := range q.Epochs {
		if len(e.Ops) > 0 {
			keep = append(keep, e)
		}
	}
	q.Epochs = keep
	if s.fails(s.withPlan(q)) {
		s.best = s.withPlan(q)
	}
}

func (s *shrinker) tasks() {
	for i := 0; i < len(s.last().Tasks) && !s.out(); {
		q := s.last().clone()
		q.Tasks[i] = nil
		if len(s.last().Tasks[i]) > 0 && s.tryAll([]*Plan{q}) {
			i++
			continue
		}
		i++
	}
}

func (s *shrinker) mapOps() {
	if s.last().Map == nil {
		return
	}
	for c := range s.last().Map.Clients {
		c := c
		s.chunks(func() int { return len(s.last().Map.Clients[c]) }, func(lo, hi int) *Plan {
			q := s.last().clone()
			ops := q.Map.Clients[c]
			if lo >= len(ops) {
				return nil
			}
			if hi > len(ops) {
				hi = len(ops)
			}
			q.Map.Clients[c] = append(append([]MapOp{}, ops[:lo]...), ops[hi:]...)
			return q
		})
	}
}

func (s *shrinker) kills() {
	for i := range s.last().Epochs {
		k := s.last().Epochs[i].Kill
		if k == nil {
			continue
		}
		q := s.last().clone()
		q.Epochs[i].Kill = nil
		if s.tryAll([]*Plan{q}) {
			continue
		}
		if k.Mode == "crash" && k.After < 1<<40 {
			q := s.last().clone()
			c := *k
			c.After = 1 << 40
			q.Epochs[i].Kill = &c
			s.tryAll([]*Plan{q})
		}
	}
}

func (s *shrinker) styles() {
	for i := range s.last().Docs {
		q := s.last().clone()
		q.Docs[i].Style = Style{}
		if s.tryAll([]*Plan{q}) {
			continue
		}
		for _, f := range []func(*Style){
			func(x *Style) { x.NoHeader = false }, func(x *Style) { x.BOM = false }, func(x *Style) { x.UTF16 = 0 }, func(x *Style) { x.CRLF = false },
			func(x *Style) { x.Start = false }, func(x *Style) { x.End = false }, func(x *Style) { x.NoEOL = false },
			func(x *Style) { x.Flow = false }, func(x *Style) { x.Indent = 2 }, func(x *Style) { x.SeqIn = false },
			func(x *Style) { x.PadTop = 0 }, func(x *Style) { x.PadEnd = 0 }, func(x *Style) { x.PadTop /= 2 }, func(x *Style) { x.PadEnd /= 2 },
		} {
			q := s.last().clone()
			f(&q.Docs[i].Style)
			if q.Docs[i].Style != s.last().Docs[i].Style {
				s.tryAll([]*Plan{q})
			}
		}
	}
}

func (p *Plan) opAt(n int) *Op {
	for i := range p.Epochs {
		if n < len(p.Epochs[i].Ops) {
			return &p.Epochs[i].Ops[n]
		}
		n -= len(p.Epochs[i].Ops)
	}
	for i := range p.Tasks {
		if n < len(p.Tasks[i]) {
			return &p.Tasks[i][n]
		}
		n -= len(p.Tasks[i])
	}
	return nil
}

// specs simplifies sources and destinations.
func (s *shrinker) specs() {
	for n := 0; n < s.last().nOps() && !s.out(); n++ {
		try := func(f func(op *Op)) bool {
			q := s.last().clone()
			op := q.opAt(n)
			if op.Rd != nil {
				c := *op.Rd
				op.Rd = &c
			}
			if op.W != nil {
				c := *op.W
				op.W = &c
			}
			f(op)
			a, _ := json.Marshal(op)
			b, _ := json.Marshal(s.last().opAt(n))
			return string(a) != string(b) && s.tryAll([]*Plan{q})
		}
		op := s.last().opAt(n)
		if op.Rd != nil && !try(func(op *Op) { op.Rd = nil }) {
			try(func(op *Op) { *op.Rd = ReaderSpec{FailAt: op.Rd.FailAt, FailErr: op.Rd.FailErr} })
			for _, f := range []func(*ReaderSpec){
				func(x *ReaderSpec) { x.Kind = "" }, func(x *ReaderSpec) { x.Chunks = nil }, func(x *ReaderSpec) { x.Zero = 0 },
				func(x *ReaderSpec) { x.DataEOF = false }, func(x *ReaderSpec) { x.Prefix = 0 }, func(x *ReaderSpec) { x.Scratch = false },
				func(x *ReaderSpec) { x.Slow = 0 }, func(x *ReaderSpec) { x.FailDat = false }, func(x *ReaderSpec) { x.Sticky = false },
				func(x *ReaderSpec) { x.FailErr = 0 }, func(x *ReaderSpec) { x.Chunks = []int{1} },
			} {
				try(func(op *Op) { f(op.Rd) })
			}
		}
		if op.W != nil && !try(func(op *Op) { op.W = nil }) {
			for _, f := range []func(*WriterSpec){
				func(x *WriterSpec) { x.Kind = "" }, func(x *WriterSpec) { x.Slow = 0 }, func(x *WriterSpec) { x.Partial = false }, func(x *WriterSpec) { x.Whole = false },
				func(x *WriterSpec) { x.Sticky = false }, func(x *WriterSpec) { x.FailErr = 0 }, func(x *WriterSpec) { x.FailAt = 1 },
			} {
				try(func(op *Op) { f(op.W) })
			}
		}
		if op.FE {
			try(func(op *Op) { op.FE = false })
		}
		if op.Forms {
			try(func(op *Op) { op.Forms = false })
		}
		for op = s.last().opAt(n); op != nil && op.Rep > 1 && try(func(op *Op) { op.Rep /= 2 }); op = s.last().opAt(n) {
		}
	}
	for _, f := range []func(*Plan){func(p *Plan) { p.Obs = false }, func(p *Plan) { p.ObsAll = false }, func(p *Plan) { p.First = false }} {
		q := s.last().clone()
		f(q)
		if q.Obs != s.last().Obs || q.ObsAll != s.last().ObsAll || q.First != s.last().First {
			s.tryAll([]*Plan{q})
		}
	}
}

// roots lists the content trees of a plan.
func (p *Plan) roots() []*N {
	var out []*N
	for i := range p.Docs {
		out = append(out, p.Docs[i].Root)
	}
	p.eachOps(func(op *Op) bool {
		if op.V != nil {
			out = append(out, op.V)
		}
		return true
	})
	return out
}

func collections(n *N, out *[]*N) {
	if len(n.P) > 0 || len(n.L) > 0 {
		*out = append(*out, n)
	}
	for i := range n.P {
		collections(n.P[i].V, out)
	}
	for _, x := range n.L {
		collections(x, out)
	}
}

func scalars(n *N, out *[]*N) {
	if n.K == "s" || n.S != "" || n.C != "" || n.A != "" {
		*out = append(*out, n)
	}
	for i := range n.P {
		scalars(n.P[i].K, out)
		scalars(n.P[i].V, out)
	}
	for _, x := range n.L {
		scalars(x, out)
	}
}

func (s *shrinker) trees() {
	for ri := 0; ri < len(s.last().roots()) && !s.out(); ri++ {
		ri := ri
		for ci := 0; !s.out(); ci++ {
			cols := func(p *Plan) []*N {
				var c []*N
				rs := p.roots()
				if ri < len(rs) {
					collections(rs[ri], &c)
				}
				return c
			}
			cs := cols(s.last())
			if ci >= len(cs) {
				break
			}
			size := func() int {
				cs := cols(s.last())
				if ci >= len(cs) {
					return 0
				}
				return len(cs[ci].P) + len(cs[ci].L)
			}
			s.chunks(size, func(lo, hi int) *Plan {
				q := s.last().clone()
				cs := cols(q)
				if ci >= len(cs) {
					return nil
				}
				n := cs[ci]
				if len(n.P) > 0 {
					if lo >= len(n.P) {
						return nil
					}
					n.P = append(append([]P{}, n.P[:lo]...), n.P[minInt(hi, len(n.P)):]...)
				} else {
					if lo >= len(n.L) {
						return nil
					}
					n.L = append(append([]*N{}, n.L[:lo]...), n.L[minInt(hi, len(n.L)):]...)
				}
				return q
			})
		}
	}
	// spelling, then values
	for _, f := range []func(*N, int) bool{
		func(n *N, _ int) bool { c := n.S != "" || n.C != "" || n.A != ""; n.S, n.C, n.A = "", "", ""; return c },
		func(n *N, i int) bool {
			if v := "x" + strconv.Itoa(i); n.K == "s" && n.T == tStr && len(n.V) > len(v) {
				n.V = v
				return true
			}
			return false
		},
	} {
		// all at once
		q := s.last().clone()
		changed := false
		var sc []*N
		for _, r := range q.roots() {
			scalars(r, &sc)
		}
		for i, n := range sc {
			changed = f(n, i) || changed
		}
		if changed && s.tryAll([]*Plan{q}) {
			continue
		}
		for i := 0; i < 400 && !s.out(); i++ {
			q := s.last().clone()
			var sc []*N
			for _, r := range q.roots() {
				scalars(r, &sc)
			}
			if i >= len(sc) {
				break
			}
			if f(sc[i], i) {
				s.tryAll([]*Plan{q})
			}
		}
	}
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// damaged shortens damaged input.
func (s *shrinker) damaged() {
	for n := 0; n < s.last().nOps() && !s.out(); n++ {
		n := n
		if len(s.last().opAt(n).B) == 0 {
			continue
		}
		s.chunks(func() int { return len(s.last().opAt(n).B) }, func(lo, hi int) *Plan {
			q := s.last().clone()
			op := q.opAt(n)
			if lo >= len(op.B) {
				return nil
			}
			op.B = append(append([]byte{}, op.B[:lo]...), op.B[minInt(hi, len(op.B)):]...)
			return q
		})
	}
}

// schedule removes context switches.
func (s *shrinker) schedule() {
	if !s.last().UseSch {
		return
	}
	s.chunks(func() int { return len(s.last().Sched) }, func(lo, hi int) *Plan {
		q := s.last().clone()
		sw := q.Sched
		if lo >= len(sw) {
			return nil
		}
		hi = minInt(hi, len(sw))
		var out []simrt.Switch
		out = append(out, sw[:lo]...)
		add := int64(0)
		for _, x := range sw[lo:hi] {
			add += x.N
		}
		for i, x := range sw[hi:] {
			if i == 0 {
				x.N += add
			}
			out = append(out, x)
		}
		q.Sched = out
		return q
	})
}

func shrinkMode(args []string) {
	fs := flag.NewFlagSet("shrink", flag.ExitOnError)
	secs := fs.Float64("secs", 20, "")
	out := fs.String("o", "", "")
	fs.Parse(args)
	r := readReplay(fs.Arg(0))
	s := &shrinker{best: r, class: r.Violation.Class, tries: r.Tries, end: time.Now().Add(time.Duration(*secs * float64(time.Second)))}
	if s.tries < 1 {
		s.tries = 1
	}
	s.run()
	final := s.best
	for i := 0; i < 5*s.tries; i++ {
		if a, err := fresh(final, true); err == nil && a.Viol != nil && a.Viol.Class == s.class {
			final.Violation, final.Trace = a.Viol, a.Trace
			break
		}
	}
	final.Texts = nil
	for _, d := range s.last().Docs {
		t := d.text()
		if len(t) > 4000 {
			t = t[:4000] + "..."
		}
		final.Texts = append(final.Texts, t)
	}
	f, err := os.Create(*out)
	if err != nil {
		die("%v", err)
	}
	enc := json.NewEncoder(f)
	enc.SetIndent("", " ")
	enc.Encode(final)
	f.Close()
}
