package main

// Two threads, every schedule. vPar(root, nameA, a, nameB, b) executes a and then b symbolically and records, for
// each, the lock operations and the accesses to cells, maps and big integers that the two can share. For every pair
// of recorded runs an SMT query then asks for a schedule of the two event sequences - positions of events are solver
// variables, critical sections exclude each other, a thread reaches data published by the other only after the
// publication - that ends in a data race (two conflicting accesses with nothing between them) or in a deadlock.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type parEv struct {
	op   string // L U RL RU, or A: the accesses made between two other events
	lock int
	acc  map[interface{}]bool // accessed object -> written
	pub  int                  // a position of the other thread (+1) this segment needs, 0: none
	at   string
}

type sharedObj struct {
	name string
	typ  types.Type
	pub  int // event of the first thread (+1) that published it; 0: shared from the start
}

// parGo: a goroutine started by one of the two threads.
type parGo struct {
	evs    []*parEv
	second bool // started by the second thread
	spawn  int  // number of events of the thread before it was started
}

type parRec struct {
	first  bool
	shared map[interface{}]*sharedObj
	seen   map[interface{}]bool
	evs    []*parEv
	locks  map[*Value]int
	gos    []parGo
}

func (p *parRec) seg() *parEv {
	if n := len(p.evs); n > 0 && p.evs[n-1].op == "A" {
		return p.evs[n-1]
	}
	e := &parEv{op: "A", acc: map[interface{}]bool{}}
	p.evs = append(p.evs, e)
	return e
}

func (m *Machine) access(obj interface{}, write bool) {
	p := m.par
	if p == nil {
		return
	}
	if c, ok := obj.(*Value); ok {
		if c == nil {
			return
		}
		switch v := (*c).(type) {
		case Struct:
			for i := range v {
				m.access(&v[i], write)
			}
			return
		case Array:
			for i := range v {
				m.access(&v[i], write)
			}
			return
		}
	}
	so := p.shared[obj]
	if so == nil {
		return
	}
	e := p.seg()
	if w, ok := e.acc[obj]; !ok || write && !w {
		e.acc[obj] = write
		if so.pub > e.pub {
			e.pub = so.pub
		}
		if e.at == "" {
			e.at = m.where()
		}
	}
}

// published: v was stored into the object dst; what it refers to is shared from now on.
func (m *Machine) published(dst interface{}, v Value) {
	p := m.par
	if p == nil || !m.track || !p.first {
		return
	}
	if c, ok := dst.(*Value); ok && c != nil {
		switch x := (*c).(type) {
		case Struct:
			for i := range x {
				m.published(&x[i], x[i])
			}
			return
		case Array:
			for i := range x {
				m.published(&x[i], x[i])
			}
			return
		}
	}
	so := p.shared[dst]
	if so == nil {
		return
	}
	n := len(p.shared)
	pub := len(p.evs) // the segment with the store is the last event: position len-1, +1
	if mp, ok := dst.(*MapV); ok {
		mt, _ := so.typ.Underlying().(*types.Map)
		if mt != nil && mp != nil {
			m.markVal(v, mt.Elem(), so.name+"[*]", pub)
		}
	} else {
		m.markVal(v, so.typ, so.name, pub)
	}
	if len(p.shared) > n {
		p.evs = append(p.evs, &parEv{op: "A", acc: map[interface{}]bool{}}) // later accesses are a segment of their own
	}
}

func (m *Machine) markCell(c *Value, t types.Type, name string, pub int) {
	p := m.par
	if c == nil || p.seen[c] {
		return
	}
	p.seen[c] = true
	switch v := (*c).(type) {
	case Struct:
		if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() == len(v) {
			for i := range v {
				m.markCell(&v[i], st.Field(i).Type(), name+"."+st.Field(i).Name(), pub)
			}
		}
		return
	case Array:
		if at, ok := t.Underlying().(*types.Array); ok {
			for i := range v {
				m.markCell(&v[i], at.Elem(), name+"[*]", pub)
			}
		}
		return
	}
	p.shared[c] = &sharedObj{name, t, pub}
	m.markVal(*c, t, name, pub)
}

func (m *Machine) markVal(v Value, t types.Type, name string, pub int) {
	p := m.par
	switch v := v.(type) {
	case *Value:
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			m.markCell(v, pt.Elem(), name, pub)
		}
	case []Value:
		if st, ok := t.Underlying().(*types.Slice); ok {
			for i := range v[:cap(v)] {
				m.markCell(&v[:cap(v)][i], st.Elem(), name+"[*]", pub)
			}
		}
	case *MapV:
		mt, ok := t.Underlying().(*types.Map)
		if v == nil || p.seen[v] || !ok {
			return
		}
		p.seen[v] = true
		p.shared[v] = &sharedObj{name, t, pub}
		for _, e := range v.es {
			if !e.dead {
				m.markVal(e.v, mt.Elem(), name+"[*]", pub)
			}
		}
	case Struct:
		if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() == len(v) {
			for i := range v {
				m.markVal(v[i], st.Field(i).Type(), name+"."+st.Field(i).Name(), pub)
			}
		}
	case Array:
		if at, ok := t.Underlying().(*types.Array); ok {
			for i := range v {
				m.markVal(v[i], at.Elem(), name+"[*]", pub)
			}
		}
	case Iface:
		if v.t != nil {
			m.markVal(v.v, v.t, name, pub)
		}
	case *Closure:
		if v != nil {
			for i, b := range v.fn.FreeVars {
				if i < len(v.env) {
					m.markVal(v.env[i], b.Type(), name+"("+b.Name()+")", pub)
				}
			}
		}
	}
}

// markGlobals: the package variables of the code under test (not those of the harness).
func (m *Machine) markGlobals() {
	var gs []*ssa.Global
	for g := range m.globals {
		if g.Pkg == nil || !strings.Contains(g.Pkg.Pkg.Path(), "mev-sp-oracle") || strings.HasPrefix(g.Name(), "VStub_") || strings.Contains(g.Name(), "$") {
			continue
		}
		if f := m.E.prog.Fset.Position(g.Pos()).Filename; strings.Contains(f, "zz_verif") || strings.Contains(f, "/contract/") {
			continue
		}
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		m.markCell(m.globals[g], g.Type().Underlying().(*types.Pointer).Elem(), g.Pkg.Pkg.Name()+"."+g.Name(), 0)
	}
}

func (p *parRec) lockEv(l *Value, op string, where string) {
	id, ok := p.locks[l]
	if !ok {
		id = len(p.locks)
		p.locks[l] = id
	}
	p.evs = append(p.evs, &parEv{op: op, lock: id, at: where})
}

// vPar runs the two threads one after the other and then decides all their schedules.
func (m *Machine) vPar(root Iface, na string, fa Value, nb string, fb Value, fr *frame) {
	rec := &parRec{first: true, shared: map[interface{}]*sharedObj{}, seen: map[interface{}]bool{}, locks: map[*Value]int{}}
	m.par = rec
	m.markVal(root.v, root.t, "", 0)
	m.markGlobals()
	held := m.heldLocks()
	run := func(name string, f Value) []*parEv {
		rec.evs = nil
		m.track = true
		m.par = rec
		defer func() { m.track, m.par = false, nil }()
		m.call(f, nil, fr)
		evs := rec.evs
		m.track = false
		if h := m.heldLocks(); h != held {
			if !m.replaying() {
				m.violation("a lock is kept: "+name, "lock", "held after the call: "+h, nil)
			}
			panic(pathAbort{"infeasible", "lock kept"})
		}
		return evs
	}
	ea := run(na, fa)
	rec.first = false
	eb := run(nb, fb)
	if m.replaying() {
		return
	}
	m.schedules(na, ea, nb, eb, rec)
	for _, g := range rec.gos {
		on, oe, tn := na, ea, nb
		te := eb
		if g.second {
			on, oe, tn, te = nb, eb, na, ea
		}
		// against the thread that started it: nothing of it comes before its start
		own := make([]*parEv, len(g.evs))
		for i, e := range g.evs {
			x := *e
			if g.spawn > 0 {
				x.pub = g.spawn
			}
			own[i] = &x
		}
		m.schedules(on, oe, "go:"+on, own, rec)
		m.schedules(tn, te, "go:"+on, g.evs, rec)
	}
}

// parGo records a goroutine started by a thread as a thread of its own.
func (m *Machine) parGo(f func()) {
	p := m.par
	evs, first, locks := p.evs, p.first, m.locks
	p.evs, m.locks = nil, map[*Value]*lockState{}
	second := !first
	p.first = false
	f()
	p.gos = append(p.gos, parGo{p.evs, second, len(evs)})
	p.evs, p.first, m.locks = evs, first, locks
	if n := len(p.evs); n > 0 {
		p.evs = append(p.evs, &parEv{op: "A", acc: map[interface{}]bool{}})
	}
}

func (m *Machine) heldLocks() string {
	n := 0
	for _, l := range m.locks {
		n += l.w + l.r
	}
	return fmt.Sprint(n)
}

func parKey(na string, ea []*parEv, nb string, eb []*parEv, rec *parRec) string {
	var sb strings.Builder
	sb.WriteString(na + "|" + nb)
	w := func(es []*parEv) {
		sb.WriteString("/")
		for _, e := range es {
			if e.op != "A" {
				fmt.Fprintf(&sb, "%s%d;", e.op, e.lock)
				continue
			}
			var ks []string
			for o, wr := range e.acc {
				ks = append(ks, fmt.Sprintf("%s:%v", rec.shared[o].name, wr))
			}
			sort.Strings(ks)
			fmt.Fprintf(&sb, "A%d%v;", e.pub, ks)
		}
	}
	w(ea)
	w(eb)
	return sb.String()
}

func (m *Machine) schedules(na string, ea []*parEv, nb string, eb []*parEv, rec *parRec) {
	key := parKey(na, ea, nb, eb, rec)
	m.E.mu.Lock()
	if m.E.parDone == nil {
		m.E.parDone = map[string]bool{}
	}
	done := m.E.parDone[key]
	m.E.parDone[key] = true
	m.E.mu.Unlock()
	m.stat("no schedule of " + na + " and " + nb + " races or deadlocks").Solver++
	if done {
		return
	}
	s, err := NewSolver(solverBin(), 30000, "-in", "-smt2")
	if err != nil {
		m.unknownLabels = append(m.unknownLabels, "schedules: "+err.Error())
		return
	}
	defer func() {
		m.s.Queries += s.Queries
		m.s.NSat += s.NSat
		m.s.NUnsat += s.NUnsat
		m.s.NUnknown += s.NUnknown
		m.s.Time += s.Time
		s.Close()
	}()
	c := NewCtx()
	s.Begin(c)
	na_, nb_ := int64(len(ea)), int64(len(eb))
	hi := big.NewInt(na_ + nb_ + 1)
	ia := c.Var("cutA", b0, big.NewInt(na_))
	ib := c.Var("cutB", b0, big.NewInt(nb_))
	mk := func(n string, k int) []*Term {
		out := make([]*Term, k)
		for i := range out {
			out[i] = c.Var(fmt.Sprintf("%s%d", n, i), b0, hi)
			if i > 0 {
				s.Assert(c.Lt(out[i-1], out[i]))
			}
		}
		return out
	}
	xa, xb := mk("a", len(ea)), mk("b", len(eb))
	exA := func(i int) *Term { return c.Lt(c.I(int64(i)), ia) }
	exB := func(i int) *Term { return c.Lt(c.I(int64(i)), ib) }
	// critical sections: start, end (-1: still held at the end), exclusive
	type cs struct {
		l, s, e int
		w       bool
	}
	sections := func(es []*parEv) []cs {
		var out []cs
		for i, e := range es {
			if e.op != "L" && e.op != "RL" {
				continue
			}
			x := cs{e.lock, i, -1, e.op == "L"}
			un, d := map[string]string{"L": "U", "RL": "RU"}[e.op], 0
			for j := i + 1; j < len(es); j++ {
				if es[j].lock != e.lock {
					continue
				}
				if es[j].op == e.op {
					d++
				} else if es[j].op == un {
					if d == 0 {
						x.e = j
						break
					}
					d--
				}
			}
			out = append(out, x)
		}
		return out
	}
	ca, cb := sections(ea), sections(eb)
	for _, x := range ca {
		for _, y := range cb {
			if x.l != y.l || !x.w && !y.w {
				continue
			}
			before := func(ex func(int) *Term, xs []*Term, e int, other *Term) *Term {
				if e < 0 {
					return TFalse
				}
				return c.And(ex(e), c.Lt(xs[e], other))
			}
			s.Assert(c.Or(c.Not(exA(x.s)), c.Not(exB(y.s)), before(exA, xa, x.e, xb[y.s]), before(exB, xb, y.e, xa[x.s])))
		}
	}
	// events executed before the cut lie below it, and data of the first thread is reached after its publication
	for i, e := range eb {
		if e.pub > 0 && e.pub <= len(ea) {
			s.Assert(c.Or(c.Lt(ib, c.I(int64(i))), c.And(exA(e.pub-1), c.Or(c.Not(exB(i)), c.Lt(xa[e.pub-1], xb[i])))))
		}
	}
	sched := func(md *Model) string {
		ka, kb := int(md.Eval(ia).Int64()), int(md.Eval(ib).Int64())
		type pe struct {
			x int64
			t string
		}
		var ps []pe
		add := func(es []*parEv, xs []*Term, k int, n string) {
			for i := 0; i < k; i++ {
				if es[i].op != "A" {
					ps = append(ps, pe{md.Eval(xs[i]).Int64(), fmt.Sprintf("%s:%s%d", n, es[i].op, es[i].lock)})
				}
			}
		}
		add(ea, xa, ka, na)
		add(eb, xb, kb, nb)
		sort.SliceStable(ps, func(i, j int) bool { return ps[i].x < ps[j].x })
		var o []string
		for _, p := range ps {
			o = append(o, p.t)
		}
		at := func(es []*parEv, k int, n string) string {
			if k >= len(es) {
				return n + " at its end"
			}
			return n + " next " + es[k].op + " @ " + es[k].at
		}
		return "schedule [" + strings.Join(o, " ") + "], " + at(ea, ka, na) + ", " + at(eb, kb, nb)
	}
	// races
	var names []string
	for {
		var cand []*Term
		type pr struct {
			i, j int
			n    string
		}
		var prs []pr
		for i, x := range ea {
			if x.op != "A" {
				continue
			}
			for j, y := range eb {
				if y.op != "A" {
					continue
				}
				best := ""
				for o, w := range x.acc {
					w2, ok := y.acc[o]
					if !ok || !w && !w2 {
						continue
					}
					n := rec.shared[o].name
					if contains(names, n) {
						continue
					}
					if best == "" || n < best {
						best = n
					}
				}
				if best != "" {
					cand = append(cand, c.And(c.Eq(ia, c.I(int64(i))), c.Eq(ib, c.I(int64(j)))))
					prs = append(prs, pr{i, j, best})
				}
			}
		}
		if len(cand) == 0 || len(names) >= 4 {
			break
		}
		r, md := s.Check(c.Or(cand...), true)
		if r == Unknown {
			m.unknownLabels = append(m.unknownLabels, "schedules of "+na+" and "+nb)
		}
		if r != Sat {
			break
		}
		for k, t := range cand {
			if md.Bool(t) {
				names = append(names, prs[k].n)
				m.violation("race:"+prs[k].n+":"+na+"/"+nb, "race", sched(md), nil)
				break
			}
		}
	}
	// deadlocks
	heldBy := func(css []cs, ex func(int) *Term, l int, w bool) *Term {
		var ts []*Term
		for _, x := range css {
			if x.l != l || w && !x.w {
				continue
			}
			t := ex(x.s)
			if x.e >= 0 {
				t = c.And(t, c.Not(ex(x.e)))
			}
			ts = append(ts, t)
		}
		return c.Or(ts...)
	}
	nextIs := func(es []*parEv, cut *Term, op string, l int) *Term {
		var ts []*Term
		for i, e := range es {
			if e.op == op && e.lock == l {
				ts = append(ts, c.Eq(cut, c.I(int64(i))))
			}
		}
		return c.Or(ts...)
	}
	blocked := func(self []*parEv, cut *Term, own []cs, exOwn func(int) *Term, oth []*parEv, cutO *Term, oc []cs, exO func(int) *Term) *Term {
		var ts []*Term
		for i, e := range self {
			var t *Term
			switch e.op {
			case "L":
				t = c.Or(heldBy(own, exOwn, e.lock, false), heldBy(oc, exO, e.lock, false))
			case "RL":
				anyR := c.Or(heldBy(own, exOwn, e.lock, false), heldBy(oc, exO, e.lock, false))
				t = c.Or(heldBy(own, exOwn, e.lock, true), heldBy(oc, exO, e.lock, true), c.And(anyR, nextIs(oth, cutO, "L", e.lock)))
			default:
				continue
			}
			ts = append(ts, c.And(c.Eq(cut, c.I(int64(i))), t))
		}
		return c.Or(ts...)
	}
	ba := blocked(ea, ia, ca, exA, eb, ib, cb, exB)
	bb := blocked(eb, ib, cb, exB, ea, ia, ca, exA)
	enda, endb := c.Eq(ia, c.I(na_)), c.Eq(ib, c.I(nb_))
	dead := c.Or(c.And(ba, c.Or(bb, endb)), c.And(bb, enda))
	r, md := s.Check(dead, true)
	switch r {
	case Unknown:
		m.unknownLabels = append(m.unknownLabels, "schedules of "+na+" and "+nb)
	case Sat:
		m.violation("deadlock:"+na+"/"+nb, "deadlock", sched(md), nil)
	}
}

func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}
