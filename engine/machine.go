package main

// The symbolic machine: executes go/ssa functions of the loaded program on
// symbolic values along one path (decisions are replayed from a prefix).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Decision struct {
	forced bool
	val    int
}

type Input struct {
	Name string
	Kind string // int, bool, pick
	t    *Term
	pick int
}

type Obs struct {
	Label string
	t     Value
}

// path abort kinds
type pathAbort struct {
	kind string // unsupported, infeasible, limit, done
	msg  string
}
type targetPanic struct {
	v   Value
	msg string
}
type fatalExit struct{ msg string }

type Machine struct {
	inGo int // goroutines being run at their start
	E    *Engine
	c    *Ctx
	s    *Solver
	pc   []*Term
	pre  []Decision
	tr   []Decision
	mods []*Model

	inputs  []Input
	obs     []Obs
	reached []string

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]int
	mapMode int

	steps    int64
	maxSteps int64
	depth    int
	deadline time.Time

	asserts   int // assertions discharged by the solver on this path
	trivial   int // assertions that simplified to true
	unknowns  int
	viol      []*Violation
	notes     []string
	funcs     map[*ssa.Function]int
	nvar      int
	native    map[interface{}]interface{}
	fs        *SymFS
	lockTrace *LockTrace
	track     bool
	par       *parRec
	exitHook  func(code Value)
	callDepthFns []*ssa.Function
	clock     *Term
	curPos    token.Pos
	stackDbg  []string

	locks         map[*Value]*lockState
	assertStats   map[string]*AssertStat
	unknownLabels []string
	traces        []*TraceRec
}

type Violation struct {
	Label  string
	Kind   string // assert, panic, fatal
	Msg    string
	Inputs []ReplayVal
	Trace  []Decision
	Seed   int
	MapMode int
}

type ReplayVal struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

func (m *Machine) unsupported(msg string) {
	panic(pathAbort{"unsupported", msg + " @ " + m.where()})
}
func (m *Machine) where() string {
	var sb strings.Builder
	n := len(m.callDepthFns)
	for i := n - 1; i >= 0 && i >= n-7; i-- {
		sb.WriteString(m.callDepthFns[i].String())
		sb.WriteString(" < ")
	}
	if m.curPos.IsValid() {
		sb.WriteString(m.E.prog.Fset.Position(m.curPos).String())
	}
	return sb.String()
}
func (m *Machine) panicRT(msg string) {
	panic(targetPanic{v: Iface{}, msg: "runtime error: " + msg + " @ " + m.where()})
}

// ---- decisions ----

func (m *Machine) replaying() bool { return len(m.tr) < len(m.pre) }

func (m *Machine) assertPC(t *Term) {
	if t.isTrue() {
		return
	}
	m.pc = append(m.pc, t)
	m.s.Assert(t)
	if len(m.mods) > 0 {
		out := m.mods[:0]
		for _, md := range m.mods {
			if md.Bool(t) {
				out = append(out, md)
			}
		}
		m.mods = out
	}
}

func (m *Machine) addModel(md *Model) {
	if md == nil {
		return
	}
	// keep only models consistent with the path condition under our own evaluation
	for _, t := range m.pc {
		if !md.Bool(t) {
			return
		}
	}
	if len(m.mods) >= 6 {
		m.mods = m.mods[1:]
	}
	m.mods = append(m.mods, md)
}

// sat reports whether pc && t is satisfiable (unknown counts as true).
func (m *Machine) sat(t *Term) bool {
	if t.isTrue() {
		return true
	}
	if t.isFalse() {
		return false
	}
	for _, md := range m.mods {
		if md.Bool(t) {
			return true
		}
	}
	r, md := m.s.Check(t, true)
	if r == Sat {
		m.addModel(md)
	}
	if r == Unknown {
		m.unknowns++
	}
	m.checkTime()
	return r != Unsat
}

func (m *Machine) checkTime() {
	if m.s.dead {
		panic(pathAbort{"solver", "solver process died"})
	}
	if !m.deadline.IsZero() && time.Now().After(m.deadline) {
		panic(pathAbort{"limit", "time"})
	}
}

// branch decides a boolean condition, forking if both outcomes are feasible.
func (m *Machine) branch(t *Term) bool {
	if t.isTrue() {
		return true
	}
	if t.isFalse() {
		return false
	}
	if m.replaying() {
		d := m.pre[len(m.tr)]
		m.tr = append(m.tr, d)
		if !d.forced {
			if d.val == 1 {
				m.assertPC(t)
			} else {
				m.assertPC(m.c.Not(t))
			}
		}
		return d.val == 1
	}
	ts := m.sat(t)
	fs := true
	if ts {
		fs = m.sat(m.c.Not(t))
	}
	switch {
	case ts && fs:
		m.E.profFork(m)
		m.fork(Decision{false, 0})
		m.tr = append(m.tr, Decision{false, 1})
		m.assertPC(t)
		return true
	case ts:
		m.tr = append(m.tr, Decision{true, 1})
		return true
	default:
		m.tr = append(m.tr, Decision{true, 0})
		return false
	}
}

func (m *Machine) fork(alt Decision) {
	p := make([]Decision, len(m.tr)+1)
	copy(p, m.tr)
	p[len(m.tr)] = alt
	m.E.push(p)
}

// must reports whether t holds on every completion (no forking).
func (m *Machine) must(t *Term) bool {
	if t.isTrue() {
		return true
	}
	if t.isFalse() {
		return false
	}
	if m.replaying() {
		d := m.pre[len(m.tr)]
		m.tr = append(m.tr, d)
		return d.val == 1
	}
	r := !m.sat(m.c.Not(t))
	v := 0
	if r {
		v = 1
	}
	m.tr = append(m.tr, Decision{true, v})
	return r
}

// choose picks one of n alternatives (all feasible).
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.replaying() {
		d := m.pre[len(m.tr)]
		m.tr = append(m.tr, d)
		return d.val
	}
	for i := n - 1; i >= 1; i-- {
		m.fork(Decision{false, i})
	}
	m.tr = append(m.tr, Decision{false, 0})
	return 0
}

// concretize forks t over its feasible values in [0,n).
func (m *Machine) concretize(t *Term, n int) int {
	if t.isConst() {
		return int(t.k.Int64())
	}
	for i := 0; i < n-1; i++ {
		if m.branch(m.c.Eq(t, m.c.I(int64(i)))) {
			return i
		}
	}
	if m.branch(m.c.Eq(t, m.c.I(int64(n-1)))) {
		return n - 1
	}
	panic(pathAbort{"limit", "concretisation range exceeded"})
}

// ---- calls ----

type deferred struct {
	fn   Value
	args []Value
	inst *ssa.Defer
}

type frame struct {
	m         *Machine
	fn        *ssa.Function
	env       map[ssa.Value]Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []deferred
	result    Value
	panicking bool
	panicV    interface{}
	caller    *frame
	recovered bool
	boundEnv  []Value
}

func (m *Machine) call(fv Value, args []Value, caller *frame) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			m.panicRT("nil function call")
		}
		return m.callSSA(f, args, nil, caller)
	case *Closure:
		if f == nil {
			m.panicRT("nil function call")
		}
		return m.callSSA(f.fn, args, f.env, caller)
	case *ssa.Builtin:
		return m.builtin(f.Name(), nil, args, caller)
	case Native:
		if nf, ok := f.p.(func(m *Machine, args []Value) Value); ok {
			return nf(m, args)
		}
	case nil:
		m.panicRT("nil function call")
	}
	m.unsupported(fmt.Sprintf("call of %T", fv))
	return nil
}

func (m *Machine) callSSA(fn *ssa.Function, args []Value, env []Value, caller *frame) Value {
	if v, ok := m.intrinsic(fn, args, caller); ok {
		return v
	}
	if fn.Blocks == nil {
		m.unsupported("function without body: " + fn.String())
	}
	m.depth++
	if m.depth > 2000 {
		panic(pathAbort{"limit", "call depth"})
	}
	if m.E.coverage {
		m.funcs[fn]++
	}
	m.callDepthFns = append(m.callDepthFns, fn)
	fr := &frame{m: m, fn: fn, env: make(map[ssa.Value]Value, 16), caller: caller}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = env[i]
	}
	for _, l := range fn.Locals {
		v := new(Value)
		*v = m.zero(l.Type().Underlying().(*types.Pointer).Elem())
		fr.env[l] = v
	}
	fr.block = fn.Blocks[0]
	fr.run()
	m.depth--
	m.callDepthFns = m.callDepthFns[:len(m.callDepthFns)-1]
	return fr.result
}

// run executes the frame including panics and defers.
func (fr *frame) run() {
	m := fr.m
	depth, nf := m.depth, len(m.callDepthFns)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(targetPanic); ok {
					fr.panicking = true
					fr.panicV = r
					m.depth = depth
					m.callDepthFns = m.callDepthFns[:nf]
					return
				}
				panic(r)
			}
		}()
		fr.exec()
	}()
	if fr.panicking {
		fr.runDefers()
		if fr.panicking {
			panic(fr.panicV)
		}
		// recovered
		if fr.fn.Recover != nil {
			fr.block = fr.fn.Recover
			fr.prev = nil
			fr.exec()
		} else {
			fr.result = m.zeroResult(fr.fn)
		}
	}
}

func (m *Machine) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	return m.zero(r)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(targetPanic); ok {
						fr.panicking = true
						fr.panicV = r
						return
					}
					panic(r)
				}
			}()
			fr.m.call(d.fn, d.args, fr)
		}()
	}
}

func (fr *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return fr.m.constVal(v)
	case *ssa.Global:
		return fr.m.global(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
}

func (m *Machine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return m.c.Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return m.c.I(i)
			}
			bi, _ := new(big.Int).SetString(v.ExactString(), 10)
			return m.c.B(bi)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return S(constant.StringVal(c.Value))
			}
			i, _ := constant.Int64Val(c.Value)
			return S(string(rune(i)))
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return Float{true, f}
		}
	}
	m.unsupported("constant " + c.String())
	return nil
}

func (m *Machine) global(g *ssa.Global) Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	m.initPkg(g.Pkg)
	if p, ok := m.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = m.zero(g.Type().Underlying().(*types.Pointer).Elem())
	m.globals[g] = p
	return p
}

// initPkg runs the variable initialisers and init functions of one package,
// lazily, when one of its globals is first needed.
func (m *Machine) initPkg(p *ssa.Package) {
	if m.inited[p] != 0 {
		return
	}
	m.inited[p] = 1
	init := p.Func("init")
	if init == nil || init.Blocks == nil || m.E.skipInit(p.Pkg.Path()) {
		return
	}
	// fresh cells for every global of the package first
	for _, mem := range p.Members {
		if g, ok := mem.(*ssa.Global); ok {
			if _, ok := m.globals[g]; !ok {
				c := new(Value)
				*c = m.zero(g.Type().Underlying().(*types.Pointer).Elem())
				m.globals[g] = c
			}
		}
	}
	save := m.lockTrace
	m.lockTrace = nil
	tk := m.track
	m.track = false
	m.callSSA(init, nil, nil, nil)
	m.track = tk
	m.lockTrace = save
}

func (m *Machine) tick() {
	m.steps++
	if m.steps&0xfff == 0 {
		if m.steps > m.maxSteps {
			panic(pathAbort{"limit", "steps @ " + m.where()})
		}
		m.checkTime()
	}
}

var profMu sync.Mutex
var forkProf = map[string]int{}

func (e *Engine) profFork(m *Machine) {
	if !e.prof {
		return
	}
	k := m.where()
	profMu.Lock()
	forkProf[k]++
	profMu.Unlock()
}

// exec runs blocks until return.
func (fr *frame) exec() {
	m := fr.m
	for {
		b := fr.block
		// phis first (parallel assignment)
		i := 0
		if fr.prev != nil {
			var pv []Value
			for i < len(b.Instrs) {
				phi, ok := b.Instrs[i].(*ssa.Phi)
				if !ok {
					break
				}
				for j, p := range b.Preds {
					if p == fr.prev {
						pv = append(pv, fr.get(phi.Edges[j]))
						break
					}
				}
				i++
			}
			for j := 0; j < i; j++ {
				fr.env[b.Instrs[j].(*ssa.Phi)] = pv[j]
			}
		}
		var next *ssa.BasicBlock
		for ; i < len(b.Instrs); i++ {
			m.tick()
			in := b.Instrs[i]
			if p := in.Pos(); p.IsValid() {
				m.curPos = p
			}
			switch in := in.(type) {
			case *ssa.If:
				cond := fr.get(in.Cond).(*Term)
				if !cond.isTrue() && !cond.isFalse() {
					if mb := fr.tryMerge(b, cond); mb != nil {
						next = mb
						break
					}
				}
				if m.branch(cond) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
				fr.prev = b
			case *ssa.Jump:
				next = b.Succs[0]
				fr.prev = b
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
				case 1:
					fr.result = fr.get(in.Results[0])
				default:
					t := make(Tuple, len(in.Results))
					for j, r := range in.Results {
						t[j] = fr.get(r)
					}
					fr.result = t
				}
				return
			case *ssa.RunDefers:
				fr.runDefers()
				if fr.panicking {
					panic(fr.panicV)
				}
			case *ssa.Panic:
				v := fr.get(in.X)
				panic(targetPanic{v: v, msg: "panic @ " + m.where()})
			default:
				fr.instr(in)
			}
		}
		if next == nil {
			panic("fell off block")
		}
		fr.block = next
	}
}

// tryMerge performs if-conversion for short-circuit style regions: both
// branches reach the same join block through pure instructions only. On
// success the join block's phis are set to ite terms and the join block is
// returned with fr.prev=nil handled by pre-set phi values.
func (fr *frame) tryMerge(b *ssa.BasicBlock, cond *Term) *ssa.BasicBlock {
	m := fr.m
	if m.E.noMerge {
		return nil
	}
	// candidate join: a block J with phis such that each successor is J or a
	// small pure region leading to J.
	for _, j := range mergeCands(b) {
		vals, ok := fr.regionVals(b, j, cond)
		if ok {
			phis := phisOf(j)
			for k, p := range phis {
				fr.env[p] = vals[k]
			}
			fr.prev = nil
			// skip the phi instructions: exec starts at index 0 when prev==nil,
			// so phi instructions must be ignored there
			return j
		}
	}
	return nil
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func mergeCands(b *ssa.BasicBlock) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	add := func(x *ssa.BasicBlock) {
		for _, y := range out {
			if y == x {
				return
			}
		}
		if len(x.Preds) >= 2 && x != b {
			out = append(out, x)
		}
	}
	for _, s := range b.Succs {
		add(s)
		for _, s2 := range s.Succs {
			add(s2)
			if len(s.Succs) <= 2 {
				for _, s3 := range s2.Succs {
					add(s3)
				}
			}
		}
	}
	return out
}

var pureCache sync.Map

func pureBlock(b *ssa.BasicBlock) bool {
	if v, ok := pureCache.Load(b); ok {
		return v.(bool)
	}
	r := true
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.BinOp:
			switch in.Op {
			case token.QUO, token.REM, token.SHL, token.SHR:
				r = false
			default:
				if bt, ok := in.X.Type().Underlying().(*types.Basic); !ok || bt.Info()&(types.IsInteger|types.IsBoolean|types.IsString) == 0 {
					r = false
				}
			}
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				r = false
			}
			if in.Op == token.MUL {
				// loads through field addresses of a known pointer
				if !pureAddr(in.X) {
					r = false
				}
			}
		case *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType, *ssa.Field:
		case *ssa.FieldAddr, *ssa.IndexAddr:
			r = r && pureAddr(in.(ssa.Value))
		case *ssa.Call:
			r = r && pureCall(in)
		default:
			r = false
		}
		if !r {
			break
		}
	}
	if len(b.Instrs) > 24 {
		r = false
	}
	pureCache.Store(b, r)
	return r
}

func pureAddr(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return true
	case *ssa.IndexAddr:
		_, c := v.Index.(*ssa.Const)
		return c
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Global, *ssa.Parameter:
		return true
	}
	return false
}

// pureCalls lists callees that are total and free of side effects under the
// engine's models, so that they may be evaluated speculatively.
var pureCallees = map[string]bool{
	"(*math/big.Int).Cmp": true, "(*math/big.Int).Sign": true,
	"strings.ToLower": true, "strings.ToUpper": true, "(*math/big.Int).Uint64": true, "(*math/big.Int).Int64": true,
	"strings.EqualFold": true, "strings.HasPrefix": true, "strings.HasSuffix": true,
}

func pureCall(c *ssa.Call) bool {
	if f := c.Call.StaticCallee(); f != nil {
		return pureCallees[f.String()]
	}
	return false
}

// regionVals evaluates the region between b (ending in an If on cond) and j
// symbolically and returns the values of j's phis.
func (fr *frame) regionVals(b, j *ssa.BasicBlock, cond *Term) (vals []Value, ok bool) {
	m := fr.m
	phis := phisOf(j)
	if len(phis) == 0 {
		return nil, false
	}
	// every value flowing into j from the region must be mergeable
	type leaf struct {
		guard *Term
		from  *ssa.BasicBlock
		vals  []Value
	}
	var leaves []leaf
	n := 0
	failed := false
	saved := map[ssa.Value]Value{}
	var walk func(from, to *ssa.BasicBlock, guard *Term)
	walk = func(from, to *ssa.BasicBlock, guard *Term) {
		if failed || guard.isFalse() {
			return
		}
		if to == j {
			vs := make([]Value, len(phis))
			for k, p := range phis {
				idx := -1
				for q, pr := range j.Preds {
					if pr == from {
						idx = q
						break
					}
				}
				e := p.Edges[idx]
				if _, isC := e.(*ssa.Const); !isC {
					if _, has := fr.env[e]; !has {
						switch e.(type) {
						case *ssa.Global, *ssa.Function, *ssa.Builtin:
						default:
							failed = true
							return
						}
					}
				}
				vs[k] = fr.get(e)
			}
			leaves = append(leaves, leaf{guard, from, vs})
			return
		}
		n++
		if n > 12 || !pureBlock(to) || len(to.Preds) != 1 {
			failed = true
			return
		}
		for _, in := range to.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				failed = true
				return
			case *ssa.Jump:
				walk(to, to.Succs[0], guard)
				return
			case *ssa.If:
				ct, isT := fr.get(in.Cond).(*Term)
				if !isT {
					failed = true
					return
				}
				walk(to, to.Succs[0], m.c.And(guard, ct))
				walk(to, to.Succs[1], m.c.And(guard, m.c.Not(ct)))
				return
			case *ssa.DebugRef:
			default:
				v, isV := in.(ssa.Value)
				if !isV {
					failed = true
					return
				}
				if old, has := fr.env[v]; has {
					saved[v] = old
				}
				if !fr.pureInstr(in) {
					failed = true
					return
				}
			}
		}
		failed = true
	}
	tr := len(m.tr)
	walk(b, b.Succs[0], cond)
	walk(b, b.Succs[1], m.c.Not(cond))
	if len(m.tr) != tr {
		panic("merge: speculative evaluation made a decision")
	}
	if failed || len(leaves) < 2 {
		return nil, false
	}
	vals = append([]Value(nil), leaves[len(leaves)-1].vals...)
	for i := len(leaves) - 2; i >= 0; i-- {
		for k := range vals {
			a, b := leaves[i].vals[k], vals[k]
			ta, ok1 := a.(*Term)
			tb, ok2 := b.(*Term)
			if ok1 && ok2 {
				vals[k] = m.c.Ite(leaves[i].guard, ta, tb)
				continue
			}
			if sameValue(a, b) {
				continue
			}
			return nil, false
		}
	}
	return vals, true
}

func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case *Value:
		y, ok := b.(*Value)
		return ok && x == y
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x == y
	case Str:
		y, ok := b.(Str)
		return ok && x.concrete() && y.concrete() && x.s == y.s
	case Iface:
		y, ok := b.(Iface)
		return ok && (x.t == nil && y.t == nil || x.t != nil && y.t != nil && types.Identical(x.t, y.t) && sameValue(x.v, y.v))
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return ok && x == y
	}
	return false
}

type mergeFail struct{}

// pureInstr evaluates an instruction speculatively; it fails (returns false)
// when evaluation could panic, fork or have effects.
func (fr *frame) pureInstr(in ssa.Instruction) (ok bool) {
	m := fr.m
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case targetPanic, mergeFail, pathAbort:
				ok = false
			default:
				panic(r)
			}
		}
	}()
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL {
			p, isP := fr.get(in.X).(*Value)
			if !isP || p == nil {
				return false
			}
		}
	case *ssa.FieldAddr:
		p, isP := fr.get(in.X).(*Value)
		if !isP || p == nil {
			return false
		}
	case *ssa.BinOp:
		x := fr.get(in.X)
		if t, isT := x.(*Term); isT && !t.isBool() {
			switch in.Op {
			case token.ADD, token.SUB, token.MUL:
				// wrap-around needs a solver decision unless intervals settle it
				y := fr.get(in.Y).(*Term)
				var r *Term
				switch in.Op {
				case token.ADD:
					r = m.c.Add(t, y)
				case token.SUB:
					r = m.c.Sub(t, y)
				default:
					r = m.c.Mul(t, y)
				}
				sg, bits, isI := intInfo(in.Type())
				if !isI {
					return false
				}
				rg := intRange(sg, bits)
				if r.lo == nil || r.hi == nil || r.lo.Cmp(rg.lo) < 0 || r.hi.Cmp(rg.hi) > 0 {
					return false
				}
				fr.env[in] = r
				return true
			case token.AND, token.OR, token.XOR, token.AND_NOT:
				return false
			}
		}
		if s, isS := x.(Str); isS {
			y := fr.get(in.Y).(Str)
			if !s.isSeq() || !y.isSeq() || in.Op == token.ADD {
				return false
			}
		}
	case *ssa.Convert:
		if _, isT := fr.get(in.X).(*Term); !isT {
			return false
		}
		sg, bits, isI := intInfo(in.Type())
		if !isI {
			return false
		}
		t := fr.get(in.X).(*Term)
		rg := intRange(sg, bits)
		if t.lo == nil || t.hi == nil || t.lo.Cmp(rg.lo) < 0 || t.hi.Cmp(rg.hi) > 0 {
			return false
		}
		fr.env[in] = t
		return true
	case *ssa.Call:
		for _, a := range in.Call.Args {
			if s, isS := fr.get(a).(Str); isS && !s.isSeq() {
				return false
			}
			if p, isP := fr.get(a).(*Value); isP && p == nil {
				return false
			}
		}
	}
	n := len(m.tr)
	q := m.replaying()
	fr.instr(in)
	if len(m.tr) != n {
		panic(fmt.Sprintf("speculative decision in %s (replaying %v)", in, q))
	}
	return true
}

var debugTrace = os.Getenv("VERIF_TRACE") != ""

func (fr *frame) instr(in ssa.Instruction) {
	m := fr.m
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		// value preset by a merge
	case *ssa.UnOp:
		fr.env[in] = m.unop(in, fr.get(in.X))
	case *ssa.BinOp:
		fr.env[in] = m.binop(in.Op, in.X.Type(), in.Y.Type(), in.Type(), fr.get(in.X), fr.get(in.Y))
	case *ssa.Call:
		fn, args := fr.prepareCall(&in.Call)
		if bf, ok := fn.(*ssa.Builtin); ok {
			fr.env[in] = m.builtin(bf.Name(), &in.Call, args, fr)
		} else {
			fr.env[in] = m.call(fn, args, fr)
		}
	case *ssa.ChangeInterface:
		fr.env[in] = fr.get(in.X)
	case *ssa.ChangeType:
		fr.env[in] = fr.get(in.X)
	case *ssa.Convert:
		fr.env[in] = m.convert(in.X.Type(), in.Type(), fr.get(in.X))
	case *ssa.MultiConvert:
		fr.env[in] = m.convert(in.X.Type(), in.Type(), fr.get(in.X))
	case *ssa.SliceToArrayPointer:
		x := fr.get(in.X).([]Value)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(x) < n {
			m.panicRT("slice to array conversion")
		}
		p := new(Value)
		*p = Array(x[:n:n])
		fr.env[in] = p
	case *ssa.MakeInterface:
		fr.env[in] = Iface{t: in.X.Type(), v: copyVal(fr.get(in.X))}
	case *ssa.Extract:
		fr.env[in] = fr.get(in.Tuple).(Tuple)[in.Index]
	case *ssa.Slice:
		fr.env[in] = m.slice(fr, in)
	case *ssa.Alloc:
		if in.Heap {
			p := new(Value)
			*p = m.zero(in.Type().Underlying().(*types.Pointer).Elem())
			fr.env[in] = p
		} else {
			p := fr.env[in].(*Value)
			*p = m.zero(in.Type().Underlying().(*types.Pointer).Elem())
		}
	case *ssa.Store:
		p, ok := fr.get(in.Addr).(*Value)
		if !ok {
			m.unsupported("store through non pointer")
		}
		if p == nil {
			m.panicRT("nil pointer dereference")
		}
		m.noteWrite(p)
		store(p, fr.get(in.Val))
		if m.par != nil {
			m.published(p, *p)
		}
	case *ssa.MakeSlice:
		n := m.smallInt(fr.get(in.Len).(*Term))
		cp := m.smallInt(fr.get(in.Cap).(*Term))
		if n < 0 || cp < n {
			m.panicRT("makeslice: len out of range")
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		if cp > 1<<20 {
			m.unsupported("huge slice")
		}
		s := make([]Value, n, cp)
		full := s[:cp]
		for i := range full {
			full[i] = m.zero(el)
		}
		fr.env[in] = s
	case *ssa.MakeMap:
		fr.env[in] = newMap()
	case *ssa.MakeChan:
		fr.env[in] = &ChanV{cap: m.smallInt(fr.get(in.Size).(*Term))}
	case *ssa.MakeClosure:
		env := make([]Value, len(in.Bindings))
		for i, b := range in.Bindings {
			env[i] = fr.get(b)
		}
		fr.env[in] = &Closure{in.Fn.(*ssa.Function), env}
	case *ssa.FieldAddr:
		p, ok := fr.get(in.X).(*Value)
		if !ok {
			m.unsupported(fmt.Sprintf("field of %T", fr.get(in.X)))
		}
		if p == nil {
			m.panicRT("nil pointer dereference")
		}
		st, ok := (*p).(Struct)
		if !ok {
			m.unsupported(fmt.Sprintf("fieldaddr on %T in %s", *p, fr.fn))
		}
		fr.env[in] = &st[in.Field]
	case *ssa.Field:
		st, ok := fr.get(in.X).(Struct)
		if !ok {
			m.unsupported(fmt.Sprintf("field on %T", fr.get(in.X)))
		}
		fr.env[in] = st[in.Field]
	case *ssa.IndexAddr:
		fr.env[in] = m.indexAddr(fr.get(in.X), fr.get(in.Index).(*Term))
	case *ssa.Index:
		fr.env[in] = m.index(fr.get(in.X), fr.get(in.Index).(*Term))
	case *ssa.Lookup:
		fr.env[in] = m.lookup(in, fr.get(in.X), fr.get(in.Index))
	case *ssa.MapUpdate:
		mp, _ := fr.get(in.Map).(*MapV)
		m.mapSet(mp, copyVal(fr.get(in.Key)), copyVal(fr.get(in.Value)))
	case *ssa.Range:
		fr.env[in] = m.rangeIter(fr.get(in.X))
	case *ssa.Next:
		fr.env[in] = m.next(in, fr.get(in.Iter))
	case *ssa.TypeAssert:
		fr.env[in] = m.typeAssert(in, fr.get(in.X).(Iface))
	case *ssa.Defer:
		fn, args := fr.prepareCall(&in.Call)
		fr.defers = append(fr.defers, deferred{fn, args, in})
	case *ssa.Go:
		fn, args := fr.prepareCall(&in.Call)
		m.goStmt(fn, args, fr)
	case *ssa.Send:
		ch, _ := fr.get(in.Chan).(*ChanV)
		if ch == nil || len(ch.buf) >= ch.cap && m.inGo == 0 {
			m.unsupported("blocking channel send")
		}
		ch.buf = append(ch.buf, fr.get(in.X))
	case *ssa.Select:
		fr.env[in] = m.selectStmt(in, fr)
	default:
		m.unsupported(fmt.Sprintf("instr %T", in))
	}
}

// goStmt runs a goroutine to completion where it is started (one schedule; concurrency properties use vTrace).
func (m *Machine) goStmt(fn Value, args []Value, fr *frame) {
	m.inGo++
	if m.par != nil && m.track {
		m.parGo(func() { m.call(fn, args, fr) })
	} else {
		m.call(fn, args, fr)
	}
	m.inGo--
}

func (m *Machine) smallInt(t *Term) int {
	if t.isConst() {
		if !t.k.IsInt64() {
			return -1
		}
		return int(t.k.Int64())
	}
	return m.concretize(t, 64)
}

func (fr *frame) prepareCall(c *ssa.CallCommon) (Value, []Value) {
	m := fr.m
	if c.IsInvoke() {
		recv, ok := fr.get(c.Value).(Iface)
		if !ok {
			m.unsupported("invoke on non-interface")
		}
		if recv.t == nil && c.Method.Pkg() != nil && strings.HasPrefix(c.Method.Pkg().Path(), "github.com/prometheus/") {
			// metrics are not modelled
			res := c.Signature().Results()
			return Native{"fn", func(m *Machine, args []Value) Value {
				switch res.Len() {
				case 0:
					return nil
				case 1:
					return m.zero(res.At(0).Type())
				}
				return m.zero(res)
			}}, nil
		}
		if recv.t == nil {
			m.panicRT("nil pointer dereference (method call on nil interface " + c.Method.Name() + ")")
		}
		if recv.t == errType {
			args := []Value{recv.v}
			for _, a := range c.Args {
				args = append(args, fr.get(a))
			}
			name := c.Method.Name()
			return Native{"fn", func(m *Machine, args []Value) Value { return m.errMethod(name, args) }}, args
		}
		if k, ok := natTypes[recv.t]; ok {
			args := []Value{recv.v}
			for _, a := range c.Args {
				args = append(args, fr.get(a))
			}
			name := c.Method.Name()
			return Native{"fn", func(m *Machine, args []Value) Value { return m.natMethod(k, name, args) }}, args
		}
		fn := m.E.prog.LookupMethod(recv.t, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			m.unsupported("no method " + c.Method.Name() + " on " + recv.t.String())
		}
		args := make([]Value, 0, len(c.Args)+1)
		args = append(args, copyVal(recv.v))
		for _, a := range c.Args {
			args = append(args, copyVal(fr.get(a)))
		}
		return fn, args
	}
	fn := fr.get(c.Value)
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = copyVal(fr.get(a))
	}
	return fn, args
}

func (m *Machine) unop(in *ssa.UnOp, x Value) Value {
	switch in.Op {
	case token.MUL:
		p, ok := x.(*Value)
		if !ok {
			m.unsupported(fmt.Sprintf("load through %T", x))
		}
		if p == nil {
			m.panicRT("nil pointer dereference")
		}
		m.noteRead(p)
		return copyVal(*p)
	case token.NOT:
		return m.c.Not(x.(*Term))
	case token.SUB:
		if f, ok := x.(Float); ok {
			return Float{f.known, -f.f}
		}
		return m.norm(m.c.Neg(x.(*Term)), in.Type())
	case token.XOR:
		sg, bits, _ := intInfo(in.Type())
		if sg {
			return m.c.Sub(m.c.I(-1), x.(*Term))
		}
		return m.c.Sub(m.c.B(intRange(false, bits).hi), x.(*Term))
	case token.ARROW:
		ch, _ := x.(*ChanV)
		if ch == nil || len(ch.buf) == 0 && !ch.closed {
			m.unsupported("blocking channel receive")
		}
		var v Value
		okv := true
		if len(ch.buf) > 0 {
			v = ch.buf[0]
			ch.buf = ch.buf[1:]
		} else {
			okv = false
			v = m.zero(in.X.Type().Underlying().(*types.Chan).Elem())
		}
		if in.CommaOk {
			return Tuple{v, m.c.Bool(okv)}
		}
		return v
	}
	m.unsupported("unop " + in.Op.String())
	return nil
}

// norm wraps an exact integer result into the machine type.
func (m *Machine) norm(t *Term, typ types.Type) *Term {
	sg, bits, ok := intInfo(typ)
	if !ok {
		m.unsupported("norm " + typ.String())
	}
	return m.wrap(t, sg, bits)
}

func (m *Machine) wrap(t *Term, sg bool, bits int) *Term {
	rg := intRange(sg, bits)
	if t.lo != nil && t.hi != nil && t.lo.Cmp(rg.lo) >= 0 && t.hi.Cmp(rg.hi) <= 0 {
		return t
	}
	c := m.c
	md := c.B(pow2(bits))
	if !t.isConst() {
		in := c.And(c.Le(c.B(rg.lo), t), c.Le(t, c.B(rg.hi)))
		if m.must(in) {
			return t
		}
	}
	if !sg {
		return c.Mod(t, md)
	}
	h := c.B(pow2(bits - 1))
	return c.Sub(c.Mod(c.Add(t, h), md), h)
}

func (m *Machine) binop(op token.Token, xt, yt, rt types.Type, x, y Value) Value {
	c := m.c
	switch op {
	case token.EQL:
		return m.eq(x, y)
	case token.NEQ:
		return c.Not(m.eq(x, y))
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if a.isBool() {
			switch op {
			case token.AND, token.LAND:
				return c.And(a, b)
			case token.OR, token.LOR:
				return c.Or(a, b)
			}
			m.unsupported("bool op " + op.String())
		}
		switch op {
		case token.LSS:
			return c.Lt(a, b)
		case token.LEQ:
			return c.Le(a, b)
		case token.GTR:
			return c.Lt(b, a)
		case token.GEQ:
			return c.Le(b, a)
		case token.ADD:
			return m.norm(c.Add(a, b), rt)
		case token.SUB:
			return m.norm(c.Sub(a, b), rt)
		case token.MUL:
			return m.norm(c.Mul(a, b), rt)
		case token.QUO, token.REM:
			if m.branch(c.Eq(b, c.I(0))) {
				m.panicRT("integer divide by zero")
			}
			q, r := m.quoRem(a, b)
			if op == token.QUO {
				return m.norm(q, rt)
			}
			return m.norm(r, rt)
		case token.SHL, token.SHR:
			if !b.isConst() {
				m.unsupported("symbolic shift amount")
			}
			if b.k.Sign() < 0 {
				m.panicRT("negative shift amount")
			}
			_, bits, _ := intInfo(rt)
			n := 1 << 20
			if b.k.IsInt64() && b.k.Int64() < 1<<20 {
				n = int(b.k.Int64())
			}
			if op == token.SHL {
				if n >= bits {
					return c.I(0)
				}
				return m.wrapNoQuery(c.MulK(a, pow2(n)), rt)
			}
			if n >= bits {
				n = bits
			}
			if a.lo != nil && a.lo.Sign() >= 0 {
				return c.Shr(a, n)
			}
			return c.Div(a, c.B(pow2(n)))
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return m.bitop(op, a, b, rt)
		}
	case Str:
		b := y.(Str)
		switch op {
		case token.ADD:
			return m.strCat(a, b)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.concrete() && b.concrete() {
				cmp := strings.Compare(a.s, b.s)
				return c.Bool(op == token.LSS && cmp < 0 || op == token.LEQ && cmp <= 0 || op == token.GTR && cmp > 0 || op == token.GEQ && cmp >= 0)
			}
			p, q := m.strBytes(a), m.strBytes(b)
			switch op {
			case token.LSS:
				return c.SeqLt(p, q)
			case token.GTR:
				return c.SeqLt(q, p)
			case token.LEQ:
				return c.Not(c.SeqLt(q, p))
			case token.GEQ:
				return c.Not(c.SeqLt(p, q))
			}
		}
	case Float:
		b := y.(Float)
		if a.known && b.known {
			switch op {
			case token.ADD:
				return Float{true, a.f + b.f}
			case token.SUB:
				return Float{true, a.f - b.f}
			case token.MUL:
				return Float{true, a.f * b.f}
			case token.QUO:
				return Float{true, a.f / b.f}
			case token.LSS:
				return c.Bool(a.f < b.f)
			case token.LEQ:
				return c.Bool(a.f <= b.f)
			case token.GTR:
				return c.Bool(a.f > b.f)
			case token.GEQ:
				return c.Bool(a.f >= b.f)
			}
		}
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return Float{}
		}
		m.unsupported("float comparison")
	}
	m.unsupported(fmt.Sprintf("binop %s on %T", op, x))
	return nil
}

func (m *Machine) wrapNoQuery(t *Term, rt types.Type) *Term {
	sg, bits, _ := intInfo(rt)
	rg := intRange(sg, bits)
	if t.lo != nil && t.hi != nil && t.lo.Cmp(rg.lo) >= 0 && t.hi.Cmp(rg.hi) <= 0 {
		return t
	}
	c := m.c
	if !sg {
		return c.Mod(t, c.B(pow2(bits)))
	}
	h := c.B(pow2(bits - 1))
	return c.Sub(c.Mod(c.Add(t, h), c.B(pow2(bits))), h)
}

// quoRem: Go truncated division.
func (m *Machine) quoRem(a, b *Term) (*Term, *Term) {
	c := m.c
	nn := func(t *Term) bool { return t.lo != nil && t.lo.Sign() >= 0 }
	if nn(a) && nn(b) {
		return c.Div(a, b), c.Mod(a, b)
	}
	z := c.I(0)
	aneg := c.Lt(a, z)
	bneg := c.Lt(b, z)
	aa := c.Ite(aneg, c.Neg(a), a)
	ba := c.Ite(bneg, c.Neg(b), b)
	q := c.Div(aa, ba)
	r := c.Mod(aa, ba)
	neg := c.Not(c.Eq(aneg, bneg))
	return c.Ite(neg, c.Neg(q), q), c.Ite(aneg, c.Neg(r), r)
}

func (m *Machine) bitop(op token.Token, a, b *Term, rt types.Type) *Term {
	c := m.c
	sg, bits, _ := intInfo(rt)
	if a.isConst() && b.isConst() {
		x, y := a.k, b.k
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(x, y)
		case token.OR:
			r.Or(x, y)
		case token.XOR:
			r.Xor(x, y)
		case token.AND_NOT:
			r.AndNot(x, y)
		}
		return c.B(r)
	}
	if a == b {
		switch op {
		case token.AND, token.OR:
			return a
		default:
			return c.I(0)
		}
	}
	if a.isConst() && op != token.AND_NOT {
		a, b = b, a
	}
	nonneg := a.lo != nil && a.lo.Sign() >= 0
	if b.isConst() && nonneg {
		k := b.k
		if op == token.AND_NOT {
			k = new(big.Int).AndNot(new(big.Int).Sub(pow2(bits), b1), k)
			op = token.AND
		}
		if k.Sign() < 0 && sg {
			k = new(big.Int).And(k, new(big.Int).Sub(pow2(bits), b1))
		}
		switch op {
		case token.AND:
			// sum over runs of ones
			r := c.I(0)
			i := 0
			n := k.BitLen()
			for i < n {
				if k.Bit(i) == 0 {
					i++
					continue
				}
				j := i
				for j < n && k.Bit(j) == 1 {
					j++
				}
				r = c.Add(r, c.MulK(c.Ext(a, i, j-i), pow2(i)))
				i = j
			}
			return r
		case token.OR:
			if k.Sign() == 0 {
				return a
			}
			// a + (k & ~a) = a + k - (a & k)
			return c.Sub(c.Add(a, c.B(k)), m.bitop(token.AND, a, b, rt))
		case token.XOR:
			if k.Sign() >= 0 {
				// a + k - 2*(a & k)
				return c.Sub(c.Add(a, c.B(k)), c.MulK(m.bitop(token.AND, a, b, rt), big.NewInt(2)))
			}
		}
	}
	if nonneg && b.lo != nil && b.lo.Sign() >= 0 && (op == token.OR || op == token.XOR || op == token.AND) {
		if c.disjoint(a, b) || c.disjoint(b, a) {
			if op == token.AND {
				return c.I(0)
			}
			return c.Add(a, b)
		}
		if a.hi.Cmp(b1) <= 0 && b.hi.Cmp(b1) <= 0 { // single bits
			p := c.Mul(a, b)
			switch op {
			case token.AND:
				return c.Ite(c.Eq(a, c.I(1)), b, c.I(0))
			case token.OR:
				return c.Ite(c.Eq(a, c.I(1)), c.I(1), b)
			}
			_ = p
		}
	}
	m.unsupported(fmt.Sprintf("bit operation %s on symbolic values", op))
	return nil
}

// disjoint: every set bit of a lies above every set bit of b.
func (c *Ctx) disjoint(a, b *Term) bool {
	if b.hi == nil {
		return false
	}
	n := b.hi.BitLen()
	p := toPoly(a)
	d := pow2(n)
	if new(big.Int).Mod(p.k, d).Sign() != 0 {
		return false
	}
	for _, cf := range p.m {
		if new(big.Int).Mod(cf, d).Sign() != 0 {
			return false
		}
	}
	return true
}

func (m *Machine) strCat(a, b Str) Str {
	if a.concrete() && a.s == "" {
		return b
	}
	if b.concrete() && b.s == "" {
		return a
	}
	if a.concrete() && b.concrete() {
		return S(a.s + b.s)
	}
	if a.isSeq() && b.isSeq() {
		x := m.strBytes(a)
		y := m.strBytes(b)
		return mkStr(append(append(make([]*Term, 0, len(x)+len(y)), x...), y...))
	}
	fa, oka := asFmt(a)
	fb, okb := asFmt(b)
	if oka && okb {
		return Str{fkey: fa.fkey + fb.fkey, fargs: append(append([]*Term(nil), fa.fargs...), fb.fargs...)}
	}
	return Str{opq: true}
}

func asFmt(s Str) (Str, bool) {
	if s.fkey != "" {
		return s, true
	}
	if s.concrete() && !strings.Contains(s.s, "%") {
		return Str{fkey: s.s}, true
	}
	return s, false
}

func (m *Machine) convert(from, to types.Type, x Value) Value {
	ut, uf := to.Underlying(), from.Underlying()
	if tb, ok := ut.(*types.Basic); ok {
		switch {
		case tb.Info()&types.IsInteger != 0:
			switch v := x.(type) {
			case *Term:
				return m.wrapConv(v, to)
			case Float:
				if v.known {
					return m.wrapNoQuery(m.c.I(int64(v.f)), to)
				}
				m.unsupported("convert opaque float to int")
			}
		case tb.Info()&types.IsFloat != 0:
			switch v := x.(type) {
			case Float:
				return v
			case *Term:
				if v.isConst() {
					f, _ := new(big.Float).SetInt(v.k).Float64()
					return Float{true, f}
				}
				return Float{}
			}
		case tb.Info()&types.IsString != 0:
			switch v := x.(type) {
			case Str:
				return v
			case *Term:
				if v.isConst() {
					return S(string(rune(v.k.Int64())))
				}
				m.unsupported("rune to string of symbolic rune")
			case DocBytes:
				return Str{doc: v.d}
			case []Value:
				sl := uf.(*types.Slice)
				_, bits, _ := intInfo(sl.Elem())
				if bits == 8 {
					return mkStr(termsOf(v))
				}
				var sb strings.Builder
				for _, e := range v {
					t := e.(*Term)
					if !t.isConst() {
						m.unsupported("[]rune to string symbolic")
					}
					sb.WriteRune(rune(t.k.Int64()))
				}
				return S(sb.String())
			}
		case tb.Kind() == types.UnsafePointer:
			return x
		}
	}
	if ts, ok := ut.(*types.Slice); ok {
		if s, ok := x.(Str); ok {
			_, bits, _ := intInfo(ts.Elem())
			if s.doc != nil && bits == 8 {
				return DocBytes{s.doc}
			}
			if s.opq {
				m.unsupported("bytes of opaque string")
			}
			if bits == 8 {
				return valsOf(m.strBytes(s))
			}
			if s.concrete() {
				var out []Value
				for _, r := range s.s {
					out = append(out, m.c.I(int64(r)))
				}
				return out
			}
			// assume ASCII
			return valsOf(m.strBytes(s))
		}
	}
	switch x.(type) {
	case *Value, []Value, *MapV, Struct, *Closure, *ssa.Function, Array, DocBytes, TxBytes:
		return x
	}
	m.unsupported(fmt.Sprintf("convert %s to %s", from, to))
	return nil
}

func (m *Machine) wrapConv(t *Term, to types.Type) *Term {
	return m.norm(t, to)
}

func (m *Machine) slice(fr *frame, in *ssa.Slice) Value {
	x := fr.get(in.X)
	idx := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		return m.smallInt(fr.get(v).(*Term))
	}
	switch v := x.(type) {
	case Str:
		if in.Low == nil && in.High == nil {
			return v
		}
		bs := m.strLen(v)
		lo := idx(in.Low, 0)
		hi := idx(in.High, bs)
		if lo < 0 || hi < lo || hi > bs {
			m.panicRT("slice bounds out of range")
		}
		if v.concrete() {
			return S(v.s[lo:hi])
		}
		return mkStr(v.sym[lo:hi])
	case []Value:
		lo := idx(in.Low, 0)
		hi := idx(in.High, len(v))
		mx := idx(in.Max, cap(v))
		if lo < 0 || hi < lo || hi > cap(v) || mx > cap(v) || mx < hi {
			m.panicRT("slice bounds out of range")
		}
		if v == nil {
			return v
		}
		return v[lo:hi:mx]
	case *Value:
		if v == nil {
			m.panicRT("nil pointer dereference")
		}
		a, ok := (*v).(Array)
		if !ok {
			m.unsupported("slice of pointer to non-array")
		}
		lo := idx(in.Low, 0)
		hi := idx(in.High, len(a))
		mx := idx(in.Max, len(a))
		if lo < 0 || hi < lo || hi > len(a) || mx > len(a) || mx < hi {
			m.panicRT("slice bounds out of range")
		}
		return []Value(a)[lo:hi:mx]
	case DocBytes, TxBytes:
		if in.High == nil && (in.Low == nil || idx(in.Low, 0) == 0) {
			return v
		}
	}
	m.unsupported(fmt.Sprintf("slice of %T", x))
	return nil
}

func (m *Machine) boundIdx(i *Term, n int) int {
	if i.isConst() {
		if !i.k.IsInt64() || i.k.Sign() < 0 || i.k.Int64() >= int64(n) {
			m.panicRT(fmt.Sprintf("index out of range [%s] with length %d", i.k, n))
		}
		return int(i.k.Int64())
	}
	c := m.c
	if !m.branch(c.And(c.Le(c.I(0), i), c.Lt(i, c.I(int64(n))))) {
		m.panicRT(fmt.Sprintf("index out of range with length %d", n))
	}
	return -1
}

func (m *Machine) indexAddr(x Value, i *Term) Value {
	var a []Value
	switch v := x.(type) {
	case []Value:
		a = v
	case *Value:
		if v == nil {
			m.panicRT("nil pointer dereference")
		}
		arr, ok := (*v).(Array)
		if !ok {
			m.unsupported("indexaddr")
		}
		a = arr
	default:
		m.unsupported(fmt.Sprintf("indexaddr %T", x))
	}
	k := m.boundIdx(i, len(a))
	if k < 0 {
		if len(a) > 64 {
			// table lookup with a symbolic index into a constant table: build a
			// read-only cell holding the selected value
			p := new(Value)
			*p = m.selectTable(a, i)
			return p
		}
		k = m.concretize(i, len(a))
	}
	return &a[k]
}

func (m *Machine) selectTable(a []Value, i *Term) Value {
	r, ok := a[len(a)-1].(*Term)
	if !ok {
		m.unsupported("symbolic index into table of non-scalars")
	}
	for k := len(a) - 2; k >= 0; k-- {
		r = m.c.Ite(m.c.Eq(i, m.c.I(int64(k))), a[k].(*Term), r)
	}
	return r
}

func (m *Machine) index(x Value, i *Term) Value {
	switch v := x.(type) {
	case Array:
		k := m.boundIdx(i, len(v))
		if k < 0 {
			if _, ok := v[0].(*Term); ok {
				return m.selectTable(v, i)
			}
			k = m.concretize(i, len(v))
		}
		return v[k]
	case Str:
		bs := m.strBytes(v)
		k := m.boundIdx(i, len(bs))
		if k < 0 {
			if v.concrete() && v.s == "0123456789abcdef" {
				return m.c.HexCh(i)
			}
			return m.selectTable(valsOf(bs), i)
		}
		return bs[k]
	}
	m.unsupported(fmt.Sprintf("index %T", x))
	return nil
}

func (m *Machine) lookup(in *ssa.Lookup, x, k Value) Value {
	if s, ok := x.(Str); ok {
		return m.index(s, k.(*Term))
	}
	mp, _ := x.(*MapV)
	m.noteRead(mp)
	e := m.mapFind(mp, k)
	var v Value
	if e != nil {
		v = copyVal(e.v)
	} else {
		v = m.zero(in.X.Type().Underlying().(*types.Map).Elem())
	}
	if in.CommaOk {
		return Tuple{v, m.c.Bool(e != nil)}
	}
	return v
}

type iter struct {
	str  Str
	pos  int
	mp   *MapV
	rest []*mapEntry
}

func (m *Machine) rangeIter(x Value) Value {
	switch v := x.(type) {
	case Str:
		return &iter{str: v}
	case *MapV:
		it := &iter{mp: v}
		if v != nil {
			m.noteRead(v)
			it.rest = append(it.rest, v.es...)
			if m.mapMode == 1 {
				for i, j := 0, len(it.rest)-1; i < j; i, j = i+1, j-1 {
					it.rest[i], it.rest[j] = it.rest[j], it.rest[i]
				}
			}
		}
		return it
	}
	m.unsupported(fmt.Sprintf("range %T", x))
	return nil
}

func (m *Machine) next(in *ssa.Next, x Value) Value {
	it := x.(*iter)
	if in.IsString {
		n := m.strLen(it.str)
		if it.pos >= n {
			return Tuple{TFalse, m.c.I(0), m.c.I(0)}
		}
		p := it.pos
		if it.str.concrete() {
			for i, r := range it.str.s[p:] {
				if i == 0 {
					w := len(string(r))
					if r == 0xFFFD {
						w = 1
					}
					it.pos += w
					return Tuple{TTrue, m.c.I(int64(p)), m.c.I(int64(r))}
				}
			}
		}
		it.pos++
		b := it.str.sym[p]
		if !m.must(m.c.Lt(b, m.c.I(128))) {
			if !m.branch(m.c.Lt(b, m.c.I(128))) {
				panic(pathAbort{"limit", "non-ASCII string"})
			}
		}
		return Tuple{TTrue, m.c.I(int64(p)), b}
	}
	m.noteRead(it.mp)
	for len(it.rest) > 0 {
		i := 0
		if m.mapMode == 2 {
			// all remaining live entries are candidates
			live := it.rest[:0:0]
			for _, e := range it.rest {
				if !e.dead {
					live = append(live, e)
				}
			}
			it.rest = live
			if len(live) == 0 {
				break
			}
			i = m.choose(len(live))
		}
		e := it.rest[i]
		it.rest = append(append([]*mapEntry(nil), it.rest[:i]...), it.rest[i+1:]...)
		if e.dead {
			continue
		}
		return Tuple{TTrue, copyVal(e.k), copyVal(e.v)}
	}
	mt, _ := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	return Tuple{TFalse, m.zero(mt.Key()), m.zero(mt.Elem())}
}

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	if _, ok := natTypes[t]; ok {
		return true
	}
	if t == errType {
		for i := 0; i < it.NumMethods(); i++ {
			if n := it.Method(i).Name(); n != "Error" && n != "Unwrap" {
				return false
			}
		}
		return true
	}
	return types.Implements(t, it)
}

func (m *Machine) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && m.implements(x.t, it) {
			ok = true
			v = x
		}
	} else if x.t != nil && types.Identical(x.t, in.AssertedType) {
		ok = true
		v = copyVal(x.v)
	}
	if in.CommaOk {
		if !ok {
			v = m.zero(in.AssertedType)
		}
		return Tuple{v, m.c.Bool(ok)}
	}
	if !ok {
		m.panicRT("interface conversion")
	}
	return v
}

func (m *Machine) builtin(name string, cc *ssa.CallCommon, args []Value, fr *frame) Value {
	c := m.c
	switch name {
	case "len":
		switch v := args[0].(type) {
		case Str:
			if v.fkey != "" || v.doc != nil || v.opq {
				m.unsupported("len of formatted string")
			}
			return c.I(int64(m.strLen(v)))
		case []Value:
			return c.I(int64(len(v)))
		case Array:
			return c.I(int64(len(v)))
		case *Value:
			return c.I(int64(len((*v).(Array))))
		case *MapV:
			if v == nil {
				return c.I(0)
			}
			m.noteRead(v)
			return c.I(int64(v.live))
		case *ChanV:
			return c.I(int64(len(v.buf)))
		case DocBytes:
			return c.App("doclen", big.NewInt(2), pow2(40), c.I(int64(v.d.id)))
		case TxBytes:
			return c.I(100)
		}
	case "cap":
		switch v := args[0].(type) {
		case []Value:
			return c.I(int64(cap(v)))
		case Array:
			return c.I(int64(len(v)))
		case *Value:
			return c.I(int64(len((*v).(Array))))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		a, ok := args[0].([]Value)
		if !ok {
			m.unsupported(fmt.Sprintf("append to %T", args[0]))
		}
		switch b := args[1].(type) {
		case []Value:
			if len(b) == 0 {
				return a
			}
			cp := make([]Value, len(b))
			for i := range b {
				m.noteRead(&b[i])
				cp[i] = copyVal(b[i])
			}
			if m.track {
				if n := len(a) + len(b); n <= cap(a) {
					for i := range b {
						m.noteWrite(&a[:n][len(a)+i])
					}
				} else {
					for i := range a {
						m.noteRead(&a[i])
					}
				}
			}
			return append(a, cp...)
		case Str:
			return append(a, valsOf(m.strBytes(b))...)
		case DocBytes:
			if len(a) == 0 {
				return b
			}
		}
		m.unsupported(fmt.Sprintf("append %T", args[1]))
	case "copy":
		a, ok := args[0].([]Value)
		if !ok {
			m.unsupported("copy into non-slice")
		}
		switch b := args[1].(type) {
		case []Value:
			n := len(a)
			if len(b) < n {
				n = len(b)
			}
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				m.noteRead(&b[i])
				m.noteWrite(&a[i])
				tmp[i] = copyVal(b[i])
			}
			copy(a, tmp)
			return c.I(int64(n))
		case Str:
			return c.I(int64(copy(a, valsOf(m.strBytes(b)))))
		}
		m.unsupported("copy from")
	case "delete":
		mp, _ := args[0].(*MapV)
		m.mapDel(mp, args[1])
		return nil
	case "panic":
		panic(targetPanic{v: args[0], msg: "panic @ " + m.where()})
	case "recover":
		// fr is the deferred function's frame; its caller is panicking
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			p := fr.caller.panicV.(targetPanic)
			iv, ok := p.v.(Iface)
			if !ok || iv.t == nil {
				return Iface{t: types.Typ[types.String], v: Str{opq: true}}
			}
			return iv
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if name == "min" {
				r = c.Ite(c.Lt(t, r), t, r)
			} else {
				r = c.Ite(c.Lt(r, t), t, r)
			}
		}
		return r
	case "clear":
		switch v := args[0].(type) {
		case *MapV:
			if v != nil {
				m.noteWrite(v)
				for _, e := range v.es {
					e.dead = true
				}
				v.es = nil
				v.live = 0
				v.idx = map[string]*mapEntry{}
			}
			return nil
		case []Value:
			if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
				for i := range v {
					m.noteWrite(&v[i])
					v[i] = m.zero(sl.Elem())
				}
				return nil
			}
		}
	case "close":
		if ch, ok := args[0].(*ChanV); ok && ch != nil {
			ch.closed = true
			return nil
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.panicRT("nil receiver in method wrapper")
		}
		return args[0]
	}
	m.unsupported("builtin " + name)
	return nil
}

func (m *Machine) noteRead(obj interface{})  { if m.track { m.access(obj, false) } }
func (m *Machine) noteWrite(obj interface{}) { if m.track { m.access(obj, true) } }
