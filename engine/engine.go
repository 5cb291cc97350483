package main

// Engine: program loading, exploration work queue, worker pool, results.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/dappnode/mev-sp-oracle"

// errType is the dynamic type of every error value created by engine models.
var errType types.Type = types.NewNamed(types.NewTypeName(0, nil, "verifError", nil), types.NewStruct(nil, nil), nil)

type Program struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package
	all  map[string]*types.Package
}

// loadProgram loads the given package patterns of /repo with overlay files
// (path -> contents) and builds their SSA form.
func loadProgram(repo string, overlay map[string][]byte, patterns ...string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	all := map[string]*types.Package{}
	packages.Visit(pk, nil, func(p *packages.Package) {
		if p.Types != nil {
			all[p.PkgPath] = p.Types
		}
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				errs = append(errs, fmt.Sprintf("%s: %v", p.PkgPath, e))
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, roots := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, all: all}
	for i, p := range pk {
		if roots[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		P.pkgs[p.PkgPath] = roots[i]
	}
	return P, nil
}

func (p *Program) namedType(path, name string) types.Type {
	tp := p.all[path]
	if tp == nil {
		return nil
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

type Engine struct {
	P        *Program
	prog     *ssa.Program
	prof     bool
	noMerge  bool
	coverage bool

	entry    *ssa.Function
	params   map[string]int
	mapMode  int
	maxPaths int
	maxSteps int64
	deadline time.Time
	solverTO int
	workers  int
	seed     int

	mu      sync.Mutex
	cond    *sync.Cond
	queue   [][]Decision
	active  int
	stopped bool

	// results
	Paths      int
	Done       int
	Infeasible int
	Aborts     map[string]int
	Asserts    map[string]*AssertStat
	Unknown    map[string]int
	Reached    map[string]int
	Viol       []*Violation
	violLabels map[string]int
	Wit        []*Witness
	Lost       [][]ReplayVal
	Funcs      map[*ssa.Function]int
	Queries    int
	NSat       int
	NUnsat     int
	NUnknown   int
	SolverTime time.Duration
	MaxDepth   int
	Notes      map[string]int
	Traces     map[string]*TraceRec
	parDone    map[string]bool
}

type AssertStat struct{ Solver, Trivial int }

// lostInputs: inputs that lead to the point where a path could not be encoded any further: a model of its condition, and
// one with as many inputs as possible moved away from where solvers put them. The code is run natively on them, so that a
// violation behind that point is not missed only because of it. Nothing is concluded if they pass.
func (m *Machine) lostInputs() (out [][]ReplayVal) {
	defer func() { recover() }()
	md, r := m.model(nil)
	if r != Sat || md == nil {
		return nil
	}
	out = append(out, m.replayVals(md))
	extra := TTrue
	x := uint64(len(m.tr))*0x9e3779b97f4a7c15 + 12345
	end := time.Now().Add(4 * time.Second)
	for _, in := range m.inputs {
		if in.t == nil || in.t.isConst() || in.Kind == "pick" || in.t.isBool() || time.Now().After(end) {
			continue
		}
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		v := new(big.Int).SetUint64(x >> 4)
		if in.t.lo != nil && in.t.hi != nil {
			n := new(big.Int).Sub(in.t.hi, in.t.lo)
			v.Mul(v, big.NewInt(1000003)).Mod(v, n.Add(n, big.NewInt(1))).Add(v, in.t.lo)
		}
		for k := 0; k < 2; k++ { // a large value, or one of moderate size
			t := m.c.And(extra, m.c.Eq(in.t, m.c.B(v)))
			if r, md2 := m.s.Check(t, true); r == Sat && md2 != nil {
				extra, md = t, md2
				break
			}
			v = new(big.Int).SetUint64(x>>40 | 1)
		}
	}
	if extra != TTrue {
		out = append(out, m.replayVals(md))
	}
	return out
}

type Witness struct {
	Inputs  []ReplayVal
	Obs     []ReplayVal
	Reached []string
}

func NewEngine(P *Program) *Engine {
	e := &Engine{P: P, prog: P.prog, coverage: true, maxPaths: 1 << 30, maxSteps: 30_000_000, solverTO: 10000, workers: 8,
		Aborts: map[string]int{}, Asserts: map[string]*AssertStat{}, Unknown: map[string]int{}, Reached: map[string]int{},
		violLabels: map[string]int{}, Funcs: map[*ssa.Function]int{}, Notes: map[string]int{}, Traces: map[string]*TraceRec{}}
	e.cond = sync.NewCond(&e.mu)
	e.prof = os.Getenv("VERIF_PROF") != ""
	e.noMerge = os.Getenv("VERIF_NOMERGE") != ""
	return e
}

func (e *Engine) push(p []Decision) {
	e.mu.Lock()
	e.queue = append(e.queue, p)
	e.mu.Unlock()
	e.cond.Signal()
}

// pop: even workers go depth first, odd workers take the oldest prefix.
func (e *Engine) pop(w int) ([]Decision, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stopped || time.Now().After(e.deadline) || e.Paths >= e.maxPaths {
			e.stopped = true
			e.cond.Broadcast()
			return nil, false
		}
		if n := len(e.queue); n > 0 {
			var p []Decision
			if w%4 == 3 {
				p = e.queue[0]
				e.queue = e.queue[1:]
			} else {
				p = e.queue[n-1]
				e.queue = e.queue[:n-1]
			}
			e.active++
			e.Paths++
			return p, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return nil, false
		}
		e.cond.Wait()
	}
}

func (e *Engine) release() {
	e.mu.Lock()
	e.active--
	e.mu.Unlock()
	e.cond.Broadcast()
}

func solverBin() string {
	for _, b := range []string{"/usr/local/bin/z3-new", "/usr/bin/z3"} {
		if _, err := os.Stat(b); err == nil {
			return b
		}
	}
	return "z3"
}

// Run explores all paths of entry. complete is true when the whole space within the stated
// bounds has been covered.
func (e *Engine) Run() (complete bool, err error) {
	e.queue = [][]Decision{{}}
	var wg sync.WaitGroup
	var errMu sync.Mutex
	tick := time.AfterFunc(time.Until(e.deadline)+time.Millisecond, func() { e.cond.Broadcast() })
	defer tick.Stop()
	for w := 0; w < e.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var s *Solver
			var tq, tsat, tuns, tunk int
			var tt time.Duration
			flush := func() {
				if s == nil {
					return
				}
				tq += s.Queries
				tsat += s.NSat
				tuns += s.NUnsat
				tunk += s.NUnknown
				tt += s.Time
			}
			for {
				p, ok := e.pop(w)
				if !ok {
					break
				}
				if s == nil || s.dead {
					flush()
					var er error
					s, er = NewSolver(solverBin(), e.solverTO, "-in", "-smt2")
					if er != nil {
						errMu.Lock()
						err = er
						errMu.Unlock()
						e.release()
						break
					}
				}
				e.runPath(p, s)
				e.release()
			}
			if s != nil {
				flush()
				s.Close()
			}
			e.mu.Lock()
			e.Queries += tq
			e.NSat += tsat
			e.NUnsat += tuns
			e.NUnknown += tunk
			e.SolverTime += tt
			e.mu.Unlock()
		}(w)
	}
	wg.Wait()
	complete = len(e.queue) == 0 && !e.stopped
	for k := range e.Aborts {
		if !strings.HasPrefix(k, "infeasible") {
			complete = false
		}
	}
	if len(e.Unknown) > 0 {
		complete = false
	}
	return complete, err
}

func (e *Engine) newMachine(pre []Decision, s *Solver) *Machine {
	c := NewCtx()
	m := &Machine{E: e, c: c, s: s, pre: pre, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int{},
		maxSteps: e.maxSteps, deadline: e.deadline, funcs: map[*ssa.Function]int{}, native: map[interface{}]interface{}{}, mapMode: e.mapMode,
		locks: map[*Value]*lockState{}, assertStats: map[string]*AssertStat{}}
	return m
}

func (e *Engine) runPath(pre []Decision, s *Solver) {
	m := e.newMachine(pre, s)
	s.Begin(m.c)
	kind, msg := "done", ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathAbort:
					kind, msg = r.kind, r.msg
				case targetPanic:
					kind, msg = "panic", r.msg+" "+m.panicText(r.v)
				case fatalExit:
					kind, msg = "fatal", r.msg
				default:
					if os.Getenv("VERIF_DEBUG") != "" {
						panic(r)
					}
					kind, msg = "internal", fmt.Sprint(r)+" @ "+m.where()
				}
			}
		}()
		m.callSSA(e.entry, nil, nil, nil)
	}()
	if kind == "panic" || kind == "fatal" {
		m.violation(kind, kind+": "+msg, msg, nil)
		kind = "done"
	}
	var wit *Witness
	if kind == "done" && len(m.viol) == 0 {
		e.mu.Lock()
		want := len(e.Wit) < 24 || e.Done%37 == 0 && len(e.Wit) < 64
		e.mu.Unlock()
		if want {
			wit = m.witness()
		}
	}
	var lost [][]ReplayVal
	if kind == "unsupported" || kind == "internal" {
		e.mu.Lock()
		want := len(e.Lost) < 24
		e.mu.Unlock()
		if want {
			lost = m.lostInputs()
		}
	}
	if !s.dead {
		s.End()
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.Lost = append(e.Lost, lost...)
	switch kind {
	case "done":
		e.Done++
	case "infeasible":
		e.Infeasible++
	default:
		k := kind + ": " + msg
		if len(k) > 600 {
			k = k[:600]
		}
		e.Aborts[k]++
	}
	if len(m.tr) > e.MaxDepth {
		e.MaxDepth = len(m.tr)
	}
	for l, a := range m.assertStats {
		st := e.Asserts[l]
		if st == nil {
			st = &AssertStat{}
			e.Asserts[l] = st
		}
		st.Solver += a.Solver
		st.Trivial += a.Trivial
	}
	for _, u := range m.unknownLabels {
		e.Unknown[u]++
	}
	if kind != "infeasible" {
		for _, r := range m.reached {
			e.Reached[r]++
		}
	}
	for f, n := range m.funcs {
		e.Funcs[f] += n
	}
	for _, n := range m.notes {
		e.Notes[n]++
	}
	if kind == "done" {
		for _, t := range m.traces {
			e.Traces[t.key()] = t
		}
	}
	for _, v := range m.viol {
		if e.violLabels[v.Label] < 6 {
			e.violLabels[v.Label]++
			e.Viol = append(e.Viol, v)
		}
		if len(e.Viol) >= 40 {
			e.stopped = true
		}
	}
	if wit != nil {
		e.Wit = append(e.Wit, wit)
	}
}

func (m *Machine) panicText(v Value) string {
	if iv, ok := v.(Iface); ok {
		v = iv.v
	}
	switch v := v.(type) {
	case Str:
		if v.concrete() {
			return v.s
		}
	case Native:
		if e, ok := v.p.(*ErrV); ok && e.msg.concrete() {
			return e.msg.s
		}
	}
	return ""
}

// model returns a model of the path condition (and extra).
func (m *Machine) model(extra *Term) (*Model, SatRes) {
	if extra == nil || extra.isTrue() {
		for _, md := range m.mods {
			return md, Sat
		}
		extra = TTrue
	}
	r, md := m.s.Check(extra, true)
	if r == Unknown {
		r2, md2 := m.fallback(extra, true)
		if r2 != Unknown {
			return md2, r2
		}
	}
	return md, r
}

// fallback asks other solvers/configurations in one-shot mode.
func (m *Machine) fallback(extra *Term, model bool) (SatRes, *Model) {
	type cfg struct {
		bin  string
		args []string
	}
	for _, cf := range []cfg{
		{"/usr/bin/z3", []string{"-in", "-smt2"}},
		{"cvc5", []string{"--incremental", "--produce-models", "--tlimit-per=15000"}},
		{solverBin(), []string{"-in", "-smt2", "smt.arith.solver=2"}},
	} {
		if !m.deadline.IsZero() && time.Until(m.deadline) < 10*time.Second {
			break
		}
		s, err := NewSolver(cf.bin, 15000, cf.args...)
		if err != nil {
			continue
		}
		s.Begin(m.c)
		for _, t := range m.pc {
			s.Assert(t)
		}
		r, md := s.Check(extra, model)
		m.s.Queries += s.Queries
		m.s.Time += s.Time
		s.Close()
		if r != Unknown {
			if r == Sat {
				m.s.NSat++
			} else {
				m.s.NUnsat++
			}
			return r, md
		}
	}
	return Unknown, nil
}

func (m *Machine) replayVals(md *Model) []ReplayVal {
	var out []ReplayVal
	for _, in := range m.inputs {
		if in.Kind == "pick" {
			out = append(out, ReplayVal{in.Name, fmt.Sprint(in.pick)})
			continue
		}
		out = append(out, ReplayVal{in.Name, md.Eval(in.t).String()})
	}
	return out
}

func (m *Machine) violation(label, kind, msg string, extra *Term) {
	md, r := m.model(extra)
	v := &Violation{Label: label, Kind: kind, Msg: msg, MapMode: m.mapMode}
	if r == Sat && md != nil {
		v.Inputs = m.replayVals(md)
	} else {
		if r == Unsat {
			return
		}
		m.unknownLabels = append(m.unknownLabels, label)
		return
	}
	m.viol = append(m.viol, v)
}

func (m *Machine) witness() *Witness {
	md, r := m.model(nil)
	if r != Sat || md == nil {
		return nil
	}
	w := &Witness{Inputs: m.replayVals(md), Reached: append([]string(nil), m.reached...)}
	for _, o := range m.obs {
		if s, ok := m.renderObs(md, o.t); ok {
			w.Obs = append(w.Obs, ReplayVal{o.Label, s})
		}
	}
	return w
}

// renderObs renders an observed value under a model (same text as the native runtime).
func (m *Machine) renderObs(md *Model, v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if hasKeccak(v, map[*Term]bool{}) {
			return "", false
		}
		if v.isBool() {
			return fmt.Sprint(md.Bool(v)), true
		}
		return md.Eval(v).String(), true
	case BigV:
		if hasKeccak(v.t, map[*Term]bool{}) {
			return "", false
		}
		return md.Eval(v.t).String(), true
	case Str:
		if v.concrete() {
			return v.s, true
		}
		if v.sym != nil {
			var b []byte
			for _, t := range v.sym {
				if hasKeccak(t, map[*Term]bool{}) {
					return "", false
				}
				b = append(b, byte(md.Eval(t).Int64()))
			}
			return string(b), true
		}
		if v.fkey != "" {
			out := v.fkey
			for _, a := range v.fargs {
				out = strings.Replace(out, "%d", md.Eval(a).String(), 1)
			}
			return out, true
		}
	}
	return "", false
}

func hasKeccak(t *Term, seen map[*Term]bool) bool {
	if t.op == OpKeccak || t.op == OpApp || t.op == OpBApp {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if hasKeccak(a, seen) {
			return true
		}
	}
	return false
}

var skipInits = map[string]bool{
	"net/http": true, "net": true, "crypto/tls": true, "crypto/x509": true, "os": true, "syscall": true, "runtime": true,
	"reflect": true, "internal/cpu": true, "sync": true, "time": true, "internal/poll": true, "os/signal": true,
	"internal/godebug": true, "internal/godebugs": true, "regexp/syntax": true, "crypto/internal/fips140": true,
	"github.com/sirupsen/logrus": true, "google.golang.org/protobuf": true, "html": true, "html/template": true, "unicode": false,
	"github.com/ethereum/go-ethereum/metrics": true, "github.com/ethereum/go-ethereum/core/types": false,
	"github.com/dappnode/mev-sp-oracle/metrics": true, "math/rand": true, "io/fs": false,
}

func (e *Engine) skipInit(path string) bool {
	if skipInits[path] {
		return true
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "google.golang.org/")
}

// funcsEncoded lists the repository functions that were symbolically executed.
func (e *Engine) funcsEncoded() []string {
	var out []string
	for f := range e.Funcs {
		if f.Package() == nil || !strings.HasPrefix(f.Package().Pkg.Path(), modPath) {
			continue
		}
		pos := e.prog.Fset.Position(f.Pos())
		if strings.HasPrefix(filepath.Base(pos.Filename), "zz_verif") {
			continue
		}
		if f.Synthetic != "" {
			continue
		}
		out = append(out, strings.TrimPrefix(strings.ReplaceAll(f.String(), modPath+"/", ""), ""))
	}
	sort.Strings(out)
	return out
}

func bigOf(s string) *big.Int {
	v, _ := new(big.Int).SetString(s, 10)
	return v
}
