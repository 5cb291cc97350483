package main

// Remaining library models: locks, sorting, time, retry, HTTP helpers, files, transactions; and the
// harness API (functions named v... defined in zz_verif files).

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"net/url"
	"path/filepath"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tokLSS = token.LSS

// ---- engine-native interface types ----

var natTypes = map[types.Type]string{}

func natType(kind string) types.Type {
	t := types.NewNamed(types.NewTypeName(0, nil, "verif_"+kind, nil), types.NewStruct(nil, nil), nil)
	natTypes[t] = kind
	return t
}

var (
	keccakType = natType("keccak")
	ctxType    = natType("context")
	bodyType   = natType("body")
	signerType = natType("signer")
)

func (m *Machine) natMethod(kind, name string, args []Value) Value {
	switch kind + "." + name {
	case "keccak.Write":
		st := args[0].(Native).p.(*hashState)
		bs := m.bytesOf(args[1])
		st.buf = append(st.buf, bs...)
		return Tuple{m.c.I(int64(len(bs))), Iface{}}
	case "keccak.Sum":
		st := args[0].(Native).p.(*hashState)
		h := m.c.Keccak("keccak", append([]*Term(nil), st.buf...))
		pre, _ := args[1].([]Value)
		return append(append([]Value{}, pre...), valsOf(m.intBytes(h, 32))...)
	case "keccak.Reset":
		args[0].(Native).p.(*hashState).buf = nil
		return nil
	case "keccak.Size":
		return m.c.I(32)
	case "keccak.BlockSize":
		return m.c.I(136)
	case "context.Err":
		return Iface{}
	case "body.Close":
		return Iface{}
	}
	m.unsupported("native method " + kind + "." + name)
	return nil
}

func (m *Machine) invoke(recv Iface, name string, args []Value) Value {
	if recv.t == nil {
		m.panicRT("method " + name + " on nil interface")
	}
	if k, ok := natTypes[recv.t]; ok {
		return m.natMethod(k, name, append([]Value{recv.v}, args...))
	}
	fn := m.findMethod(recv.t, name)
	if fn == nil {
		m.unsupported("no method " + name + " on " + recv.t.String())
	}
	return m.call(fn, append([]Value{recv.v}, args...), nil)
}

// ---- locks ----

type lockState struct {
	w int
	r int
}

type LockEv struct {
	Op string // L U RL RU
	ID int
}
type LockTrace struct {
	ids map[*Value]int
	evs []LockEv
}
type TraceRec struct {
	Name string
	Evs  []LockEv
	Ins  []ReplayVal
}

func (t *TraceRec) key() string { return t.Name + fmt.Sprint(t.Evs) }

func (m *Machine) lock(p *Value) *lockState {
	if p == nil {
		m.panicRT("nil pointer dereference (nil mutex)")
	}
	l := m.locks[p]
	if l == nil {
		l = &lockState{}
		m.locks[p] = l
	}
	return l
}

func (m *Machine) lockEvent(p *Value, op string) {
	if m.par != nil && m.track {
		m.par.lockEv(p, op, m.where())
	}
	if m.lockTrace == nil {
		return
	}
	id, ok := m.lockTrace.ids[p]
	if !ok {
		id = len(m.lockTrace.ids)
		m.lockTrace.ids[p] = id
	}
	m.lockTrace.evs = append(m.lockTrace.evs, LockEv{op, id})
}

func regSync() {
	lk := func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		p := a[0].(*Value)
		l := m.lock(p)
		m.lockEvent(p, "L")
		if l.w > 0 || l.r > 0 {
			panic(targetPanic{v: Iface{}, msg: "self-deadlock: Lock while held @ " + m.where()})
		}
		l.w++
		return nil
	}
	ulk := func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		p := a[0].(*Value)
		l := m.lock(p)
		m.lockEvent(p, "U")
		if l.w == 0 {
			panic(fatalExit{"fatal error: unlock of unlocked mutex @ " + m.where()})
		}
		l.w--
		return nil
	}
	rlk := func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		p := a[0].(*Value)
		l := m.lock(p)
		m.lockEvent(p, "RL")
		if l.w > 0 {
			panic(targetPanic{v: Iface{}, msg: "self-deadlock: RLock while write-locked @ " + m.where()})
		}
		l.r++
		return nil
	}
	rulk := func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		p := a[0].(*Value)
		l := m.lock(p)
		m.lockEvent(p, "RU")
		if l.r == 0 {
			panic(fatalExit{"fatal error: RUnlock of unlocked mutex @ " + m.where()})
		}
		l.r--
		return nil
	}
	reg(lk, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	reg(ulk, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	reg(rlk, "(*sync.RWMutex).RLock")
	reg(rulk, "(*sync.RWMutex).RUnlock")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		p := a[0].(*Value)
		l := m.lock(p)
		if l.w > 0 || l.r > 0 {
			return TFalse
		}
		m.lockEvent(p, "L")
		l.w++
		return TTrue
	}, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		p := a[0].(*Value)
		if m.native[onceKey{p}] == nil {
			m.native[onceKey{p}] = true
			m.call(a[1], nil, fr)
		}
		return nil
	}, "(*sync.Once).Do")
	reg(zeroRes, "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait")
	// sync.Map as an ordinary map keyed by interface values
	sm := func(m *Machine, v Value) *MapV {
		p := derefPtr(m, v)
		mp, _ := m.native[smKey{p}].(*MapV)
		if mp == nil {
			mp = newMap()
			m.native[smKey{p}] = mp
		}
		return mp
	}
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		m.mapSet(sm(m, a[0]), a[1], a[2])
		return nil
	}, "(*sync.Map).Store")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		if e := m.mapFind(sm(m, a[0]), a[1]); e != nil {
			return Tuple{e.v, TTrue}
		}
		return Tuple{Iface{}, TFalse}
	}, "(*sync.Map).Load")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		p := derefPtr(m, a[0])
		st := (*p).(Struct)
		_ = st
		l, _ := m.native[smKey{p}].([]Value)
		if len(l) > 0 {
			m.native[smKey{p}] = l[:len(l)-1]
			return l[len(l)-1]
		}
		for i := range st {
			switch st[i].(type) {
			case *Closure, *ssa.Function:
				if !isNilFn(st[i]) {
					return m.call(st[i], nil, fr)
				}
			}
		}
		return Iface{}
	}, "(*sync.Pool).Get")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return nil }, "(*sync.Pool).Put")
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return *derefPtr(m, a[0]) }, "sync/atomic.Load"+w)
		reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { *derefPtr(m, a[0]) = a[1]; return nil }, "sync/atomic.Store"+w)
		reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
			p := derefPtr(m, a[0])
			*p = m.norm(m.c.Add((*p).(*Term), a[1].(*Term)), fn.Signature.Results().At(0).Type())
			return *p
		}, "sync/atomic.Add"+w)
		W := "(*sync/atomic." + w + ")."
		last := func(m *Machine, v Value) *Value {
			st := (*derefPtr(m, v)).(Struct)
			return &st[len(st)-1]
		}
		reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return *last(m, a[0]) }, W+"Load")
		reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { *last(m, a[0]) = a[1]; return nil }, W+"Store")
		reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
			p := last(m, a[0])
			*p = m.norm(m.c.Add((*p).(*Term), a[1].(*Term)), fn.Signature.Results().At(0).Type())
			return *p
		}, W+"Add")
	}
}

type onceKey struct{ p *Value }
type smKey struct{ p *Value }

// ---- misc ----

func (m *Machine) ctxVal() Iface { return Iface{t: ctxType, v: Native{"context", nil}} }

func (m *Machine) readAll(r Iface) Value {
	if r.t == nil {
		m.panicRT("read from nil reader")
	}
	switch v := r.v.(type) {
	case Native:
		if r.t == bodyType {
			return v.p.(Value)
		}
	case *Value:
		if v == nil {
			m.panicRT("read from nil pointer")
		}
		if n, ok := (*v).(Native); ok && n.kind == "file" {
			return m.fileContent(n.p.(*openFile))
		}
		if d, ok := m.native[bufKey{v}]; ok {
			return d
		}
	}
	m.unsupported("read from " + r.t.String())
	return nil
}

type bufKey struct{ p *Value }

func regMisc() {
	// context / time
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.ctxVal() }, "context.Background", "context.TODO")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return Tuple{a[0], Native{"fn", func(m *Machine, a []Value) Value { return nil }}}
	}, "context.WithDeadline", "context.WithTimeout", "context.WithCancel")
	reg(zeroRes, "time.Sleep", "time.Since", "time.Until", "(time.Time).Sub", "(time.Time).String", "(time.Time).Format")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.zeroResult(fn) }, "time.Now", "(time.Time).Add", "(time.Time).UTC")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		if t, ok := a[0].(Struct); ok && len(t) == 3 {
			wall, _ := t[0].(*Term)
			ext, _ := t[1].(*Term)
			// a time that was built from a number of seconds
			if wall != nil && ext != nil && wall.isConst() && wall.k.BitLen() < 31 && !(ext.isConst() && ext.k.Sign() == 0) {
				sec := m.c.Add(ext, m.c.I(-62135596800))
				if strings.HasSuffix(fn.String(), "UnixNano") {
					return m.c.Add(m.c.MulK(sec, big.NewInt(1000000000)), wall)
				}
				return sec
			}
		}
		if m.clock == nil {
			m.clock = m.c.I(1700000000)
		}
		if strings.HasSuffix(fn.String(), "UnixNano") {
			return m.c.MulK(m.clock, big.NewInt(1000000000))
		}
		return m.clock
	}, "(time.Time).Unix", "(time.Time).UnixNano")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		n := m.smallInt(a[0].(*Term))
		v := m.c.Var(m.fresh("rand"), b0, big.NewInt(int64(n-1)))
		return v
	}, "math/rand.Intn", "math/rand.Int63n")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return (*Value)(nil) }, "github.com/hako/durafmt.Parse")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return Str{opq: true} }, "(*github.com/hako/durafmt.Durafmt).String")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		panic(fatalExit{"os.Exit @ " + m.where()})
	}, "os.Exit")

	// retry
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return Native{"retryattempts", a[0]} }, "github.com/avast/retry-go/v4.Attempts")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return Native{"retryopt", nil} },
		"github.com/avast/retry-go/v4.Delay", "github.com/avast/retry-go/v4.MaxDelay", "github.com/avast/retry-go/v4.DelayType", "github.com/avast/retry-go/v4.LastErrorOnly", "github.com/avast/retry-go/v4.OnRetry")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		n := m.c.I(10)
		for _, o := range sliceArg(a[1]) {
			if nv, ok := o.(Native); ok && nv.kind == "retryattempts" {
				n = nv.p.(*Term)
			}
		}
		cnt := 1 << 30
		if n.isConst() {
			if n.k.IsInt64() && n.k.Int64() > 0 && n.k.Int64() < 1<<30 {
				cnt = int(n.k.Int64())
			}
		} else {
			m.unsupported("symbolic number of retries")
		}
		bound := m.E.param("retry_bound", 6)
		var last Value = Iface{}
		for i := 0; i < cnt; i++ {
			if i >= bound {
				panic(pathAbort{"limit", "retries"})
			}
			e := m.call(a[0], nil, fr)
			if ev, ok := e.(Iface); ok && ev.t == nil {
				return Iface{}
			}
			last = e
		}
		return m.mkErr(Str{opq: true}, last)
	}, "github.com/avast/retry-go/v4.Do")

	// regexp
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		s, ok := hostStr(a[0])
		if !ok {
			m.unsupported("symbolic regexp")
		}
		re, err := syntax.Parse(s, syntax.Perl)
		if err != nil {
			panic(targetPanic{v: Iface{}, msg: "regexp: Compile"})
		}
		prog, err := syntax.Compile(re.Simplify())
		if err != nil {
			m.unsupported("regexp compile")
		}
		p := new(Value)
		*p = Native{"regexp", prog}
		return p
	}, "regexp.MustCompile")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		prog := (*derefPtr(m, a[0])).(Native).p.(*syntax.Prog)
		return m.reMatch(prog, m.strBytes(a[1].(Str)))
	}, "(*regexp.Regexp).MatchString")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		s, ok := hostStr(a[0])
		if !ok {
			m.unsupported("symbolic regexp")
		}
		re, err := syntax.Parse(s, syntax.Perl)
		if err != nil {
			return Tuple{TFalse, m.mkErrKind("regexp")}
		}
		prog, _ := syntax.Compile(re.Simplify())
		return Tuple{m.reMatch(prog, m.strBytes(a[1].(Str))), Iface{}}
	}, "regexp.MatchString")

	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		p := new(Value)
		*p = Native{"reader", nil}
		m.native[bufKey{p}] = a[0]
		return p
	}, "bytes.NewReader")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return Iface{t: bodyType, v: Native{"body", m.readAll(a[0].(Iface))}}
	}, "io.NopCloser", "io/ioutil.NopCloser")

	// http / mux
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		m.native[muxKey{a[0].(*Value)}] = a[1]
		return a[0]
	}, "github.com/gorilla/mux.SetURLVars")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		if v, ok := m.native[muxKey{a[0].(*Value)}]; ok {
			return v
		}
		return (*MapV)(nil)
	}, "github.com/gorilla/mux.Vars")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		w := a[0].(Iface)
		m.invoke(w, "WriteHeader", []Value{a[2]})
		return nil
	}, "net/http.Error")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		s, ok := hostStr(a[0])
		if !ok {
			m.unsupported("url.Parse of symbolic string")
		}
		u, err := url.Parse(s)
		if err != nil {
			return Tuple{(*Value)(nil), m.mkErr(S(err.Error()), nil)}
		}
		st := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		v := m.zero(st).(Struct)
		us := st.Underlying().(*types.Struct)
		for i := 0; i < us.NumFields(); i++ {
			switch us.Field(i).Name() {
			case "Scheme":
				v[i] = S(u.Scheme)
			case "Host":
				v[i] = S(u.Host)
			case "Path":
				v[i] = S(u.Path)
			case "Opaque":
				v[i] = S(u.Opaque)
			}
		}
		p := new(Value)
		*p = v
		return Tuple{p, Iface{}}
	}, "net/url.Parse", "net/url.ParseRequestURI")

	// flag
	fl := func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		name, _ := hostStr(a[0])
		p := new(Value)
		*p = a[1]
		if set, ok := m.native["flags"].(map[string]Value); ok {
			if v, ok := set[name]; ok {
				*p = v
			}
		}
		return p
	}
	reg(fl, "flag.String", "flag.Int", "flag.Bool", "flag.Uint64", "flag.Int64")
	reg(zeroRes, "flag.Parse")
}

type muxKey struct{ p *Value }

// reMatch runs the compiled regular expression over symbolic bytes, keeping for each thread the
// condition under which it is alive.
func (m *Machine) reMatch(prog *syntax.Prog, bs []*Term) *Term {
	c := m.c
	n := len(prog.Inst)
	matched := TFalse
	cur := make([]*Term, n)
	for i := range cur {
		cur[i] = TFalse
	}
	var follow func(pc int, cond *Term, pos int, dst []*Term, stack map[int]bool)
	follow = func(pc int, cond *Term, pos int, dst []*Term, stack map[int]bool) {
		if cond.isFalse() || stack[pc] {
			return
		}
		stack[pc] = true
		defer delete(stack, pc)
		in := &prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			follow(int(in.Out), cond, pos, dst, stack)
			follow(int(in.Arg), cond, pos, dst, stack)
		case syntax.InstCapture, syntax.InstNop:
			follow(int(in.Out), cond, pos, dst, stack)
		case syntax.InstEmptyWidth:
			op := syntax.EmptyOp(in.Arg)
			var have syntax.EmptyOp
			if pos == 0 {
				have |= syntax.EmptyBeginText | syntax.EmptyBeginLine
			}
			if pos == len(bs) {
				have |= syntax.EmptyEndText | syntax.EmptyEndLine
			}
			if op&^(syntax.EmptyBeginText|syntax.EmptyBeginLine|syntax.EmptyEndText|syntax.EmptyEndLine) != 0 {
				m.unsupported("regexp assertion")
			}
			if op&^have == 0 {
				follow(int(in.Out), cond, pos, dst, stack)
			}
		case syntax.InstMatch:
			matched = c.Or(matched, cond)
		case syntax.InstFail:
		default:
			dst[pc] = c.Or(dst[pc], cond)
		}
	}
	for pos := 0; pos <= len(bs); pos++ {
		follow(prog.Start, TTrue, pos, cur, map[int]bool{})
		if pos == len(bs) {
			break
		}
		next := make([]*Term, n)
		for i := range next {
			next[i] = TFalse
		}
		ch := bs[pos]
		for pc := range prog.Inst {
			if cur[pc].isFalse() {
				continue
			}
			in := &prog.Inst[pc]
			var ok *Term
			switch in.Op {
			case syntax.InstRuneAny:
				ok = TTrue
			case syntax.InstRuneAnyNotNL:
				ok = c.Not(c.Eq(ch, c.I('\n')))
			case syntax.InstRune1:
				ok = c.Eq(ch, c.I(int64(in.Rune[0])))
			case syntax.InstRune:
				if ch.isConst() {
					ok = boolT(in.MatchRune(rune(ch.k.Int64())))
				} else {
					ok = TFalse
					if len(in.Rune) == 1 {
						ok = c.Eq(ch, c.I(int64(in.Rune[0])))
						if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
							m.unsupported("regexp fold")
						}
					}
					for i := 0; i+1 < len(in.Rune); i += 2 {
						lo, hi := int64(in.Rune[i]), int64(in.Rune[i+1])
						if lo > 127 {
							m.unsupported("regexp non-ASCII class")
						}
						ok = c.Or(ok, c.And(c.Le(c.I(lo), ch), c.Le(ch, c.I(hi))))
					}
				}
			}
			follow(int(in.Out), c.And(cur[pc], ok), pos+1, next, map[int]bool{})
		}
		cur = next
	}
	return matched
}

// ---- files ----

type SymFile struct {
	name Str
	data Value // []Value, DocBytes; nil = garbage (torn write)
	// not flushed to the disk yet: lost if the power fails
	dirty bool
}
type SymFS struct {
	files   []*SymFile
	crash   bool // crash points enabled
	ops     int
	power   bool // a crash is a power failure
}
type openFile struct {
	f     *SymFile
	name  Str
	write bool
}
type crashExit struct{ at int }

func (m *Machine) fsys() *SymFS {
	if m.fs == nil {
		m.fs = &SymFS{}
	}
	return m.fs
}

func (m *Machine) findFile(name Str) *SymFile {
	for _, f := range m.fsys().files {
		if m.branch(m.strEq(f.name, name)) {
			return f
		}
	}
	return nil
}

// fsOp is a crash point: the process may die before the operation.
func (m *Machine) fsOp(torn func()) {
	fs := m.fsys()
	fs.ops++
	if !fs.crash {
		return
	}
	n := 2
	if torn != nil {
		n = 3
	}
	switch m.choose(n) {
	case 1:
		panic(crashExit{fs.ops})
	case 2:
		torn()
		panic(crashExit{fs.ops})
	}
}

func (m *Machine) writeFile(name Str, data Value) {
	f := m.findFile(name)
	m.fsOp(func() {
		if f == nil {
			f = &SymFile{name: name}
			m.fs.files = append(m.fs.files, f)
		}
		f.data = nil
	})
	if f == nil {
		f = &SymFile{name: name}
		m.fs.files = append(m.fs.files, f)
	}
	f.data, f.dirty = data, true
	if m.fs.crash {
		m.fsOp(nil)
	}
}

func (m *Machine) fileContent(o *openFile) Value {
	if o.f.data == nil {
		return DocBytes{&Doc{}}
	}
	return o.f.data
}

func (m *Machine) removeFile(f *SymFile) {
	out := m.fs.files[:0:0]
	for _, x := range m.fs.files {
		if x != f {
			out = append(out, x)
		}
	}
	m.fs.files = out
}

func regFS() {
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		out := S("")
		var parts []string
		conc := true
		for _, p := range sliceArg(a[0]) {
			s, ok := hostStr(p)
			if !ok {
				conc = false
			}
			parts = append(parts, s)
		}
		if conc {
			return S(filepath.Join(parts...))
		}
		for i, p := range sliceArg(a[0]) {
			if i > 0 {
				out = m.strCat(out, S("/"))
			}
			out = m.strCat(out, p.(Str))
		}
		return out
	}, "path/filepath.Join", "path.Join")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		m.fsOp(nil)
		return Iface{}
	}, "os.MkdirAll", "os.Mkdir", "os.Chmod")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		m.writeFile(a[0].(Str), a[1])
		return Iface{}
	}, "io/ioutil.WriteFile", "os.WriteFile")
	rd := func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		f := m.findFile(a[0].(Str))
		if f == nil {
			return Tuple{[]Value(nil), m.mkErrKind("not exist")}
		}
		return Tuple{m.fileContent(&openFile{f: f}), Iface{}}
	}
	reg(rd, "io/ioutil.ReadFile", "os.ReadFile")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return Tuple{m.readAll(a[0].(Iface)), Iface{}}
	}, "io/ioutil.ReadAll", "io.ReadAll")
	mkf := func(o *openFile) *Value {
		p := new(Value)
		*p = Native{"file", o}
		return p
	}
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		f := m.findFile(a[0].(Str))
		if f == nil {
			return Tuple{(*Value)(nil), m.mkErrKind("not exist")}
		}
		return Tuple{mkf(&openFile{f: f, name: a[0].(Str)}), Iface{}}
	}, "os.Open")
	create := func(m *Machine, name Str) Value {
		f := m.findFile(name)
		m.fsOp(nil)
		if f == nil {
			f = &SymFile{name: name}
			m.fs.files = append(m.fs.files, f)
		}
		f.data, f.dirty = []Value{}, true
		return Tuple{mkf(&openFile{f: f, name: name, write: true}), Iface{}}
	}
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return create(m, a[0].(Str)) }, "os.Create")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		fl := a[1].(*Term)
		if !fl.isConst() {
			m.unsupported("OpenFile flags")
		}
		v := fl.k.Int64()
		if v&3 == 0 { // read only
			f := m.findFile(a[0].(Str))
			if f == nil {
				return Tuple{(*Value)(nil), m.mkErrKind("not exist")}
			}
			return Tuple{mkf(&openFile{f: f, name: a[0].(Str)}), Iface{}}
		}
		if v&0x200 != 0 || m.findFile(a[0].(Str)) == nil {
			return create(m, a[0].(Str))
		}
		m.unsupported("OpenFile without truncation")
		return nil
	}, "os.OpenFile")
	tmp := func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		dir, pat := a[0].(Str), a[1].(Str)
		m.nvar++
		ps, _ := hostStr(pat)
		ps = strings.Replace(ps, "*", fmt.Sprintf("verif%d", m.nvar), 1)
		return create(m, m.strCat(m.strCat(dir, S("/")), S(ps)))
	}
	reg(tmp, "os.CreateTemp", "io/ioutil.TempFile")
	file := func(m *Machine, v Value) *openFile {
		n, ok := (*derefPtr(m, v)).(Native)
		if !ok || n.kind != "file" {
			m.unsupported("os.File value")
		}
		return n.p.(*openFile)
	}
	wr := func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		o := file(m, a[0])
		if !o.write {
			return Tuple{m.c.I(0), m.mkErrKind("bad file descriptor")}
		}
		var data Value = a[1]
		if s, ok := data.(Str); ok {
			if s.doc != nil {
				data = DocBytes{s.doc}
			} else {
				data = valsOf(m.strBytes(s))
			}
		}
		m.fsOp(func() { o.f.data = nil })
		if old, ok := o.f.data.([]Value); ok && len(old) > 0 {
			m.unsupported("appending write")
		}
		o.f.data, o.f.dirty = data, true
		n := m.builtin("len", nil, []Value{data}, fr)
		return Tuple{n, Iface{}}
	}
	reg(wr, "(*os.File).Write", "(*os.File).WriteString")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		o := file(m, a[0])
		m.fsOp(nil)
		if fn.Name() == "Sync" {
			o.f.dirty = false
		}
		return Iface{}
	}, "(*os.File).Sync", "(*os.File).Chmod")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		if p, ok := a[0].(*Value); ok && p == nil {
			return m.mkErrKind("invalid")
		}
		return Iface{}
	}, "(*os.File).Close")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return file(m, a[0]).name }, "(*os.File).Name")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		src := m.findFile(a[0].(Str))
		dst := m.findFile(a[1].(Str))
		m.fsOp(nil)
		if src == nil {
			return m.mkErrKind("not exist")
		}
		if dst != nil && dst != src {
			m.removeFile(dst)
		}
		src.name = a[1].(Str)
		m.fsOp(nil)
		return Iface{}
	}, "os.Rename")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		f := m.findFile(a[0].(Str))
		m.fsOp(nil)
		if f == nil {
			return m.mkErrKind("not exist")
		}
		m.removeFile(f)
		return Iface{}
	}, "os.Remove", "os.RemoveAll")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		f := m.findFile(a[0].(Str))
		if f == nil {
			return Tuple{Iface{}, m.mkErrKind("not exist")}
		}
		return Tuple{Iface{}, Iface{}}
	}, "os.Stat")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		e := a[0].(Iface)
		if e.t == errType {
			return boolT(e.v.(Native).p.(*ErrV).kind == "not exist")
		}
		return TFalse
	}, "os.IsNotExist")
}

// ---- ethereum transactions ----

type TxObj struct {
	inner    Iface
	hash     *Term
	signer   int
	chainID  *Term
	anyChain bool
}
type txKey struct{ p *Value }

var signerAddrs = []string{
	"7e5f4552091a69125d5dfcb7b8c2659029395bdf",
	"2b5ad5c4795c026514f8317c7a215e218dccd6cf",
	"6813eb9362372eef6200f3b1dbc3f819671cba69",
	"1eff47bc3a10a45d4b230b5d10e37751fe6aa718",
}

func signerAddr(i int) *big.Int {
	v, _ := new(big.Int).SetString(signerAddrs[i%len(signerAddrs)], 16)
	return v
}

const coreTypes = "github.com/ethereum/go-ethereum/core/types"

func (m *Machine) txOf(p Value) *TxObj {
	t, _ := m.native[txKey{derefPtr(m, p)}].(*TxObj)
	if t == nil {
		m.unsupported("transaction without origin")
	}
	return t
}

func regEth() {
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		tb, ok := a[1].(TxBytes)
		if !ok {
			if s, isS := a[1].([]Value); isS && len(s) < 3 {
				return m.mkErrKind("short typed transaction")
			}
			m.unsupported("decoding arbitrary transaction bytes")
		}
		p := derefPtr(m, a[0])
		(*p).(Struct)[0] = tb.tx.inner
		m.native[txKey{p}] = tb.tx
		return Iface{}
	}, "(*"+coreTypes+".Transaction).UnmarshalBinary")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return Array(valsOf(m.intBytes(m.txOf(a[0]).hash, 32)))
	}, "(*"+coreTypes+".Transaction).Hash")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return Iface{t: signerType, v: Native{"signer", m.bigAt(a[0])}}
	}, coreTypes+".LatestSignerForChainID", coreTypes+".NewCancunSigner", coreTypes+".NewLondonSigner", coreTypes+".NewEIP155Signer")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		sg := a[0].(Iface).v.(Native).p.(*Term)
		tx := m.txOf(a[1])
		if !tx.anyChain && !m.branch(m.c.Eq(sg, tx.chainID)) {
			return Tuple{Array(valsOf(m.intBytes(m.c.I(0), 20))), m.mkErrKind("invalid chain id for signer")}
		}
		return Tuple{Array(valsOf(m.intBytes(m.c.B(signerAddr(tx.signer)), 20))), Iface{}}
	}, coreTypes+".Sender")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.zeroResult(fn) }, "(*bytes.Buffer).Reset")
}

func (m *Machine) mkTx(kind int, nonce *Term, to Value, value, price, tip *Term, signer int, chainID *Term, data Value) TxBytes {
	c := m.c
	name := []string{"LegacyTx", "AccessListTx", "DynamicFeeTx", "BlobTx", "SetCodeTx", "LegacyTx"}[kind]
	t := m.E.P.namedType(coreTypes, name)
	if t == nil {
		m.unsupported("type " + name)
	}
	st := t.Underlying().(*types.Struct)
	v := m.zero(t).(Struct)
	num := func(t *Term) Value { return m.newBig(t) }
	if kind == 3 || kind == 4 {
		num = m.newU256
	}
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "ChainID":
			v[i] = num(chainID)
		case "Nonce":
			v[i] = nonce
		case "GasPrice", "GasFeeCap":
			v[i] = num(price)
		case "GasTipCap":
			v[i] = num(tip)
		case "Gas":
			v[i] = c.I(21000)
		case "To":
			v[i] = to
			if kind == 3 || kind == 4 {
				v[i] = copyVal(*derefPtr(m, to))
			}
		case "Value":
			v[i] = num(value)
		case "Data":
			if data != nil {
				v[i] = data
			}
		case "V", "R", "S":
			v[i] = num(c.I(1))
		}
	}
	p := new(Value)
	*p = v
	l, _ := m.native["txs"].([]*TxObj)
	h := c.B(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(0x7a11), 240), big.NewInt(int64(len(l)+1))))
	tx := &TxObj{inner: Iface{t: types.NewPointer(t), v: p}, hash: h, signer: signer, chainID: chainID, anyChain: kind == 5}
	m.native["txs"] = append(l, tx)
	return TxBytes{tx}
}

// newU256: a *uint256.Int, four little-endian words
func (m *Machine) newU256(t *Term) Value {
	p := new(Value)
	a := make(Array, 4)
	for i := range a {
		a[i] = m.c.Ext(t, 64*i, 64)
	}
	*p = a
	return p
}

// ---- harness API ----

var harnessFns = map[string]intr{}

func (e *Engine) param(name string, def int) int {
	if v, ok := e.params[name]; ok {
		return v
	}
	return def
}

func (m *Machine) newInput(name string, lo, hi *big.Int) *Term {
	n := fmt.Sprintf("%s#%d", name, len(m.inputs))
	t := m.c.Var(n, lo, hi)
	m.inputs = append(m.inputs, Input{Name: n, Kind: "int", t: t})
	return t
}

func (m *Machine) nameArg(v Value) string {
	s, ok := hostStr(v)
	if !ok {
		m.unsupported("symbolic harness name")
	}
	return s
}

func (m *Machine) boolArgs(v Value) []*Term {
	var out []*Term
	for _, x := range sliceArg(v) {
		out = append(out, x.(*Term))
	}
	return out
}

func init() {
	H := func(name string, f intr) { harnessFns[name] = f }
	H("vSymbolic", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return TTrue })
	H("vU64", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return m.newInput(m.nameArg(a[0]), b0, intRange(false, 64).hi)
	})
	H("vInt", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		lo, hi := a[1].(*Term), a[2].(*Term)
		if !lo.isConst() || !hi.isConst() {
			m.unsupported("vInt bounds")
		}
		return m.newInput(m.nameArg(a[0]), lo.k, hi.k)
	})
	H("vBig", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return m.newBig(m.newInput(m.nameArg(a[0]), b0, new(big.Int).Sub(pow2(m.smallInt(a[1].(*Term))), b1)))
	})
	H("vBool", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		t := m.newInput(m.nameArg(a[0]), b0, b1)
		return m.c.Eq(t, m.c.I(1))
	})
	H("vBytes", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		n := m.smallInt(a[1].(*Term))
		t := m.newInput(m.nameArg(a[0]), b0, new(big.Int).Sub(pow2(8*n), b1))
		return valsOf(m.intBytes(t, n))
	})
	// vStr: a string of n independent symbolic ASCII bytes
	H("vStr", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		n := m.smallInt(a[1].(*Term))
		var bs []*Term
		for i := 0; i < n; i++ {
			bs = append(bs, m.newInput(m.nameArg(a[0]), b0, big.NewInt(127)))
		}
		return mkStr(bs)
	})
	H("vPick", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		n := m.smallInt(a[1].(*Term))
		k := m.choose(n)
		m.inputs = append(m.inputs, Input{Name: fmt.Sprintf("%s#%d", m.nameArg(a[0]), len(m.inputs)), Kind: "pick", pick: k})
		return m.c.I(int64(k))
	})
	H("vAssume", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { m.assume(a[0].(*Term)); return nil })
	H("vAssert", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		m.vAssert(a[0].(*Term), m.nameArg(a[1]))
		return nil
	})
	H("vReach", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		m.reached = append(m.reached, m.nameArg(a[0]))
		return nil
	})
	H("vObs", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		iv := a[1].(Iface)
		v := iv.v
		if p, ok := v.(*Value); ok {
			if p == nil {
				v = S("<nil>")
			} else {
				v = copyVal(*p)
			}
		}
		m.obs = append(m.obs, Obs{m.nameArg(a[0]), v})
		return nil
	})
	H("vParam", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return m.c.I(int64(m.E.param(m.nameArg(a[0]), m.smallInt(a[1].(*Term)))))
	})
	H("vMapOrder", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		m.mapMode = m.smallInt(a[0].(*Term))
		return nil
	})
	H("vAnd", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.c.And(m.boolArgs(a[0])...) })
	H("vOr", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.c.Or(m.boolArgs(a[0])...) })
	H("vNot", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.c.Not(a[0].(*Term)) })
	H("vImplies", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return m.c.Or(m.c.Not(a[0].(*Term)), a[1].(*Term))
	})
	H("vIff", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return m.c.Eq(a[0].(*Term), a[1].(*Term))
	})
	H("vIteBig", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return m.newBig(m.c.Ite(a[0].(*Term), m.bigAt(a[1]), m.bigAt(a[2])))
	})
	H("vIteU64", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return m.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	})
	H("vB2I", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return m.c.Ite(a[0].(*Term), m.c.I(1), m.c.I(0))
	})
	H("vEqStr", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.strEq(a[0].(Str), a[1].(Str)) })
	// vForce splits the path on a condition (both outcomes explored when feasible)
	H("vForce", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return boolT(m.branch(a[0].(*Term))) })
	H("vTry", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		depth, nf := m.depth, len(m.callDepthFns)
		code := 0
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case targetPanic:
						code = 1
					case fatalExit:
						code = 2
						// the process is gone: its locks do not matter any more
						m.locks = map[*Value]*lockState{}
					default:
						panic(r)
					}
					m.native["lasttry"] = fmt.Sprint(r)
					m.depth = depth
					m.callDepthFns = m.callDepthFns[:nf]
				}
			}()
			m.call(a[0], nil, fr)
		}()
		return m.c.I(int64(code))
	})
	H("vCrash", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		fs := m.fsys()
		depth, nf := m.depth, len(m.callDepthFns)
		fs.crash = true
		fs.ops = 0
		crashed := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(crashExit); !ok {
						panic(r)
					}
					crashed = true
					m.depth = depth
					m.callDepthFns = m.callDepthFns[:nf]
					m.locks = map[*Value]*lockState{}
					for _, f := range fs.files {
						if fs.power && f.dirty {
							f.data = nil
						}
					}
				}
			}()
			m.call(a[0], nil, fr)
		}()
		fs.crash = false
		return boolT(crashed)
	})
	H("vLocksHeld", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		n := 0
		for _, l := range m.locks {
			n += l.w + l.r
		}
		return m.c.I(int64(n))
	})
	// vHang: whether the call never returns, as a lock it needs is not released.
	H("vHang", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		depth, nf := m.depth, len(m.callDepthFns)
		hang := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if t, ok := r.(targetPanic); !ok || !strings.HasPrefix(t.msg, "self-deadlock") {
						panic(r)
					}
					hang = true
					m.depth = depth
					m.callDepthFns = m.callDepthFns[:nf]
				}
			}()
			m.call(a[0], nil, fr)
		}()
		return boolT(hang)
	})
	H("vTrace", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		save := m.lockTrace
		lt := &LockTrace{ids: map[*Value]int{}}
		if save != nil {
			lt.ids = save.ids
		}
		if ids, ok := m.native["lockids"].(map[*Value]int); ok {
			lt.ids = ids
		}
		m.native["lockids"] = lt.ids
		m.lockTrace = lt
		m.call(a[1], nil, fr)
		m.lockTrace = save
		m.traces = append(m.traces, &TraceRec{Name: m.nameArg(a[0]), Evs: lt.evs})
		return nil
	})
	H("vPar", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		m.vPar(a[0].(Iface), m.nameArg(a[1]), a[2], m.nameArg(a[3]), a[4], fr)
		return nil
	})
	H("vMkTx", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		// kind, nonce, to *common.Address, value, price, tip *big.Int, signer int, chainID uint64, data []byte
		return m.mkTx(m.smallInt(a[0].(*Term)), a[1].(*Term), a[2], m.bigAt(a[3]), m.bigAt(a[4]), m.bigOrZero(a[5]), m.smallInt(a[6].(*Term)), a[7].(*Term), a[8])
	})
	H("vTxHash", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return Array(valsOf(m.intBytes(a[0].(TxBytes).tx.hash, 32)))
	})
	H("vFlag", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		set, _ := m.native["flags"].(map[string]Value)
		if set == nil {
			set = map[string]Value{}
			m.native["flags"] = set
		}
		set[m.nameArg(a[0])] = a[1].(Iface).v
		return nil
	})
	H("vNote", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		m.notes = append(m.notes, m.nameArg(a[0]))
		return nil
	})
	H("vPower", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		m.fsys().power = a[0].(*Term).isTrue()
		return nil
	})
	H("vFsClear", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { m.fs = nil; return nil })
	H("vDrop", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { panic(pathAbort{"infeasible", "drop"}) })
	H("vReqBody", func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return nil })
}

func (m *Machine) stat(label string) *AssertStat {
	s := m.assertStats[label]
	if s == nil {
		s = &AssertStat{}
		m.assertStats[label] = s
	}
	return s
}

func (m *Machine) vAssert(cond *Term, label string) {
	if m.replaying() {
		m.assertPC(cond)
		if cond.isFalse() {
			panic(pathAbort{"infeasible", "assert"})
		}
		return
	}
	st := m.stat(label)
	if cond.isTrue() {
		st.Trivial++
		return
	}
	nc := m.c.Not(cond)
	st.Solver++
	var r SatRes
	var md *Model
	for _, x := range m.mods {
		if x.Bool(nc) {
			r, md = Sat, x
			break
		}
	}
	if md == nil {
		r, md = m.s.Check(nc, true)
		if r == Unknown {
			r, md = m.fallback(nc, true)
		}
	}
	switch r {
	case Sat:
		v := &Violation{Label: label, Kind: "assert", MapMode: m.mapMode}
		if md != nil {
			v.Inputs = m.replayVals(md)
		}
		m.viol = append(m.viol, v)
	case Unknown:
		m.unknownLabels = append(m.unknownLabels, label)
	}
	if r != Unsat {
		if cond.isFalse() {
			panic(pathAbort{"infeasible", "assert"})
		}
		m.assertPC(cond)
		if len(m.mods) == 0 {
			rr, md := m.s.Check(TTrue, true)
			if rr == Unsat {
				panic(pathAbort{"infeasible", "assert"})
			}
			m.addModel(md)
		}
		return
	}
	m.assertPC(cond)
	m.checkTime()
}

func (m *Machine) bigOrZero(v Value) *Term {
	if p, ok := v.(*Value); ok && p == nil {
		return m.c.I(0)
	}
	return m.bigAt(v)
}
