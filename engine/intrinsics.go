package main

// Models of library functions. Everything in the repository itself is executed from its SSA form; the
// functions here replace third-party and standard library code whose semantics are fixed (big integers,
// hashing, JSON, errors, formatting, logging, files, locks).

import (
	"fmt"
	"go/types"
	"math/big"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type intr func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value

var intrs = map[string]intr{}
var intrCache sync.Map // *ssa.Function -> intr (or nil)

func reg(f intr, names ...string) {
	for _, n := range names {
		intrs[n] = f
	}
}

type ErrV struct {
	msg   Str
	cause Value
	kind  string
}

func (m *Machine) mkErr(msg Str, cause Value) Iface {
	return Iface{t: errType, v: Native{"err", &ErrV{msg: msg, cause: cause}}}
}
func (m *Machine) mkErrKind(kind string) Iface {
	return Iface{t: errType, v: Native{"err", &ErrV{msg: Str{opq: true}, kind: kind}}}
}

func (m *Machine) errMethod(name string, args []Value) Value {
	e := args[0].(Native).p.(*ErrV)
	switch name {
	case "Error":
		return e.msg
	case "Unwrap", "Cause":
		if e.cause == nil {
			return Iface{}
		}
		return e.cause
	}
	m.unsupported("error method " + name)
	return nil
}

func (m *Machine) errText(v Value) Str {
	iv, ok := v.(Iface)
	if !ok {
		return Str{opq: true}
	}
	if iv.t == nil {
		return S("<nil>")
	}
	if iv.t == errType {
		return iv.v.(Native).p.(*ErrV).msg
	}
	if fn := m.findMethod(iv.t, "Error"); fn != nil {
		if s, ok := m.call(fn, []Value{iv.v}, nil).(Str); ok {
			return s
		}
	}
	return Str{opq: true}
}

// findMethod finds a method by name in the method set of t.
func (m *Machine) findMethod(t types.Type, name string) *ssa.Function {
	if t == errType {
		return nil
	}
	ms := m.E.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return m.E.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func pkgPathOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (m *Machine) intrinsic(fn *ssa.Function, args []Value, caller *frame) (Value, bool) {
	if c, ok := intrCache.Load(fn); ok {
		f := c.(intr)
		if f == nil {
			return nil, false
		}
		return f(m, args, fn, caller), true
	}
	f := lookupIntr(m, fn)
	intrCache.Store(fn, f)
	if f == nil {
		return nil, false
	}
	return f(m, args, fn, caller), true
}

func zeroRes(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.zeroResult(fn) }

func lookupIntr(m *Machine, fn *ssa.Function) intr {
	pp := pkgPathOf(fn)
	if strings.HasPrefix(pp, modPath) {
		if len(fn.Name()) > 1 && fn.Name()[0] == 'v' {
			base := filepath.Base(m.E.prog.Fset.Position(fn.Pos()).Filename)
			if strings.HasPrefix(base, "zz_verif") {
				if f, ok := harnessFns[fn.Name()]; ok {
					return f
				}
			}
		}
		if f, ok := intrs[strings.TrimPrefix(fn.String(), modPath)]; ok {
			return f
		}
		return nil
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if f, ok := intrs[name]; ok {
		return f
	}
	switch {
	case pp == "github.com/sirupsen/logrus":
		n := fn.Name()
		if strings.HasPrefix(n, "Fatal") {
			return func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
				panic(fatalExit{"log.Fatal @ " + m.where()})
			}
		}
		if strings.HasPrefix(n, "Panic") {
			return func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
				panic(targetPanic{v: Iface{}, msg: "log.Panic @ " + m.where()})
			}
		}
		return zeroRes
	case pp == "math/big" && bigOther(fn):
		return func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { m.unsupported(fn.String()); return nil }
	case strings.HasPrefix(pp, "github.com/prometheus/"), pp == modPath+"/metrics", strings.HasPrefix(pp, "github.com/rs/zerolog"):
		return zeroRes
	case fn.Name() == "init" && fn.Synthetic != "" && fn.Signature.Recv() == nil:
		// package initialisers are run lazily
		return func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return nil }
	}
	return nil
}

// bigOther: a method of big.Float or big.Rat that has no model
func bigOther(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	return r != nil && (strings.HasSuffix(r.Type().String(), "big.Float") || strings.HasSuffix(r.Type().String(), "big.Rat"))
}

// ---- helpers ----

func (m *Machine) bigAt(v Value) *Term {
	p, ok := v.(*Value)
	if !ok {
		m.unsupported(fmt.Sprintf("big.Int receiver %T", v))
	}
	if p == nil {
		m.panicRT("nil pointer dereference (nil *big.Int)")
	}
	b, ok := (*p).(BigV)
	if !ok {
		m.unsupported(fmt.Sprintf("big.Int cell %T", *p))
	}
	m.noteRead(p)
	return b.t
}
func (m *Machine) setBig(v Value, t *Term) Value {
	p, _ := v.(*Value)
	if p == nil {
		m.panicRT("nil pointer dereference (nil *big.Int receiver)")
	}
	m.noteWrite(p)
	*p = BigV{t}
	return p
}
func (m *Machine) newBig(t *Term) *Value {
	p := new(Value)
	*p = BigV{t}
	return p
}

func (m *Machine) bytesOf(v Value) []*Term {
	switch v := v.(type) {
	case []Value:
		return termsOf(v)
	case Array:
		return termsOf(v)
	case *Value:
		if v != nil {
			return m.bytesOf(*v)
		}
	case Str:
		return m.strBytes(v)
	}
	m.unsupported(fmt.Sprintf("bytes of %T", v))
	return nil
}

func (m *Machine) hexChars(bs []*Term) []*Term {
	c := m.c
	out := make([]*Term, 0, 2*len(bs))
	for _, b := range bs {
		out = append(out, c.HexCh(c.Ext(b, 4, 4)), c.HexCh(c.Ext(b, 0, 4)))
	}
	return out
}
func lits(m *Machine, s string) []*Term { return m.strBytes(S(s)) }

func (m *Machine) hexStr(prefix string, bs []*Term) Str {
	return mkStr(append(lits(m, prefix), m.hexChars(bs)...))
}
func (m *Machine) addrStr(bs []*Term) Str {
	x := m.c.BytesToInt(bs)
	out := lits(m, "0x")
	for i := 0; i < 40; i++ {
		out = append(out, m.c.HexCS(x, i))
	}
	return mkStr(out)
}

// nibble returns the value of a hex digit character and a validity condition.
func (m *Machine) nibble(ch *Term) (*Term, *Term) {
	c := m.c
	switch {
	case ch.isConst():
		v := hexVal(int64(lowerB(byte(ch.k.Int64()))))
		if v < 0 {
			return c.I(0), TFalse
		}
		return c.I(v), TTrue
	case ch.op == OpHex:
		return ch.args[0], TTrue
	case ch.op == OpHexCS:
		return c.Ext(ch.args[0], 4*(39-ch.sh), 4), TTrue
	}
	in := func(lo, hi int64) *Term { return c.And(c.Le(c.I(lo), ch), c.Le(ch, c.I(hi))) }
	d, l, u := in('0', '9'), in('a', 'f'), in('A', 'F')
	v := c.Ite(d, c.Sub(ch, c.I('0')), c.Ite(l, c.Sub(ch, c.I('a'-10)), c.Sub(ch, c.I('A'-10))))
	return v, c.Or(d, l, u)
}

func (m *Machine) lowerCh(ch *Term) *Term {
	c := m.c
	switch {
	case ch.isConst():
		return c.I(int64(lowerB(byte(ch.k.Int64()))))
	case ch.op == OpHex:
		return ch
	case ch.op == OpHexCS:
		return c.HexCh(c.Ext(ch.args[0], 4*(39-ch.sh), 4))
	}
	return c.Ite(c.And(c.Le(c.I('A'), ch), c.Le(ch, c.I('Z'))), c.Add(ch, c.I(32)), ch)
}

func (m *Machine) lower(s Str) Str {
	if s.concrete() {
		return S(strings.ToLower(s.s))
	}
	if s.sym == nil {
		if s.fkey != "" {
			return Str{fkey: strings.ToLower(strings.ReplaceAll(s.fkey, "%d", "\x00")), fargs: s.fargs}.fixD()
		}
		return s
	}
	out := make([]*Term, len(s.sym))
	for i, b := range s.sym {
		out[i] = m.lowerCh(b)
	}
	return mkStr(out)
}
func (s Str) fixD() Str { s.fkey = strings.ReplaceAll(s.fkey, "\x00", "%d"); return s }

// decodeHex decodes hex characters; the bool term is the validity of all of them.
func (m *Machine) decodeHex(cs []*Term) ([]*Term, *Term) {
	c := m.c
	var out []*Term
	ok := []*Term{}
	for i := 0; i+1 < len(cs); i += 2 {
		h, v1 := m.nibble(cs[i])
		l, v2 := m.nibble(cs[i+1])
		ok = append(ok, v1, v2)
		out = append(out, m.joinNib(h, l))
	}
	return out, c.And(ok...)
}

// joinNib builds a byte from two nibbles, recognising adjacent fields of one value.
func (m *Machine) joinNib(h, l *Term) *Term {
	c := m.c
	if h.op == OpExt && l.op == OpExt && h.args[0] == l.args[0] && h.sh == l.sh+4 && l.w == 4 {
		return c.Ext(h.args[0], l.sh, h.w+4)
	}
	return c.Add(c.MulK(h, big.NewInt(16)), l)
}

func hasHexPrefix(m *Machine, cs []*Term) bool {
	if len(cs) < 2 {
		return false
	}
	return m.branch(m.c.And(m.c.Eq(cs[0], m.c.I('0')), m.c.Or(m.c.Eq(cs[1], m.c.I('x')), m.c.Eq(cs[1], m.c.I('X')))))
}

func (m *Machine) fromHex(s Str) []*Term {
	if !s.isSeq() {
		m.unsupported("hex of formatted string")
	}
	cs := m.strBytes(s)
	if hasHexPrefix(m, cs) {
		cs = cs[2:]
	}
	if len(cs)%2 == 1 {
		cs = append([]*Term{m.c.I('0')}, cs...)
	}
	return m.hexPrefixBytes(cs)
}

// hexPrefixBytes: like hex.DecodeString ignoring the error (valid prefix is kept).
func (m *Machine) hexPrefixBytes(cs []*Term) []*Term {
	bs, ok := m.decodeHex(cs)
	if m.branch(ok) {
		return bs
	}
	var out []*Term
	for i := 0; i+1 < len(cs); i += 2 {
		b, ok := m.decodeHex(cs[i : i+2])
		if !m.branch(ok) {
			break
		}
		out = append(out, b[0])
	}
	return out
}

func fixBytes(m *Machine, bs []*Term, n int) []*Term {
	if len(bs) > n {
		return bs[len(bs)-n:]
	}
	out := make([]*Term, 0, n)
	for i := len(bs); i < n; i++ {
		out = append(out, m.c.I(0))
	}
	return append(out, bs...)
}

func (m *Machine) intBytes(t *Term, n int) []*Term {
	out := make([]*Term, n)
	for i := range out {
		out[i] = m.c.Byte(t, i, n)
	}
	return out
}

// hostStr returns concrete text.
func hostStr(v Value) (string, bool) {
	s, ok := v.(Str)
	if !ok || !s.concrete() {
		return "", false
	}
	return s.s, true
}

func boolT(v bool) *Term {
	if v {
		return TTrue
	}
	return TFalse
}

func derefPtr(m *Machine, v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		m.unsupported(fmt.Sprintf("pointer expected, got %T", v))
	}
	if p == nil {
		m.panicRT("nil pointer dereference")
	}
	return p
}

// ---- formatting ----

// fmtArg renders one operand for %v / %s / %d.
func (m *Machine) fmtArg(verb byte, flags string, v Value) Str {
	iv, ok := v.(Iface)
	if ok {
		if iv.t == nil {
			return S("<nil>")
		}
		if verb == 'v' || verb == 's' {
			if iv.t == errType {
				return m.errText(iv)
			}
			if iv.t != nil {
				if fn := m.findMethod(iv.t, "Error"); fn != nil && fn.Signature.Results().Len() == 1 {
					return m.errText(iv)
				}
				if p, isP := iv.v.(*Value); !isP || p != nil {
					if fn := m.findMethod(iv.t, "String"); fn != nil && fn.Signature.Params().Len() == 0 {
						if s, ok := m.call(fn, []Value{iv.v}, nil).(Str); ok {
							return s
						}
					}
				}
			}
		}
		v = iv.v
	}
	if p, isP := v.(*Value); isP && p != nil {
		if b, isB := (*p).(BigV); isB {
			v = b.t
		}
	}
	switch x := v.(type) {
	case Str:
		if verb == 'q' {
			if x.concrete() {
				return S(strconv.Quote(x.s))
			}
			return Str{opq: true}
		}
		if verb == 'x' {
			if x.isSeq() {
				return mkStr(m.hexChars(m.strBytes(x)))
			}
			return Str{opq: true}
		}
		if flags != "" && x.concrete() {
			return S(fmt.Sprintf("%"+flags+string(verb), x.s))
		}
		if flags != "" {
			return Str{opq: true}
		}
		return x
	case *Term:
		if x.isBool() {
			if x.isTrue() {
				return S("true")
			}
			if x.isFalse() {
				return S("false")
			}
			return Str{opq: true}
		}
		if x.isConst() {
			if verb == 's' || verb == 'q' {
				return Str{opq: true}
			}
			return S(fmt.Sprintf("%"+flags+string(verb), x.k))
		}
		if (verb == 'd' || verb == 'v') && flags == "" {
			return Str{fkey: "%d", fargs: []*Term{x}}
		}
	case []Value, Array:
		var es []Value
		switch y := x.(type) {
		case []Value:
			es = y
		case Array:
			es = y
		}
		if verb == 'x' && (flags == "" || flags == "#") {
			allT := true
			for _, e := range es {
				if t, ok := e.(*Term); !ok || t.isBool() || t.hi == nil || t.hi.Cmp(big.NewInt(255)) > 0 {
					allT = false
				}
			}
			if allT {
				p := ""
				if flags == "#" {
					p = "0x"
				}
				return m.hexStr(p, termsOf(es))
			}
		}
	case Float:
		if x.known {
			return S(fmt.Sprintf("%"+flags+string(verb), x.f))
		}
	}
	return Str{opq: true}
}

func (m *Machine) sprintf(f Str, args []Value) Str {
	if !f.concrete() {
		return Str{opq: true}
	}
	out := S("")
	s := f.s
	ai := 0
	for len(s) > 0 {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			out = m.strCat(out, S(s))
			break
		}
		if i > 0 {
			out = m.strCat(out, S(s[:i]))
		}
		s = s[i+1:]
		j := 0
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j == len(s) {
			return Str{opq: true}
		}
		verb := s[j]
		fl := s[:j]
		s = s[j+1:]
		if verb == '%' {
			out = m.strCat(out, S("%"))
			continue
		}
		if ai >= len(args) {
			return Str{opq: true}
		}
		if fl == "+" && verb == 'v' {
			fl = ""
		}
		if verb == 'w' {
			verb = 'v'
		}
		out = m.strCat(out, m.fmtArg(verb, fl, args[ai]))
		ai++
	}
	return out
}

func (m *Machine) sprint(args []Value, ln bool) Str {
	out := S("")
	prevStr := true
	for i, a := range args {
		isS := false
		if iv, ok := a.(Iface); ok {
			_, isS = iv.v.(Str)
			if iv.t != nil {
				if b, ok := iv.t.Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
					isS = false
				}
			}
		}
		if i > 0 && (ln || !isS && !prevStr) {
			out = m.strCat(out, S(" "))
		}
		out = m.strCat(out, m.fmtArg('v', "", a))
		prevStr = isS
	}
	if ln {
		out = m.strCat(out, S("\n"))
	}
	return out
}

func sliceArg(v Value) []Value {
	s, _ := v.([]Value)
	return s
}

func (m *Machine) divFloor(a, b *Term) (q, r *Term) { // Euclidean, b>0 or b<0
	return m.c.Div(a, b), m.c.Mod(a, b)
}

func (m *Machine) checkDiv0(b *Term) {
	if m.branch(m.c.Eq(b, m.c.I(0))) {
		panic(targetPanic{v: Iface{t: types.Typ[types.String], v: S("division by zero")}, msg: "runtime error: big.Int division by zero @ " + m.where()})
	}
}

// euclid gives Euclidean quotient and modulus for any non-zero divisor.
func (m *Machine) euclid(a, b *Term) (*Term, *Term) {
	c := m.c
	if b.lo != nil && b.lo.Sign() >= 0 {
		return c.Div(a, b), c.Mod(a, b)
	}
	if b.isConst() {
		q := c.Div(a, c.B(new(big.Int).Neg(b.k)))
		return c.Neg(q), c.Mod(a, c.B(new(big.Int).Neg(b.k)))
	}
	if m.branch(c.Lt(b, c.I(0))) {
		nb := c.Neg(b)
		return c.Neg(c.Div(a, nb)), c.Mod(a, nb)
	}
	return c.Div(a, b), c.Mod(a, b)
}

func init() {
	// ---- errors ----
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.mkErr(a[0].(Str), nil) },
		"errors.New", "github.com/pkg/errors.New")
	errorf := func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		args := sliceArg(a[1])
		var cause Value
		if f, ok := hostStr(a[0]); ok && strings.Contains(f, "%w") {
			for _, x := range args {
				if iv, ok := x.(Iface); ok && iv.t != nil && (iv.t == errType || m.findMethod(iv.t, "Error") != nil) {
					cause = iv
				}
			}
		}
		return m.mkErr(m.sprintf(a[0].(Str), args), cause)
	}
	reg(errorf, "fmt.Errorf", "github.com/pkg/errors.Errorf")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		e := a[0].(Iface)
		if e.t == nil {
			return Iface{}
		}
		return m.mkErr(m.strCat(m.strCat(a[1].(Str), S(": ")), m.errText(e)), e)
	}, "github.com/pkg/errors.Wrap", "github.com/pkg/errors.WithMessage")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		e := a[0].(Iface)
		if e.t == nil {
			return Iface{}
		}
		return m.mkErr(m.strCat(m.strCat(m.sprintf(a[1].(Str), sliceArg(a[2])), S(": ")), m.errText(e)), e)
	}, "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessagef")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return a[0] }, "github.com/pkg/errors.WithStack")
	unwrap := func(m *Machine, e Iface) Iface {
		if e.t == errType {
			if c, ok := e.v.(Native).p.(*ErrV).cause.(Iface); ok {
				return c
			}
			return Iface{}
		}
		if fn := m.findMethod(e.t, "Unwrap"); fn != nil {
			if r, ok := m.call(fn, []Value{e.v}, nil).(Iface); ok {
				return r
			}
		}
		return Iface{}
	}
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		e := a[0].(Iface)
		if e.t == nil {
			return Iface{}
		}
		return unwrap(m, e)
	}, "errors.Unwrap", "github.com/pkg/errors.Unwrap")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		for i := 0; i < 20; i++ {
			if e.t == nil {
				return boolT(t.t == nil)
			}
			if m.branch(m.eq(e, t)) {
				return TTrue
			}
			e = unwrap(m, e)
			if e.t == nil {
				return TFalse
			}
		}
		return TFalse
	}, "errors.Is", "github.com/pkg/errors.Is")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		e := a[0].(Iface)
		tg := a[1].(Iface)
		pt, ok := tg.t.Underlying().(*types.Pointer)
		if !ok {
			m.unsupported("errors.As target")
		}
		for i := 0; i < 20 && e.t != nil; i++ {
			if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
				if m.implements(e.t, it) {
					store(tg.v.(*Value), e)
					return TTrue
				}
			} else if types.Identical(e.t, pt.Elem()) {
				store(tg.v.(*Value), e.v)
				return TTrue
			}
			e = unwrap(m, e)
		}
		return TFalse
	}, "errors.As", "github.com/pkg/errors.As")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		e := a[0].(Iface)
		for i := 0; i < 20 && e.t != nil; i++ {
			n := unwrap(m, e)
			if n.t == nil {
				return e
			}
			e = n
		}
		return e
	}, "github.com/pkg/errors.Cause")

	// ---- fmt ----
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.sprintf(a[0].(Str), sliceArg(a[1])) }, "fmt.Sprintf")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.sprint(sliceArg(a[0]), false) }, "fmt.Sprint")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.sprint(sliceArg(a[0]), true) }, "fmt.Sprintln")
	reg(zeroRes, "fmt.Println", "fmt.Printf", "fmt.Print")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return append(sliceArg(a[0]), valsOf(m.strBytes(m.sprintf(a[1].(Str), sliceArg(a[2]))))...)
	}, "fmt.Appendf")

	// ---- strconv ----
	dec := func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		t := a[0].(*Term)
		base := int64(10)
		if len(a) > 1 {
			b := a[1].(*Term)
			if !b.isConst() {
				m.unsupported("symbolic base")
			}
			base = b.k.Int64()
		}
		if t.isConst() {
			return S(t.k.Text(int(base)))
		}
		if base != 10 {
			return Str{opq: true}
		}
		return Str{fkey: "%d", fargs: []*Term{t}}
	}
	reg(dec, "strconv.FormatUint", "strconv.FormatInt", "strconv.Itoa")
	parse := func(signed bool) intr {
		return func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
			s := a[0].(Str)
			bits := 64
			base := 10
			if len(a) > 2 {
				base = m.smallInt(a[1].(*Term))
				bits = m.smallInt(a[2].(*Term))
				if bits == 0 {
					bits = 64
				}
			}
			if s.fkey == "%d" && (base == 10 || base == 0) {
				t := s.fargs[0]
				rg := intRange(signed, bits)
				if m.branch(m.c.And(m.c.Le(m.c.B(rg.lo), t), m.c.Le(t, m.c.B(rg.hi)))) {
					return Tuple{t, Iface{}}
				}
				return Tuple{m.c.I(0), m.mkErrKind("range")}
			}
			if s.concrete() {
				if signed {
					v, err := strconv.ParseInt(s.s, base, bits)
					if err != nil {
						return Tuple{m.c.I(v), m.mkErr(S(err.Error()), nil)}
					}
					return Tuple{m.c.I(v), Iface{}}
				}
				v, err := strconv.ParseUint(s.s, base, bits)
				t := m.c.B(new(big.Int).SetUint64(v))
				if err != nil {
					return Tuple{t, m.mkErr(S(err.Error()), nil)}
				}
				return Tuple{t, Iface{}}
			}
			if s.isSeq() && base == 10 && len(s.sym) <= 19 && bits == 64 {
				cs := s.sym
				c := m.c
				neg := TFalse
				if signed || len(cs) == 0 {
					if len(cs) > 0 {
						if m.branch(c.Eq(cs[0], c.I('-'))) {
							neg = TTrue
							cs = cs[1:]
						} else if m.branch(c.Eq(cs[0], c.I('+'))) {
							cs = cs[1:]
						}
					}
				}
				if len(cs) == 0 {
					return Tuple{c.I(0), m.mkErrKind("syntax")}
				}
				v := c.I(0)
				ok := []*Term{}
				for _, ch := range cs {
					ok = append(ok, c.Le(c.I('0'), ch), c.Le(ch, c.I('9')))
					v = c.Add(c.MulK(v, big.NewInt(10)), c.Sub(ch, c.I('0')))
				}
				if !m.branch(c.And(ok...)) {
					return Tuple{c.I(0), m.mkErrKind("syntax")}
				}
				if neg.isTrue() {
					v = c.Neg(v)
				}
				rg := intRange(signed, bits)
				if !m.branch(c.And(c.Le(c.B(rg.lo), v), c.Le(v, c.B(rg.hi)))) {
					return Tuple{c.I(0), m.mkErrKind("range")}
				}
				return Tuple{v, Iface{}}
			}
			m.unsupported("parse of symbolic string")
			return nil
		}
	}
	reg(parse(false), "strconv.ParseUint")
	reg(parse(true), "strconv.ParseInt", "strconv.Atoi")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		if s, ok := hostStr(a[0]); ok {
			v, err := strconv.ParseBool(s)
			if err != nil {
				return Tuple{TFalse, m.mkErr(S(err.Error()), nil)}
			}
			return Tuple{boolT(v), Iface{}}
		}
		m.unsupported("ParseBool")
		return nil
	}, "strconv.ParseBool")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		if s, ok := hostStr(a[0]); ok {
			return S(strconv.Quote(s))
		}
		return Str{opq: true}
	}, "strconv.Quote")

	// ---- math/big ----
	B := "(*math/big.Int)."
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.newBig(a[0].(*Term)) }, "math/big.NewInt")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.setBig(a[0], m.bigAt(a[1])) }, B+"Set")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.setBig(a[0], a[1].(*Term)) }, B+"SetUint64", B+"SetInt64")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return m.setBig(a[0], m.c.BytesToInt(m.bytesOf(a[1])))
	}, B+"SetBytes")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		s := a[1].(Str)
		if s.fkey == "%d" {
			return Tuple{m.setBig(a[0], s.fargs[0]), TTrue}
		}
		if s.concrete() {
			v, ok := new(big.Int).SetString(s.s, m.smallInt(a[2].(*Term)))
			if !ok {
				return Tuple{(*Value)(nil), TFalse}
			}
			return Tuple{m.setBig(a[0], m.c.B(v)), TTrue}
		}
		m.unsupported("big.SetString symbolic")
		return nil
	}, B+"SetString")
	bin := func(f func(m *Machine, x, y *Term) *Term) intr {
		return func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
			return m.setBig(a[0], f(m, m.bigAt(a[1]), m.bigAt(a[2])))
		}
	}
	reg(bin(func(m *Machine, x, y *Term) *Term { return m.c.Add(x, y) }), B+"Add")
	reg(bin(func(m *Machine, x, y *Term) *Term { return m.c.Sub(x, y) }), B+"Sub")
	reg(bin(func(m *Machine, x, y *Term) *Term { return m.c.Mul(x, y) }), B+"Mul")
	reg(bin(func(m *Machine, x, y *Term) *Term { m.checkDiv0(y); q, _ := m.euclid(x, y); return q }), B+"Div")
	reg(bin(func(m *Machine, x, y *Term) *Term { m.checkDiv0(y); _, r := m.euclid(x, y); return r }), B+"Mod")
	reg(bin(func(m *Machine, x, y *Term) *Term { m.checkDiv0(y); q, _ := m.quoRem(x, y); return q }), B+"Quo")
	reg(bin(func(m *Machine, x, y *Term) *Term { m.checkDiv0(y); _, r := m.quoRem(x, y); return r }), B+"Rem")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		x, y := m.bigAt(a[1]), m.bigAt(a[2])
		m.checkDiv0(y)
		q, r := m.euclid(x, y)
		m.setBig(a[3], r)
		return Tuple{m.setBig(a[0], q), a[3]}
	}, B+"DivMod")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		x, y := m.bigAt(a[1]), m.bigAt(a[2])
		m.checkDiv0(y)
		q, r := m.quoRem(x, y)
		m.setBig(a[3], r)
		return Tuple{m.setBig(a[0], q), a[3]}
	}, B+"QuoRem")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.setBig(a[0], m.c.Neg(m.bigAt(a[1]))) }, B+"Neg")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		x := m.bigAt(a[1])
		return m.setBig(a[0], m.c.Ite(m.c.Lt(x, m.c.I(0)), m.c.Neg(x), x))
	}, B+"Abs")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.c.Cmp(m.bigAt(a[0]), m.bigAt(a[1])) }, B+"Cmp")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		x, y := m.bigAt(a[0]), m.bigAt(a[1])
		ab := func(t *Term) *Term { return m.c.Ite(m.c.Lt(t, m.c.I(0)), m.c.Neg(t), t) }
		return m.c.Cmp(ab(x), ab(y))
	}, B+"CmpAbs")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		p, _ := a[0].(*Value)
		if p == nil {
			m.panicRT("nil pointer dereference (nil *big.Int)")
		}
		return m.c.Cmp(m.bigAt(a[0]), m.c.I(0))
	}, B+"Sign")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return m.wrapNoQuery(m.absLow(m.bigAt(a[0])), types.Typ[types.Uint64])
	}, B+"Uint64")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return m.wrapNoQuery(m.bigAt(a[0]), types.Typ[types.Int64])
	}, B+"Int64")
	rng := func(signed bool) intr {
		return func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
			rg := intRange(signed, 64)
			x := m.bigAt(a[0])
			return m.c.And(m.c.Le(m.c.B(rg.lo), x), m.c.Le(x, m.c.B(rg.hi)))
		}
	}
	reg(rng(false), B+"IsUint64")
	reg(rng(true), B+"IsInt64")
	bigStr := func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		if p, ok := a[0].(*Value); ok && p == nil {
			return S("<nil>")
		}
		t := m.bigAt(a[0])
		base := 10
		if len(a) > 1 {
			base = m.smallInt(a[1].(*Term))
		}
		if t.isConst() {
			return S(t.k.Text(base))
		}
		if base != 10 {
			return Str{opq: true}
		}
		return Str{fkey: "%d", fargs: []*Term{t}}
	}
	reg(bigStr, B+"String", B+"Text")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		t := m.bigAt(a[0])
		if t.isConst() {
			var out []Value
			for _, b := range t.k.Bytes() {
				out = append(out, m.c.I(int64(b)))
			}
			if out == nil {
				out = []Value{}
			}
			return out
		}
		if t.hi == nil || t.lo == nil || t.lo.Sign() < 0 || t.hi.BitLen() > 512 {
			m.unsupported("big.Bytes of a symbolic value")
		}
		// as many bytes as it takes
		for n := (t.hi.BitLen() + 7) / 8; n > 0; n-- {
			if m.branch(m.c.Le(m.c.B(pow2(8*(n-1))), t)) {
				out := make([]Value, n)
				for i, b := range m.intBytes(t, n) {
					out[i] = b
				}
				return out
			}
		}
		return []Value{}
	}, B+"Bytes")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		t := m.bigAt(a[0])
		buf := a[1].([]Value)
		n := len(buf)
		lim := m.c.B(pow2(8 * n))
		if m.branch(m.c.Le(lim, t)) {
			panic(targetPanic{v: Iface{}, msg: "math/big: buffer too small to fit value @ " + m.where()})
		}
		for i, b := range m.intBytes(t, n) {
			buf[i] = b
		}
		return buf
	}, B+"FillBytes")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		t := m.bigAt(a[0])
		if t.isConst() {
			return m.c.I(int64(t.k.BitLen()))
		}
		if t.hi != nil && t.lo != nil && t.lo.Sign() >= 0 {
			n := t.hi.BitLen()
			r := m.c.I(int64(n))
			for i := n - 1; i >= 0; i-- {
				r = m.c.Ite(m.c.Lt(t, m.c.B(pow2(i))), m.c.I(int64(i)), r)
			}
			return r
		}
		m.unsupported("BitLen")
		return nil
	}, B+"BitLen")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return m.setBig(a[0], m.c.MulK(m.bigAt(a[1]), pow2(m.smallInt(a[2].(*Term)))))
	}, B+"Lsh")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return m.setBig(a[0], m.c.Div(m.bigAt(a[1]), m.c.B(pow2(m.smallInt(a[2].(*Term))))))
	}, B+"Rsh")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		x, y := m.bigAt(a[1]), m.bigAt(a[2])
		if x.isConst() && y.isConst() {
			md := new(big.Int)
			if p, ok := a[3].(*Value); ok && p != nil {
				md = m.bigAt(a[3]).k
			}
			return m.setBig(a[0], m.c.B(new(big.Int).Exp(x.k, y.k, md)))
		}
		m.unsupported("big.Exp symbolic")
		return nil
	}, B+"Exp")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return (*Value)(nil)
	}, "math/big.NewFloat", "(*math/big.Float).SetInt", "(*math/big.Float).Quo", "(*math/big.Float).Mul", "(*math/big.Float).SetFloat64", "(*math/big.Float).SetUint64")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return Str{opq: true} }, "(*math/big.Float).String", "(*math/big.Float).Text")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return Tuple{Float{}, m.c.I(0)} }, "(*math/big.Float).Float64")

	// ---- strings ----
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		out := S("")
		for i := 0; i < m.smallInt(a[1].(*Term)); i++ {
			out = m.strCat(out, a[0].(Str))
		}
		return out
	}, "strings.Repeat")
	// strings.Builder
	sb := func(m *Machine, v Value) (sbKey, Str) {
		k := sbKey{derefPtr(m, v)}
		s, ok := m.native[k].(Str)
		if !ok {
			s = S("")
		}
		return k, s
	}
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		k, s := sb(m, a[0])
		m.native[k] = m.strCat(s, a[1].(Str))
		return Tuple{m.c.I(int64(0)), Iface{}}
	}, "(*strings.Builder).WriteString")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		k, s := sb(m, a[0])
		m.native[k] = m.strCat(s, mkStr([]*Term{a[1].(*Term)}))
		return Iface{}
	}, "(*strings.Builder).WriteByte")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		k, s := sb(m, a[0])
		m.native[k] = m.strCat(s, S(string(rune(m.smallInt(a[1].(*Term))))))
		return Tuple{m.c.I(1), Iface{}}
	}, "(*strings.Builder).WriteRune")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		_, s := sb(m, a[0])
		return s
	}, "(*strings.Builder).String")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		_, s := sb(m, a[0])
		return m.c.I(int64(m.strLen(s)))
	}, "(*strings.Builder).Len")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return nil }, "(*strings.Builder).Grow")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		k, _ := sb(m, a[0])
		delete(m.native, k)
		return nil
	}, "(*strings.Builder).Reset")
	host2 := func(f func(a, b string) bool) func(m *Machine, a []Value) (Value, bool) {
		return func(m *Machine, a []Value) (Value, bool) {
			x, ok1 := hostStr(a[0])
			y, ok2 := hostStr(a[1])
			if ok1 && ok2 {
				return boolT(f(x, y)), true
			}
			return nil, false
		}
	}
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.lower(a[0].(Str)) }, "strings.ToLower")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		s := a[0].(Str)
		if s.concrete() {
			return S(strings.ToUpper(s.s))
		}
		if !s.isSeq() {
			return s
		}
		out := make([]*Term, len(s.sym))
		c := m.c
		for i, b := range s.sym {
			b = m.lowerCh(b)
			if b.isConst() {
				out[i] = c.I(int64(strings.ToUpper(string([]byte{byte(b.k.Int64())}))[0]))
				continue
			}
			out[i] = c.Ite(c.And(c.Le(c.I('a'), b), c.Le(b, c.I('z'))), c.Sub(b, c.I(32)), b)
		}
		return mkStr(out)
	}, "strings.ToUpper")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return m.strEq(m.lower(a[0].(Str)), m.lower(a[1].(Str)))
	}, "strings.EqualFold")
	hp := host2(strings.HasPrefix)
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		if v, ok := hp(m, a); ok {
			return v
		}
		s, p := a[0].(Str), a[1].(Str)
		if !s.isSeq() || !p.isSeq() {
			m.unsupported("HasPrefix")
		}
		x, y := m.strBytes(s), m.strBytes(p)
		if len(x) < len(y) {
			return TFalse
		}
		return m.c.SeqEq(x[:len(y)], y)
	}, "strings.HasPrefix")
	hs := host2(strings.HasSuffix)
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		if v, ok := hs(m, a); ok {
			return v
		}
		s, p := a[0].(Str), a[1].(Str)
		if !s.isSeq() || !p.isSeq() {
			m.unsupported("HasSuffix")
		}
		x, y := m.strBytes(s), m.strBytes(p)
		if len(x) < len(y) {
			return TFalse
		}
		return m.c.SeqEq(x[len(x)-len(y):], y)
	}, "strings.HasSuffix")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		x, ok1 := hostStr(a[0])
		y, ok2 := hostStr(a[1])
		if ok1 && ok2 {
			return boolT(strings.Contains(x, y))
		}
		s, p := a[0].(Str), a[1].(Str)
		if s.opq && p.concrete() {
			// opaque messages: unknown
			return m.c.BVar(m.fresh("contains"))
		}
		if !s.isSeq() || !p.isSeq() {
			m.unsupported("Contains")
		}
		bx, by := m.strBytes(s), m.strBytes(p)
		r := TFalse
		for i := 0; i+len(by) <= len(bx); i++ {
			r = m.c.Or(r, m.c.SeqEq(bx[i:i+len(by)], by))
		}
		return r
	}, "strings.Contains")
	hostS := func(f func(s string, rest []string) Value) intr {
		return func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
			var ss []string
			for _, x := range a {
				s, ok := hostStr(x)
				if !ok {
					if sx, isS := x.(Str); isS && sx.opq {
						return Str{opq: true}
					}
					m.unsupported(fn.String() + " on symbolic string")
				}
				ss = append(ss, s)
			}
			return f(ss[0], ss[1:])
		}
	}
	reg(hostS(func(s string, r []string) Value { return S(strings.TrimSpace(s)) }), "strings.TrimSpace")
	reg(hostS(func(s string, r []string) Value { return S(strings.Trim(s, r[0])) }), "strings.Trim")
	reg(hostS(func(s string, r []string) Value { return S(strings.TrimRight(s, r[0])) }), "strings.TrimRight")
	reg(hostS(func(s string, r []string) Value { return S(strings.TrimLeft(s, r[0])) }), "strings.TrimLeft")
	reg(hostS(func(s string, r []string) Value { return S(strings.ReplaceAll(s, r[0], r[1])) }), "strings.ReplaceAll")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		s, p := a[0].(Str), a[1].(Str)
		if !s.isSeq() || !p.isSeq() {
			m.unsupported("TrimPrefix")
		}
		x, y := m.strBytes(s), m.strBytes(p)
		if len(x) >= len(y) && m.branch(m.c.SeqEq(x[:len(y)], y)) {
			return mkStr(x[len(y):])
		}
		return s
	}, "strings.TrimPrefix")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		s, ok := hostStr(a[0])
		sep, ok2 := hostStr(a[1])
		if ok && ok2 {
			out := []Value{}
			for _, x := range strings.Split(s, sep) {
				out = append(out, S(x))
			}
			return out
		}
		ss, ps := a[0].(Str), a[1].(Str)
		if (ss.fkey != "") && ok2 {
			out := []Value{}
			na := 0
			for _, x := range strings.Split(ss.fkey, sep) {
				k := strings.Count(x, "%d")
				if k == 0 {
					out = append(out, S(x))
				} else {
					out = append(out, Str{fkey: x, fargs: ss.fargs[na : na+k]})
				}
				na += k
			}
			return out
		}
		if ss.isSeq() && ok2 && len(sep) == 1 {
			out := []Value{}
			var cur []*Term
			for _, ch := range m.strBytes(ss) {
				if m.branch(m.c.Eq(ch, m.c.I(int64(sep[0])))) {
					out = append(out, mkStr(cur))
					cur = nil
				} else {
					cur = append(cur, ch)
				}
			}
			return append(out, mkStr(cur))
		}
		_ = ps
		m.unsupported("strings.Split symbolic")
		return nil
	}, "strings.Split")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		out := S("")
		for i, x := range sliceArg(a[0]) {
			if i > 0 {
				out = m.strCat(out, a[1].(Str))
			}
			out = m.strCat(out, x.(Str))
		}
		return out
	}, "strings.Join")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		s, ok := hostStr(a[0])
		p, ok2 := hostStr(a[1])
		if ok && ok2 {
			return m.c.I(int64(strings.Index(s, p)))
		}
		return m.c.I(int64(m.seqIndex(m.seqOf(a[0]), m.seqOf(a[1]), false)))
	}, "strings.Index")

	// ---- bytes / hex / addresses ----
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		if x, ok := a[0].(DocBytes); ok {
			if y, ok := a[1].(DocBytes); ok {
				return m.docEq(x.d, y.d)
			}
			return TFalse
		}
		return m.c.SeqEq(m.bytesOf(a[0]), m.bytesOf(a[1]))
	}, "bytes.Equal")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		x, y := m.bytesOf(a[0]), m.bytesOf(a[1])
		return m.c.Ite(m.c.SeqLt(x, y), m.c.I(-1), m.c.Ite(m.c.SeqEq(x, y), m.c.I(0), m.c.I(1)))
	}, "bytes.Compare")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.hexStr("", m.bytesOf(a[0])) },
		"encoding/hex.EncodeToString", "github.com/ethereum/go-ethereum/common.Bytes2Hex")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		s := a[0].(Str)
		if !s.isSeq() {
			m.unsupported("hex.DecodeString")
		}
		cs := m.strBytes(s)
		bs, ok := m.decodeHex(cs)
		if m.branch(ok) {
			if len(cs)%2 == 1 {
				return Tuple{valsOf(bs), m.mkErrKind("hex")}
			}
			return Tuple{valsOf(bs), Iface{}}
		}
		return Tuple{valsOf(m.hexPrefixBytes(cs)), m.mkErrKind("hex")}
	}, "encoding/hex.DecodeString")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		s := a[0].(Str)
		if !s.isSeq() {
			m.unsupported("Hex2Bytes")
		}
		return valsOf(m.hexPrefixBytes(m.strBytes(s)))
	}, "github.com/ethereum/go-ethereum/common.Hex2Bytes")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return valsOf(m.fromHex(a[0].(Str))) }, "github.com/ethereum/go-ethereum/common.FromHex")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.hexStr("0x", m.bytesOf(a[0])) }, "github.com/ethereum/go-ethereum/common/hexutil.Encode")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return Array(valsOf(fixBytes(m, m.fromHex(a[0].(Str)), 20)))
	}, "github.com/ethereum/go-ethereum/common.HexToAddress")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return Array(valsOf(fixBytes(m, m.fromHex(a[0].(Str)), 32)))
	}, "github.com/ethereum/go-ethereum/common.HexToHash")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return Array(valsOf(fixBytes(m, m.bytesOf(a[0]), 20)))
	}, "github.com/ethereum/go-ethereum/common.BytesToAddress")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return Array(valsOf(fixBytes(m, m.bytesOf(a[0]), 32)))
	}, "github.com/ethereum/go-ethereum/common.BytesToHash")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		s := a[0].(Str)
		if !s.isSeq() {
			m.unsupported("IsHexAddress")
		}
		cs := m.strBytes(s)
		if hasHexPrefix(m, cs) {
			cs = cs[2:]
		}
		if len(cs) != 40 {
			return TFalse
		}
		_, ok := m.decodeHex(cs)
		return ok
	}, "github.com/ethereum/go-ethereum/common.IsHexAddress")
	addr := func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.addrStr(m.bytesOf(a[0])) }
	reg(addr, "(github.com/ethereum/go-ethereum/common.Address).String", "(github.com/ethereum/go-ethereum/common.Address).Hex",
		"(github.com/attestantio/go-eth2-client/spec/bellatrix.ExecutionAddress).String")
	hex32 := func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.hexStr("0x", m.bytesOf(a[0])) }
	reg(hex32, "(github.com/ethereum/go-ethereum/common.Hash).String", "(github.com/ethereum/go-ethereum/common.Hash).Hex",
		"(github.com/attestantio/go-eth2-client/spec/phase0.BLSPubKey).String", "(github.com/attestantio/go-eth2-client/spec/phase0.Root).String",
		"(github.com/attestantio/go-eth2-client/spec/phase0.Hash32).String")

	// ---- hashing ----
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return Iface{t: keccakType, v: Native{"keccak", &hashState{}}}
	}, "golang.org/x/crypto/sha3.NewLegacyKeccak256")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		var bs []*Term
		for _, x := range sliceArg(a[0]) {
			bs = append(bs, m.bytesOf(x)...)
		}
		return valsOf(m.intBytes(m.c.Keccak("keccak", bs), 32))
	}, "github.com/ethereum/go-ethereum/crypto.Keccak256")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		var bs []*Term
		for _, x := range sliceArg(a[0]) {
			bs = append(bs, m.bytesOf(x)...)
		}
		return Array(valsOf(m.intBytes(m.c.Keccak("keccak", bs), 32)))
	}, "github.com/ethereum/go-ethereum/crypto.Keccak256Hash")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		if d, ok := a[0].(DocBytes); ok {
			return Array(valsOf(m.intBytes(m.docHash(d.d), 32)))
		}
		return Array(valsOf(m.intBytes(m.c.Keccak("sha256", m.bytesOf(a[0])), 32)))
	}, "crypto/sha256.Sum256")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		t := m.c.Mod(m.bigAt(a[0]), m.c.B(pow2(256)))
		return valsOf(m.intBytes(t, 32))
	}, "github.com/ethereum/go-ethereum/common/math.U256Bytes")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		// *uint256.Int: 4 little-endian words
		arr := (*derefPtr(m, a[0])).(Array)
		out := Array{}
		for i := 3; i >= 0; i-- {
			out = append(out, valsOf(m.intBytes(arr[i].(*Term), 8))...)
		}
		return out
	}, "(*github.com/holiman/uint256.Int).Bytes32")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		if p, ok := a[0].(*Value); ok && p == nil {
			return p
		}
		arr := (*derefPtr(m, a[0])).(Array)
		t := m.c.I(0)
		for i := 0; i < 4; i++ {
			t = m.c.Add(t, m.c.MulK(arr[i].(*Term), pow2(64*i)))
		}
		return m.newBig(t)
	}, "(*github.com/holiman/uint256.Int).ToBig")

	// ---- sync ----
	regSync()
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return m.sortSlice(a, fr) }, "sort.Slice", "sort.SliceStable")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		s := sliceArg(a[0])
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				lt := m.binop(tokLSS, types.Typ[types.String], types.Typ[types.String], types.Typ[types.Bool], s[j], s[j-1]).(*Term)
				if !m.branch(lt) {
					break
				}
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
		return nil
	}, "sort.Strings", "sort.Ints", "sort.Float64s")
	regMisc()
	regStd()
	regFS()
	regDoc()
	regEth()
}

func (m *Machine) absLow(t *Term) *Term {
	if t.lo != nil && t.lo.Sign() >= 0 {
		return t
	}
	return m.c.Ite(m.c.Lt(t, m.c.I(0)), m.c.Neg(t), t)
}

func (m *Machine) fresh(p string) string {
	m.nvar++
	return fmt.Sprintf("%s!%d", p, m.nvar)
}

func (m *Machine) sortSlice(a []Value, fr *frame) Value {
	iv := a[0].(Iface)
	s := sliceArg(iv.v)
	less := func(i, j int) bool {
		return m.branch(m.call(a[1], []Value{m.c.I(int64(i)), m.c.I(int64(j))}, fr).(*Term))
	}
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			x, y := copyVal(s[j]), copyVal(s[j-1])
			s[j], s[j-1] = y, x
		}
	}
	return nil
}

type hashState struct{ buf []*Term }


type sbKey struct{ p *Value }
