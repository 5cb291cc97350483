package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//   *Term            booleans and all integer types
//   Float            floating point (opaque unless concrete)
//   Str              strings
//   Struct, Array    aggregates (copied on load/store)
//   *Value           pointers
//   []Value          slices
//   DocBytes         []byte holding an encoded document (JSON, gob)
//   TxBytes          []byte holding an RLP transaction
//   BigV             math/big.Int contents
//   *MapV            maps
//   Iface            interfaces
//   *Closure, *ssa.Function, *ssa.Builtin   functions
//   Tuple            multiple results
//   Native           engine-level object
//   nil              unsupported/absent
type Value interface{}

type Struct []Value
type Array []Value
type Tuple []Value
type BigV struct{ t *Term }
type Float struct {
	known bool
	f     float64
}
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type Native struct {
	kind string
	p    interface{}
}
type DocBytes struct{ d *Doc }
type TxBytes struct{ tx *TxObj }
type ChanV struct {
	buf    []Value
	cap    int
	closed bool
}

// Str is a string: concrete (s), a sequence of symbolic bytes (sym) or a
// formatted string with symbolic decimal arguments (fkey, fargs).
type Str struct {
	s     string
	sym   []*Term
	fkey  string
	fargs []*Term
	doc   *Doc
	opq   bool // opaque text (messages); content irrelevant
}

func S(s string) Str { return Str{s: s} }
func (s Str) concrete() bool {
	return s.sym == nil && s.fkey == "" && s.doc == nil && !s.opq
}
func (s Str) isSeq() bool { return s.fkey == "" && s.doc == nil && !s.opq }

func (m *Machine) strBytes(s Str) []*Term {
	if s.sym != nil {
		return s.sym
	}
	if !s.concrete() {
		m.unsupported("byte access to formatted/opaque string")
	}
	out := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = m.c.I(int64(s.s[i]))
	}
	return out
}
func mkStr(bs []*Term) Str {
	for _, b := range bs {
		if !b.isConst() {
			return Str{sym: bs}
		}
	}
	raw := make([]byte, len(bs))
	for i, b := range bs {
		raw[i] = byte(b.k.Int64())
	}
	return Str{s: string(raw)}
}
func (m *Machine) strLen(s Str) int {
	if s.sym != nil {
		return len(s.sym)
	}
	if !s.concrete() {
		m.unsupported("length of formatted/opaque string")
	}
	return len(s.s)
}

func (m *Machine) strEq(a, b Str) *Term {
	c := m.c
	if a.concrete() && b.concrete() {
		return c.Bool(a.s == b.s)
	}
	if a.doc != nil || b.doc != nil {
		if a.doc != nil && b.doc != nil {
			return m.docEq(a.doc, b.doc)
		}
		m.unsupported("compare document with string")
	}
	if a.opq || b.opq {
		if a.opq && b.concrete() && b.s == "" || b.opq && a.concrete() && a.s == "" {
			return TFalse
		}
		m.unsupported("compare opaque string")
	}
	if a.fkey != "" || b.fkey != "" {
		if a.fkey == "" {
			a, b = b, a
		}
		if b.fkey == a.fkey && len(a.fargs) == len(b.fargs) {
			var cs []*Term
			for i := range a.fargs {
				cs = append(cs, c.Eq(a.fargs[i], b.fargs[i]))
			}
			return c.And(cs...)
		}
		if b.concrete() {
			vals, ok := matchFmt(a.fkey, b.s)
			if !ok || len(vals) != len(a.fargs) {
				return TFalse
			}
			var cs []*Term
			for i := range vals {
				cs = append(cs, c.Eq(a.fargs[i], c.B(vals[i])))
			}
			return c.And(cs...)
		}
		if b.fkey != "" && strings.Count(a.fkey, "%d") == 1 && strings.Count(b.fkey, "%d") == 1 {
			// different literal parts around one decimal each
			pa, pb := strings.SplitN(a.fkey, "%d", 2), strings.SplitN(b.fkey, "%d", 2)
			if !strings.HasPrefix(pa[0], pb[0]) && !strings.HasPrefix(pb[0], pa[0]) {
				return TFalse
			}
			if !strings.HasSuffix(pa[1], pb[1]) && !strings.HasSuffix(pb[1], pa[1]) {
				return TFalse
			}
		}
		m.unsupported("compare formatted strings")
	}
	return c.SeqEq(m.strBytes(a), m.strBytes(b))
}

// matchFmt matches s against a key such as "state_%d.json".
func matchFmt(key, s string) ([]*big.Int, bool) {
	var out []*big.Int
	for {
		i := strings.Index(key, "%d")
		if i < 0 {
			return out, key == s
		}
		if !strings.HasPrefix(s, key[:i]) {
			return nil, false
		}
		s = s[i:]
		key = key[i+2:]
		j := 0
		for j < len(s) && (s[j] >= '0' && s[j] <= '9' || j == 0 && s[j] == '-') {
			j++
		}
		if j == 0 || j > 1 && s[0] == '0' {
			return nil, false
		}
		v, ok := new(big.Int).SetString(s[:j], 10)
		if !ok {
			return nil, false
		}
		out = append(out, v)
		s = s[j:]
	}
}

type mapEntry struct {
	k, v Value
	dead bool
}
type MapV struct {
	es   []*mapEntry
	idx  map[string]*mapEntry // concrete keys
	live int
	symb bool // has symbolic keys
}

func newMap() *MapV { return &MapV{idx: map[string]*mapEntry{}} }

// concKey returns a canonical string for fully concrete keys.
func concKey(v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		switch v.op {
		case OpConst:
			return "i" + v.k.String(), true
		case OpTrue:
			return "T", true
		case OpFalse:
			return "F", true
		}
		return "", false
	case Str:
		if v.concrete() {
			return "s" + v.s, true
		}
		return "", false
	case Array:
		var sb strings.Builder
		sb.WriteByte('[')
		for _, e := range v {
			k, ok := concKey(e)
			if !ok {
				return "", false
			}
			sb.WriteString(k)
			sb.WriteByte(',')
		}
		return sb.String(), true
	case Struct:
		var sb strings.Builder
		sb.WriteByte('{')
		for _, e := range v {
			k, ok := concKey(e)
			if !ok {
				return "", false
			}
			sb.WriteString(k)
			sb.WriteByte(',')
		}
		return sb.String(), true
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := concKey(v.v)
		return "I" + v.t.String() + ":" + k, ok
	case *Value:
		return fmt.Sprintf("p%p", v), true
	}
	return "", false
}

func (m *Machine) mapFind(mp *MapV, k Value) *mapEntry {
	if mp == nil {
		return nil
	}
	ck, conc := concKey(k)
	if conc {
		if e, ok := mp.idx[ck]; ok && !e.dead {
			return e
		}
		if !mp.symb {
			return nil
		}
	}
	for _, e := range mp.es {
		if e.dead {
			continue
		}
		if conc {
			if _, ok := concKey(e.k); ok {
				continue
			}
		}
		t := m.eq(e.k, k)
		if m.branch(t) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *MapV, k, v Value) {
	if mp == nil {
		m.panicRT("assignment to entry in nil map")
	}
	m.noteWrite(mp)
	if m.par != nil {
		defer m.published(mp, v)
	}
	if e := m.mapFind(mp, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	mp.es = append(mp.es, e)
	mp.live++
	if ck, ok := concKey(k); ok {
		mp.idx[ck] = e
	} else {
		mp.symb = true
	}
}

func (m *Machine) mapDel(mp *MapV, k Value) {
	if mp == nil {
		return
	}
	m.noteWrite(mp)
	if e := m.mapFind(mp, k); e != nil {
		e.dead = true
		mp.live--
		if ck, ok := concKey(k); ok {
			delete(mp.idx, ck)
		}
		out := mp.es[:0:0]
		for _, x := range mp.es {
			if x != e {
				out = append(out, x)
			}
		}
		mp.es = out
	}
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		o := make(Struct, len(v))
		for i := range v {
			o[i] = copyVal(v[i])
		}
		return o
	case Array:
		o := make(Array, len(v))
		for i := range v {
			switch v[i].(type) {
			case Struct, Array:
				o[i] = copyVal(v[i])
			default:
				o[i] = v[i]
			}
		}
		return o
	}
	return v
}

func store(addr *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*addr).(Struct); ok && len(d) == len(v) {
			for i := range v {
				store(&d[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	case Array:
		if d, ok := (*addr).(Array); ok && len(d) == len(v) {
			for i := range v {
				store(&d[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

func isBigInt(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}

func (m *Machine) zero(t types.Type) Value {
	if isBigInt(t) {
		return BigV{m.c.I(0)}
	}
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return TFalse
		case t.Info()&types.IsInteger != 0:
			return smallConsts[-smallMin]
		case t.Info()&types.IsString != 0:
			return Str{}
		case t.Info()&types.IsFloat != 0:
			return Float{true, 0}
		case t.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case t.Kind() == types.UntypedNil:
			return nil
		}
		return nil
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = m.zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		if t.Len() > 1<<20 {
			m.unsupported("huge array")
		}
		a := make(Array, t.Len())
		for i := range a {
			a[i] = m.zero(t.Elem())
		}
		return a
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Tuple:
		if t.Len() == 1 {
			return m.zero(t.At(0).Type())
		}
		o := make(Tuple, t.Len())
		for i := range o {
			o[i] = m.zero(t.At(i).Type())
		}
		return o
	}
	panic(fmt.Sprintf("zero %v", t))
}

func isNilFn(v Value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *Closure:
		return v == nil
	case *ssa.Function:
		return v == nil
	}
	return false
}

// eq compares two values of the same type, giving a boolean term.
func (m *Machine) eq(a, b Value) *Term {
	c := m.c
	switch x := a.(type) {
	case *Term:
		return c.Eq(x, b.(*Term))
	case Str:
		return m.strEq(x, b.(Str))
	case BigV:
		return c.Eq(x.t, b.(BigV).t)
	case Float:
		y := b.(Float)
		if x.known && y.known {
			return c.Bool(x.f == y.f)
		}
		m.unsupported("float comparison")
	case Struct:
		y := b.(Struct)
		var cs []*Term
		for i := range x {
			t := m.eq(x[i], y[i])
			if t.isFalse() {
				return TFalse
			}
			cs = append(cs, t)
		}
		return c.And(cs...)
	case Array:
		y := b.(Array)
		if len(x) > 0 {
			if _, ok := x[0].(*Term); ok {
				return c.SeqEq(termsOf(x), termsOf(y))
			}
		}
		var cs []*Term
		for i := range x {
			cs = append(cs, m.eq(x[i], y[i]))
		}
		return c.And(cs...)
	case *Value:
		y, _ := b.(*Value)
		return c.Bool(x == y)
	case []Value:
		y, _ := b.([]Value)
		if x == nil || y == nil {
			return c.Bool((x == nil) == (y == nil) && b != nil || x == nil && b == nil)
		}
		m.panicRT("comparing uncomparable slices")
	case DocBytes, TxBytes:
		return TFalse // only comparable to nil
	case *MapV:
		y, _ := b.(*MapV)
		return c.Bool(x == y)
	case *ChanV:
		y, _ := b.(*ChanV)
		return c.Bool(x == y)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return c.Bool(x.t == nil && b == nil)
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return TFalse
		}
		return m.eq(x.v, y.v)
	case Native:
		y, ok := b.(Native)
		return c.Bool(ok && x == y)
	case *Closure, *ssa.Function:
		return c.Bool(isNilFn(a) && isNilFn(b))
	case nil:
		switch y := b.(type) {
		case nil:
			return TTrue
		case *Value:
			return c.Bool(y == nil)
		default:
			return m.eq(b, a)
		}
	}
	m.unsupported(fmt.Sprintf("eq %T", a))
	return nil
}

func termsOf(v []Value) []*Term {
	out := make([]*Term, len(v))
	for i := range v {
		out[i] = v[i].(*Term)
	}
	return out
}
func valsOf(v []*Term) []Value {
	out := make([]Value, len(v))
	for i := range v {
		out[i] = v[i]
	}
	return out
}

// intInfo: signedness and width of an integer type.
func intInfo(t types.Type) (signed bool, bits int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return false, 0, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return true, 64, true
	case types.Int32, types.UntypedRune:
		return true, 32, true
	case types.Int16:
		return true, 16, true
	case types.Int8:
		return true, 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return false, 64, true
	case types.Uint32:
		return false, 32, true
	case types.Uint16:
		return false, 16, true
	case types.Uint8:
		return false, 8, true
	}
	return false, 0, false
}

type rangeT struct{ lo, hi *big.Int }

var intRanges = map[int]rangeT{}

func init() {
	for _, n := range []int{8, 16, 32, 64} {
		intRanges[n] = rangeT{b0, new(big.Int).Sub(pow2(n), b1)}
		intRanges[-n] = rangeT{new(big.Int).Neg(pow2(n - 1)), new(big.Int).Sub(pow2(n-1), b1)}
	}
}
func intRange(signed bool, bits int) rangeT {
	if signed {
		return intRanges[-bits]
	}
	return intRanges[bits]
}
