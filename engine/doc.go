package main

// Documents: JSON texts kept as trees with symbolic leaves. encoding/json is modelled on the static
// types (struct tags, omitempty, custom marshalers, map keys), so saving and loading a state really
// goes through the field names and custom (un)marshalers of the repository.

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type Node struct {
	k     byte // o a s n b z f q(quantity 0x..) B(base64 bytes)
	isMap bool
	keys  []Str
	vals  []*Node
	s     Str
	t     *Term
	bs    []*Term
	f     string
}

type Doc struct {
	id     int64
	root   *Node
	indent string
	nl     bool
}

var docIDs int64

func newDoc(n *Node, indent string) *Doc {
	return &Doc{id: atomic.AddInt64(&docIDs, 1), root: n, indent: indent}
}

func (m *Machine) docEq(a, b *Doc) *Term {
	if a == b {
		return TTrue
	}
	if a.indent != b.indent || a.nl != b.nl {
		return TFalse
	}
	return m.nodeEq(a.root, b.root)
}

func (m *Machine) nodeEq(a, b *Node) *Term {
	if a == b {
		return TTrue
	}
	if a.k != b.k {
		// strings holding hex can be either kind; anything else differs
		if (a.k == 's' || a.k == 'q' || a.k == 'B') && (b.k == 's' || b.k == 'q' || b.k == 'B') {
			m.unsupported("compare of string-like nodes")
		}
		return TFalse
	}
	c := m.c
	switch a.k {
	case 'z':
		return TTrue
	case 'n', 'q', 'b':
		return c.Eq(a.t, b.t)
	case 'f':
		return c.Bool(a.f == b.f)
	case 's':
		return m.strEq(a.s, b.s)
	case 'B':
		return c.SeqEq(a.bs, b.bs)
	case 'a':
		if len(a.vals) != len(b.vals) {
			return TFalse
		}
		var cs []*Term
		for i := range a.vals {
			cs = append(cs, m.nodeEq(a.vals[i], b.vals[i]))
		}
		return c.And(cs...)
	case 'o':
		if len(a.vals) != len(b.vals) {
			return TFalse
		}
		if !a.isMap && !b.isMap {
			var cs []*Term
			for i := range a.vals {
				cs = append(cs, m.strEq(a.keys[i], b.keys[i]), m.nodeEq(a.vals[i], b.vals[i]))
			}
			return c.And(cs...)
		}
		if a.isMap != b.isMap && len(a.vals) > 0 {
			m.unsupported("compare map and struct objects")
		}
		// maps are emitted sorted by key: equal iff equal as sets (keys are distinct)
		var cs []*Term
		for i := range a.vals {
			var alt []*Term
			for j := range b.vals {
				ke := m.strEq(a.keys[i], b.keys[j])
				if ke.isFalse() {
					continue
				}
				alt = append(alt, c.And(ke, m.nodeEq(a.vals[i], b.vals[j])))
			}
			cs = append(cs, c.Or(alt...))
		}
		return c.And(cs...)
	}
	return TFalse
}

// docHash: a fresh 256 bit value per document; equal exactly when the documents are equal (collision
// freedom of sha256 is assumed).
type docHashRec struct {
	d *Doc
	h *Term
}

func (m *Machine) docHash(d *Doc) *Term {
	l, _ := m.native["docHashes"].([]docHashRec)
	for _, r := range l {
		if r.d == d {
			return r.h
		}
	}
	h := m.c.Var(fmt.Sprintf("dochash!%d", len(l)), b0, new(big.Int).Sub(pow2(256), b1))
	for _, r := range l {
		eq := m.docEq(r.d, d)
		m.assume(m.c.Eq(m.c.Eq(r.h, h), eq))
	}
	// a stored hash string and an unrelated document never match by accident:
	m.native["docHashes"] = append(l, docHashRec{d, h})
	return h
}

func (m *Machine) assume(t *Term) {
	if t.isFalse() {
		panic(pathAbort{"infeasible", "assume"})
	}
	if t.isTrue() {
		return
	}
	m.assertPC(t)
	if !m.replaying() && len(m.mods) == 0 {
		r, md := m.s.Check(TTrue, true)
		if r == Unsat {
			panic(pathAbort{"infeasible", "assume"})
		}
		m.addModel(md)
		m.checkTime()
	}
}

type fieldInfo struct {
	name      string
	omitempty bool
	asString  bool
	idx       []int
	typ       types.Type
}

func jsonFields(st *types.Struct) []fieldInfo {
	var out []fieldInfo
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		if f.Anonymous() && parts[0] == "" {
			t := f.Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if es, ok := t.Underlying().(*types.Struct); ok {
				if _, isP := f.Type().Underlying().(*types.Pointer); !isP {
					for _, e := range jsonFields(es) {
						e.idx = append([]int{i}, e.idx...)
						out = append(out, e)
					}
					continue
				}
			}
		}
		if !f.Exported() {
			continue
		}
		fi := fieldInfo{name: parts[0], idx: []int{i}, typ: f.Type()}
		if fi.name == "" {
			fi.name = f.Name()
		}
		for _, o := range parts[1:] {
			if o == "omitempty" {
				fi.omitempty = true
			}
			if o == "string" {
				fi.asString = true
			}
		}
		out = append(out, fi)
	}
	return out
}

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

const phase0 = "github.com/attestantio/go-eth2-client/spec/phase0"

const gethCommon = "github.com/ethereum/go-ethereum/common"

func (m *Machine) isEmptyJSON(v Value) *Term {
	c := m.c
	switch v := v.(type) {
	case *Term:
		if v.isBool() {
			return c.Not(v)
		}
		return c.Eq(v, c.I(0))
	case Str:
		if v.isSeq() {
			return c.Bool(m.strLen(v) == 0)
		}
		return TFalse
	case []Value:
		return c.Bool(len(v) == 0)
	case Array:
		return c.Bool(len(v) == 0)
	case *MapV:
		return c.Bool(v == nil || v.live == 0)
	case *Value:
		return c.Bool(v == nil)
	case Iface:
		return c.Bool(v.t == nil)
	case Float:
		return c.Bool(v.known && v.f == 0)
	}
	return TFalse
}

type jsonErr struct{ msg string }

// builtinJSON: types whose (un)marshalling is modelled, not executed.
func builtinJSON(t types.Type) bool {
	switch typeName(t) {
	case gethCommon + ".Address", gethCommon + ".Hash", gethCommon + "/hexutil.Uint64", gethCommon + "/hexutil.Uint",
		gethCommon + "/hexutil.Bytes", gethCommon + "/hexutil.Big":
		return true
	}
	return isBigInt(t)
}

// encode v of static type t; addr is its address when addressable.
func (m *Machine) encode(t types.Type, v Value, addr *Value) *Node {
	switch typeName(t) {
	case gethCommon + ".Address", gethCommon + ".Hash":
		return &Node{k: 's', s: m.hexStr("0x", termsOf(v.(Array)))}
	case gethCommon + "/hexutil.Uint64", gethCommon + "/hexutil.Uint":
		return &Node{k: 'q', t: v.(*Term)}
	case gethCommon + "/hexutil.Bytes":
		return &Node{k: 's', s: m.hexStr("0x", m.bytesOf(v))}
	case gethCommon + "/hexutil.Big":
		return &Node{k: 'q', t: v.(BigV).t}
	}
	if isBigInt(t) {
		return &Node{k: 'n', t: v.(BigV).t}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		pv, _ := v.(*Value)
		if pv == nil {
			return &Node{k: 'z'}
		}
		if fn := m.marshaler(t, "MarshalJSON"); fn != nil && !builtinJSON(p.Elem()) {
			return m.callMarshal(fn, v)
		}
		m.noteRead(pv)
		return m.encode(p.Elem(), *pv, pv)
	}
	if _, isI := t.Underlying().(*types.Interface); isI {
		iv, _ := v.(Iface)
		if iv.t == nil {
			return &Node{k: 'z'}
		}
		if iv.t == errType {
			return &Node{k: 'o'}
		}
		return m.encode(iv.t, iv.v, nil)
	}
	if fn := m.marshaler(t, "MarshalJSON"); fn != nil {
		return m.callMarshal(fn, v)
	}
	if addr != nil {
		if fn := m.marshaler(types.NewPointer(t), "MarshalJSON"); fn != nil {
			return m.callMarshal(fn, addr)
		}
	}
	if fn := m.marshaler(t, "MarshalText"); fn != nil {
		r := m.call(fn, []Value{v}, nil).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			panic(jsonErr{"MarshalText"})
		}
		return &Node{k: 's', s: mkStr(m.bytesOf(r[0]))}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &Node{k: 'b', t: v.(*Term)}
		case u.Info()&types.IsInteger != 0:
			return &Node{k: 'n', t: v.(*Term)}
		case u.Info()&types.IsString != 0:
			return &Node{k: 's', s: v.(Str)}
		case u.Info()&types.IsFloat != 0:
			f := v.(Float)
			if !f.known {
				return &Node{k: 's', s: Str{opq: true}}
			}
			b, _ := json.Marshal(f.f)
			return &Node{k: 'f', f: string(b)}
		}
	case *types.Struct:
		sv := v.(Struct)
		n := &Node{k: 'o'}
		for _, f := range jsonFields(u) {
			cur := sv
			var fv Value
			var fa *Value
			for k, ix := range f.idx {
				fv, fa = cur[ix], &cur[ix]
				if k < len(f.idx)-1 {
					cur = fv.(Struct)
				}
			}
			if addr == nil {
				fa = nil
			}
			if f.omitempty && m.branch(m.isEmptyJSON(fv)) {
				continue
			}
			x := m.encode(f.typ, fv, fa)
			if f.asString && x.k == 'n' {
				x = &Node{k: 's', s: m.decStr(x.t)}
			}
			n.keys = append(n.keys, S(f.name))
			n.vals = append(n.vals, x)
		}
		return n
	case *types.Slice:
		if _, isDoc := v.(DocBytes); isDoc {
			m.unsupported("nested document bytes")
		}
		sv, _ := v.([]Value)
		if sv == nil {
			return &Node{k: 'z'}
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && m.marshaler(types.NewPointer(u.Elem()), "MarshalJSON") == nil {
			return &Node{k: 'B', bs: termsOf(sv)}
		}
		n := &Node{k: 'a'}
		for i := range sv {
			n.vals = append(n.vals, m.encode(u.Elem(), sv[i], &sv[i]))
		}
		return n
	case *types.Array:
		sv := v.(Array)
		n := &Node{k: 'a'}
		for i := range sv {
			var a *Value
			if addr != nil {
				a = &sv[i]
			}
			m.noteRead(&sv[i])
			n.vals = append(n.vals, m.encode(u.Elem(), sv[i], a))
		}
		return n
	case *types.Map:
		mv, _ := v.(*MapV)
		if mv == nil {
			return &Node{k: 'z'}
		}
		m.noteRead(mv)
		n := &Node{k: 'o', isMap: true}
		for _, e := range mv.es {
			if e.dead {
				continue
			}
			var ks Str
			switch k := e.k.(type) {
			case Str:
				ks = k
			case *Term:
				ks = m.decStr(k)
			default:
				nd := m.encode(u.Key(), e.k, nil)
				if nd.k != 's' {
					m.unsupported("map key")
				}
				ks = nd.s
			}
			n.keys = append(n.keys, ks)
			n.vals = append(n.vals, m.encode(u.Elem(), e.v, nil))
		}
		return n
	}
	m.unsupported("json encode " + t.String())
	return nil
}

func (m *Machine) decStr(t *Term) Str {
	if t.isConst() {
		return S(t.k.String())
	}
	return Str{fkey: "%d", fargs: []*Term{t}}
}

func (m *Machine) marshaler(t types.Type, name string) *ssa.Function {
	fn := m.findMethod(t, name)
	if fn == nil || fn.Signature.Params().Len() > 1 {
		return nil
	}
	return fn
}

func (m *Machine) callMarshal(fn *ssa.Function, v Value) *Node {
	r := m.call(fn, []Value{v}, nil).(Tuple)
	if e := r[1].(Iface); e.t != nil {
		panic(jsonErr{"MarshalJSON"})
	}
	return m.parseNode(r[0])
}

// parseNode turns JSON bytes into a node.
func (m *Machine) parseNode(v Value) *Node {
	switch b := v.(type) {
	case DocBytes:
		return b.d.root
	case []Value:
		bs := termsOf(b)
		if len(bs) >= 2 && bs[0].isConst() && bs[0].k.Int64() == '"' {
			last := bs[len(bs)-1]
			if last.isConst() && last.k.Int64() == '"' {
				return &Node{k: 's', s: mkStr(bs[1 : len(bs)-1])}
			}
		}
		s := mkStr(bs)
		if s.concrete() {
			if n, ok := hostParse(m, s.s); ok {
				return n
			}
			panic(jsonErr{"syntax"})
		}
	case Str:
		if b.doc != nil {
			return b.doc.root
		}
	}
	m.unsupported("parse of symbolic JSON bytes")
	return nil
}

func hostParse(m *Machine, s string) (*Node, bool) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	n, ok := hostNode(m, d)
	if !ok {
		return nil, false
	}
	if d.More() {
		return nil, false
	}
	return n, true
}

func hostNode(m *Machine, d *json.Decoder) (*Node, bool) {
	t, err := d.Token()
	if err != nil {
		return nil, false
	}
	switch x := t.(type) {
	case json.Delim:
		n := &Node{k: 'a'}
		if x == '{' {
			n.k = 'o'
		}
		for d.More() {
			if n.k == 'o' {
				kt, err := d.Token()
				if err != nil {
					return nil, false
				}
				n.keys = append(n.keys, S(kt.(string)))
			}
			e, ok := hostNode(m, d)
			if !ok {
				return nil, false
			}
			n.vals = append(n.vals, e)
		}
		if _, err := d.Token(); err != nil {
			return nil, false
		}
		return n, true
	case string:
		return &Node{k: 's', s: S(x)}, true
	case json.Number:
		v, ok := new(big.Int).SetString(x.String(), 10)
		if !ok {
			return &Node{k: 'f', f: x.String()}, true
		}
		return &Node{k: 'n', t: m.c.B(v)}, true
	case bool:
		return &Node{k: 'b', t: boolT(x)}, true
	case nil:
		return &Node{k: 'z'}, true
	}
	return nil, false
}

// decode stores n into the cell p of static type t. It returns the first error text.
func (m *Machine) decode(n *Node, t types.Type, p *Value) string {
	c := m.c
	m.noteWrite(p)
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n.k == 'z' {
			*p = (*Value)(nil)
			return ""
		}
		q, _ := (*p).(*Value)
		if q == nil {
			q = new(Value)
			*q = m.zero(pt.Elem())
			*p = q
		}
		return m.decode(n, pt.Elem(), q)
	}
	switch typeName(t) {
	case gethCommon + ".Address", gethCommon + ".Hash", gethCommon + "/hexutil.Bytes":
		if n.k == 'z' {
			return ""
		}
		if n.k != 's' || !n.s.isSeq() {
			return "hex type"
		}
		cs := m.strBytes(n.s)
		if len(cs) < 2 || len(cs)%2 == 1 || !m.branch(c.And(c.Eq(cs[0], c.I('0')), c.Eq(cs[1], c.I('x')))) {
			return "hex prefix"
		}
		bs, ok := m.decodeHex(cs[2:])
		if !m.branch(ok) {
			return "hex digits"
		}
		if a, isA := t.Underlying().(*types.Array); isA {
			if int(a.Len()) != len(bs) {
				return "hex length"
			}
			store(p, Array(valsOf(bs)))
			return ""
		}
		*p = valsOf(bs)
		if len(bs) == 0 {
			*p = []Value{}
		}
		return ""
	case gethCommon + "/hexutil.Uint64", gethCommon + "/hexutil.Uint", gethCommon + "/hexutil.Big":
		if n.k == 'z' {
			return ""
		}
		if n.k != 'q' {
			if n.k == 's' && n.s.concrete() {
				v, ok := new(big.Int).SetString(strings.TrimPrefix(n.s.s, "0x"), 16)
				if ok && strings.HasPrefix(n.s.s, "0x") {
					*p = c.B(v)
					return ""
				}
			}
			return "quantity"
		}
		if strings.HasSuffix(typeName(t), "Big") {
			*p = BigV{n.t}
		} else {
			*p = n.t
		}
		return ""
	}
	switch typeName(t) {
	case phase0 + ".ValidatorIndex", phase0 + ".Slot", phase0 + ".Epoch", phase0 + ".Gwei": // decimal strings
		if n.k != 's' {
			return "decimal string"
		}
		if n.s.fkey == "%d" && len(n.s.fargs) == 1 {
			rg := intRange(false, 64)
			if !m.branch(c.And(c.Le(c.B(rg.lo), n.s.fargs[0]), c.Le(n.s.fargs[0], c.B(rg.hi)))) {
				return "number range"
			}
			*p = n.s.fargs[0]
			return ""
		}
		if !n.s.concrete() {
			m.unsupported("decode of a symbolic decimal string")
		}
		v, err := strconv.ParseUint(n.s.s, 10, 64)
		if err != nil {
			return "decimal string"
		}
		*p = c.B(new(big.Int).SetUint64(v))
		return ""
	}
	if isBigInt(t) {
		switch n.k {
		case 'n':
			*p = BigV{n.t}
			return ""
		case 'z':
			return ""
		}
		return "big.Int"
	}
	if fn := m.marshaler(types.NewPointer(t), "UnmarshalJSON"); fn != nil {
		if n.k == 'z' && false {
			return ""
		}
		r := m.call(fn, []Value{p, DocBytes{newDoc(n, "")}}, nil)
		if e, ok := r.(Iface); ok && e.t != nil {
			return "UnmarshalJSON"
		}
		return ""
	}
	if n.k == 'z' {
		switch t.Underlying().(type) {
		case *types.Map:
			*p = (*MapV)(nil)
		case *types.Slice:
			*p = []Value(nil)
		case *types.Interface:
			*p = Iface{}
		}
		return ""
	}
	if n.k == 's' {
		if fn := m.marshaler(types.NewPointer(t), "UnmarshalText"); fn != nil {
			r := m.call(fn, []Value{p, valsOf(m.strBytes(n.s))}, nil)
			if e, ok := r.(Iface); ok && e.t != nil {
				return "UnmarshalText"
			}
			return ""
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if n.k != 'b' {
				return "bool"
			}
			*p = n.t
			return ""
		case u.Info()&types.IsInteger != 0:
			if n.k != 'n' {
				return "number"
			}
			sg, bits, _ := intInfo(t)
			rg := intRange(sg, bits)
			if !m.branch(c.And(c.Le(c.B(rg.lo), n.t), c.Le(n.t, c.B(rg.hi)))) {
				return "number range"
			}
			*p = n.t
			return ""
		case u.Info()&types.IsString != 0:
			if n.k != 's' {
				return "string"
			}
			*p = n.s
			return ""
		case u.Info()&types.IsFloat != 0:
			*p = Float{}
			return ""
		}
	case *types.Struct:
		if n.k != 'o' {
			return "object"
		}
		fs := jsonFields(u)
		first := ""
		for i, k := range n.keys {
			var f *fieldInfo
			ks, conc := hostStr(k)
			if !conc {
				m.unsupported("symbolic object key into struct")
			}
			for q := range fs {
				if fs[q].name == ks {
					f = &fs[q]
					break
				}
			}
			if f == nil {
				for q := range fs {
					if strings.EqualFold(fs[q].name, ks) {
						f = &fs[q]
						break
					}
				}
			}
			if f == nil {
				continue
			}
			cell := p
			for _, ix := range f.idx {
				cell = &(*cell).(Struct)[ix]
			}
			if e := m.decode(n.vals[i], f.typ, cell); e != "" && first == "" {
				first = e
			}
		}
		return first
	case *types.Slice:
		if n.k == 'B' {
			*p = append([]Value{}, valsOf(n.bs)...)
			return ""
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && n.k == 's' && n.s.concrete() {
			raw, err := base64.StdEncoding.DecodeString(n.s.s)
			if err != nil {
				return "base64"
			}
			out := []Value{}
			for _, x := range raw {
				out = append(out, c.I(int64(x)))
			}
			*p = out
			return ""
		}
		if n.k != 'a' {
			return "array"
		}
		out := make([]Value, len(n.vals))
		first := ""
		for i := range out {
			out[i] = m.zero(u.Elem())
			if e := m.decode(n.vals[i], u.Elem(), &out[i]); e != "" && first == "" {
				first = e
			}
		}
		*p = out
		return first
	case *types.Array:
		if n.k != 'a' {
			return "array"
		}
		arr := (*p).(Array)
		first := ""
		for i := range arr {
			if i < len(n.vals) {
				if e := m.decode(n.vals[i], u.Elem(), &arr[i]); e != "" && first == "" {
					first = e
				}
			} else {
				arr[i] = m.zero(u.Elem())
			}
		}
		return first
	case *types.Map:
		if n.k != 'o' {
			return "object"
		}
		mv, _ := (*p).(*MapV)
		if mv == nil {
			mv = newMap()
			*p = mv
		}
		first := ""
		for i, k := range n.keys {
			var kv Value = k
			if b, ok := u.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				switch {
				case k.fkey == "%d":
					kv = k.fargs[0]
				case k.concrete():
					v, ok := new(big.Int).SetString(k.s, 10)
					if !ok {
						return "map key"
					}
					kv = c.B(v)
				default:
					m.unsupported("map key text")
				}
			}
			cell := new(Value)
			*cell = m.zero(u.Elem())
			if e := m.decode(n.vals[i], u.Elem(), cell); e != "" && first == "" {
				first = e
			}
			m.mapSet(mv, kv, *cell)
		}
		return first
	case *types.Interface:
		*p = m.anyNode(n)
		return ""
	}
	m.unsupported("json decode into " + t.String())
	return ""
}

var anyMap = types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))
var anySlice = types.NewSlice(types.NewInterfaceType(nil, nil))

func (m *Machine) anyNode(n *Node) Iface {
	switch n.k {
	case 'z':
		return Iface{}
	case 's':
		return Iface{types.Typ[types.String], n.s}
	case 'n', 'f':
		return Iface{types.Typ[types.Float64], Float{}}
	case 'b':
		return Iface{types.Typ[types.Bool], n.t}
	case 'a':
		out := []Value{}
		for _, e := range n.vals {
			out = append(out, m.anyNode(e))
		}
		return Iface{anySlice, out}
	case 'o':
		mv := newMap()
		for i, k := range n.keys {
			m.mapSet(mv, k, m.anyNode(n.vals[i]))
		}
		return Iface{anyMap, mv}
	}
	m.unsupported("any node")
	return Iface{}
}

func (m *Machine) marshalTop(v Value) (n *Node, err string) {
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jsonErr); ok {
				err = je.msg
				return
			}
			panic(r)
		}
	}()
	iv, _ := v.(Iface)
	if iv.t == nil {
		return &Node{k: 'z'}, ""
	}
	return m.encode(iv.t, iv.v, nil), ""
}

// docNode resolves bytes holding a document; ok=false means syntax error.
func (m *Machine) docNode(v Value) (n *Node, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(jsonErr); is {
				n, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	if d, is := v.(DocBytes); is {
		if d.d.root == nil {
			return nil, false
		}
		return d.d.root, true
	}
	if s, is := v.([]Value); is && len(s) == 0 {
		return nil, false
	}
	return m.parseNode(v), true
}

func regDoc() {
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		n, err := m.marshalTop(a[0])
		if err != "" {
			return Tuple{[]Value(nil), m.mkErrKind("json")}
		}
		return Tuple{DocBytes{newDoc(n, "")}, Iface{}}
	}, "encoding/json.Marshal")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		n, err := m.marshalTop(a[0])
		if err != "" {
			return Tuple{[]Value(nil), m.mkErrKind("json")}
		}
		p, _ := hostStr(a[1])
		i, _ := hostStr(a[2])
		return Tuple{DocBytes{newDoc(n, "|"+p+"|"+i)}, Iface{}}
	}, "encoding/json.MarshalIndent")
	unm := func(m *Machine, data, dst Value) Value {
		n, ok := m.docNode(data)
		if !ok {
			return m.mkErrKind("json syntax")
		}
		iv, _ := dst.(Iface)
		pt, isP := iv.t.Underlying().(*types.Pointer)
		pv, _ := iv.v.(*Value)
		if !isP || pv == nil {
			return m.mkErrKind("json target")
		}
		if e := m.decode(n, pt.Elem(), pv); e != "" {
			return m.mkErr(S("json: "+e), nil)
		}
		return Iface{}
	}
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return unm(m, a[0], a[1]) }, "encoding/json.Unmarshal")
	mk := func(kind string) intr {
		return func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
			p := new(Value)
			*p = Native{kind, a[0]}
			return p
		}
	}
	reg(mk("jsonenc"), "encoding/json.NewEncoder")
	reg(mk("jsondec"), "encoding/json.NewDecoder")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		w := (*derefPtr(m, a[0])).(Native).p.(Iface)
		n, err := m.marshalTop(a[1])
		if err != "" {
			return m.mkErrKind("json")
		}
		d := newDoc(n, "")
		d.nl = true
		r := m.invoke(w, "Write", []Value{DocBytes{d}})
		return r.(Tuple)[1]
	}, "(*encoding/json.Encoder).Encode")
	reg(zeroRes, "(*encoding/json.Encoder).SetIndent", "(*encoding/json.Encoder).SetEscapeHTML")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		r := (*derefPtr(m, a[0])).(Native).p.(Iface)
		t := m.readAll(r)
		return unm(m, t, a[1])
	}, "(*encoding/json.Decoder).Decode")
	reg(zeroRes, "(*encoding/json.Decoder).DisallowUnknownFields")

	// gob: used as a deep copy
	reg(mk("gobenc"), "encoding/gob.NewEncoder")
	reg(mk("gobdec"), "encoding/gob.NewDecoder")
	reg(zeroRes, "encoding/gob.Register")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		w := (*derefPtr(m, a[0])).(Native).p.(Iface)
		iv := a[1].(Iface)
		if iv.t == nil {
			return m.mkErrKind("gob nil")
		}
		t, v := iv.t, iv.v
		for {
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok || isBigInt(pt.Elem()) {
				break
			}
			pv := v.(*Value)
			if pv == nil {
				return m.mkErrKind("gob nil pointer")
			}
			t, v = pt.Elem(), *pv
		}
		cp, err := m.gobCopy(t, v)
		if err != "" {
			return m.mkErrKind("gob " + err)
		}
		q, _ := m.native[gobKey{w.v.(*Value)}].([]gobItem)
		m.native[gobKey{w.v.(*Value)}] = append(q, gobItem{t, cp})
		return Iface{}
	}, "(*encoding/gob.Encoder).Encode")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		r := (*derefPtr(m, a[0])).(Native).p.(Iface)
		key := gobKey{r.v.(*Value)}
		q, _ := m.native[key].([]gobItem)
		if len(q) == 0 {
			return m.mkErrKind("EOF")
		}
		it := q[0]
		m.native[key] = q[1:]
		iv := a[1].(Iface)
		t, v := iv.t, iv.v
		var cell *Value
		for {
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			pv := v.(*Value)
			if pv == nil {
				if cell == nil {
					return m.mkErrKind("gob nil target")
				}
				pv = new(Value)
				*pv = m.zero(pt.Elem())
				*cell = pv
			}
			cell = pv
			t, v = pt.Elem(), *pv
		}
		if cell == nil {
			return m.mkErrKind("gob target")
		}
		if !types.Identical(t, it.t) {
			m.unsupported("gob between different types")
		}
		m.gobMerge(t, it.v, cell)
		return Iface{}
	}, "(*encoding/gob.Decoder).Decode")
}

type gobKey struct{ p *Value }
type gobItem struct {
	t types.Type
	v Value
}

// gobCopy copies a value the way a gob round trip does.
func (m *Machine) gobCopy(t types.Type, v Value) (Value, string) {
	if isBigInt(t) {
		return v, ""
	}
	if fn := m.findMethod(types.NewPointer(t), "GobEncode"); fn != nil {
		m.unsupported("custom gob encoder on " + t.String())
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return v, ""
	case *types.Pointer:
		p, _ := v.(*Value)
		if p == nil {
			return (*Value)(nil), ""
		}
		m.noteRead(p)
		x, e := m.gobCopy(u.Elem(), *p)
		q := new(Value)
		*q = x
		return q, e
	case *types.Struct:
		sv := v.(Struct)
		out := m.zero(t).(Struct)
		exported := 0
		for i := range sv {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			switch f.Type().Underlying().(type) {
			case *types.Signature, *types.Chan:
				continue
			}
			exported++
			x, e := m.gobCopy(f.Type(), sv[i])
			if e != "" {
				return nil, e
			}
			out[i] = x
		}
		if exported == 0 {
			return nil, "type has no exported fields"
		}
		return out, ""
	case *types.Slice:
		sv, _ := v.([]Value)
		if len(sv) == 0 {
			return []Value(nil), ""
		}
		out := make([]Value, len(sv))
		for i := range sv {
			m.noteRead(&sv[i])
			x, e := m.gobCopy(u.Elem(), sv[i])
			if e != "" {
				return nil, e
			}
			if p, ok := x.(*Value); ok && p == nil {
				return nil, "nil element"
			}
			out[i] = x
		}
		return out, ""
	case *types.Array:
		sv := v.(Array)
		out := make(Array, len(sv))
		for i := range sv {
			x, e := m.gobCopy(u.Elem(), sv[i])
			if e != "" {
				return nil, e
			}
			out[i] = x
		}
		return out, ""
	case *types.Map:
		mv, _ := v.(*MapV)
		if mv == nil {
			return (*MapV)(nil), ""
		}
		m.noteRead(mv)
		out := newMap()
		for _, e := range mv.es {
			if e.dead {
				continue
			}
			k, er := m.gobCopy(u.Key(), e.k)
			if er != "" {
				return nil, er
			}
			x, er := m.gobCopy(u.Elem(), e.v)
			if er != "" {
				return nil, er
			}
			if p, ok := x.(*Value); ok && p == nil {
				return nil, "nil map element"
			}
			ne := &mapEntry{k: k, v: x}
			out.es = append(out.es, ne)
			out.live++
			if ck, ok := concKey(k); ok {
				out.idx[ck] = ne
			} else {
				out.symb = true
			}
		}
		return out, ""
	}
	m.unsupported("gob of " + t.String())
	return nil, ""
}

// gobMerge decodes src into an existing cell: zero fields are not transmitted and leave the target as is.
func (m *Machine) gobMerge(t types.Type, src Value, cell *Value) {
	switch u := t.Underlying().(type) {
	case *types.Map:
		mv := src.(*MapV)
		if mv == nil {
			return
		}
		dst, _ := (*cell).(*MapV)
		if dst == nil {
			*cell = mv
			return
		}
		for _, e := range mv.es {
			m.mapSet(dst, e.k, e.v)
		}
	case *types.Struct:
		if isBigInt(t) {
			*cell = src
			return
		}
		dst := (*cell).(Struct)
		sv := src.(Struct)
		for i := range sv {
			if !u.Field(i).Exported() {
				continue
			}
			f := u.Field(i).Type()
			switch x := sv[i].(type) {
			case *Term:
				if d, ok := dst[i].(*Term); ok && (d.isFalse() || d.isConst() && d.k.Sign() == 0) {
					dst[i] = x
				} else if x.isBool() {
					if m.branch(x) {
						dst[i] = x
					}
				} else if !m.branch(m.c.Eq(x, m.c.I(0))) {
					dst[i] = x
				}
				continue
			case Str:
				if x.concrete() && x.s == "" {
					continue
				}
				dst[i] = x
				continue
			case *Value:
				if x == nil {
					continue
				}
				d, _ := dst[i].(*Value)
				if d == nil {
					dst[i] = x
				} else {
					m.gobMerge(f.Underlying().(*types.Pointer).Elem(), *x, d)
				}
				continue
			case []Value:
				if len(x) == 0 {
					continue
				}
				dst[i] = x
				continue
			}
			m.gobMerge(f, sv[i], &dst[i])
		}
	default:
		store(cell, src)
	}
}
