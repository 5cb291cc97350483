package main

import (
	"math/big"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Functions of the standard library that the code of the tree does not use today but a change may: maps.Clone, strings.Cut and the
// byte searches below it, the atomic pointers, writes of formatted text to buffers and responses.

func (m *Machine) seqIndex(x, y []*Term, last bool) int {
	n := len(x) - len(y)
	for k := 0; k <= n; k++ {
		i := k
		if last {
			i = n - k
		}
		if m.branch(m.c.SeqEq(x[i:i+len(y)], y)) {
			return i
		}
	}
	return -1
}

func (m *Machine) seqOf(v Value) []*Term {
	switch v := v.(type) {
	case Str:
		if !v.isSeq() {
			m.unsupported("search in a formatted text")
		}
		return m.strBytes(v)
	case *Term:
		return []*Term{v}
	}
	return m.bytesOf(v)
}

func regStd() {
	I := func(m *Machine, n int) Value { return m.c.I(int64(n)) }
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		iv := a[0].(Iface)
		mp, _ := iv.v.(*MapV)
		if mp == nil {
			return iv
		}
		m.noteRead(mp)
		n := newMap()
		for _, e := range mp.es {
			if !e.dead {
				m.mapSet(n, e.k, copyVal(e.v))
			}
		}
		return Iface{t: iv.t, v: n}
	}, "maps.clone")
	index := func(last bool) intr {
		return func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
			return I(m, m.seqIndex(m.seqOf(a[0]), m.seqOf(a[1]), last))
		}
	}
	reg(index(false), "strings.IndexByte", "bytes.IndexByte", "bytes.Index", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte", "internal/stringslite.Index")
	reg(index(true), "strings.LastIndexByte", "strings.LastIndex", "bytes.LastIndex", "bytes.LastIndexByte", "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString")
	count := func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		x, y := m.seqOf(a[0]), m.seqOf(a[1])
		n := 0
		if len(y) == 0 {
			m.unsupported("count of nothing")
		}
		for i := 0; i+len(y) <= len(x); {
			if m.branch(m.c.SeqEq(x[i:i+len(y)], y)) {
				n++
				i += len(y)
			} else {
				i++
			}
		}
		return I(m, n)
	}
	reg(count, "strings.Count", "bytes.Count", "internal/bytealg.Count", "internal/bytealg.CountString")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		s := a[0].(Str)
		if sep, ok := hostStr(a[1]); ok && s.fkey != "" {
			x, y, found := strings.Cut(s.fkey, sep)
			if !found {
				return Tuple{s, S(""), TFalse}
			}
			part := func(f string, from int) Str {
				k := strings.Count(f, "%d")
				if k == 0 {
					return S(f)
				}
				return Str{fkey: f, fargs: s.fargs[from : from+k]}
			}
			return Tuple{part(x, 0), part(y, strings.Count(x, "%d")), TTrue}
		}
		x, y := m.seqOf(a[0]), m.seqOf(a[1])
		if i := m.seqIndex(x, y, false); i >= 0 {
			return Tuple{mkStr(x[:i]), mkStr(x[i+len(y):]), TTrue}
		}
		return Tuple{s, S(""), TFalse}
	}, "strings.Cut", "internal/stringslite.Cut")

	// formatted text into a buffer, a builder or a response
	fprint := func(text func(m *Machine, a []Value) Str) intr {
		return func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
			w := a[0].(Iface)
			if w.t == nil {
				m.panicRT("write to a nil writer")
			}
			if s := w.t.String(); s == "*os.File" && !isOpenFile(w.v) || strings.HasPrefix(s, "*github.com/sirupsen") {
				return m.zeroResult(fn)
			}
			t := text(m, a)
			var f *ssa.Function
			var arg Value
			if f = m.findMethod(w.t, "WriteString"); f != nil {
				arg = t
			} else if f = m.findMethod(w.t, "Write"); f != nil {
				if t.opq {
					m.unsupported("opaque text written")
				}
				if t.doc != nil {
					arg = DocBytes{t.doc}
				} else {
					arg = valsOf(m.strBytes(t))
				}
			}
			if f == nil {
				m.unsupported("text written to " + w.t.String())
			}
			return m.call(f, []Value{w.v, arg}, fr)
		}
	}
	reg(fprint(func(m *Machine, a []Value) Str { return m.sprintf(a[1].(Str), sliceArg(a[2])) }), "fmt.Fprintf")
	reg(fprint(func(m *Machine, a []Value) Str { return m.sprint(sliceArg(a[1]), false) }), "fmt.Fprint")
	reg(fprint(func(m *Machine, a []Value) Str { return m.sprint(sliceArg(a[1]), true) }), "fmt.Fprintln")

	// copying into a writer at once, and buffered writing
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		r := m.invoke(a[0].(Iface), "Write", []Value{m.readAll(a[1].(Iface))})
		t := r.(Tuple)
		return Tuple{t[0], t[1]}
	}, "io.Copy")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		data, ok := m.native[bufKey{a[0].(*Value)}]
		if !ok {
			m.unsupported("bytes.Reader value")
		}
		r := m.invoke(a[1].(Iface), "Write", []Value{data}).(Tuple)
		return Tuple{r[0], r[1]}
	}, "(*bytes.Reader).WriteTo", "(*strings.Reader).WriteTo")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		p := new(Value)
		*p = Native{"reader", nil}
		s := a[0].(Str)
		if s.doc != nil {
			m.native[bufKey{p}] = DocBytes{s.doc}
		} else {
			m.native[bufKey{p}] = valsOf(m.strBytes(s))
		}
		return p
	}, "strings.NewReader")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		p := new(Value)
		*p = Native{"bufw", &bufWriter{w: a[0].(Iface)}}
		return p
	}, "bufio.NewWriter", "bufio.NewWriterSize")
	bufw := func(m *Machine, v Value) *bufWriter {
		if n, ok := (*derefPtr(m, v)).(Native); ok && n.kind == "bufw" {
			return n.p.(*bufWriter)
		}
		m.unsupported("bufio.Writer value")
		return nil
	}
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		b := bufw(m, a[0])
		var data Value = a[1]
		if s, ok := data.(Str); ok {
			if s.doc != nil {
				data = DocBytes{s.doc}
			} else {
				data = valsOf(m.strBytes(s))
			}
		}
		if sl, ok := data.([]Value); ok && b.data != nil {
			old, ok := b.data.([]Value)
			if !ok {
				m.unsupported("bytes after a document")
			}
			b.data = append(append([]Value{}, old...), sl...)
		} else if b.data != nil {
			m.unsupported("a document after bytes")
		} else if ok {
			b.data = append([]Value{}, sl...)
		} else {
			b.data = data
		}
		return Tuple{m.builtin("len", nil, []Value{data}, fr), Iface{}}
	}, "(*bufio.Writer).Write", "(*bufio.Writer).WriteString")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		b := bufw(m, a[0])
		if b.data == nil {
			return Iface{}
		}
		data := b.data
		b.data = nil
		return m.invoke(b.w, "Write", []Value{data}).(Tuple)[1]
	}, "(*bufio.Writer).Flush")

	// atomics beyond loads, stores and additions of integers
	last := func(m *Machine, v Value) *Value {
		st := (*derefPtr(m, v)).(Struct)
		return &st[len(st)-1]
	}
	norm := func(p Value, v Value) Value {
		if v == nil {
			return p
		}
		return v
	}
	word := func(load, store, swap, cas string, at func(m *Machine, v Value) *Value) {
		reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
			return norm(m.zeroResult(fn), *at(m, a[0]))
		}, load)
		reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { *at(m, a[0]) = a[1]; return nil }, store)
		reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
			p := at(m, a[0])
			o := *p
			*p = a[1]
			return norm(m.zeroResult(fn), o)
		}, swap)
		reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
			p := at(m, a[0])
			if !m.branch(m.eq(*p, a[1])) {
				return TFalse
			}
			*p = a[2]
			return TTrue
		}, cas)
	}
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		word("sync/atomic.Load"+w, "sync/atomic.Store"+w, "sync/atomic.Swap"+w, "sync/atomic.CompareAndSwap"+w, func(m *Machine, v Value) *Value { return derefPtr(m, v) })
	}
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Pointer[T]"} {
		W := "(*sync/atomic." + w + ")."
		word(W+"Load", W+"Store", W+"Swap", W+"CompareAndSwap", last)
	}
	bit := func(v Value) Value { // the boolean in the word of an atomic.Bool
		if t, ok := v.(*Term); ok && t.isConst() && !t.isBool() {
			return boolT(t.k.Sign() != 0)
		}
		return v
	}
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return bit(*last(m, a[0])) }, "(*sync/atomic.Bool).Load")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { *last(m, a[0]) = a[1]; return nil }, "(*sync/atomic.Bool).Store")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		p := last(m, a[0])
		o := bit(*p)
		*p = a[1]
		return o
	}, "(*sync/atomic.Bool).Swap")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		p := last(m, a[0])
		if !m.branch(m.eq(bit(*p), a[1])) {
			return TFalse
		}
		*p = a[2]
		return TTrue
	}, "(*sync/atomic.Bool).CompareAndSwap")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		return norm(Iface{}, *last(m, a[0]))
	}, "(*sync/atomic.Value).Load")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		if a[1].(Iface).t == nil {
			m.panicRT("sync/atomic: store of nil value into Value")
		}
		*last(m, a[0]) = a[1]
		return nil
	}, "(*sync/atomic.Value).Store")

	u64 := types.Typ[types.Uint64]
	two64 := new(big.Int).Lsh(big.NewInt(1), 64)
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		s := m.c.Add(m.c.Add(a[0].(*Term), a[1].(*Term)), a[2].(*Term))
		r := m.norm(s, u64)
		return Tuple{r, m.c.Ite(m.c.Lt(s, m.c.B(two64)), m.c.I(0), m.c.I(1))}
	}, "math/bits.Add64")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value {
		s := m.c.Sub(m.c.Sub(a[0].(*Term), a[1].(*Term)), a[2].(*Term))
		r := m.norm(s, u64)
		return Tuple{r, m.c.Ite(m.c.Lt(s, m.c.I(0)), m.c.I(1), m.c.I(0))}
	}, "math/bits.Sub64")
	reg(func(m *Machine, a []Value, fn *ssa.Function, fr *frame) Value { return a[0] }, "context.WithValue", "context.WithoutCancel")
}

// selectStmt: a case that can go on, the first of several (one schedule), else the default case.
func (m *Machine) selectStmt(in *ssa.Select, fr *frame) Value {
	res := func(i int, ok bool, got int, v Value) Value {
		t := Tuple{m.c.I(int64(i)), boolT(ok)}
		for k, s := range in.States {
			if s.Dir == types.RecvOnly {
				if k == got && v != nil {
					t = append(t, v)
				} else {
					t = append(t, m.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		return t
	}
	for i, s := range in.States {
		ch, _ := fr.get(s.Chan).(*ChanV)
		if ch == nil {
			continue
		}
		if s.Dir == types.SendOnly {
			if len(ch.buf) < ch.cap {
				ch.buf = append(ch.buf, fr.get(s.Send))
				return res(i, false, -1, nil)
			}
			continue
		}
		if len(ch.buf) > 0 {
			v := ch.buf[0]
			ch.buf = ch.buf[1:]
			return res(i, true, i, v)
		}
		if ch.closed {
			return res(i, false, -1, nil)
		}
	}
	if in.Blocking {
		m.unsupported("blocking select")
	}
	return res(-1, false, -1, nil)
}

// bufWriter: a bufio.Writer, whose buffer is never full (writing through it before Flush is not modelled).
type bufWriter struct {
	w    Iface
	data Value
}

func isOpenFile(v Value) bool {
	p, ok := v.(*Value)
	if !ok || p == nil {
		return false
	}
	n, ok := (*p).(Native)
	return ok && n.kind == "file"
}
