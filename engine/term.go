package main

// Symbolic terms: hash-consed, simplified on construction. Integers are
// mathematical integers (SMT Int); machine-width wrap-around is encoded
// explicitly by the executor. Sums and products are kept in a canonical
// polynomial form so that syntactically different but equal computations
// become the same term.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota // integer constant
	OpTrue
	OpFalse
	OpVar  // integer variable
	OpBVar // boolean variable
	OpSum  // k + sum coef[i]*args[i]
	OpMul  // product of >=2 non-constant atoms
	OpDiv  // Euclidean div (nonlinear or by constant)
	OpMod  // Euclidean mod
	OpIte  // args: cond, a, b (Int or Bool)
	OpExt  // (args[0] >> sh) mod 2^w, args[0] >= 0
	OpHex  // lower case hex digit character of nibble args[0]
	OpHexCS // EIP-55 character i of the 40-digit address args[0]
	OpApp  // uninterpreted function application (Int)
	OpBApp // uninterpreted predicate application
	OpEq0  // args[0] == 0
	OpGe0  // args[0] >= 0
	OpNot
	OpAnd
	OpOr
	OpBEq // boolean equality
	OpKeccak
)

type Term struct {
	op    Op
	args  []*Term
	coefs []*big.Int
	k     *big.Int
	name  string
	sh, w int
	id    int
	lo    *big.Int // nil = -inf
	hi    *big.Int // nil = +inf
}

func (t *Term) isBool() bool {
	switch t.op {
	case OpTrue, OpFalse, OpBVar, OpBApp, OpEq0, OpGe0, OpNot, OpAnd, OpOr, OpBEq:
		return true
	case OpIte:
		return t.args[1].isBool()
	}
	return false
}
func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpTrue }
func (t *Term) isFalse() bool { return t.op == OpFalse }

var (
	b0 = big.NewInt(0)
	b1 = big.NewInt(1)
)

const smallMin, smallMax = -1024, 70000

var smallConsts []*Term
var TTrue = &Term{op: OpTrue, id: -1}
var TFalse = &Term{op: OpFalse, id: -2}

func init() {
	for i := smallMin; i <= smallMax; i++ {
		v := big.NewInt(int64(i))
		smallConsts = append(smallConsts, &Term{op: OpConst, k: v, id: -10 - (i - smallMin), lo: v, hi: v})
	}
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(b1, uint(n)) }

// Ctx is a term context (one per explored path).
type Ctx struct {
	tab     map[string]*Term
	bigs    map[string]*Term
	ints    map[int64]*Term
	next    int
	keccaks []*Term // all keccak applications created, in order
	onKecc  func(t *Term)
}

func NewCtx() *Ctx {
	return &Ctx{tab: map[string]*Term{}, bigs: map[string]*Term{}, ints: map[int64]*Term{}, next: 1}
}

func (c *Ctx) I(v int64) *Term {
	if v >= smallMin && v <= smallMax {
		return smallConsts[v-smallMin]
	}
	if t, ok := c.ints[v]; ok {
		return t
	}
	b := big.NewInt(v)
	t := &Term{op: OpConst, k: b, lo: b, hi: b, id: c.next}
	c.next++
	c.ints[v] = t
	return t
}
func (c *Ctx) U(v uint64) *Term { return c.B(new(big.Int).SetUint64(v)) }
func (c *Ctx) B(v *big.Int) *Term {
	if v.IsInt64() {
		return c.I(v.Int64())
	}
	s := v.String()
	if t, ok := c.bigs[s]; ok {
		return t
	}
	b := new(big.Int).Set(v)
	t := &Term{op: OpConst, k: b, lo: b, hi: b, id: c.next}
	c.next++
	c.bigs[s] = t
	return t
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func (c *Ctx) intern(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%d|%d|", t.op, t.name, t.sh, t.w)
	if t.k != nil {
		sb.WriteString(t.k.String())
	}
	for i, a := range t.args {
		fmt.Fprintf(&sb, ",%d", a.id)
		if t.coefs != nil {
			sb.WriteByte('*')
			sb.WriteString(t.coefs[i].String())
		}
	}
	key := sb.String()
	if o, ok := c.tab[key]; ok {
		return o
	}
	t.id = c.next
	c.next++
	c.tab[key] = t
	c.interval(t)
	return t
}

func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

func mulIv(al, ah, bl, bh *big.Int) (*big.Int, *big.Int) {
	if al != nil && ah != nil && bl != nil && bh != nil {
		var lo, hi *big.Int
		for _, x := range []*big.Int{al, ah} {
			for _, y := range []*big.Int{bl, bh} {
				p := new(big.Int).Mul(x, y)
				if lo == nil || p.Cmp(lo) < 0 {
					lo = p
				}
				if hi == nil || p.Cmp(hi) > 0 {
					hi = p
				}
			}
		}
		return lo, hi
	}
	if al != nil && bl != nil && al.Sign() >= 0 && bl.Sign() >= 0 {
		return new(big.Int).Mul(al, bl), nil
	}
	return nil, nil
}

func (c *Ctx) interval(t *Term) {
	if t.lo != nil || t.hi != nil {
		return
	}
	switch t.op {
	case OpSum:
		lo, hi := t.k, t.k
		for i, a := range t.args {
			cf := t.coefs[i]
			l, h := a.lo, a.hi
			if cf.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo = new(big.Int).Add(lo, new(big.Int).Mul(cf, l))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi = new(big.Int).Add(hi, new(big.Int).Mul(cf, h))
				}
			}
		}
		t.lo, t.hi = lo, hi
	case OpMul:
		lo, hi := t.args[0].lo, t.args[0].hi
		for _, a := range t.args[1:] {
			lo, hi = mulIv(lo, hi, a.lo, a.hi)
		}
		t.lo, t.hi = lo, hi
	case OpDiv:
		a, d := t.args[0], t.args[1]
		if a.lo != nil && a.lo.Sign() >= 0 && d.lo != nil && d.lo.Sign() > 0 {
			t.lo = b0
			if d.hi != nil {
				t.lo = new(big.Int).Div(a.lo, d.hi)
			}
			if a.hi != nil {
				t.hi = new(big.Int).Div(a.hi, d.lo)
			}
		} else if d.isConst() && d.k.Sign() > 0 {
			if a.lo != nil {
				t.lo = new(big.Int).Div(a.lo, d.k)
			}
			if a.hi != nil {
				t.hi = new(big.Int).Div(a.hi, d.k)
			}
		}
	case OpMod:
		d := t.args[1]
		if d.lo != nil && d.lo.Sign() > 0 {
			t.lo = b0
			if d.hi != nil {
				t.hi = new(big.Int).Sub(d.hi, b1)
			}
			if a := t.args[0]; a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && (t.hi == nil || a.hi.Cmp(t.hi) < 0) {
				t.hi = a.hi
			}
		}
	case OpIte:
		if !t.isBool() {
			t.lo, t.hi = minB(t.args[1].lo, t.args[2].lo), maxB(t.args[1].hi, t.args[2].hi)
		}
	case OpExt:
		t.lo = b0
		h := new(big.Int).Sub(pow2(t.w), b1)
		if x := t.args[0]; x.hi != nil {
			xs := new(big.Int).Rsh(x.hi, uint(t.sh))
			if xs.Cmp(h) < 0 {
				h = xs
			}
		}
		t.hi = h
	case OpHex, OpHexCS:
		t.lo, t.hi = big.NewInt(48), big.NewInt(102)
	case OpKeccak:
		t.lo, t.hi = b0, new(big.Int).Sub(pow2(256), b1)
	}
}

func (c *Ctx) Var(name string, lo, hi *big.Int) *Term {
	t := &Term{op: OpVar, name: name, lo: lo, hi: hi}
	return c.intern(t)
}
func (c *Ctx) BVar(name string) *Term { return c.intern(&Term{op: OpBVar, name: name}) }
func (c *Ctx) App(name string, lo, hi *big.Int, args ...*Term) *Term {
	return c.intern(&Term{op: OpApp, name: name, args: args, lo: lo, hi: hi})
}
func (c *Ctx) BApp(name string, args ...*Term) *Term {
	return c.intern(&Term{op: OpBApp, name: name, args: args})
}

// ---- polynomial arithmetic ----

type poly struct {
	k *big.Int
	m map[*Term]*big.Int
}

func toPoly(t *Term) poly {
	switch t.op {
	case OpConst:
		return poly{t.k, nil}
	case OpSum:
		m := make(map[*Term]*big.Int, len(t.args))
		for i, a := range t.args {
			m[a] = t.coefs[i]
		}
		return poly{t.k, m}
	}
	return poly{b0, map[*Term]*big.Int{t: b1}}
}

func (c *Ctx) fromPoly(p poly) *Term {
	atoms := make([]*Term, 0, len(p.m))
	for a, cf := range p.m {
		if cf.Sign() != 0 {
			atoms = append(atoms, a)
		}
	}
	if len(atoms) == 0 {
		return c.B(p.k)
	}
	if len(atoms) > 1 {
		// recombine adjacent bit extractions of the same value
		if merged := c.mergeExt(atoms, p); merged {
			return c.fromPoly(p)
		}
	}
	if len(atoms) == 1 && p.k.Sign() == 0 && p.m[atoms[0]].Cmp(b1) == 0 {
		return atoms[0]
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	cf := make([]*big.Int, len(atoms))
	for i, a := range atoms {
		cf[i] = p.m[a]
	}
	return c.intern(&Term{op: OpSum, k: p.k, args: atoms, coefs: cf})
}

func (c *Ctx) mergeExt(atoms []*Term, p poly) bool {
	n := 0
	for _, a := range atoms {
		if a.op == OpExt {
			n++
		}
	}
	if n == 0 {
		return false
	}
	for _, a := range atoms {
		if a.op != OpExt {
			continue
		}
		for _, b := range atoms {
			if a == b {
				continue
			}
			// b holds the higher part of the same base
			var bsh, bw int
			if b.op == OpExt && b.args[0] == a.args[0] && b.sh == a.sh+a.w {
				bsh, bw = b.sh, b.w
			} else {
				continue
			}
			_ = bsh
			ca, cb := p.m[a], p.m[b]
			if ca == nil || cb == nil || ca.Sign() == 0 {
				continue
			}
			if new(big.Int).Mul(ca, pow2(a.w)).Cmp(cb) == 0 {
				nt := c.Ext(a.args[0], a.sh, a.w+bw)
				delete(p.m, a)
				delete(p.m, b)
				q := toPoly(nt)
				p.k = new(big.Int).Add(p.k, new(big.Int).Mul(ca, q.k))
				for x, cx := range q.m {
					addTo(p.m, x, new(big.Int).Mul(ca, cx))
				}
				return true
			}
		}
	}
	return false
}

func addTo(m map[*Term]*big.Int, t *Term, cf *big.Int) {
	if o, ok := m[t]; ok {
		s := new(big.Int).Add(o, cf)
		if s.Sign() == 0 {
			delete(m, t)
		} else {
			m[t] = s
		}
		return
	}
	if cf.Sign() != 0 {
		m[t] = cf
	}
}

func (c *Ctx) linComb(a *Term, ca *big.Int, b *Term, cb *big.Int) *Term {
	pa, pb := toPoly(a), toPoly(b)
	r := poly{new(big.Int).Add(new(big.Int).Mul(ca, pa.k), new(big.Int).Mul(cb, pb.k)), map[*Term]*big.Int{}}
	for x, cx := range pa.m {
		addTo(r.m, x, new(big.Int).Mul(ca, cx))
	}
	for x, cx := range pb.m {
		addTo(r.m, x, new(big.Int).Mul(cb, cx))
	}
	return c.fromPoly(r)
}

var bm1 = big.NewInt(-1)

func (c *Ctx) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.B(new(big.Int).Add(a.k, b.k))
	}
	if a.isConst() && a.k.Sign() == 0 {
		return b
	}
	if b.isConst() && b.k.Sign() == 0 {
		return a
	}
	return c.linComb(a, b1, b, b1)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.B(new(big.Int).Sub(a.k, b.k))
	}
	if b.isConst() && b.k.Sign() == 0 {
		return a
	}
	if a == b {
		return c.I(0)
	}
	return c.linComb(a, b1, b, bm1)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.I(0), a) }
func (c *Ctx) MulK(a *Term, k *big.Int) *Term {
	if k.Sign() == 0 {
		return c.I(0)
	}
	if a.isConst() {
		return c.B(new(big.Int).Mul(a.k, k))
	}
	return c.linComb(a, k, c.I(0), b1)
}

func (c *Ctx) mulAtoms(a, b *Term) *Term {
	var fs []*Term
	for _, t := range []*Term{a, b} {
		if t.op == OpMul {
			fs = append(fs, t.args...)
		} else {
			fs = append(fs, t)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return c.intern(&Term{op: OpMul, args: fs})
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		return c.MulK(b, a.k)
	}
	if b.isConst() {
		return c.MulK(a, b.k)
	}
	// push multiplication through an ite with constant leaves
	if a.op == OpIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.Mul(a.args[1], b), c.Mul(a.args[2], b))
	}
	if b.op == OpIte && (b.args[1].isConst() || b.args[2].isConst()) {
		return c.Ite(b.args[0], c.Mul(a, b.args[1]), c.Mul(a, b.args[2]))
	}
	pa, pb := toPoly(a), toPoly(b)
	r := poly{new(big.Int).Mul(pa.k, pb.k), map[*Term]*big.Int{}}
	for x, cx := range pa.m {
		if pb.k.Sign() != 0 {
			addTo(r.m, x, new(big.Int).Mul(cx, pb.k))
		}
		for y, cy := range pb.m {
			addTo(r.m, c.mulAtoms(x, y), new(big.Int).Mul(cx, cy))
		}
	}
	if pa.k.Sign() != 0 {
		for y, cy := range pb.m {
			addTo(r.m, y, new(big.Int).Mul(cy, pa.k))
		}
	}
	return c.fromPoly(r)
}

// Div is Euclidean division (callers guarantee b != 0).
func (c *Ctx) Div(a, b *Term) *Term {
	if b.isConst() {
		if b.k.Sign() != 0 && a.isConst() {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(a.k, b.k, m)
			return c.B(q)
		}
		if b.k.Cmp(b1) == 0 {
			return a
		}
		// exact division of all coefficients
		if b.k.Sign() > 0 {
			p := toPoly(a)
			ok := true
			for _, cf := range p.m {
				if new(big.Int).Mod(cf, b.k).Sign() != 0 {
					ok = false
					break
				}
			}
			if ok {
				r := poly{new(big.Int).Div(p.k, b.k), map[*Term]*big.Int{}}
				for x, cf := range p.m {
					r.m[x] = new(big.Int).Div(cf, b.k)
				}
				return c.fromPoly(r)
			}
			if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 {
				if a.hi.Cmp(b.k) < 0 {
					return c.I(0)
				}
				if n := isPow2(b.k); n > 0 {
					return c.Shr(a, n)
				}
			}
		}
	}
	if a.op == OpIte && a.args[1].isConst() && a.args[2].isConst() && b.isConst() {
		return c.Ite(a.args[0], c.Div(a.args[1], b), c.Div(a.args[2], b))
	}
	return c.intern(&Term{op: OpDiv, args: []*Term{a, b}})
}

func isPow2(k *big.Int) int {
	if k.Sign() <= 0 {
		return -1
	}
	n := k.BitLen() - 1
	if k.Cmp(pow2(n)) == 0 {
		return n
	}
	return -1
}

func (c *Ctx) Mod(a, b *Term) *Term {
	if b.isConst() {
		if b.k.Sign() != 0 && a.isConst() {
			return c.B(new(big.Int).Mod(a.k, new(big.Int).Abs(b.k)))
		}
		if b.k.Sign() > 0 {
			if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.k) < 0 {
				return a
			}
			// reduce coefficients
			p := toPoly(a)
			r := poly{new(big.Int).Mod(p.k, b.k), map[*Term]*big.Int{}}
			changed := r.k.Cmp(p.k) != 0
			for x, cf := range p.m {
				m := new(big.Int).Mod(cf, b.k)
				if m.Cmp(cf) != 0 {
					changed = true
				}
				if m.Sign() != 0 {
					r.m[x] = m
				}
			}
			if changed {
				return c.Mod(c.fromPoly(r), b)
			}
			if n := isPow2(b.k); n > 0 && a.lo != nil && a.lo.Sign() >= 0 {
				return c.Ext(a, 0, n)
			}
		}
	}
	if a.op == OpIte && a.args[1].isConst() && a.args[2].isConst() && b.isConst() {
		return c.Ite(a.args[0], c.Mod(a.args[1], b), c.Mod(a.args[2], b))
	}
	return c.intern(&Term{op: OpMod, args: []*Term{a, b}})
}

// Shr: a >> n for a >= 0 with known upper bound.
func (c *Ctx) Shr(a *Term, n int) *Term {
	if a.isConst() {
		return c.B(new(big.Int).Rsh(a.k, uint(n)))
	}
	if a.hi == nil {
		return c.intern(&Term{op: OpDiv, args: []*Term{a, c.B(pow2(n))}})
	}
	w := a.hi.BitLen() - n
	if w <= 0 {
		return c.I(0)
	}
	return c.Ext(a, n, w)
}

// Ext returns (x >> sh) mod 2^w; x must be non-negative.
func (c *Ctx) Ext(x *Term, sh, w int) *Term {
	if w <= 0 {
		return c.I(0)
	}
	if x.isConst() {
		r := new(big.Int).Rsh(x.k, uint(sh))
		return c.B(r.And(r, new(big.Int).Sub(pow2(w), b1)))
	}
	if x.op == OpExt {
		if sh >= x.w {
			return c.I(0)
		}
		if w > x.w-sh {
			w = x.w - sh
		}
		return c.Ext(x.args[0], x.sh+sh, w)
	}
	if x.hi != nil {
		bl := x.hi.BitLen()
		if sh >= bl {
			return c.I(0)
		}
		if sh == 0 && w >= bl {
			return x
		}
		if sh+w > bl {
			w = bl - sh
		}
	}
	if x.op == OpIte && x.args[1].isConst() && x.args[2].isConst() {
		return c.Ite(x.args[0], c.Ext(x.args[1], sh, w), c.Ext(x.args[2], sh, w))
	}
	if x.op == OpSum {
		// drop parts that are multiples of 2^(sh+w), and split aligned parts
		if t := c.extSum(x, sh, w); t != nil {
			return t
		}
	}
	return c.intern(&Term{op: OpExt, args: []*Term{x}, sh: sh, w: w})
}

// extSum simplifies bit extraction from a sum of disjoint bit fields.
func (c *Ctx) extSum(x *Term, sh, w int) *Term {
	type fld struct {
		t  *Term
		lo int // shift
		w  int
	}
	var fs []fld
	if x.k.Sign() < 0 {
		return nil
	}
	if x.k.Sign() > 0 {
		tz := int(x.k.TrailingZeroBits())
		fs = append(fs, fld{c.B(new(big.Int).Rsh(x.k, uint(tz))), tz, x.k.BitLen() - tz})
	}
	for i, a := range x.args {
		n := isPow2(x.coefs[i])
		if n < 0 || a.lo == nil || a.lo.Sign() < 0 || a.hi == nil {
			return nil
		}
		fs = append(fs, fld{a, n, a.hi.BitLen()})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].lo < fs[j].lo })
	for i := 0; i+1 < len(fs); i++ {
		if fs[i].lo+fs[i].w > fs[i+1].lo {
			return nil
		}
	}
	r := c.I(0)
	for _, f := range fs {
		s, e := f.lo, f.lo+f.w
		if s < sh {
			s = sh
		}
		if e > sh+w {
			e = sh + w
		}
		if s >= e {
			continue
		}
		r = c.Add(r, c.MulK(c.Ext(f.t, s-f.lo, e-s), pow2(s-sh)))
	}
	return r
}

// Byte i (big endian) of the n byte value x.
func (c *Ctx) Byte(x *Term, i, n int) *Term { return c.Ext(x, 8*(n-1-i), 8) }

// HexCh: character for nibble.
func (c *Ctx) HexCh(nib *Term) *Term {
	if nib.isConst() {
		return c.I(int64("0123456789abcdef"[nib.k.Int64()&15]))
	}
	return c.intern(&Term{op: OpHex, args: []*Term{nib}})
}

// HexCS: the i-th character (0..39) of the EIP-55 form of address x.
func (c *Ctx) HexCS(x *Term, i int) *Term {
	if x.isConst() {
		return c.I(int64(eip55(x.k)[i]))
	}
	return c.intern(&Term{op: OpHexCS, args: []*Term{x}, sh: i})
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() || a == b {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if cond.op == OpNot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.isBool() {
		if a.isTrue() && b.isFalse() {
			return cond
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(cond)
		}
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if b.op == OpIte && b.args[0] == cond {
		return c.Ite(cond, a, b.args[2])
	}
	if a.op == OpIte && a.args[0] == cond {
		return c.Ite(cond, a.args[1], b)
	}
	return c.intern(&Term{op: OpIte, args: []*Term{cond, a, b}})
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OpTrue:
		return TFalse
	case OpFalse:
		return TTrue
	case OpNot:
		return a.args[0]
	case OpGe0: // not (p>=0)  <=> -p-1 >= 0
		return c.Ge0(c.Sub(c.I(-1), a.args[0]))
	}
	return c.intern(&Term{op: OpNot, args: []*Term{a}})
}

func (c *Ctx) nary(op Op, xs []*Term) *Term {
	unit, zero := TTrue, TFalse
	if op == OpOr {
		unit, zero = TFalse, TTrue
	}
	var flat []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if n := c.Not(x); seen[n] {
			return false
		}
		seen[x] = true
		flat = append(flat, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(flat) == 0 {
		return unit
	}
	if len(flat) == 1 {
		return flat[0]
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].id < flat[j].id })
	return c.intern(&Term{op: op, args: flat})
}
func (c *Ctx) And(xs ...*Term) *Term { return c.nary(OpAnd, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary(OpOr, xs) }

func gcdCoefs(t *Term) *big.Int {
	g := new(big.Int)
	for _, cf := range t.coefs {
		g.GCD(nil, nil, g, new(big.Int).Abs(cf))
	}
	return g
}

func (c *Ctx) Ge0(p *Term) *Term {
	if p.lo != nil && p.lo.Sign() >= 0 {
		return TTrue
	}
	if p.hi != nil && p.hi.Sign() < 0 {
		return TFalse
	}
	if p.op == OpIte {
		if p.args[1].isConst() || p.args[2].isConst() {
			return c.Ite(p.args[0], c.Ge0(p.args[1]), c.Ge0(p.args[2]))
		}
	}
	if p.op == OpSum {
		if t := c.liftIteSum(p, c.Ge0); t != nil {
			return t
		}
		if g := gcdCoefs(p); g.Cmp(b1) > 0 {
			// k + g*q >= 0 <=> floor(k/g) + q >= 0
			r := poly{new(big.Int).Div(p.k, g), map[*Term]*big.Int{}}
			for i, a := range p.args {
				r.m[a] = new(big.Int).Div(p.coefs[i], g)
			}
			return c.Ge0(c.fromPoly(r))
		}
	}
	return c.intern(&Term{op: OpGe0, args: []*Term{p}})
}

// liftIteSum: k + c*ite(b,k1,x) op 0 -> ite(b, (k+c*k1) op 0, (k+c*x) op 0)
// for a single-atom sum whose atom is an ite with a constant leaf.
func (c *Ctx) liftIteSum(p *Term, f func(*Term) *Term) *Term {
	if len(p.args) != 1 || p.args[0].op != OpIte {
		return nil
	}
	it := p.args[0]
	if !it.args[1].isConst() && !it.args[2].isConst() {
		return nil
	}
	a := c.Add(c.MulK(it.args[1], p.coefs[0]), c.B(p.k))
	b := c.Add(c.MulK(it.args[2], p.coefs[0]), c.B(p.k))
	return c.Ite(it.args[0], f(a), f(b))
}

func hexVal(ch int64) int64 {
	switch {
	case ch >= '0' && ch <= '9':
		return ch - '0'
	case ch >= 'a' && ch <= 'f':
		return ch - 'a' + 10
	}
	return -1
}

func (c *Ctx) Eq0(p *Term) *Term {
	if p.isConst() {
		return c.Bool(p.k.Sign() == 0)
	}
	if p.lo != nil && p.lo.Sign() > 0 || p.hi != nil && p.hi.Sign() < 0 {
		return TFalse
	}
	if p.op == OpIte && (p.args[1].isConst() || p.args[2].isConst()) {
		return c.Ite(p.args[0], c.Eq0(p.args[1]), c.Eq0(p.args[2]))
	}
	if p.op == OpSum {
		if t := c.liftIteSum(p, c.Eq0); t != nil {
			return t
		}
		g := gcdCoefs(p)
		if g.Cmp(b1) > 0 {
			if new(big.Int).Mod(p.k, g).Sign() != 0 {
				return TFalse
			}
			r := poly{new(big.Int).Quo(p.k, g), map[*Term]*big.Int{}}
			for i, a := range p.args {
				r.m[a] = new(big.Int).Quo(p.coefs[i], g)
			}
			return c.Eq0(c.fromPoly(r))
		}
		if p.coefs[0].Sign() < 0 {
			return c.Eq0(c.Neg(p))
		}
		if len(p.args) == 1 && p.coefs[0].Cmp(b1) == 0 && p.args[0].op == OpHex {
			v := int64(-1)
			if n := new(big.Int).Neg(p.k); n.IsInt64() {
				v = hexVal(n.Int64())
			}
			if v < 0 {
				return TFalse
			}
			return c.Eq(p.args[0].args[0], c.I(v))
		}
		if len(p.args) == 2 && p.k.Sign() == 0 && p.args[0].op == OpHex && p.args[1].op == OpHex &&
			new(big.Int).Add(p.coefs[0], p.coefs[1]).Sign() == 0 {
			return c.Eq(p.args[0].args[0], p.args[1].args[0])
		}
	}
	return c.intern(&Term{op: OpEq0, args: []*Term{p}})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.isBool() {
		switch {
		case a.isTrue():
			return b
		case b.isTrue():
			return a
		case a.isFalse():
			return c.Not(b)
		case b.isFalse():
			return c.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.intern(&Term{op: OpBEq, args: []*Term{a, b}})
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k.Cmp(b.k) == 0)
	}
	if a.op == OpKeccak && b.op == OpKeccak {
		return c.keccakEq(a, b)
	}
	return c.Eq0(c.Sub(a, b))
}
func (c *Ctx) Le(a, b *Term) *Term { return c.Ge0(c.Sub(b, a)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.Ge0(c.Sub(c.Sub(b, a), c.I(1))) }

// Cmp returns -1/0/1 as a term.
func (c *Ctx) Cmp(a, b *Term) *Term {
	return c.Ite(c.Lt(a, b), c.I(-1), c.Ite(c.Eq(a, b), c.I(0), c.I(1)))
}

// ---- byte sequences ----

// chunk describes a maximal run of elements that are consecutive bit fields of one base value.
type chunk struct {
	kind  byte // 'c' concrete/opaque single element, 'b' bytes run, 'h' hex run, 's' checksummed hex run
	x     *Term
	sh, w int // bit range [sh, sh+w)
	n     int // number of elements
	e     *Term
}

func (c *Ctx) chunks(bs []*Term) []chunk {
	var out []chunk
	for _, e := range bs {
		var ch chunk
		switch {
		case e.op == OpExt && e.w <= 8:
			// a byte field; treat as an 8 bit wide element
			ch = chunk{kind: 'b', x: e.args[0], sh: e.sh, w: 8, n: 1, e: e}
		case e.op == OpHex && e.args[0].op == OpExt && e.args[0].w <= 4:
			ch = chunk{kind: 'h', x: e.args[0].args[0], sh: e.args[0].sh, w: 4, n: 1, e: e}
		case e.op == OpHexCS:
			ch = chunk{kind: 's', x: e.args[0], sh: 4 * (39 - e.sh), w: 4, n: 1, e: e}
		default:
			ch = chunk{kind: 'c', n: 1, e: e}
		}
		if n := len(out); n > 0 && ch.kind != 'c' && out[n-1].kind == ch.kind && out[n-1].x == ch.x && ch.sh+ch.w == out[n-1].sh {
			out[n-1].sh = ch.sh
			out[n-1].w += ch.w
			out[n-1].n++
			out[n-1].e = nil
			continue
		}
		out = append(out, ch)
	}
	return out
}

// fieldsEq compares elementwise two sequences of the same length.
func (c *Ctx) SeqEq(a, b []*Term) *Term {
	if len(a) != len(b) {
		return TFalse
	}
	var conj []*Term
	i := 0
	for i < len(a) {
		x, y := a[i], b[i]
		if x == y {
			i++
			continue
		}
		if x.isConst() && y.isConst() {
			return TFalse
		}
		// grow a run
		j, t := c.runEq(a, b, i)
		if t.isFalse() {
			return TFalse
		}
		conj = append(conj, t)
		i = j
	}
	return c.And(conj...)
}

func elemField(e *Term) (kind byte, x *Term, sh, w int) {
	switch {
	case e.isConst():
		return 'k', nil, 0, 0
	case e.op == OpExt && e.w <= 8:
		return 'b', e.args[0], e.sh, 8
	case e.op == OpHex && e.args[0].op == OpExt:
		return 'h', e.args[0].args[0], e.args[0].sh, 4
	case e.op == OpHex:
		return 'h', e.args[0], 0, 4
	case e.op == OpHexCS:
		return 's', e.args[0], 4 * (39 - e.sh), 4
	case e.hi != nil && e.hi.Cmp(big.NewInt(255)) <= 0 && e.lo != nil && e.lo.Sign() >= 0:
		return 'b', e, 0, 8
	}
	return 'o', nil, 0, 0
}

// runEq compares the longest aligned run starting at i.
func (c *Ctx) runEq(a, b []*Term, i int) (int, *Term) {
	ka, xa, sa, wa := elemField(a[i])
	kb, xb, sb, wb := elemField(b[i])
	if ka == 'k' && kb != 'k' {
		return c.runEq(b, a, i)
	}
	if ka == 's' || kb == 's' {
		return c.runEqCS(a, b, i)
	}
	// extend over symbolic run on the left
	endA := func(v []*Term, k byte, x *Term, s int) (int, int) {
		j := i + 1
		for j < len(v) {
			k2, x2, s2, w2 := elemField(v[j])
			if k2 != k || x2 != x || s2+w2 != s {
				break
			}
			s = s2
			j++
		}
		return j, s
	}
	if ka == 'b' || ka == 'h' {
		ja, la := endA(a, ka, xa, sa)
		if kb == ka && wa == wb {
			jb, lb := endA(b, kb, xb, sb)
			j, l, m := ja, la, lb
			if jb < j {
				j = jb
				l = sa + wa - (j-i)*wa
				m = lb
			} else if ja < jb {
				m = sb + wb - (j-i)*wb
			}
			n := (j - i) * wa
			return j, c.Eq(c.Ext(xa, l, n), c.Ext(xb, m, n))
		}
		if kb == 'k' {
			j := i
			v := new(big.Int)
			for j < ja && b[j].isConst() {
				d := b[j].k.Int64()
				if ka == 'h' {
					d = hexVal(d)
					if d < 0 {
						return j + 1, TFalse
					}
				}
				v.Lsh(v, uint(wa))
				v.Or(v, big.NewInt(d))
				j++
			}
			n := (j - i) * wa
			l := sa + wa - n
			return j, c.Eq(c.Ext(xa, l, n), c.B(v))
		}
	}
	return i + 1, c.Eq(a[i], b[i])
}

func (c *Ctx) csRun(v []*Term, i int) (x *Term, full bool) {
	if v[i].op != OpHexCS || v[i].sh != 0 || i+40 > len(v) {
		return nil, false
	}
	for j := 0; j < 40; j++ {
		if v[i+j].op != OpHexCS || v[i+j].args[0] != v[i].args[0] || v[i+j].sh != j {
			return nil, false
		}
	}
	return v[i].args[0], true
}

// runEqCS compares runs where at least one side is an EIP-55 rendered address.
func (c *Ctx) runEqCS(a, b []*Term, i int) (int, *Term) {
	if a[i].op != OpHexCS {
		a, b = b, a
	}
	x, full := c.csRun(a, i)
	if full && i+40 <= len(b) {
		if y, fy := c.csRun(b, i); fy {
			return i + 40, c.Eq(x, y)
		}
		// against lower-case digits or constants
		v := new(big.Int)
		allConst, allHexish := true, true
		s := make([]byte, 40)
		low := make([]*Term, 40)
		for j := 0; j < 40; j++ {
			e := b[i+j]
			if e.isConst() {
				s[j] = byte(e.k.Int64())
				d := hexVal(int64(lowerB(s[j])))
				if d < 0 {
					return i + 40, TFalse
				}
				v.Lsh(v, 4)
				v.Or(v, big.NewInt(d))
				low[j] = c.I(int64(s[j]))
			} else {
				allConst = false
				if e.op != OpHex {
					allHexish = false
				}
				low[j] = e
			}
		}
		if allConst {
			if eip55(v) != string(s) {
				return i + 40, TFalse
			}
			return i + 40, c.Eq(x, c.B(v))
		}
		if allHexish {
			lx := make([]*Term, 40)
			for j := range lx {
				lx[j] = c.HexCh(c.Ext(x, 4*(39-j), 4))
			}
			return i + 40, c.And(c.BApp("cs_is_lower", x), c.SeqEq(lx, low))
		}
	}
	// partial comparison: digits agree and the letter case is an uninterpreted fact
	e := a[i]
	o := b[i]
	nib := c.Ext(e.args[0], 4*(39-e.sh), 4)
	if o.op == OpHexCS {
		n2 := c.Ext(o.args[0], 4*(39-o.sh), 4)
		return i + 1, c.And(c.Eq(nib, n2), c.Or(c.Eq(e.args[0], o.args[0]), c.BApp("cs_case_eq", e, o)))
	}
	return i + 1, c.Eq(e, o)
}

func lowerB(b byte) byte {
	if b >= 'A' && b <= 'Z' {
		return b + 32
	}
	return b
}

// SeqLt: lexicographic a < b over elements.
func (c *Ctx) SeqLt(a, b []*Term) *Term {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	i := 0
	for i < n && a[i] == b[i] {
		i++
	}
	if i == n {
		return c.Bool(len(a) < len(b))
	}
	if a[i].isConst() && b[i].isConst() {
		return c.Bool(a[i].k.Cmp(b[i].k) < 0)
	}
	// aligned runs of equal width
	ka, xa, sa, wa := elemField(a[i])
	kb, xb, sb, wb := elemField(b[i])
	if (ka == 'b' || ka == 'h') && (kb == ka || kb == 'k') || ka == 'k' && (kb == 'b' || kb == 'h') {
		w, kind := wa, ka
		if ka == 'k' {
			w, kind = wb, kb
		}
		run := func(v []*Term, k byte, x *Term, s int) int {
			j := i + 1
			for j < n {
				k2, x2, s2, w2 := elemField(v[j])
				if k == 'k' {
					if k2 != 'k' {
						break
					}
				} else {
					if k2 != k || x2 != x || s2+w2 != s {
						break
					}
					s = s2
				}
				j++
			}
			return j
		}
		ja, jb := run(a, ka, xa, sa), run(b, kb, xb, sb)
		j := ja
		if jb < j {
			j = jb
		}
		val := func(v []*Term, k byte, x *Term, s int) *Term {
			if k != 'k' {
				m := (j - i) * w
				return c.Ext(x, s+w-m, m)
			}
			r := new(big.Int)
			for q := i; q < j; q++ {
				d := v[q].k.Int64()
				if kind == 'h' {
					d = hexVal(d)
					if d < 0 {
						return nil
					}
				}
				r.Lsh(r, uint(w))
				r.Or(r, big.NewInt(d))
			}
			return c.B(r)
		}
		va, vb := val(a, ka, xa, sa), val(b, kb, xb, sb)
		if va != nil && vb != nil {
			return c.Or(c.Lt(va, vb), c.And(c.Eq(va, vb), c.SeqLt(a[j:], b[j:])))
		}
	}
	return c.Or(c.Lt(a[i], b[i]), c.And(c.Eq(a[i], b[i]), c.SeqLt(a[i+1:], b[i+1:])))
}

// BytesToInt assembles big-endian bytes.
func (c *Ctx) BytesToInt(bs []*Term) *Term {
	allc := true
	for _, b := range bs {
		if !b.isConst() {
			allc = false
			break
		}
	}
	if allc {
		v := new(big.Int)
		for _, b := range bs {
			v.Lsh(v, 8)
			v.Or(v, b.k)
		}
		return c.B(v)
	}
	r := poly{new(big.Int), map[*Term]*big.Int{}}
	i := 0
	n := len(bs)
	for i < n {
		j := i + 1
		e := bs[i]
		if e.op == OpExt {
			s := e.sh
			for j < n && bs[j].op == OpExt && bs[j].args[0] == e.args[0] && bs[j].sh == s-8 {
				s -= 8
				j++
			}
			t := c.Ext(e.args[0], s, e.sh+e.w-s)
			q := toPoly(t)
			f := pow2(8 * (n - j))
			r.k = new(big.Int).Add(r.k, new(big.Int).Mul(q.k, f))
			for x, cx := range q.m {
				addTo(r.m, x, new(big.Int).Mul(cx, f))
			}
		} else {
			q := toPoly(e)
			f := pow2(8 * (n - j))
			r.k = new(big.Int).Add(r.k, new(big.Int).Mul(q.k, f))
			for x, cx := range q.m {
				addTo(r.m, x, new(big.Int).Mul(cx, f))
			}
		}
		i = j
	}
	return c.fromPoly(r)
}

// Keccak application over a byte sequence.
func (c *Ctx) Keccak(fn string, bs []*Term) *Term {
	allc := true
	for _, b := range bs {
		if !b.isConst() {
			allc = false
		}
	}
	if allc {
		raw := make([]byte, len(bs))
		for i, b := range bs {
			raw[i] = byte(b.k.Int64())
		}
		var h [32]byte
		if fn == "keccak" {
			h = keccak256(raw)
		} else {
			h = sha256Sum(raw)
		}
		return c.B(new(big.Int).SetBytes(h[:]))
	}
	n := len(c.keccaks)
	t := c.intern(&Term{op: OpKeccak, name: fn, args: append([]*Term(nil), bs...)})
	for _, k := range c.keccaks {
		if k == t {
			return t
		}
	}
	c.keccaks = append(c.keccaks, t)
	_ = n
	if c.onKecc != nil {
		c.onKecc(t)
	}
	return t
}

func (c *Ctx) keccakEq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.name != b.name || len(a.args) != len(b.args) {
		return TFalse
	}
	return c.SeqEq(a.args, b.args)
}

func (t *Term) String() string {
	switch t.op {
	case OpConst:
		return t.k.String()
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpVar, OpBVar:
		return t.name
	}
	var parts []string
	for i, a := range t.args {
		s := a.String()
		if t.coefs != nil && t.coefs[i].Cmp(b1) != 0 {
			s = t.coefs[i].String() + "*" + s
		}
		parts = append(parts, s)
	}
	n := map[Op]string{OpSum: "+", OpMul: "*", OpDiv: "div", OpMod: "mod", OpIte: "ite", OpExt: "ext", OpHex: "hex", OpHexCS: "hexcs", OpEq0: "=0", OpGe0: ">=0", OpNot: "not", OpAnd: "and", OpOr: "or", OpBEq: "iff"}[t.op]
	if n == "" {
		n = t.name
	}
	if t.op == OpSum && t.k.Sign() != 0 {
		parts = append(parts, t.k.String())
	}
	if t.op == OpExt {
		n = fmt.Sprintf("ext[%d+%d]", t.sh, t.w)
	}
	s := "(" + n + " " + strings.Join(parts, " ") + ")"
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}
