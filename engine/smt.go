package main

// SMT back end: one solver process per worker, used incrementally.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

func (r SatRes) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	timeout int // ms
	dead    bool

	// per path state
	c        *Ctx
	defined  map[*Term]string
	vars     []*Term // declared variables (int and bool), keccaks and apps
	declared map[string]bool
	kecc     []*Term
	buf      strings.Builder
	nl       bool

	Queries  int
	NSat     int
	NUnsat   int
	NUnknown int
	Time     time.Duration
	log      io.Writer
	errs     int
	bin      string
	args     []string
}

func NewSolver(bin string, timeoutMs int, args ...string) (*Solver, error) {
	s := &Solver{timeout: timeoutMs, bin: bin, args: args}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.dead = false
	s.raw("(set-option :print-success false)\n")
	if strings.Contains(s.bin, "z3") {
		s.raw(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	} else {
		s.raw("(set-logic ALL)\n")
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) raw(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	io.WriteString(s.in, x)
}

// Begin starts a fresh path.
func (s *Solver) Begin(c *Ctx) {
	s.c = c
	s.defined = map[*Term]string{}
	s.vars = nil
	s.declared = map[string]bool{}
	s.kecc = nil
	s.nl = false
	s.buf.Reset()
	s.buf.WriteString("(push 1)\n")
}
func (s *Solver) End() {
	s.flush()
	s.raw("(pop 1)\n")
}
func (s *Solver) flush() {
	if s.buf.Len() > 0 {
		s.raw(s.buf.String())
		s.buf.Reset()
	}
}

func smtInt(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func san(n string) string { return "|" + strings.ReplaceAll(n, "|", "_") + "|" }

// ref returns an SMT expression (name or literal) for t, emitting definitions as needed.
func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OpConst:
		return smtInt(t.k)
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	}
	if n, ok := s.defined[t]; ok {
		return n
	}
	// iterative post-order to avoid deep recursion problems is unnecessary at our sizes
	switch t.op {
	case OpVar:
		n := san(t.name)
		s.defined[t] = n
		s.vars = append(s.vars, t)
		fmt.Fprintf(&s.buf, "(declare-const %s Int)\n", n)
		s.rangeAssert(t, n)
		return n
	case OpBVar:
		n := san(t.name)
		s.defined[t] = n
		s.vars = append(s.vars, t)
		fmt.Fprintf(&s.buf, "(declare-const %s Bool)\n", n)
		return n
	case OpKeccak:
		n := fmt.Sprintf("h%d", t.id)
		s.defined[t] = n
		s.vars = append(s.vars, t)
		fmt.Fprintf(&s.buf, "(declare-const %s Int)\n", n)
		s.rangeAssert(t, n)
		for _, o := range s.kecc {
			eq := s.ref(s.c.keccakEq(o, t))
			fmt.Fprintf(&s.buf, "(assert (= (= %s %s) %s))\n", n, s.defined[o], eq)
		}
		s.kecc = append(s.kecc, t)
		return n
	case OpApp, OpBApp:
		var as, sorts []string
		for _, a := range t.args {
			as = append(as, s.ref(a))
			if a.isBool() {
				sorts = append(sorts, "Bool")
			} else {
				sorts = append(sorts, "Int")
			}
		}
		fn := san("uf_" + t.name)
		so := "Int"
		if t.op == OpBApp {
			so = "Bool"
		}
		if !s.declared[fn] {
			s.declared[fn] = true
			fmt.Fprintf(&s.buf, "(declare-fun %s (%s) %s)\n", fn, strings.Join(sorts, " "), so)
		}
		n := fmt.Sprintf("t%d", t.id)
		ex := fn
		if len(as) > 0 {
			ex = "(" + fn + " " + strings.Join(as, " ") + ")"
		}
		fmt.Fprintf(&s.buf, "(define-fun %s () %s %s)\n", n, so, ex)
		s.defined[t] = n
		s.vars = append(s.vars, t)
		if t.op == OpApp {
			s.rangeAssert(t, n)
		}
		return n
	}
	refs := make([]string, len(t.args))
	for i, a := range t.args {
		refs[i] = s.ref(a)
	}
	var ex string
	sort := "Int"
	side := ""
	switch t.op {
	case OpSum:
		var ps []string
		if t.k.Sign() != 0 {
			ps = append(ps, smtInt(t.k))
		}
		for i := range t.args {
			if t.coefs[i].Cmp(b1) == 0 {
				ps = append(ps, refs[i])
			} else {
				ps = append(ps, "(* "+smtInt(t.coefs[i])+" "+refs[i]+")")
			}
		}
		if len(ps) == 1 {
			ex = ps[0]
		} else {
			ex = "(+ " + strings.Join(ps, " ") + ")"
		}
	case OpMul:
		s.nl = true
		ex = "(* " + strings.Join(refs, " ") + ")"
	case OpDiv:
		if !t.args[1].isConst() {
			s.nl = true
			// q with d*q <= a < d*q + d for d > 0
			n := fmt.Sprintf("t%d", t.id)
			s.defined[t] = n
			fmt.Fprintf(&s.buf, "(declare-const %s Int)\n", n)
			a, d := refs[0], refs[1]
			fmt.Fprintf(&s.buf, "(assert (=> (> %s 0) (and (<= (* %s %s) %s) (< %s (+ (* %s %s) %s)))))\n", d, d, n, a, a, d, n, d)
			fmt.Fprintf(&s.buf, "(assert (=> (and (> %s 0) (>= %s 0)) (and (>= %s 0) (<= %s %s))))\n", d, a, n, n, a)
			return n
		}
		ex = "(div " + refs[0] + " " + refs[1] + ")"
	case OpMod:
		if !t.args[1].isConst() {
			s.nl = true
			// a - d*(a div d)
			q := s.ref(s.c.intern(&Term{op: OpDiv, args: []*Term{t.args[0], t.args[1]}}))
			ex = "(- " + refs[0] + " (* " + refs[1] + " " + q + "))"
		} else {
			ex = "(mod " + refs[0] + " " + refs[1] + ")"
		}
	case OpIte:
		if t.isBool() {
			sort = "Bool"
		}
		ex = "(ite " + strings.Join(refs, " ") + ")"
	case OpExt:
		ex = refs[0]
		x := t.args[0]
		if t.sh > 0 {
			ex = "(div " + ex + " " + pow2(t.sh).String() + ")"
		}
		if x.hi == nil || x.hi.BitLen() > t.sh+t.w {
			ex = "(mod " + ex + " " + pow2(t.w).String() + ")"
		}
	case OpHex:
		ex = fmt.Sprintf("(ite (< %s 10) (+ 48 %s) (+ 87 %s))", refs[0], refs[0], refs[0])
	case OpHexCS:
		nib := s.ref(s.c.Ext(t.args[0], 4*(39-t.sh), 4))
		fn := "uf_cs_upper"
		if !s.declared[fn] {
			s.declared[fn] = true
			s.buf.WriteString("(declare-fun uf_cs_upper (Int Int) Bool)\n")
		}
		ex = fmt.Sprintf("(ite (< %s 10) (+ 48 %s) (ite (uf_cs_upper %s %d) (+ 55 %s) (+ 87 %s)))", nib, nib, refs[0], t.sh, nib, nib)
	case OpEq0:
		sort = "Bool"
		ex = "(= " + refs[0] + " 0)"
	case OpGe0:
		sort = "Bool"
		ex = "(>= " + refs[0] + " 0)"
	case OpNot:
		sort = "Bool"
		ex = "(not " + refs[0] + ")"
	case OpAnd:
		sort = "Bool"
		ex = "(and " + strings.Join(refs, " ") + ")"
	case OpOr:
		sort = "Bool"
		ex = "(or " + strings.Join(refs, " ") + ")"
	case OpBEq:
		sort = "Bool"
		ex = "(= " + strings.Join(refs, " ") + ")"
	default:
		panic(fmt.Sprintf("ref op %d", t.op))
	}
	n := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(&s.buf, "(define-fun %s () %s %s)\n%s", n, sort, ex, side)
	s.defined[t] = n
	return n
}

func (s *Solver) rangeAssert(t *Term, n string) {
	if t.lo != nil {
		fmt.Fprintf(&s.buf, "(assert (>= %s %s))\n", n, smtInt(t.lo))
	}
	if t.hi != nil {
		fmt.Fprintf(&s.buf, "(assert (<= %s %s))\n", n, smtInt(t.hi))
	}
}

func (s *Solver) Assert(t *Term) {
	if t.isTrue() {
		return
	}
	r := s.ref(t)
	fmt.Fprintf(&s.buf, "(assert %s)\n", r)
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return "error: " + err.Error()
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

// Check decides satisfiability of the asserted path condition and extra.
// When model is true and the result is Sat a model is returned.
func (s *Solver) Check(extra *Term, model bool) (SatRes, *Model) {
	if s.dead {
		return Unknown, nil
	}
	r := ""
	if extra != nil {
		if extra.isFalse() {
			return Unsat, nil
		}
		r = s.ref(extra)
	}
	t0 := time.Now()
	if extra != nil {
		s.buf.WriteString("(push 1)\n")
		fmt.Fprintf(&s.buf, "(assert %s)\n", r)
	}
	var res SatRes
	var m *Model
	var lemmas []string
	for try := 0; ; try++ {
		res, m = Unknown, nil
		s.buf.WriteString("(check-sat)\n")
		s.flush()
		s.Queries++
		l := s.readLine()
		switch l {
		case "sat":
			res = Sat
			s.NSat++
		case "unsat":
			res = Unsat
			s.NUnsat++
		case "unknown", "timeout":
			s.NUnknown++
		default:
			s.NUnknown++
			s.errs++
			if s.errs < 5 {
				fmt.Println("solver said:", l)
			}
		}
		if res == Sat && model && !s.dead {
			m = s.getModel()
			if try < 8 {
				// the letter case of checksummed addresses is an uninterpreted fact for the
				// solver: refine with the real checksum of the model's addresses
				if ls := s.csLemmas(m); len(ls) > 0 {
					for _, x := range ls {
						s.buf.WriteString(x)
					}
					lemmas = append(lemmas, ls...)
					continue
				}
			}
		}
		break
	}
	if extra != nil {
		s.buf.WriteString("(pop 1)\n")
		for _, x := range lemmas {
			s.buf.WriteString(x)
		}
	}
	s.Time += time.Since(t0)
	return res, m
}

// csLemmas returns the checksum facts contradicted by the model.
func (s *Solver) csLemmas(m *Model) []string {
	if m == nil {
		return nil
	}
	var out []string
	for _, v := range s.vars {
		if v.op != OpBApp {
			continue
		}
		var real bool
		switch v.name {
		case "cs_is_lower":
			t := eip55(m.Eval(v.args[0]))
			real = t == strings.ToLower(t)
		case "cs_case_eq":
			real = m.Eval(v.args[0]).Cmp(m.Eval(v.args[1])) == 0
		default:
			continue
		}
		if m.Bool(v) == real {
			continue
		}
		var cond []string
		seen := map[*Term]bool{}
		for _, a := range v.args {
			x := a
			if a.op == OpHexCS {
				x = a.args[0]
			}
			if x.isConst() || seen[x] {
				continue
			}
			seen[x] = true
			cond = append(cond, fmt.Sprintf("(= %s %s)", s.ref(x), smtInt(m.Eval(x))))
		}
		if v.name == "cs_case_eq" && lowerB(byte(m.Eval(v.args[0]).Int64())) != lowerB(byte(m.Eval(v.args[1]).Int64())) {
			continue // digits differ: irrelevant
		}
		out = append(out, fmt.Sprintf("(assert (=> (and true %s) (= %s %v)))\n", strings.Join(cond, " "), s.defined[v], real))
	}
	return out
}

type Model struct {
	v  map[*Term]*big.Int // ints; bools as 0/1
	ev map[*Term]*big.Int // evaluation cache
}

func (s *Solver) getModel() *Model {
	m := &Model{v: map[*Term]*big.Int{}}
	if len(s.vars) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range s.vars {
		sb.WriteString(s.defined[v])
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.raw(sb.String())
	// read a balanced s-expression
	depth := 0
	var txt strings.Builder
	inq := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return nil
		}
		txt.WriteByte(b)
		if b == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	toks := tokenize(txt.String())
	// ((name val) (name val) ...)
	pos := 1
	i := 0
	for pos < len(toks) && toks[pos] == "(" && i < len(s.vars) {
		pos++
		pos = skipExpr(toks, pos) // name (maybe application)
		start := pos
		pos = skipExpr(toks, pos)
		val := parseVal(toks[start:pos])
		if val == nil {
			return nil
		}
		m.v[s.vars[i]] = val
		i++
		pos++ // )
	}
	if i != len(s.vars) {
		return nil
	}
	return m
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		switch ch := s[i]; {
		case ch == '(' || ch == ')':
			out = append(out, string(ch))
			i++
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '|':
			j := strings.IndexByte(s[i+1:], '|') + i + 1
			out = append(out, s[i:j+1])
			i = j + 1
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}
func skipExpr(t []string, p int) int {
	if t[p] != "(" {
		return p + 1
	}
	d := 0
	for {
		if t[p] == "(" {
			d++
		} else if t[p] == ")" {
			d--
			if d == 0 {
				return p + 1
			}
		}
		p++
	}
}
func parseVal(t []string) *big.Int {
	if len(t) == 1 {
		switch t[0] {
		case "true":
			return big.NewInt(1)
		case "false":
			return big.NewInt(0)
		}
		v, ok := new(big.Int).SetString(t[0], 10)
		if !ok {
			return nil
		}
		return v
	}
	if len(t) == 4 && t[1] == "-" {
		v, ok := new(big.Int).SetString(t[2], 10)
		if !ok {
			return nil
		}
		return v.Neg(v)
	}
	return nil
}

// ---- evaluation ----

// Eval evaluates t under the model; variables absent from the model default to
// the smallest value of their range (or zero).
func (m *Model) Eval(t *Term) *big.Int {
	if m.ev == nil {
		m.ev = map[*Term]*big.Int{}
	}
	return m.eval(t)
}
func (m *Model) Bool(t *Term) bool { return m.Eval(t).Sign() != 0 }

func bi(b bool) *big.Int {
	if b {
		return b1
	}
	return b0
}

func (m *Model) eval(t *Term) *big.Int {
	switch t.op {
	case OpConst:
		return t.k
	case OpTrue:
		return b1
	case OpFalse:
		return b0
	}
	if v, ok := m.ev[t]; ok {
		return v
	}
	var r *big.Int
	switch t.op {
	case OpVar, OpBVar, OpApp, OpBApp, OpKeccak:
		if v, ok := m.v[t]; ok {
			r = v
		} else {
			r = b0
			if t.lo != nil && t.lo.Sign() > 0 {
				r = t.lo
			}
			if t.hi != nil && t.hi.Sign() < 0 {
				r = t.hi
			}
			if t.op == OpKeccak {
				// unconstrained hash: distinct value per term
				r = new(big.Int).Lsh(big.NewInt(int64(t.id)), 100)
			}
		}
	case OpSum:
		r = new(big.Int).Set(t.k)
		for i, a := range t.args {
			r.Add(r, new(big.Int).Mul(t.coefs[i], m.eval(a)))
		}
	case OpMul:
		r = big.NewInt(1)
		for _, a := range t.args {
			r.Mul(r, m.eval(a))
		}
	case OpDiv:
		d := m.eval(t.args[1])
		if d.Sign() == 0 {
			r = b0
		} else {
			q, md := new(big.Int), new(big.Int)
			q.DivMod(m.eval(t.args[0]), d, md)
			r = q
		}
	case OpMod:
		d := m.eval(t.args[1])
		if d.Sign() == 0 {
			r = m.eval(t.args[0])
		} else {
			q, md := new(big.Int), new(big.Int)
			q.DivMod(m.eval(t.args[0]), d, md)
			r = md
		}
	case OpIte:
		if m.eval(t.args[0]).Sign() != 0 {
			r = m.eval(t.args[1])
		} else {
			r = m.eval(t.args[2])
		}
	case OpExt:
		r = new(big.Int).Rsh(m.eval(t.args[0]), uint(t.sh))
		r.And(r, new(big.Int).Sub(pow2(t.w), b1))
	case OpHex:
		r = big.NewInt(int64("0123456789abcdef"[m.eval(t.args[0]).Int64()&15]))
	case OpHexCS:
		r = big.NewInt(int64(eip55(m.eval(t.args[0]))[t.sh]))
	case OpEq0:
		r = bi(m.eval(t.args[0]).Sign() == 0)
	case OpGe0:
		r = bi(m.eval(t.args[0]).Sign() >= 0)
	case OpNot:
		r = bi(m.eval(t.args[0]).Sign() == 0)
	case OpAnd:
		r = b1
		for _, a := range t.args {
			if m.eval(a).Sign() == 0 {
				r = b0
				break
			}
		}
	case OpOr:
		r = b0
		for _, a := range t.args {
			if m.eval(a).Sign() != 0 {
				r = b1
				break
			}
		}
	case OpBEq:
		r = bi((m.eval(t.args[0]).Sign() != 0) == (m.eval(t.args[1]).Sign() != 0))
	default:
		panic("eval")
	}
	m.ev[t] = r
	return r
}

// keep deterministic ordering helper
func sortTerms(ts []*Term) { sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id }) }
