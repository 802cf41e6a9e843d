package main

// SMT back end.  The main solver sees Bool/BV (Int terms are emitted as
// wide-enough bit-vectors); field equalities are abstract Booleans there and are
// decided by a finite-field solver (z3 QF_FF) in a lazy loop.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Stats struct {
	FFFound            int
	Queries, FFQueries int
	UnsatN, SatN, Unk  int
	SolverMs           int64
	Errors             int
	Simplified         int
}

var stats Stats
var queryLog io.Writer

type proc struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
	n   int
	bin string
}

func startProc(bin string, args ...string) *proc {
	c := exec.Command(bin, args...)
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	c.Stderr = nil
	if err := c.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "solver start:", err)
		return nil
	}
	return &proc{cmd: c, in: bufio.NewWriterSize(in, 1<<16), out: bufio.NewReaderSize(out, 1<<16), bin: bin}
}

func (p *proc) kill() {
	if p != nil && p.cmd != nil && p.cmd.Process != nil {
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
}

var procs = map[string]*proc{}

// runQuery sends one self-contained script (declarations, assertions, check-sat and,
// when sat, get-value) to a persistent solver process.
func runQuery(kind string, text string, values []string, timeoutMs int) (Result, map[string]string) {
	bin, args := "z3-new", []string{"-in", "-smt2"}
	if kind == "z3" {
		bin = "z3"
	}
	if kind == "lia" {
		args = []string{"smt.arith.solver=2", "-in", "-smt2"}
	}
	if kind == "cvc5" {
		return runCvc5(text, values, timeoutMs)
	}
	t0 := time.Now()
	defer func() {
		ms := time.Since(t0).Milliseconds()
		stats.SolverMs += ms
		if d := os.Getenv("GOSYM_DUMP"); d != "" && ms > 1000 {
			os.WriteFile(fmt.Sprintf("%s/%s-%d-%d.smt2", d, kind, ms, stats.Queries+stats.FFQueries), []byte(text+"(check-sat)\n"), 0644)
		}
	}()
	p := procs[kind]
	if p == nil || p.n > 400 {
		p.kill()
		p = startProc(bin, args...)
		procs[kind] = p
	}
	if p == nil {
		return Unknown, nil
	}
	p.n++
	if queryLog != nil {
		fmt.Fprintf(queryLog, "; ---- %s\n(push)\n%s(check-sat)\n(pop)\n", kind, text)
	}
	type res struct {
		r Result
		m map[string]string
	}
	ch := make(chan res, 1)
	go func() {
		fmt.Fprintf(p.in, "(reset)\n(set-option :timeout %d)\n", timeoutMs)
		io.WriteString(p.in, text)
		io.WriteString(p.in, "(check-sat)\n(echo \"EOQ\")\n")
		p.in.Flush()
		r := Unknown
		bad := false
		for {
			line, err := p.out.ReadString('\n')
			if err != nil {
				ch <- res{Unknown, nil}
				return
			}
			line = strings.TrimSpace(line)
			if strings.Contains(line, "EOQ") {
				break
			}
			switch {
			case strings.HasPrefix(line, "(error"):
				bad = true
				stats.Errors++
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "SMT error:", line)
				}
			case line == "sat":
				r = Sat
			case line == "unsat":
				r = Unsat
			}
		}
		if bad {
			r = Unknown
		}
		var m map[string]string
		if r == Sat && len(values) > 0 {
			m = map[string]string{}
			fmt.Fprintf(p.in, "(get-value (%s))\n(echo \"EOQ\")\n", strings.Join(values, " "))
			p.in.Flush()
			var sb strings.Builder
			for {
				line, err := p.out.ReadString('\n')
				if err != nil {
					ch <- res{Unknown, nil}
					return
				}
				if strings.Contains(line, "EOQ") {
					break
				}
				sb.WriteString(line)
			}
			parseValues(sb.String(), m)
		}
		ch <- res{r, m}
	}()
	select {
	case x := <-ch:
		return x.r, x.m
	case <-time.After(time.Duration(timeoutMs)*time.Millisecond + 5*time.Second):
		p.kill()
		delete(procs, kind)
		return Unknown, nil
	}
}

func runCvc5(text string, values []string, timeoutMs int) (Result, map[string]string) {
	t0 := time.Now()
	defer func() { stats.SolverMs += time.Since(t0).Milliseconds() }()
	c := exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", timeoutMs))
	c.Stdin = strings.NewReader("(set-logic ALL)\n" + text + "(check-sat)\n")
	out, _ := c.Output()
	s := string(out)
	if strings.Contains(s, "(error") {
		return Unknown, nil
	}
	if strings.HasPrefix(s, "unsat") {
		return Unsat, nil
	}
	return Unknown, nil
}

// parseValues reads ((name val) (name val) ...)
func parseValues(s string, m map[string]string) {
	toks := sexpTokens(s)
	pos := 0
	var parse func() interface{}
	parse = func() interface{} {
		if pos >= len(toks) {
			return ""
		}
		t := toks[pos]
		pos++
		if t != "(" {
			return t
		}
		var l []interface{}
		for pos < len(toks) && toks[pos] != ")" {
			l = append(l, parse())
		}
		pos++
		return l
	}
	var flat func(x interface{}) string
	flat = func(x interface{}) string {
		if t, ok := x.(string); ok {
			return t
		}
		var o []string
		for _, y := range x.([]interface{}) {
			o = append(o, flat(y))
		}
		return "(" + strings.Join(o, " ") + ")"
	}
	top, ok := parse().([]interface{})
	if !ok {
		return
	}
	for _, e := range top {
		if l, ok := e.([]interface{}); ok && len(l) == 2 {
			m[flat(l[0])] = flat(l[1])
		}
	}
}

func sexpTokens(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := i + 1
			for j < len(s) && s[j] != '|' {
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func parseVal(s string) *big.Int {
	s = strings.TrimSpace(s)
	switch {
	case s == "true":
		return big.NewInt(1)
	case s == "false":
		return big.NewInt(0)
	case strings.HasPrefix(s, "#x"):
		v, _ := new(big.Int).SetString(s[2:], 16)
		return v
	case strings.HasPrefix(s, "#b"):
		v, _ := new(big.Int).SetString(s[2:], 2)
		return v
	case strings.HasPrefix(s, "(_ bv"):
		f := strings.Fields(s)
		v, _ := new(big.Int).SetString(f[1][2:], 10)
		return v
	case strings.HasPrefix(s, "(as ff"):
		f := strings.Fields(s)
		v, _ := new(big.Int).SetString(f[1][2:], 10)
		return v
	case strings.HasPrefix(s, "(- "):
		v, ok := new(big.Int).SetString(strings.Trim(s[3:], ") "), 10)
		if ok {
			return v.Neg(v)
		}
	}
	if strings.HasPrefix(s, "#f") {
		x := s[2:]
		if i := strings.IndexByte(x, 'm'); i >= 0 {
			x = x[:i]
		}
		v, _ := new(big.Int).SetString(x, 10)
		return v
	}
	v, _ := new(big.Int).SetString(s, 10)
	return v
}

// ---------------------------------------------------------------- main emission
type emitter struct {
	affDone map[[2]int]bool
	nq      int
	invDone int
	invSeen map[int]bool
	sb      strings.Builder
	done    map[int]string
	doneI   map[int]ival
	ffs     []*Term          // FF equality atoms in order
	ffi     []*Term          // FF2Int terms met
	vars    map[string]*Term // smt name -> term, for models
	order   []string
	lem     []string
	uf      map[string]bool
	ufapp   []*Term
	bad     bool
}

type ival struct {
	s string
	w int
}

func newEmitter() *emitter {
	return &emitter{done: map[int]string{}, doneI: map[int]ival{}, vars: map[string]*Term{}, uf: map[string]bool{}, affDone: map[[2]int]bool{}, invSeen: map[int]bool{}}
}

func bvlit(v *big.Int, w int) string {
	x := v
	if v.Sign() < 0 || v.BitLen() > w {
		x = new(big.Int).Mod(v, p2(w))
	}
	return fmt.Sprintf("(_ bv%s %d)", x.Text(10), w)
}

func sortStr(s Sort) string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	}
	return "?"
}

func (e *emitter) decl(name string, s Sort, t *Term) {
	fmt.Fprintf(&e.sb, "(declare-const %s %s)\n", name, sortStr(s))
	e.vars[name] = t
	e.order = append(e.order, name)
}

func (e *emitter) def(t *Term, expr string) string {
	n := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(&e.sb, "(define-fun %s () %s %s)\n", n, sortStr(t.sort), expr)
	e.done[t.id] = n
	return n
}

// emit produces the name/expression of a Bool or BV term.
func (e *emitter) emit(t *Term) string {
	if s, ok := e.done[t.id]; ok {
		return s
	}
	switch t.op {
	case OConst:
		if t.sort.K == KBool {
			return fmt.Sprint(t.u == 1)
		}
		return bvlit(t.Big(), t.sort.W)
	case OVar:
		n := fmt.Sprintf("v%d", t.id)
		e.decl(n, t.sort, t)
		e.done[t.id] = n
		if b, ok := bvBounds[t.id]; ok {
			w := t.sort.W
			if b.lo.Sign() < 0 {
				e.lem = append(e.lem, fmt.Sprintf("(and (bvsle %s %s) (bvsle %s %s))", bvlit(b.lo, w), n, n, bvlit(b.hi, w)))
			} else {
				e.lem = append(e.lem, fmt.Sprintf("(and (bvule %s %s) (bvule %s %s))", bvlit(b.lo, w), n, n, bvlit(b.hi, w)))
			}
		}
		return n
	case ONot:
		return e.def(t, "(not "+e.emit(t.a[0])+")")
	case OAnd, OOr:
		return e.def(t, "("+opNames[t.op]+" "+e.list(t.a)+")")
	case OEq:
		switch t.a[0].sort.K {
		case KFF:
			n := fmt.Sprintf("ff%d", t.id)
			e.decl(n, BoolS, t)
			e.done[t.id] = n
			e.ffs = append(e.ffs, t)
			return n
		case KInt:
			v := e.emitInt(t.a[0])
			return e.def(t, fmt.Sprintf("(= %s %s)", v.s, bvlit(bigZero, v.w)))
		}
		return e.def(t, "(= "+e.list(t.a)+")")
	case OILt:
		v := e.emitInt(t.a[0])
		return e.def(t, fmt.Sprintf("(bvslt %s %s)", v.s, bvlit(bigZero, v.w)))
	case OIte:
		return e.def(t, "(ite "+e.list(t.a)+")")
	case OLin:
		w := t.sort.W
		var parts []string
		for i, x := range t.a {
			s := e.emit(x)
			if t.coef[i].Cmp(bigOne) != 0 {
				s = fmt.Sprintf("(bvmul %s %s)", bvlit(t.coef[i], w), s)
			}
			parts = append(parts, s)
		}
		if t.k.Sign() != 0 {
			parts = append(parts, bvlit(t.k, w))
		}
		if len(parts) == 1 {
			return e.def(t, parts[0])
		}
		return e.def(t, "(bvadd "+strings.Join(parts, " ")+")")
	case OMul:
		return e.def(t, "(bvmul "+e.list(t.a)+")")
	case OUDiv:
		return e.def(t, "(bvudiv "+e.list(t.a)+")")
	case OURem:
		return e.def(t, "(bvurem "+e.list(t.a)+")")
	case OSDiv:
		return e.def(t, "(bvsdiv "+e.list(t.a)+")")
	case OSRem:
		return e.def(t, "(bvsrem "+e.list(t.a)+")")
	case OShl, OLShr, OAShr:
		x, y := t.a[0], t.a[1]
		w := x.sort.W
		nm := map[Op]string{OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr"}[t.op]
		if y.sort.W < w {
			y = MkZExt(y, w)
		}
		if y.sort.W > w {
			// saturate the shift amount
			big := MkUlt(MkBV(uint64(w), y.sort.W), y)
			low := MkExtract(y, w-1, 0)
			y = MkIte(big, MkBV(uint64(w), w), low)
			if w < 7 {
				e.bad = true
			}
		}
		return e.def(t, fmt.Sprintf("(%s %s %s)", nm, e.emit(x), e.emit(y)))
	case OBAnd:
		return e.def(t, "(bvand "+e.list(t.a)+")")
	case OBOr:
		return e.def(t, "(bvor "+e.list(t.a)+")")
	case OBXor:
		return e.def(t, "(bvxor "+e.list(t.a)+")")
	case OBNot:
		return e.def(t, "(bvnot "+e.emit(t.a[0])+")")
	case OConcat:
		return e.def(t, "(concat "+e.list(t.a)+")")
	case OExtract:
		return e.def(t, fmt.Sprintf("((_ extract %d %d) %s)", t.i, t.j, e.emit(t.a[0])))
	case OSExt:
		return e.def(t, fmt.Sprintf("((_ sign_extend %d) %s)", t.sort.W-t.a[0].sort.W, e.emit(t.a[0])))
	case OUlt:
		return e.def(t, "(bvult "+e.list(t.a)+")")
	case OSlt:
		return e.def(t, "(bvslt "+e.list(t.a)+")")
	case OInt2BV:
		v := e.emitInt(t.a[0])
		w := t.sort.W
		if v.w >= w {
			return e.def(t, fmt.Sprintf("((_ extract %d 0) %s)", w-1, v.s))
		}
		return e.def(t, fmt.Sprintf("((_ sign_extend %d) %s)", w-v.w, v.s))
	case OUF:
		if t.sort.K == KBool || t.sort.K == KBV {
			if len(t.a) == 0 || t.a[0].sort.K == KFF || t.a[0].sort.K == KInt {
				// predicate over field elements: opaque, congruence added as lemmas
				n := fmt.Sprintf("u%d", t.id)
				e.decl(n, t.sort, t)
				e.done[t.id] = n
				e.ufapp = append(e.ufapp, t)
				return n
			}
			var sig, as []string
			for _, x := range t.a {
				sig = append(sig, sortStr(x.sort))
				as = append(as, e.emit(x))
			}
			fn := fmt.Sprintf("|%s/%s|", t.name, strings.ReplaceAll(strings.Join(sig, ","), "|", ""))
			if !e.uf[fn] {
				e.uf[fn] = true
				fmt.Fprintf(&e.sb, "(declare-fun %s (%s) %s)\n", fn, strings.Join(sig, " "), sortStr(t.sort))
			}
			return e.def(t, "("+fn+" "+strings.Join(as, " ")+")")
		}
	}
	panic("emit: " + t.String())
}

func (e *emitter) list(xs []*Term) string {
	var o []string
	for _, x := range xs {
		o = append(o, e.emit(x))
	}
	return strings.Join(o, " ")
}

func rangeWidth(lo, hi *big.Int) int {
	if lo == nil || hi == nil {
		return 0
	}
	w := hi.BitLen()
	if l := new(big.Int).Add(new(big.Int).Abs(lo), bigOne).BitLen(); l > w {
		w = l
	}
	return w + 1
}

func sext(s string, from, to int) string {
	if from == to {
		return s
	}
	return fmt.Sprintf("((_ sign_extend %d) %s)", to-from, s)
}

// emitInt emits an Int term as a signed bit-vector wide enough for its range.
func (e *emitter) emitInt(t *Term) ival {
	if v, ok := e.doneI[t.id]; ok {
		return v
	}
	lo, hi := IntRange(t)
	w := rangeWidth(lo, hi)
	opaque := func() ival {
		ww := w
		if ww == 0 {
			ww = 1024
		}
		n := fmt.Sprintf("i%d", t.id)
		e.decl(n, BVS(ww), t)
		if lo != nil {
			e.lem = append(e.lem, fmt.Sprintf("(bvsle %s %s)", bvlit(lo, ww), n))
		}
		if hi != nil {
			e.lem = append(e.lem, fmt.Sprintf("(bvsle %s %s)", n, bvlit(hi, ww)))
		}
		return ival{n, ww}
	}
	var r ival
	switch t.op {
	case OConst:
		r = ival{bvlit(t.k, w), w}
	case OBV2U:
		s := e.emit(t.a[0])
		r = ival{fmt.Sprintf("((_ zero_extend 1) %s)", s), t.a[0].sort.W + 1}
	case OBV2S:
		r = ival{e.emit(t.a[0]), t.a[0].sort.W}
	case OLin:
		var vs []ival
		mw := rangeWidth(t.k, t.k)
		ok := true
		for i, x := range t.a {
			v := e.emitInt(x)
			vs = append(vs, v)
			if n := v.w + t.coef[i].BitLen() + 1; n > mw {
				mw = n
			}
		}
		for n := len(t.a); n > 0; n >>= 1 {
			mw++
		}
		if mw > 4096 {
			ok = false
		}
		if !ok {
			r = opaque()
			break
		}
		var parts []string
		for i, v := range vs {
			s := sext(v.s, v.w, mw)
			if t.coef[i].Cmp(bigOne) != 0 {
				s = fmt.Sprintf("(bvmul %s %s)", bvlit(t.coef[i], mw), s)
			}
			parts = append(parts, s)
		}
		if t.k.Sign() != 0 {
			parts = append(parts, bvlit(t.k, mw))
		}
		s := parts[0]
		if len(parts) > 1 {
			s = "(bvadd " + strings.Join(parts, " ") + ")"
		}
		n := fmt.Sprintf("i%d", t.id)
		fmt.Fprintf(&e.sb, "(define-fun %s () (_ BitVec %d) %s)\n", n, mw, s)
		r = ival{n, mw}
	case OIte:
		c := e.emit(t.a[0])
		a, b := e.emitInt(t.a[1]), e.emitInt(t.a[2])
		mw := max(a.w, b.w)
		n := fmt.Sprintf("i%d", t.id)
		fmt.Fprintf(&e.sb, "(define-fun %s () (_ BitVec %d) (ite %s %s %s))\n", n, mw, c, sext(a.s, a.w, mw), sext(b.s, b.w, mw))
		r = ival{n, mw}
	case OIDiv:
		if t.k.TrailingZeroBits() == uint(t.k.BitLen()-1) {
			a := e.emitInt(t.a[0])
			n := fmt.Sprintf("i%d", t.id)
			fmt.Fprintf(&e.sb, "(define-fun %s () (_ BitVec %d) (bvashr %s %s))\n", n, a.w, a.s, bvlit(big.NewInt(int64(t.k.BitLen()-1)), a.w))
			r = ival{n, a.w}
		} else {
			a := e.emitInt(t.a[0])
			r = opaque()
			// k*q <= a < k*q + k
			mw := max(a.w, r.w+t.k.BitLen()+1) + 2
			kq := fmt.Sprintf("(bvmul %s %s)", bvlit(t.k, mw), sext(r.s, r.w, mw))
			e.lem = append(e.lem, fmt.Sprintf("(and (bvsle %s %s) (bvslt %s (bvadd %s %s)))", kq, sext(a.s, a.w, mw), sext(a.s, a.w, mw), kq, bvlit(t.k, mw)))
		}
	case OMul:
		r = opaque()
	case OFF2Int:
		r = opaque()
		e.ffi = append(e.ffi, t)
	case OUF:
		r = opaque()
		e.ufapp = append(e.ufapp, t)
	case OVar:
		r = opaque()
	default:
		panic("emitInt " + t.String())
	}
	e.doneI[t.id] = r
	return r
}

// field-level lemmas linking opaque integers with the field solver's atoms
func (e *emitter) bridge() {
	// iterate: lemmas may introduce new terms
	nf, nu := 0, 0
	for round := 0; round < 3 && (nf < len(e.ffi) || nu < len(e.ufapp) || e.nq < len(e.ffs)); round++ {
		for ; e.nq < len(e.ffs); e.nq++ {
			// atom(u) = c for an integer u in [0,2p): u = c or u = c+p
			q := e.ffs[e.nq]
			d := MkSub(q.a[0], q.a[1])
			val := new(big.Int)
			p := d.sort.Prime()
			if d.op == OLin && len(d.a) == 1 {
				val.Mul(new(big.Int).Neg(d.k), new(big.Int).ModInverse(d.coef[0], p))
				val.Mod(val, p)
				d = d.a[0]
			}
			// integers behind images whose values matter on both sides
			var at []*Term
			collectAtoms(d, &at, map[int]bool{})
			for _, x := range at {
				if x.a[0].op == OUF {
					e.emitInt(x.a[0])
				}
			}
			if d.op == OLin && len(d.a) >= 2 && len(d.a) <= 4 {
				// sum of +-atom(u_i) + k = 0 (mod p): the integer sum is one of few multiples of p
				half := new(big.Int).Rsh(p, 1)
				sym := func(c *big.Int) *big.Int {
					if c.Cmp(half) > 0 {
						return new(big.Int).Sub(c, p)
					}
					return c
				}
				l := newLin(IntS)
				ok := true
				for i, x := range d.a {
					c := sym(d.coef[i])
					if x.op != OFFAtom || c.CmpAbs(bigOne) != 0 {
						ok = false
						break
					}
					l.add(x.a[0], c)
				}
				if ok {
					l.add(MkIntC(sym(new(big.Int).Mod(d.k, p))), bigOne)
					sum := l.done()
					lo, hi := IntRange(sum)
					if lo != nil && hi != nil {
						j0, j1 := new(big.Int).Div(new(big.Int).Add(lo, new(big.Int).Sub(p, bigOne)), p), new(big.Int).Div(hi, p)
						if n := new(big.Int).Sub(j1, j0); n.Sign() >= 0 && n.Cmp(big.NewInt(6)) < 0 {
							sv := e.emitInt(sum)
							mw := max(sv.w, p.BitLen()+5)
							ss := sext(sv.s, sv.w, mw)
							alts := ""
							for j := new(big.Int).Set(j0); j.Cmp(j1) <= 0; j.Add(j, bigOne) {
								alts += fmt.Sprintf(" (= %s %s)", ss, bvlit(new(big.Int).Mul(j, p), mw))
							}
							e.lem = append(e.lem, fmt.Sprintf("(= %s (or%s false))", e.emit(q), alts))
						}
					}
				}
				continue
			}
			if d.op != OFFAtom {
				continue
			}
			u := d.a[0]
			lo, hi := IntRange(u)
			if lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(new(big.Int).Lsh(p, 1)) >= 0 {
				continue
			}
			uv := e.emitInt(u)
			w := max(uv.w, p.BitLen()+2)
			us := sext(uv.s, uv.w, w)
			e.lem = append(e.lem, fmt.Sprintf("(= %s (or (= %s %s) (= %s %s)))", e.emit(q), us, bvlit(val, w), us, bvlit(new(big.Int).Add(val, p), w)))
		}
		for ; nf < len(e.ffi); nf++ {
			t := e.ffi[nf]
			x := t.a[0]
			v := e.doneI[t.id]
			z := MkEq(x, MkFFC(bigZero, x.sort.W))
			e.lem = append(e.lem, fmt.Sprintf("(= %s (= %s %s))", e.emit(z), v.s, bvlit(bigZero, v.w)))
			// x = c1*atom + c0 with a single small-range integer atom
			if x.op == OFFAtom {
				u := x.a[0]
				lo, hi := IntRange(u)
				p := x.sort.Prime()
				if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(new(big.Int).Lsh(p, 1)) < 0 {
					uv := e.emitInt(u)
					mw := max(uv.w, v.w)
					us, vs := sext(uv.s, uv.w, mw), sext(v.s, v.w, mw)
					e.lem = append(e.lem, fmt.Sprintf("(= %s (ite (bvslt %s %s) %s (bvsub %s %s)))", vs, us, bvlit(p, mw), us, us, bvlit(p, mw)))
				}
			}
			for m := 0; m < nf; m++ {
				o := e.ffi[m]
				if o.a[0].sort != x.sort {
					continue
				}
				eq := MkEq(x, o.a[0])
				ov := e.doneI[o.id]
				if ov.w == v.w {
					e.lem = append(e.lem, fmt.Sprintf("(= %s (= %s %s))", e.emit(eq), v.s, ov.s))
				}
				neg := MkEq(MkAdd(x, o.a[0]), MkFFC(bigZero, x.sort.W))
				if ov.w == v.w {
					e.lem = append(e.lem, fmt.Sprintf("(= %s (or (= (bvadd ((_ zero_extend 1) %s) ((_ zero_extend 1) %s)) %s) (and (= %s %s) (= %s %s))))", e.emit(neg), v.s, ov.s, bvlit(x.sort.Prime(), v.w+1), v.s, bvlit(bigZero, v.w), ov.s, bvlit(bigZero, v.w)))
				}
			}
		}
		// an inverted term that is affine in the argument of an FF2Int: let the
		// integer side decide whether it is zero
		for _, q := range e.ffs[e.invDone:] {
			var invs []*Term
			collectInv(q, &invs, e.invSeen)
			for _, x := range invs {
				for fi := 0; fi < nf; fi++ {
					y := e.ffi[fi].a[0]
					if y.sort == x.sort && (MkSub(x, y).IsConst() || MkAdd(x, y).IsConst()) {
						e.emit(MkEq(x, MkFFC(bigZero, x.sort.W)))
						break
					}
				}
			}
		}
		e.invDone = len(e.ffs)
		// FF atom affine in the argument of an FF2Int: same truth as the integer equation
		for qi := 0; qi < len(e.ffs); qi++ {
			q := e.ffs[qi]
			d := MkSub(q.a[0], q.a[1])
			for fi := 0; fi < nf; fi++ {
				x := e.ffi[fi].a[0]
				if x.sort != d.sort || e.affDone[[2]int{qi, fi}] {
					continue
				}
				e.affDone[[2]int{qi, fi}] = true
				p := d.sort.Prime()
				lead := func(t *Term) (*Term, *big.Int) {
					if t.op == OLin && len(t.a) > 0 {
						return t.a[0], t.coef[0]
					}
					return t, bigOne
				}
				dt, dc := lead(d)
				xt, xc := lead(x)
				if dt != xt {
					continue
				}
				k := new(big.Int).Mul(dc, new(big.Int).ModInverse(xc, p))
				k.Mod(k, p)
				r := MkSub(d, MkMul(MkFFC(k, x.sort.W), x))
				if !r.IsConst() || r.k.Sign() == 0 {
					continue
				}
				// k*x + r = 0
				val := new(big.Int).Mul(new(big.Int).Neg(r.k), new(big.Int).ModInverse(k, p))
				val.Mod(val, p)
				v := e.doneI[e.ffi[fi].id]
				e.lem = append(e.lem, fmt.Sprintf("(= %s (= %s %s))", e.emit(q), v.s, bvlit(val, v.w)))
			}
		}
		for ; nu < len(e.ufapp); nu++ {
			t := e.ufapp[nu]
			for m := 0; m < nu; m++ {
				o := e.ufapp[m]
				if o.name != t.name || len(o.a) != len(t.a) {
					continue
				}
				e.ufLemma(t, o)
			}
			e.ufSelf(t)
		}
	}
}

func (e *emitter) ufVal(t *Term) ival {
	if t.sort.K == KInt {
		return e.emitInt(t)
	}
	return ival{e.emit(t), t.sort.W}
}

func (e *emitter) ufSelf(t *Term) {
	if g, coord := groupCoord(t); g != nil {
		v := e.ufVal(t)
		switch coord {
		case "X", "Y":
			// (X,Y) = (0,0) encodes infinity; nothing else asserted here
			_ = v
		}
	}
}

func (e *emitter) ufLemma(t, o *Term) {
	var conj []string
	for i := range t.a {
		if t.a[i].sort.K == KInt {
			x, y := e.emitInt(t.a[i]), e.emitInt(o.a[i])
			mw := max(x.w, y.w)
			conj = append(conj, fmt.Sprintf("(= %s %s)", sext(x.s, x.w, mw), sext(y.s, y.w, mw)))
		} else {
			conj = append(conj, e.emit(MkEq(t.a[i], o.a[i])))
		}
	}
	a, b := e.ufVal(t), e.ufVal(o)
	same := "(and " + strings.Join(conj, " ") + ")"
	g, coord := groupCoord(t)
	if g == nil {
		e.lem = append(e.lem, fmt.Sprintf("(=> %s (= %s %s))", same, a.s, b.s))
		return
	}
	neg := e.emit(MkEq(MkAdd(t.a[0], o.a[0]), MkFFC(bigZero, t.a[0].sort.W)))
	switch coord {
	case "X":
		// X(k)=X(l) <=> k = +-l
		e.lem = append(e.lem, fmt.Sprintf("(= (or %s %s) (= %s %s))", same, neg, a.s, b.s))
	case "Y":
		e.lem = append(e.lem, fmt.Sprintf("(=> %s (= %s %s))", same, a.s, b.s))
		if g.P != nil && a.w == b.w {
			z := e.emit(MkEq(t.a[0], MkFFC(bigZero, t.a[0].sort.W)))
			e.lem = append(e.lem, fmt.Sprintf("(=> (and %s (not %s)) (= (bvadd ((_ zero_extend 1) %s) ((_ zero_extend 1) %s)) %s))", neg, z, a.s, b.s, bvlit(g.P, a.w+1)))
		}
	}
}

// ---------------------------------------------------------------- FF emission
type ffEmitter struct {
	sb    strings.Builder
	done  map[int]string
	f     int
	vars  map[string]*Term
	order []string
	conds map[int]*Term // Bool conditions (non-FF) appearing in ites
	side  []string
}

func newFF(f int) *ffEmitter {
	e := &ffEmitter{done: map[int]string{}, f: f, vars: map[string]*Term{}, conds: map[int]*Term{}}
	fmt.Fprintf(&e.sb, "(define-sort F () (_ FiniteField %s))\n", fields[f].P.Text(10))
	return e
}
func (e *ffEmitter) lit(v *big.Int) string { return fmt.Sprintf("(as ff%s F)", v.Text(10)) }

func (e *ffEmitter) v(t *Term, pfx string) string {
	n := fmt.Sprintf("%s%d", pfx, t.id)
	fmt.Fprintf(&e.sb, "(declare-const %s F)\n", n)
	e.vars[n] = t
	e.order = append(e.order, n)
	e.done[t.id] = n
	return n
}

func (e *ffEmitter) def(t *Term, s string) string {
	n := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(&e.sb, "(define-fun %s () F %s)\n", n, s)
	e.done[t.id] = n
	return n
}

func (e *ffEmitter) emit(t *Term) string {
	if s, ok := e.done[t.id]; ok {
		return s
	}
	switch t.op {
	case OConst:
		return e.lit(t.k)
	case OVar:
		return e.v(t, "v")
	case OLin:
		var parts []string
		for i, x := range t.a {
			s := e.emit(x)
			if t.coef[i].Cmp(bigOne) != 0 {
				s = fmt.Sprintf("(ff.mul %s %s)", e.lit(t.coef[i]), s)
			}
			parts = append(parts, s)
		}
		if t.k.Sign() != 0 {
			parts = append(parts, e.lit(t.k))
		}
		if len(parts) == 1 {
			return e.def(t, parts[0])
		}
		return e.def(t, "(ff.add "+strings.Join(parts, " ")+")")
	case OMul:
		var parts []string
		for _, x := range t.a {
			parts = append(parts, e.emit(x))
		}
		return e.def(t, "(ff.mul "+strings.Join(parts, " ")+")")
	case OIte:
		c := e.cond(t.a[0])
		return e.def(t, fmt.Sprintf("(ite %s %s %s)", c, e.emit(t.a[1]), e.emit(t.a[2])))
	case OFFInv:
		x := e.emit(t.a[0])
		n := e.v(t, "n")
		e.side = append(e.side, fmt.Sprintf("(or (= (ff.mul %s %s) %s) (and (= %s %s) (= %s %s)))", x, n, e.lit(bigOne), x, e.lit(bigZero), n, e.lit(bigZero)))
		return n
	case OFFAtom:
		u := t.a[0]
		if u.op == OBV2U && u.a[0].sort.W == 1 {
			n := e.v(t, "x")
			e.side = append(e.side, fmt.Sprintf("(= (ff.mul %s %s) %s)", n, n, n))
			return n
		}
		if u.op == OBV2U {
			r := toU(u.a[0])
			if r != u {
				s := e.emit(ToFF(r, e.f))
				e.done[t.id] = s
				return s
			}
		}
		if u.op == OBV2S {
			r := toS(u.a[0])
			if r != u {
				s := e.emit(ToFF(r, e.f))
				e.done[t.id] = s
				return s
			}
		}
		n := e.v(t, "x")
		for _, fct := range intFacts[u.id] {
			e.side = append(e.side, fmt.Sprintf("(= %s %s)", e.emit(ToFF(fct, e.f)), e.lit(bigZero)))
		}
		return n
	case OUF:
		return e.v(t, "w")
	}
	panic("ff emit " + t.String())
}

func (e *ffEmitter) cond(c *Term) string {
	switch {
	case c == tTrue:
		return "true"
	case c == tFalse:
		return "false"
	case c.op == ONot:
		return "(not " + e.cond(c.a[0]) + ")"
	case c.op == OAnd || c.op == OOr:
		var o []string
		for _, x := range c.a {
			o = append(o, e.cond(x))
		}
		return "(" + opNames[c.op] + " " + strings.Join(o, " ") + ")"
	case c.op == OIte && c.sort.K == KBool:
		return fmt.Sprintf("(ite %s %s %s)", e.cond(c.a[0]), e.cond(c.a[1]), e.cond(c.a[2]))
	case c.op == OEq && c.a[0].sort.K == KFF && c.a[0].sort.W == e.f:
		return fmt.Sprintf("(= %s %s)", e.emit(c.a[0]), e.emit(c.a[1]))
	case c.op == OEq && c.a[0].sort.K == KBool:
		return fmt.Sprintf("(= %s %s)", e.cond(c.a[0]), e.cond(c.a[1]))
	}
	n := fmt.Sprintf("c%d", c.id)
	if _, ok := e.conds[c.id]; !ok {
		e.conds[c.id] = c
		fmt.Fprintf(&e.sb, "(declare-const %s Bool)\n", n)
	}
	return n
}

// hasFF reports whether a Bool term contains atoms of field f / non-FF atoms.
func boolAtoms(t *Term, ff map[int]*Term, other map[int]*Term, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	switch t.op {
	case OConst:
	case ONot, OAnd, OOr:
		for _, x := range t.a {
			boolAtoms(x, ff, other, seen)
		}
	case OIte:
		for _, x := range t.a {
			boolAtoms(x, ff, other, seen)
		}
	case OEq:
		if t.a[0].sort.K == KFF {
			ff[t.id] = t
			return
		}
		if t.a[0].sort.K == KBool {
			boolAtoms(t.a[0], ff, other, seen)
			boolAtoms(t.a[1], ff, other, seen)
			return
		}
		other[t.id] = t
	default:
		other[t.id] = t
	}
}

type Model map[int]*big.Int // variable / atom term id -> value

// Check decides satisfiability of the conjunction of lits.
func Check(lits []*Term, timeoutMs int) (Result, Model) {
	all := MkAnd(lits...)
	if all == tFalse {
		stats.Simplified++
		return Unsat, nil
	}
	if all == tTrue {
		return Sat, Model{}
	}
	lits = []*Term{all}
	if all.op == OAnd {
		lits = all.a
	}
	ff, other := map[int]*Term{}, map[int]*Term{}
	seen := map[int]bool{}
	for _, l := range lits {
		boolAtoms(l, ff, other, seen)
	}
	var r Result
	var m Model
	if liftAll && len(other) > 0 {
		if r, m = liaSolve(lits, timeoutMs); r == Unsat {
			stats.UnsatN++
			return r, m
		}
	}
	r, m = check1(lits, ff, other, timeoutMs)
	switch r {
	case Unsat:
		stats.UnsatN++
	case Sat:
		stats.SatN++
	default:
		stats.Unk++
	}
	return r, m
}

func ffOnly(lits []*Term) (byField map[int][]*Term) {
	byField = map[int][]*Term{}
	for _, l := range lits {
		ff, other := map[int]*Term{}, map[int]*Term{}
		boolAtoms(l, ff, other, map[int]bool{})
		if len(ff) == 0 || len(other) > 0 {
			continue
		}
		f := -1
		ok := true
		for _, a := range ff {
			if f >= 0 && a.a[0].sort.W != f {
				ok = false
			}
			f = a.a[0].sort.W
		}
		if ok {
			byField[f] = append(byField[f], l)
		}
	}
	return
}

func ffCheck(f int, lits []*Term, condVals map[int]bool, timeoutMs int) (Result, Model, map[int]*Term) {
	lits = append(lits[:len(lits):len(lits)], rangeFacts(lits, f)...)
	if m, ok := ffFind(f, lits); ok {
		stats.FFFound++
		return Sat, m, nil
	}
	e := newFF(f)
	var as []string
	for _, l := range lits {
		as = append(as, e.cond(l))
	}
	var sb strings.Builder
	for id, c := range e.conds {
		if v, ok := condVals[id]; ok {
			if v {
				as = append(as, fmt.Sprintf("c%d", c.id))
			} else {
				as = append(as, fmt.Sprintf("(not c%d)", c.id))
			}
		}
	}
	sb.WriteString(e.sb.String())
	for _, s := range append(e.side, as...) {
		sb.WriteString("(assert " + s + ")\n")
	}
	stats.FFQueries++
	r, vals := runQuery("ff", sb.String(), e.order, timeoutMs)
	var m Model
	if r == Sat {
		m = Model{}
		for n, s := range vals {
			if t := e.vars[n]; t != nil {
				if v := parseVal(s); v != nil {
					m[t.id] = v
				}
			}
		}
	}
	return r, m, e.conds
}

func check1(lits []*Term, ff, other map[int]*Term, timeoutMs int) (Result, Model) {
	deadline := time.Now().Add(time.Duration(timeoutMs) * time.Millisecond)
	// 1. purely field-level literals on their own
	ffModel := Model{}
	pure := ffOnly(lits)
	ffUnknown := false
	for f, ls := range pure {
		r, m, _ := ffCheck(f, ls, nil, timeoutMs)
		if r == Unsat {
			return Unsat, nil
		}
		if r == Unknown {
			ffUnknown = true
		}
		for k, v := range m {
			ffModel[k] = v
		}
	}
	if len(other) == 0 && len(pure) == 1 && len(pureAll(pure)) == len(lits) {
		if ffUnknown {
			return Unknown, nil
		}
		return Sat, ffModel
	}
	// 2. main solver with lazily refined field atoms
	var blocks, forced []*Term
	forcedSet := map[int]bool{}
	for iter := 0; iter < 60; iter++ {
		e := newEmitter()
		var as []string
		for _, l := range forced {
			e.emit(l)
		}
		for _, l := range append(append([]*Term{}, lits...), blocks...) {
			as = append(as, e.emit(l))
		}
		e.bridge()
		// conditions hidden inside field terms
		fconds := map[int]*Term{}
		for _, a := range e.ffs {
			collectConds(a, fconds, map[int]bool{})
		}
		for _, c := range fconds {
			e.emit(c)
		}
		e.bridge()
		if e.bad {
			return Unknown, nil
		}
		var sb strings.Builder
		sb.WriteString(e.sb.String())
		for _, s := range e.lem {
			sb.WriteString("(assert " + s + ")\n")
		}
		for _, s := range as {
			sb.WriteString("(assert " + s + ")\n")
		}
		vals := append([]string{}, e.order...)
		for _, c := range fconds {
			if s, ok := e.done[c.id]; ok {
				vals = append(vals, s)
			}
		}
		left := int(time.Until(deadline).Milliseconds())
		if left < 100 {
			return Unknown, nil
		}
		stats.Queries++
		r, vm := runQuery("main", sb.String(), vals, left)
		if r != Sat {
			if r == Unsat {
				return Unsat, nil
			}
			// second opinion
			if r == Unknown && left > 4000 && len(blocks) == 0 {
				if r2, _ := runQuery("cvc5", sb.String(), nil, left/2); r2 == Unsat {
					return Unsat, nil
				}
			}
			return Unknown, nil
		}
		m := Model{}
		for n, s := range vm {
			if t := e.vars[n]; t != nil {
				if v := parseVal(s); v != nil {
					m[t.id] = v
				}
			}
		}
		if len(e.ffs) == 0 {
			return Sat, m
		}
		condVals := map[int]bool{}
		for _, c := range fconds {
			if s, ok := e.done[c.id]; ok {
				condVals[c.id] = strings.TrimSpace(vm[s]) == "true"
			}
		}
		byF := map[int][]*Term{}
		var allLits []*Term
		for _, a := range e.ffs {
			v := m[a.id]
			l := a
			if v == nil || v.Sign() == 0 {
				l = MkNot(a)
			}
			byF[a.a[0].sort.W] = append(byF[a.a[0].sort.W], l)
			allLits = append(allLits, l)
		}
		for id, c := range fconds {
			if condVals[id] {
				allLits = append(allLits, c)
			} else {
				allLits = append(allLits, MkNot(c))
			}
		}
		conflict := false
		unk := false
		for f, ls := range byF {
			left := int(time.Until(deadline).Milliseconds())
			if left < 100 {
				return Unknown, nil
			}
			r, fm, used := ffCheck(f, ls, condVals, left)
			if r == Unsat {
				conflict = true
				core := ls
				// shrink the conflict a little
				if len(ls) > 1 && len(ls) <= 40 {
					core = shrinkCore(f, ls, condVals, deadline)
				}
				var cl []*Term
				for _, l := range core {
					cl = append(cl, MkNot(l))
				}
				_, _, used = ffCheckConds(f, core)
				for id, c := range used {
					if condVals[id] {
						cl = append(cl, MkNot(c))
					} else {
						cl = append(cl, c)
					}
				}
				blocks = append(blocks, MkOr(cl...))
				continue
			}
			if r == Unknown {
				unk = true
			}
			_ = used
			for k, v := range fm {
				m[k] = v
			}
		}
		if conflict {
			continue
		}
		if unk {
			return Unknown, nil
		}
		// The field model and the bit-vector model may disagree on an integer
		// that occurs on both sides; let the main solver decide those values.
		good := true
		memo := map[int]*big.Int{}
		for _, l := range lits {
			if evalTerm(l, m, memo).Sign() == 0 {
				good = false
				break
			}
		}
		if len(forced) < 40 {
			if !good {
				grew := false
				var atoms []*Term
				seen := map[int]bool{}
				for _, a := range e.ffs {
					collectAtoms(a, &atoms, seen)
				}
				for _, a := range atoms {
					fv, ok := m[a.id]
					if !ok {
						continue
					}
					p := a.sort.Prime()
					bv := new(big.Int).Mod(evalTerm(a.a[0], m, memo), p)
					if bv.Cmp(fv) == 0 {
						continue
					}
					for _, c := range []*big.Int{bigZero, bv} {
						if c.Sign() == 0 && bv.Sign() != 0 && fv.Sign() != 0 {
							continue
						}
						q := MkEq(a, MkFFC(c, a.sort.W))
						if q.IsConst() || forcedSet[q.id] {
							continue
						}
						forcedSet[q.id] = true
						forced = append(forced, q)
						grew = true
						break
					}
				}
				if grew {
					continue
				}
			}
		}
		if os.Getenv("GOSYM_FFDBG") != "" {
			fmt.Fprintln(os.Stderr, "FFSAT")
			for _, ls := range byF {
				for _, l := range ls {
					fmt.Fprintln(os.Stderr, "   ", l.str(9))
				}
			}
		}
		if !good {
			if os.Getenv("GOSYM_FFDBG") != "" {
				for i, l := range lits {
					fmt.Fprintln(os.Stderr, "LIT", i, evalTerm(l, m, memo), l.str(8))
				}
			}
			return Unknown, m
		}
		return Sat, m
	}
	return Unknown, nil
}

func collectAtoms(t *Term, out *[]*Term, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == OFFAtom {
		if lo, hi := IntRange(t.a[0]); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(new(big.Int).Lsh(t.sort.Prime(), 1)) < 0 {
			*out = append(*out, t)
		}
		return
	}
	for _, x := range t.a {
		collectAtoms(x, out, seen)
	}
}

func ffCheckConds(f int, lits []*Term) (Result, Model, map[int]*Term) {
	e := newFF(f)
	for _, l := range lits {
		e.cond(l)
	}
	return Unknown, nil, e.conds
}

func shrinkCore(f int, ls []*Term, cv map[int]bool, deadline time.Time) []*Term {
	cur := append([]*Term{}, ls...)
	chunk := (len(cur) + 1) / 2
	for chunk >= 1 {
		i := 0
		for i < len(cur) && len(cur) > 1 {
			if time.Until(deadline) < 2*time.Second {
				return cur
			}
			j := min(i+chunk, len(cur))
			t := append(append([]*Term{}, cur[:i]...), cur[j:]...)
			if len(t) == 0 {
				break
			}
			if r, _, _ := ffCheck(f, t, cv, 2000); r == Unsat {
				cur = t
			} else {
				i = j
			}
		}
		chunk /= 2
	}
	return cur
}

func collectConds(t *Term, out map[int]*Term, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == OIte && t.sort.K == KFF {
		ff, other := map[int]*Term{}, map[int]*Term{}
		boolAtoms(t.a[0], ff, other, map[int]bool{})
		for id, c := range other {
			out[id] = c
		}
	}
	for _, x := range t.a {
		collectConds(x, out, seen)
	}
}

func pureAll(m map[int][]*Term) (o []*Term) {
	for _, l := range m {
		o = append(o, l...)
	}
	sort.Slice(o, func(i, j int) bool { return o[i].id < o[j].id })
	return
}

func closeSolvers() {
	for _, p := range procs {
		p.kill()
	}
}

func collectInv(t *Term, out *[]*Term, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == OFFInv {
		*out = append(*out, t.a[0])
	}
	if t.op == OFFAtom {
		return
	}
	for _, x := range t.a {
		collectInv(x, out, seen)
	}
}
