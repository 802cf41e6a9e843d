package main

// Runtime values of the symbolic interpreter.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type PEl struct {
	i int
	t *Term // symbolic index (with i = array length)
}

// Ptr to a location inside a heap object; obj==0 is nil.
type Ptr struct {
	obj  int
	path []PEl
}

func (p *Ptr) isNil() bool { return p.obj == 0 }

var nilPtr = &Ptr{}

// Slice over the array stored at arr.
type Slice struct {
	arr         *Ptr // nil for a nil slice
	off, ln, cp int
}

var nilSlice = &Slice{}

type Str struct{ b []*Term }

type Agg struct{ els []Val } // struct or array; immutable

type BigV struct{ t *Term } // contents of a big.Int

type Iface struct {
	typ types.Type
	v   Val
}

var nilIface = &Iface{}

type Func struct {
	fn   *ssa.Function
	free []Val
	intr func(c *CallCtx) []Out // intrinsic closures
	name string
}

type Tuple struct{ els []Val }

type MapV struct { // immutable; stored in a heap object
	keys []Val
	vals []Val
}
type MapRef struct{ obj int }

type UnsafeP struct{ p *Ptr }

// HashV: state of a modelled hash object.
type HashV struct {
	name string // algorithm
	key  []*Term
	mac  bool
	data []*Term
	pre  [][]*Term // earlier segments of implicit length
	size int
	blk  int
}

type IterV struct {
	str  []*Term
	keys []Val
	vals []Val
	pos  int
}

type opaqueV struct{ name string }

func str(s string) *Str {
	b := make([]*Term, len(s))
	for i := range b {
		b[i] = MkBV(uint64(s[i]), 8)
	}
	return &Str{b}
}

func concStr(v Val) (string, bool) {
	s, ok := v.(*Str)
	if !ok {
		return "", false
	}
	o := make([]byte, len(s.b))
	for i, t := range s.b {
		if !t.IsConst() {
			return "", false
		}
		o[i] = byte(t.u)
	}
	return string(o), true
}

func isBigInt(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Pkg() != nil && o.Pkg().Path() == "math/big" && o.Name() == "Int"
}

func bvWidth(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

var zeroCache = map[types.Type]Val{}

func zeroVal(t types.Type) Val {
	if v, ok := zeroCache[t]; ok {
		return v
	}
	v := zeroVal1(t)
	zeroCache[t] = v
	return v
}
func zeroVal1(t types.Type) Val {
	if isBigInt(t) {
		return &BigV{MkIntC(bigZero)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := bvWidth(t); ok {
			return MkBV(0, w)
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tFalse
		case types.String, types.UntypedString:
			return &Str{}
		case types.UnsafePointer:
			return &UnsafeP{nilPtr}
		case types.Float64, types.Float32, types.UntypedFloat:
			return &opaqueV{"float"}
		}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return nilSlice
	case *types.Struct:
		a := &Agg{make([]Val, u.NumFields())}
		for i := range a.els {
			a.els[i] = zeroVal(u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(u.Len())
		a := &Agg{make([]Val, n)}
		if n > 0 {
			z := zeroVal(u.Elem())
			for i := range a.els {
				a.els[i] = z
			}
		}
		return a
	case *types.Interface:
		return nilIface
	case *types.Signature:
		return &Func{}
	case *types.Map:
		return &MapRef{}
	case *types.Chan:
		return &opaqueV{"chan"}
	case *types.Tuple:
		tp := &Tuple{make([]Val, u.Len())}
		for i := range tp.els {
			tp.els[i] = zeroVal(u.At(i).Type())
		}
		return tp
	}
	panic(unsup("%s", "zero value of "+t.String()))
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) unsupported { return unsupported{fmt.Sprintf(f, a...)} }

// ---------------------------------------------------------------- state
type State struct {
	heap    map[int]Val
	base    map[int]Val
	pc      []*Term
	names   map[string]int // input-name occurrence counters
	inputs  []Input
	short   int // short-encoding budget used
	loops   map[int64]int
	choices []string
	zeros   map[int]bool // byte terms known to be zero (immutable)
}

type Input struct {
	name string
	kind string
	els  []*Term // bytes or a single term
}

func (s *State) fork() *State {
	n := &State{heap: make(map[int]Val, len(s.heap)+8), base: s.base, short: s.short, zeros: s.zeros}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.inputs = s.inputs[:len(s.inputs):len(s.inputs)]
	n.choices = s.choices[:len(s.choices):len(s.choices)]
	n.names = make(map[string]int, len(s.names))
	for k, v := range s.names {
		n.names[k] = v
	}
	n.loops = make(map[int64]int, len(s.loops))
	for k, v := range s.loops {
		n.loops[k] = v
	}
	return n
}

func (s *State) get(obj int) Val {
	if v, ok := s.heap[obj]; ok {
		return v
	}
	if v, ok := s.base[obj]; ok {
		return v
	}
	panic(unsup("dangling object %d", obj))
}

var nextObj = 1

func (s *State) alloc(v Val) *Ptr {
	nextObj++
	s.heap[nextObj] = v
	return &Ptr{obj: nextObj}
}

func (p *Ptr) sub(i int) *Ptr {
	np := make([]PEl, len(p.path)+1)
	copy(np, p.path)
	np[len(p.path)] = PEl{i: i}
	return &Ptr{p.obj, np}
}
func (p *Ptr) subT(t *Term, n int) *Ptr {
	np := make([]PEl, len(p.path)+1)
	copy(np, p.path)
	np[len(p.path)] = PEl{i: n, t: t}
	return &Ptr{p.obj, np}
}

func getPath(v Val, path []PEl) Val {
	for k, e := range path {
		a, ok := v.(*Agg)
		if !ok {
			panic(unsup("path into %T", v))
		}
		if e.t == nil {
			if e.i < 0 || e.i >= len(a.els) {
				panic(unsup("path index"))
			}
			v = a.els[e.i]
			continue
		}
		// symbolic index
		var r Val
		for i := len(a.els) - 1; i >= 0; i-- {
			x := getPath(a.els[i], path[k+1:])
			if r == nil {
				r = x
				continue
			}
			m, ok := mergeVal(MkEq(e.t, MkBV(uint64(i), e.t.sort.W)), x, r)
			if !ok {
				panic(unsup("symbolic index over unmergeable elements"))
			}
			r = m
		}
		return r
	}
	return v
}

func setPath(v Val, path []PEl, x Val) Val {
	if len(path) == 0 {
		return x
	}
	a, ok := v.(*Agg)
	if !ok {
		panic(unsup("store path into %T", v))
	}
	n := &Agg{make([]Val, len(a.els))}
	copy(n.els, a.els)
	e := path[0]
	if e.t == nil {
		n.els[e.i] = setPath(a.els[e.i], path[1:], x)
		return n
	}
	for i := range a.els {
		nv := setPath(a.els[i], path[1:], x)
		m, ok := mergeVal(MkEq(e.t, MkBV(uint64(i), e.t.sort.W)), nv, a.els[i])
		if !ok {
			panic(unsup("symbolic store over unmergeable elements"))
		}
		n.els[i] = m
	}
	return n
}

var readonlyObj = map[int]bool{}

func (s *State) load(p *Ptr) Val { return getPath(s.get(p.obj), p.path) }
func (s *State) store(p *Ptr, v Val) {
	if readonlyObj[p.obj] {
		panic(unsup("store through an unsafe view"))
	}
	if len(p.path) == 0 {
		s.heap[p.obj] = v
		return
	}
	s.heap[p.obj] = setPath(s.get(p.obj), p.path, v)
}

// ---------------------------------------------------------------- merging
// mctx merges two states up to renaming of objects allocated since they split.
type mctx struct {
	c     *Term
	a, b  *State // nil: no object pairing possible
	pairs map[int]int
	rev   map[int]int
	work  [][2]int
	same  map[int]bool // objects standing for themselves on both sides
	since int          // objects younger than this are known to this frame only (0: unknown)
}

func (s *State) has(o int) bool {
	if _, ok := s.heap[o]; ok {
		return true
	}
	_, ok := s.base[o]
	return ok
}

func (m *mctx) obj(x, y int) bool {
	if p, ok := m.pairs[x]; ok {
		return p == y
	}
	if p, ok := m.rev[y]; ok {
		return p == x
	}
	if x == y {
		if m.same != nil {
			m.same[x] = true
		}
		return true
	}
	if m.a == nil || x == 0 || y == 0 || !m.a.has(x) || !m.b.has(y) {
		return false
	}
	oldx, oldy := m.b.has(x), m.a.has(y)
	if oldx && oldy {
		return false
	}
	if oldx || oldy {
		// One side still holds an object both know, the other a new one.  All
		// references to it are in this frame or the heap, and pairing fails
		// when any of them means the object itself on both sides.
		if m.since == 0 || (oldx && x <= m.since) || (oldy && y <= m.since) || m.same[x] || m.same[y] {
			return false
		}
	}
	m.pairs[x], m.rev[y] = y, x
	m.work = append(m.work, [2]int{x, y})
	return true
}

func mergeVal(c *Term, a, b Val) (Val, bool) { return (&mctx{c: c}).merge(a, b) }

func (m *mctx) els(x, y []Val) ([]Val, bool) {
	if len(x) != len(y) {
		return nil, false
	}
	n := make([]Val, len(x))
	for i := range x {
		v, ok := m.merge(x[i], y[i])
		if !ok {
			return nil, false
		}
		n[i] = v
	}
	return n, true
}

func (m *mctx) terms(x, y []*Term) ([]*Term, bool) {
	if len(x) != len(y) {
		return nil, false
	}
	n := make([]*Term, len(x))
	for i := range x {
		n[i] = m.ite(x[i], y[i])
	}
	return n, true
}

// ite merges two terms; a constant zero byte that the other side spells as a
// byte of an integer known to be zero there takes that spelling.
func (m *mctx) ite(x, y *Term) *Term {
	if m.a != nil && x != y && x.sort.K == KBV {
		if y.op == OConst && y.isZero() && zeroIn(m.b, x) {
			return x
		}
		if x.op == OConst && x.isZero() && zeroIn(m.a, y) {
			return y
		}
	}
	return MkIte(m.c, x, y)
}

// zeroIn: t is a leading byte of an encoding this path found to be shorter.
func zeroIn(s *State, t *Term) bool { return s.zeros[t.id] }

func (s *State) addZeros(ts []*Term) {
	n := make(map[int]bool, len(s.zeros)+len(ts))
	for k := range s.zeros {
		n[k] = true
	}
	for _, t := range ts {
		if t.op != OConst {
			n[t.id] = true
		}
	}
	s.zeros = n
}

func (m *mctx) merge(a, b Val) (Val, bool) {
	if a == b && m.a == nil {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		if a == b {
			return a, true
		}
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort {
			return nil, false
		}
		return m.ite(x, y), true
	case *LazyBytes:
		y, ok := b.(*LazyBytes)
		if !ok {
			return nil, false
		}
		return &LazyBytes{MkIte(m.c, x.t, y.t), max(x.full, y.full)}, true
	case *BigV:
		y, ok := b.(*BigV)
		if !ok {
			return nil, false
		}
		if x.t == y.t {
			return a, true
		}
		return &BigV{MkIte(m.c, x.t, y.t)}, true
	case *Agg:
		if a == b && !hasPtr(x) {
			return a, true
		}
		y, ok := b.(*Agg)
		if !ok {
			return nil, false
		}
		n, ok := m.els(x.els, y.els)
		return &Agg{n}, ok
	case *Tuple:
		y, ok := b.(*Tuple)
		if !ok {
			return nil, false
		}
		n, ok := m.els(x.els, y.els)
		return &Tuple{n}, ok
	case *Str:
		if a == b {
			return a, true
		}
		y, ok := b.(*Str)
		if !ok {
			return nil, false
		}
		n, ok := m.terms(x.b, y.b)
		return &Str{n}, ok
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok || len(x.path) != len(y.path) {
			return nil, false
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return nil, false
			}
		}
		if !m.obj(x.obj, y.obj) {
			return nil, false
		}
		return a, true
	case *Slice:
		y, ok := b.(*Slice)
		if !ok || x.off != y.off || x.ln != y.ln || x.cp != y.cp || (x.arr == nil) != (y.arr == nil) {
			return nil, false
		}
		if x.arr == nil {
			return a, true
		}
		if _, ok := m.merge(x.arr, y.arr); !ok {
			return nil, false
		}
		return a, true
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			return nil, false
		}
		if x.typ == nil && y.typ == nil {
			return a, true
		}
		if x.typ == nil || y.typ == nil || !identType(x.typ, y.typ) {
			return nil, false
		}
		v, ok := m.merge(x.v, y.v)
		return &Iface{x.typ, v}, ok
	case *Func:
		y, ok := b.(*Func)
		if !ok || x.fn != y.fn || x.intr != nil || y.intr != nil {
			return nil, false
		}
		n, ok := m.els(x.free, y.free)
		if !ok {
			return nil, false
		}
		return &Func{fn: x.fn, free: n}, true
	case *MapRef:
		y, ok := b.(*MapRef)
		if ok && m.obj(x.obj, y.obj) {
			return a, true
		}
		return nil, false
	case *MapV:
		y, ok := b.(*MapV)
		if !ok {
			return nil, false
		}
		if a == b {
			return a, true
		}
		if len(x.keys) != len(y.keys) {
			return nil, false
		}
		for i := range x.keys {
			if x.keys[i] != y.keys[i] {
				return nil, false
			}
		}
		n, ok := m.els(x.vals, y.vals)
		return &MapV{x.keys, n}, ok
	case *HashV:
		y, ok := b.(*HashV)
		if !ok || x.name != y.name || x.mac != y.mac {
			return nil, false
		}
		if a == b {
			return a, true
		}
		n := *x
		if n.key, ok = m.terms(x.key, y.key); !ok {
			return nil, false
		}
		if n.data, ok = m.terms(x.data, y.data); !ok {
			return nil, false
		}
		return &n, true
	case *opaqueV:
		y, ok := b.(*opaqueV)
		if ok && x.name == y.name {
			return a, true
		}
		return nil, false
	case *UnsafeP:
		y, ok := b.(*UnsafeP)
		if !ok {
			return nil, false
		}
		v, ok := m.merge(x.p, y.p)
		if !ok {
			return nil, false
		}
		return &UnsafeP{v.(*Ptr)}, true
	case nil:
		return nil, b == nil
	}
	if a == b {
		return a, true
	}
	return nil, false
}

func hasPtr(a *Agg) bool {
	if len(a.els) == 0 {
		return false
	}
	for i, e := range a.els {
		switch x := e.(type) {
		case *Term, *BigV, *Str:
			if i == 0 && len(a.els) > 8 {
				return false // homogeneous array
			}
		case *Agg:
			if hasPtr(x) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// mergeStates merges b into a copy of a; extra() merges the values living outside the
// heap (return value or frame).  Returns nil when impossible.
func mergeStates(a, b *State, extra func(m *mctx) bool) (*State, *Term) {
	n := 0
	for n < len(a.pc) && n < len(b.pc) && a.pc[n] == b.pc[n] {
		n++
	}
	if n == len(a.pc) || n == len(b.pc) {
		return nil, nil
	}
	if len(a.inputs) != len(b.inputs) || len(a.choices) != len(b.choices) {
		return nil, nil
	}
	for i := range a.inputs {
		if a.inputs[i].name != b.inputs[i].name || len(a.inputs[i].els) != len(b.inputs[i].els) {
			return nil, nil
		}
		for j := range a.inputs[i].els {
			if a.inputs[i].els[j] != b.inputs[i].els[j] {
				return nil, nil
			}
		}
	}
	for i := range a.choices {
		if a.choices[i] != b.choices[i] {
			return nil, nil
		}
	}
	var c *Term
	if MkNot(a.pc[n]) == b.pc[n] {
		c = a.pc[n]
	} else {
		c = MkAnd(a.pc[n:]...)
	}
	m := &mctx{c: c, a: a, b: b, pairs: map[int]int{}, rev: map[int]int{}, same: map[int]bool{}}
	if !extra(m) {
		return nil, nil
	}
	out := a.fork()
	// objects known to both
	for k, vb := range b.heap {
		va, ok := a.heap[k]
		if !ok {
			if va, ok = a.base[k]; !ok {
				out.heap[k] = vb
				continue
			}
		}
		if va == vb {
			if !deepPtr(va) {
				continue
			}
		}
		x, ok := m.merge(va, vb)
		if !ok {
			return nil, nil
		}
		out.heap[k] = x
	}
	for k, va := range a.heap {
		if _, ok := b.heap[k]; ok {
			continue
		}
		if bv, ok := b.base[k]; ok {
			x, ok := m.merge(va, bv)
			if !ok {
				return nil, nil
			}
			out.heap[k] = x
		}
	}
	for i := 0; i < len(m.work); i++ {
		p := m.work[i]
		x, ok := m.merge(a.get(p[0]), b.get(p[1]))
		if !ok {
			return nil, nil
		}
		out.heap[p[0]] = x
		if readonlyObj[p[0]] != readonlyObj[p[1]] {
			return nil, nil
		}
	}
	sa, sb := MkAnd(a.pc[n:]...), MkAnd(b.pc[n:]...)
	out.pc = a.pc[:n:n]
	if d := orPC(a.pc[n:], b.pc[n:], sa, sb); d != tTrue {
		if d.op == OAnd {
			out.pc = append(out.pc, d.a...)
		} else {
			out.pc = append(out.pc, d)
		}
	}
	out.zeros = nil
	if len(a.zeros) > 0 && len(b.zeros) > 0 {
		out.zeros = map[int]bool{}
		for k := range a.zeros {
			if b.zeros[k] {
				out.zeros[k] = true
			}
		}
	}
	if b.short > out.short {
		out.short = b.short
	}
	for k, v := range b.names {
		if v > out.names[k] {
			out.names[k] = v
		}
	}
	for k, v := range b.loops {
		if v > out.loops[k] {
			out.loops[k] = v
		}
	}
	return out, c
}

// orPC: disjunction of two suffixes, factoring common literals.
func orPC(a, b []*Term, sa, sb *Term) *Term {
	inB := map[*Term]bool{}
	for _, t := range b {
		inB[t] = true
	}
	var common, ra, rb []*Term
	isC := map[*Term]bool{}
	for _, t := range a {
		if inB[t] {
			common = append(common, t)
			isC[t] = true
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range b {
		if !isC[t] {
			rb = append(rb, t)
		}
	}
	x, y := MkAnd(ra...), MkAnd(rb...)
	d := MkOr(x, y)
	if len(ra) == 1 && len(rb) > 1 { // c or (not c and y) = c or y
		nc := MkNot(ra[0])
		var k []*Term
		for _, t := range rb {
			if t != nc {
				k = append(k, t)
			}
		}
		d = MkOr(ra[0], MkAnd(k...))
	} else if len(rb) == 1 && len(ra) > 1 {
		nc := MkNot(rb[0])
		var k []*Term
		for _, t := range ra {
			if t != nc {
				k = append(k, t)
			}
		}
		d = MkOr(rb[0], MkAnd(k...))
	}
	return MkAnd(append(common, d)...)
}

func deepPtr(v Val) bool {
	switch x := v.(type) {
	case *Term, *BigV, *Str:
		return false
	case *Agg:
		return hasPtr(x)
	}
	return true
}

func bigOf(v int64) *big.Int { return big.NewInt(v) }

func (t *Term) isZero() bool {
	return t.op == OConst && t.sort.K == KBV && ((t.sort.W <= 64 && t.u == 0) || (t.sort.W > 64 && t.k.Sign() == 0))
}
