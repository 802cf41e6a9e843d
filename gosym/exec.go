package main

// Symbolic interpreter over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OutKind int

const (
	ORet OutKind = iota
	OPanic
	OStop  // reached the requested merge block
	OAbort // unsupported / bound / deadline
	OInfeasible
)

type Out struct {
	kind OutKind
	st   *State
	v    Val
	msg  string
	fr   *Frame
	prev *ssa.BasicBlock
}

type Frame struct {
	fn    *ssa.Function
	info  *fnInfo
	env   []Val
	free  []Val
	defs  []deferred
	loops map[*ssa.If]int
	start int // objects allocated before this frame
}
type deferred struct {
	fn   Val
	args []Val
}

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	ipdom map[*ssa.BasicBlock]*ssa.BasicBlock
	live  map[*ssa.BasicBlock][]bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

type Exec struct {
	pins        map[string]int
	prog        *ssa.Program
	globals     map[*ssa.Global]*Ptr
	inited      map[*ssa.Package]bool
	base        map[int]Val
	harness     string
	deadline    time.Time
	instrs      int64
	encoded     map[string]int64 // functions executed
	contracts   map[string]int64
	merge       bool
	unwind      int
	depth       int
	initMode    bool
	disabled    map[string]bool // intrinsics switched off for this harness
	feasMs      int
	modFork     bool
	mergeDepth  int // call depth up to which paths stay apart
	draws       int
	cur         ssa.Instruction
	assertMs    int
	res         *HResult
	obl         map[string]*Obl
	curFork     int
	shortBudget int
	trace       bool
}

type Obl struct {
	Msg     string
	Proved  int
	Trivial int
	Unknown int
	Failed  int
}

type Cex struct {
	msg       string
	inputs    []Input
	model     Model
	choices   []string
	panicked  bool
	undecided bool
}

type HResult struct {
	aborts  map[string]int
	covers  map[string]bool
	cexs    []Cex
	paths   int
	panics  map[string]int
	asserts int
	unk     []string
}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	i := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		i.idx[v] = i.n
		i.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	i.ipdom = postdoms(fn)
	i.live = liveness(fn, i)
	fnInfos[fn] = i
	return i
}

// immediate post-dominators with respect to Return blocks
func postdoms(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	// blocks reaching return
	reach := make([]bool, n+1)
	var mark func(b *ssa.BasicBlock)
	mark = func(b *ssa.BasicBlock) {
		if reach[b.Index] {
			return
		}
		reach[b.Index] = true
		for _, p := range b.Preds {
			mark(p)
		}
	}
	rets := map[int]bool{}
	for _, b := range fn.Blocks {
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				mark(b)
				rets[b.Index] = true
			}
		}
	}
	exit := n
	full := make([]map[int]bool, n+1)
	full[exit] = map[int]bool{exit: true}
	for i := 0; i < n; i++ {
		if reach[i] {
			m := map[int]bool{exit: true}
			for j := 0; j < n; j++ {
				if reach[j] {
					m[j] = true
				}
			}
			full[i] = m
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if !reach[i] {
				continue
			}
			var inter map[int]bool
			if rets[i] {
				inter = map[int]bool{exit: true}
			} else {
				for _, s := range fn.Blocks[i].Succs {
					if !reach[s.Index] {
						continue
					}
					if inter == nil {
						inter = map[int]bool{}
						for k := range full[s.Index] {
							inter[k] = true
						}
					} else {
						for k := range inter {
							if !full[s.Index][k] {
								delete(inter, k)
							}
						}
					}
				}
			}
			inter[i] = true
			if len(inter) != len(full[i]) {
				full[i] = inter
				ch = true
			}
		}
	}
	out := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i := 0; i < n; i++ {
		if !reach[i] {
			continue
		}
		// the immediate one has the largest postdominator set among strict ones
		best, bs := -1, -1
		for j := range full[i] {
			if j == i || j == exit {
				continue
			}
			if len(full[j]) > bs {
				best, bs = j, len(full[j])
			}
		}
		if best >= 0 {
			out[fn.Blocks[i]] = fn.Blocks[best]
		}
	}
	return out
}

// values live on entry to each block (after its phis were evaluated)
func liveness(fn *ssa.Function, inf *fnInfo) map[*ssa.BasicBlock][]bool {
	live := map[*ssa.BasicBlock][]bool{}
	for _, b := range fn.Blocks {
		live[b] = make([]bool, inf.n)
	}
	for ch := true; ch; {
		ch = false
		for k := len(fn.Blocks) - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			cur := make([]bool, inf.n)
			for _, s := range b.Succs {
				pi := 0
				for i, p := range s.Preds {
					if p == b {
						pi = i
					}
				}
				ls := live[s]
				var ph []int
				for _, in := range s.Instrs {
					if p, ok := in.(*ssa.Phi); ok {
						ph = append(ph, inf.idx[p])
						if i, ok := inf.idx[p.Edges[pi]]; ok {
							cur[i] = true
						}
					}
				}
				isPhi := map[int]bool{}
				for _, p := range ph {
					isPhi[p] = true
				}
				for i, v := range ls {
					if v && !isPhi[i] {
						cur[i] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					cur[inf.idx[v]] = false
				}
				var rands [12]*ssa.Value
				for _, r := range in.Operands(rands[:0]) {
					if *r == nil {
						continue
					}
					if i, ok := inf.idx[*r]; ok {
						cur[i] = true
					}
				}
			}
			old := live[b]
			for i := range cur {
				if cur[i] != old[i] {
					ch = true
				}
			}
			live[b] = cur
		}
	}
	return live
}

func identType(a, b types.Type) bool {
	if a == b {
		return true
	}
	if _, ok := a.(*modelType); ok {
		return false
	}
	if _, ok := b.(*modelType); ok {
		return false
	}
	return types.Identical(a, b)
}

type CallCtx struct {
	ex   *Exec
	st   *State
	fn   *ssa.Function
	name string
	args []Val
	site ssa.CallInstruction
}

func (c *CallCtx) ret(v Val) []Out { return []Out{{kind: ORet, st: c.st, v: v}} }
func (c *CallCtx) panic(msg string) []Out {
	return []Out{{kind: OPanic, st: c.st, msg: msg}}
}

func (ex *Exec) checkDeadline() {
	if time.Now().After(ex.deadline) {
		panic(unsup("deadline"))
	}
}

// feasible: is pc /\ c satisfiable (unknown counts as feasible)
var slowLog = os.Getenv("GOSYM_SLOW") != ""

func (ex *Exec) feasible(st *State, c *Term) bool {
	if c == tFalse {
		return false
	}
	if c == tTrue {
		return true
	}
	for _, p := range st.pc {
		if p == c {
			return true
		}
		if p == MkNot(c) {
			return false
		}
	}
	ex.checkDeadline()
	if quickSat(st.pc, c) {
		return true
	}
	t0 := time.Now()
	r, m := Check(append(append([]*Term{}, st.pc...), c), ex.feasMs)
	if d := time.Since(t0); slowLog && d > 300*time.Millisecond {
		w := ""
		if ex.cur != nil {
			w = ex.where(ex.cur)
		}
		fmt.Fprintf(os.Stderr, "slow %v %v%s pc=%d %s\n", d.Round(time.Millisecond), r, w, len(st.pc), c.str(5))
	}
	if r == Sat {
		noteModel(m)
	}
	return r != Unsat
}

// assume adds c; returns false if the state became infeasible
func (ex *Exec) assume(st *State, c *Term) bool {
	if c == tTrue {
		return true
	}
	if !ex.feasible(st, c) {
		return false
	}
	ex.addPC(st, c)
	return true
}

func (ex *Exec) addPC(st *State, c *Term) {
	if c.op == OAnd {
		for _, x := range c.a {
			ex.addPC(st, x)
		}
		return
	}
	for _, p := range st.pc {
		if p == c {
			return
		}
	}
	st.pc = append(st.pc[:len(st.pc):len(st.pc)], c)
}

// branch splits st on c.
func (ex *Exec) branch(st *State, c *Term) (t, f *State) {
	if c == tTrue {
		return st, nil
	}
	if c == tFalse {
		return nil, st
	}
	nc := MkNot(c)
	ft := ex.feasible(st, c)
	if !ft {
		return nil, st
	}
	ff := ex.feasible(st, nc)
	if !ff {
		return st, nil
	}
	a := st.fork()
	ex.addPC(a, c)
	ex.addPC(st, nc)
	return a, st
}

func (ex *Exec) callVal(st *State, fv Val, args []Val, site ssa.CallInstruction) []Out {
	f, ok := fv.(*Func)
	if !ok {
		panic(unsup("call of %T", fv))
	}
	if f.intr != nil {
		return f.intr(&CallCtx{ex: ex, st: st, args: args, site: site, name: f.name})
	}
	if f.fn == nil {
		return []Out{{kind: OPanic, st: st, msg: "nil function call"}}
	}
	return ex.call(st, f.fn, args, f.free, site)
}

func (ex *Exec) call(st *State, fn *ssa.Function, args []Val, free []Val, site ssa.CallInstruction) []Out {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if in, ok := intrinsics[name]; ok && !ex.disabled[name] {
		if isContract[name] {
			ex.contracts[name]++
		}
		if !lazyOK[name] {
			for i, a := range args {
				if lz, ok := a.(*LazyBytes); ok {
					var outs []Out
					for _, o := range ex.forceLazy(st, lz) {
						if o.kind != ORet {
							outs = append(outs, o)
							continue
						}
						na := append([]Val{}, args...)
						na[i] = o.v
						outs = append(outs, ex.call(o.st, fn, na, free, site)...)
					}
					return outs
				}
			}
		}
		if outs := in(&CallCtx{ex: ex, st: st, fn: fn, args: args, site: site, name: name}); outs != nil {
			return outs
		}
	}
	if fn.Synthetic == "package initializer" {
		if fn.Pkg != nil {
			ex.initPkg(fn.Pkg)
		}
		return one(st, &Tuple{})
	}
	if fn.Blocks == nil {
		if in := prefixIntrinsic(name); in != nil {
			return in(&CallCtx{ex: ex, st: st, fn: fn, args: args, site: site, name: name})
		}
		if fn.Pkg != nil && strings.HasPrefix(name, "github.com/blocktree/go-owcrypt/") {
			if ins := asmInstrs(fn); ins != nil {
				return (&CallCtx{ex: ex, st: st, fn: fn, args: args, site: site, name: name}).asmCall(ins)
			}
		}
		panic(unsup("no body: %s", name))
	}
	if in := prefixIntrinsic(name); in != nil {
		return in(&CallCtx{ex: ex, st: st, fn: fn, args: args, site: site, name: name})
	}
	if ex.depth > 400 {
		panic(unsup("call depth"))
	}
	ex.depth++
	defer func() { ex.depth-- }()
	ex.encoded[name]++
	info := infoOf(fn)
	fr := &Frame{fn: fn, info: info, env: make([]Val, info.n), free: free, loops: map[*ssa.If]int{}, start: nextObj}
	copy(fr.env, args)
	outs := ex.run(st, fr, fn.Blocks[0], 0, nil, nil)
	if len(outs) > 1 && ex.merge && ex.depth > ex.mergeDepth {
		outs = ex.mergeRets(outs)
	}
	return outs
}

// merge ORet outcomes pairwise where possible
func (ex *Exec) mergeRets(outs []Out) []Out {
	var rets, rest []Out
	for _, o := range outs {
		if o.kind == ORet {
			rets = append(rets, o)
		} else {
			rest = append(rest, o)
		}
	}
	if len(rets) < 2 || len(rets) > 600 {
		return outs
	}
	for changed := true; changed; {
		changed = false
		// deepest forks first
		for _, p := range mergePairs(rets) {
			for i, j := p[0], p[1]; ; {
				var v Val
				m, _ := mergeStates(rets[j].st, rets[i].st, func(m *mctx) (ok bool) {
					v, ok = m.merge(rets[j].v, rets[i].v)
					return
				})
				if m == nil {
					break
				}
				rets[j] = Out{kind: ORet, st: m, v: v}
				rets = append(rets[:i:i], rets[i+1:]...)
				changed = true
				break
			}
			if changed {
				break
			}
		}
	}
	return append(rets, rest...)
}

// mergePairs lists nearby pairs, those that forked last first.
func mergePairs(o []Out) (ps [][2]int) {
	var dep []int
	for i := len(o) - 1; i > 0; i-- {
		for j := i - 1; j >= 0 && j >= i-3; j-- {
			a, b := o[i].st.pc, o[j].st.pc
			n := 0
			for n < len(a) && n < len(b) && a[n] == b[n] {
				n++
			}
			ps = append(ps, [2]int{i, j})
			dep = append(dep, n)
		}
	}
	idx := make([]int, len(ps))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(x, y int) bool { return dep[idx[x]] > dep[idx[y]] })
	r := make([][2]int, len(ps))
	for i, k := range idx {
		r[i] = ps[k]
	}
	return r
}

func (f *Frame) fork() *Frame {
	n := *f
	n.env = make([]Val, len(f.env))
	copy(n.env, f.env)
	n.defs = f.defs[:len(f.defs):len(f.defs)]
	n.loops = make(map[*ssa.If]int, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	return &n
}

func (ex *Exec) mergeFrames(mc *mctx, a, b *Frame, at *ssa.BasicBlock) *Frame {
	live := a.info.live[at]
	n := a.fork()
	if len(a.defs) != len(b.defs) {
		return nil
	}
	if len(a.defs) == 0 && len(a.free) == 0 {
		mc.since = a.start
	}
	for i := range a.env {
		x, y := a.env[i], b.env[i]
		if x == nil || y == nil || !live[i] {
			n.env[i] = nil
			continue
		}
		m, ok := mc.merge(x, y)
		if !ok {
			return nil
		}
		n.env[i] = m
	}
	if len(a.free) > 0 {
		fv, ok := mc.els(a.free, b.free)
		if !ok {
			return nil
		}
		n.free = fv
	}
	for k, v := range b.loops {
		if v > n.loops[k] {
			n.loops[k] = v
		}
	}
	return n
}

// runSet drives several states that all sit at blk (phis done), merging them at
// successive post-dominators until stop.
func (ex *Exec) runSet(states []Out, blk, stop *ssa.BasicBlock) (outs []Out) {
	for len(states) > 1 && blk != stop {
		pd := states[0].fr.info.ipdom[blk]
		var stops []Out
		for _, o := range states {
			for _, r := range ex.run(o.st, o.fr, blk, 0, o.prev, pd) {
				if r.kind == OStop {
					stops = append(stops, r)
				} else {
					outs = append(outs, r)
				}
			}
		}
		if pd == nil {
			return outs
		}
		states = ex.mergeStops(stops, pd)
		blk = pd
	}
	if len(states) == 0 {
		return outs
	}
	if blk == stop {
		return append(outs, states...)
	}
	o := states[0]
	return append(outs, ex.run(o.st, o.fr, blk, 0, o.prev, stop)...)
}

func (ex *Exec) run(st *State, fr *Frame, blk *ssa.BasicBlock, idx int, prev, stop *ssa.BasicBlock) (outs []Out) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				if os.Getenv("GOSYM_DEBUG") != "" {
					panic(r)
				}
				u = unsup("internal: %v", r)
			}
			if u.msg == "deadline" || ex.initMode {
				panic(r)
			}
			msg := u.msg
			if !strings.Contains(msg, " [in ") {
				msg += " [in " + fr.fn.String() + "]"
			}
			outs = append(outs, Out{kind: OAbort, st: st, msg: msg})
		}
	}()
	for {
		jumped := false
		for ; idx < len(blk.Instrs); idx++ {
			in := blk.Instrs[idx]
			ex.instrs++
			if ex.instrs&0xfff == 0 {
				ex.checkDeadline()
			}
			switch in := in.(type) {
			case *ssa.Phi:
				// handled on entry
			case *ssa.Jump:
				nb := blk.Succs[0]
				ex.phis(fr, blk, nb)
				prev, blk, idx = blk, nb, 0
				if blk == stop {
					return append(outs, Out{kind: OStop, st: st, fr: fr, prev: prev})
				}
				jumped = true
			case *ssa.If:
				c := ex.val(fr, in.Cond).(*Term)
				if c == tTrue || c == tFalse {
					nb := blk.Succs[0]
					if c == tFalse {
						nb = blk.Succs[1]
					}
					ex.phis(fr, blk, nb)
					prev, blk, idx = blk, nb, 0
					if blk == stop {
						return append(outs, Out{kind: OStop, st: st, fr: fr, prev: prev})
					}
					jumped = true
					break
				}
				ex.cur = in
				a, b := ex.branch(st, c)
				if a == nil || b == nil {
					nb := blk.Succs[0]
					if a == nil {
						nb = blk.Succs[1]
					}
					ex.phis(fr, blk, nb)
					prev, blk, idx = blk, nb, 0
					if blk == stop {
						return append(outs, Out{kind: OStop, st: st, fr: fr, prev: prev})
					}
					jumped = true
					break
				}
				fr.loops[in]++
				if fr.loops[in] > ex.unwind {
					panic(unsup("unwind bound %d at %s", ex.unwind, ex.prog.Fset.Position(in.Cond.Pos())))
				}
				pd := fr.info.ipdom[blk]
				if !ex.merge || ex.depth <= ex.mergeDepth {
					pd = stop
				}
				fa, fb := fr.fork(), fr
				oa := ex.runTo(a, fa, blk, blk.Succs[0], pd)
				ob := ex.runTo(b, fb, blk, blk.Succs[1], pd)
				all := append(oa, ob...)
				if pd == stop || pd == nil {
					return append(outs, all...)
				}
				var stops []Out
				for _, o := range all {
					if o.kind == OStop {
						stops = append(stops, o)
					} else {
						outs = append(outs, o)
					}
				}
				stops = ex.mergeStops(stops, pd)
				if len(stops) == 0 {
					return outs
				}
				if len(stops) > 1 {
					return append(outs, ex.runSet(stops, pd, stop)...)
				}
				st, fr = stops[0].st, stops[0].fr
				prev, blk, idx = stops[0].prev, pd, 0
				jumped = true
			case *ssa.Return:
				var v Val
				switch len(in.Results) {
				case 0:
				case 1:
					v = ex.val(fr, in.Results[0])
				default:
					t := &Tuple{make([]Val, len(in.Results))}
					for i, r := range in.Results {
						t.els[i] = ex.val(fr, r)
					}
					v = t
				}
				return append(outs, Out{kind: ORet, st: st, v: v})
			case *ssa.Panic:
				msg := "panic"
				if i, ok := ex.val(fr, in.X).(*Iface); ok {
					if s, ok := concStr(i.v); ok {
						msg = "panic: " + s
					} else if i.typ != nil {
						msg = "panic " + i.typ.String()
					}
				}
				return append(outs, Out{kind: OPanic, st: st, msg: msg + ex.where(in)})
			case *ssa.RunDefers:
				ds := fr.defs
				fr.defs = nil
				cur := []*State{st}
				for i := len(ds) - 1; i >= 0; i-- {
					var nxt []*State
					for _, s := range cur {
						for _, o := range ex.callVal(s, ds[i].fn, ds[i].args, nil) {
							if o.kind == ORet {
								nxt = append(nxt, o.st)
							} else {
								outs = append(outs, o)
							}
						}
					}
					cur = nxt
				}
				if len(cur) == 0 {
					return outs
				}
				for _, s := range cur[1:] {
					outs = append(outs, ex.run(s, fr.fork(), blk, idx+1, prev, stop)...)
				}
				st = cur[0]
			default:
				ex.cur = in
				again := 0
				var v ssa.Value
				isV := false
				var res []Out
				var lazy *LazyBytes
				if lazy = ex.lazyOperand(fr, in); lazy != nil {
					res = ex.forceLazy(st, lazy)
					again = -1
				} else {
					res = ex.instr(st, fr, in)
					if res == nil {
						continue
					}
					v, isV = in.(ssa.Value)
				}
				put := func(f *Frame, x Val) {
					if lazy != nil {
						for i, e := range f.env {
							if e == Val(lazy) {
								f.env[i] = x
							}
						}
					} else if isV {
						f.env[f.info.idx[v]] = x
					}
				}
				// multiple outcomes
				var rets []Out
				for _, o := range res {
					if o.kind == ORet {
						rets = append(rets, o)
					} else if o.kind == OPanic {
						if len(o.msg) < 300 {
							o.msg += ex.where(in)
						}
						outs = append(outs, o)
					} else if o.kind != OInfeasible {
						outs = append(outs, o)
					}
				}
				if len(rets) == 0 {
					return outs
				}
				if len(rets) == 1 {
					put(fr, rets[0].v)
					st = rets[0].st
					idx += again
					continue
				}
				pd := fr.info.ipdom[blk]
				if !ex.merge || ex.depth <= ex.mergeDepth {
					pd = stop
				}
				var stops []Out
				for _, o := range rets {
					f2 := fr.fork()
					put(f2, o.v)
					for _, r := range ex.run(o.st, f2, blk, idx+1+again, prev, pd) {
						if r.kind == OStop {
							stops = append(stops, r)
						} else {
							outs = append(outs, r)
						}
					}
				}
				if pd == stop || pd == nil {
					return append(outs, stops...)
				}
				if stops = ex.mergeStops(stops, pd); len(stops) == 0 {
					return outs
				}
				return append(outs, ex.runSet(stops, pd, stop)...)
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic(unsup("fell off block"))
		}
	}
}

func (ex *Exec) where(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		return ""
	}
	q := ex.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf(" @%s:%d", f, q.Line)
}

func (ex *Exec) runTo(st *State, fr *Frame, from, to, stop *ssa.BasicBlock) (outs []Out) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok || u.msg == "deadline" || ex.initMode {
				panic(r)
			}
			outs = append(outs, Out{kind: OAbort, st: st, msg: u.msg})
		}
	}()
	ex.phis(fr, from, to)
	if to == stop {
		return []Out{{kind: OStop, st: st, fr: fr, prev: from}}
	}
	return ex.run(st, fr, to, 0, from, stop)
}

func (ex *Exec) mergeStops(s []Out, at *ssa.BasicBlock) []Out {
	if len(s) < 2 || len(s) > 600 {
		return s
	}
	for changed := true; changed; {
		changed = false
		for _, p := range mergePairs(s) {
			for i, j := p[0], p[1]; ; {
				var f *Frame
				m, _ := mergeStates(s[j].st, s[i].st, func(m *mctx) bool {
					f = ex.mergeFrames(m, s[j].fr, s[i].fr, at)
					return f != nil
				})
				if m == nil {
					break
				}
				s[j] = Out{kind: OStop, st: m, fr: f, prev: s[j].prev}
				s = append(s[:i:i], s[i+1:]...)
				changed = true
				break
			}
			if changed {
				break
			}
		}
	}
	return s
}

func (ex *Exec) phis(fr *Frame, from, to *ssa.BasicBlock) {
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
			break
		}
	}
	var vals []Val
	var ids []int
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, ex.val(fr, ph.Edges[k]))
		ids = append(ids, fr.info.idx[ph])
	}
	for i, v := range vals {
		fr.env[ids[i]] = v
	}
}

func (ex *Exec) val(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return ex.constVal(v)
	case *ssa.Global:
		return ex.global(v)
	case *ssa.Function:
		return &Func{fn: v}
	case *ssa.Builtin:
		return v
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.free[i]
			}
		}
	}
	x := fr.env[fr.info.idx[v]]
	if x == nil {
		panic(unsup("undefined value %s in %s", v.Name(), fr.fn))
	}
	return x
}

var constCache = map[*ssa.Const]Val{}

func (ex *Exec) constVal(c *ssa.Const) Val {
	if v, ok := constCache[c]; ok {
		return v
	}
	var v Val
	if c.Value == nil {
		v = zeroVal(c.Type())
	} else if w, _, ok := bvWidth(c.Type()); ok {
		i, _ := constant.Val(constant.ToInt(c.Value)).(*big.Int)
		if i == nil {
			n, _ := constant.Int64Val(constant.ToInt(c.Value))
			i = big.NewInt(n)
			if u, exact := constant.Uint64Val(constant.ToInt(c.Value)); exact {
				i = new(big.Int).SetUint64(u)
			}
		}
		v = MkBVBig(i, w)
	} else {
		switch c.Value.Kind() {
		case constant.Bool:
			v = MkBool(constant.BoolVal(c.Value))
		case constant.String:
			v = str(constant.StringVal(c.Value))
		default:
			v = &opaqueV{"const " + c.Value.String()}
		}
	}
	constCache[c] = v
	return v
}

func (ex *Exec) global(g *ssa.Global) Val {
	if p, ok := ex.globals[g]; ok {
		return p
	}
	nextObj++
	p := &Ptr{obj: nextObj}
	ex.globals[g] = p
	ex.base[p.obj] = zeroVal(g.Type().(*types.Pointer).Elem())
	if g.Pkg != nil {
		if !ex.inited[g.Pkg] {
			if in, ok := globalIntr[g.String()]; ok {
				ex.base[p.obj] = in(ex)
			} else {
				ex.initPkg(g.Pkg)
			}
		} else if in, ok := globalIntr[g.String()]; ok {
			ex.base[p.obj] = in(ex)
		}
	}
	return p
}

// initPkg executes the package's var initialisers and init functions concretely.
func (ex *Exec) initPkg(p *ssa.Package) {
	if ex.inited[p] {
		return
	}
	ex.inited[p] = true
	if !initAllowed(p.Pkg.Path()) {
		return
	}
	if os.Getenv("GOSYM_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "init", p.Pkg.Path())
	}
	saveInit, saveDepth, saveMerge := ex.initMode, ex.depth, ex.merge
	ex.initMode = true
	ex.depth = 0
	defer func() {
		ex.initMode, ex.depth, ex.merge = saveInit, saveDepth, saveMerge
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "init of", p.Pkg.Path(), "incomplete:", u.msg)
			}
		}
	}()
	st := &State{heap: ex.base, base: ex.base, names: map[string]int{}, loops: map[int64]int{}}
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	info := infoOf(fn)
	fr := &Frame{fn: fn, info: info, env: make([]Val, info.n), loops: map[*ssa.If]int{}}
	if g := p.Var("init$guard"); g != nil {
		pt := ex.global(g).(*Ptr)
		ex.base[pt.obj] = tFalse
	}
	ex.run(st, fr, fn.Blocks[0], 0, nil, nil)
}

func (ex *Exec) set(fr *Frame, v ssa.Value, x Val) { fr.env[fr.info.idx[v]] = x }

func one(st *State, v Val) []Out { return []Out{{kind: ORet, st: st, v: v}} }

// guard: fork on ok; the failing side panics.
func (ex *Exec) guard(st *State, ok *Term, msg string, cont func(st *State) []Out) []Out {
	if ok == tTrue {
		return cont(st)
	}
	if ok == tFalse {
		return []Out{{kind: OPanic, st: st, msg: msg}}
	}
	g, b := ex.branch(st, ok)
	var outs []Out
	if b != nil {
		outs = append(outs, Out{kind: OPanic, st: b, msg: msg})
	}
	if g != nil {
		outs = append(outs, cont(g)...)
	}
	return outs
}

// concretize forks over all feasible values of t (as unsigned), at most max.
func (ex *Exec) concretize(st *State, t *Term, max int, cont func(st *State, v uint64) []Out) []Out {
	if t.IsConst() {
		return cont(st, t.Big().Uint64())
	}
	outs := []Out{}
	cur := st
	for n := 0; ; n++ {
		ex.checkDeadline()
		r, m := Check(cur.pc, ex.assertMs)
		if r == Unsat {
			return outs
		}
		if r != Sat {
			outs = append(outs, Out{kind: OAbort, st: cur, msg: "concretisation: solver gave no model"})
			return outs
		}
		if n >= max {
			outs = append(outs, Out{kind: OAbort, st: cur, msg: "concretisation bound"})
			return outs
		}
		v := evalTerm(t, m, map[int]*big.Int{})
		k := MkBVBig(v, t.sort.W)
		c := MkEq(t, k)
		if rr, _ := Check(append(append([]*Term{}, cur.pc...), c), ex.feasMs); rr == Unsat {
			outs = append(outs, Out{kind: OAbort, st: cur, msg: "concretisation: model mismatch"})
			return outs
		}
		a := cur.fork()
		ex.addPC(a, c)
		outs = append(outs, cont(a, v.Uint64())...)
		nc := MkNot(c)
		if nc == tFalse {
			return outs
		}
		cur = cur.fork()
		ex.addPC(cur, nc)
	}
}

// instr executes a non-control instruction.  nil result: done, value stored in fr.
func (ex *Exec) instr(st *State, fr *Frame, in ssa.Instruction) []Out {
	switch in := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		ex.set(fr, in, st.alloc(zeroVal(et)))
		return nil
	case *ssa.BinOp:
		x, y := ex.val(fr, in.X), ex.val(fr, in.Y)
		return ex.binop(st, fr, in, x, y)
	case *ssa.UnOp:
		x := ex.val(fr, in.X)
		switch in.Op {
		case token.MUL:
			p, ok := x.(*Ptr)
			if !ok {
				panic(unsup("load through %T", x))
			}
			if p.isNil() {
				return []Out{{kind: OPanic, st: st, msg: "nil pointer dereference"}}
			}
			ex.set(fr, in, st.load(p))
		case token.NOT:
			ex.set(fr, in, MkNot(x.(*Term)))
		case token.SUB:
			t, ok := x.(*Term)
			if !ok {
				panic(unsup("float arithmetic"))
			}
			ex.set(fr, in, MkNeg(t))
		case token.XOR:
			ex.set(fr, in, MkBNot(x.(*Term)))
		default:
			panic(unsup("unop %s", in.Op))
		}
		return nil
	case *ssa.Call:
		return ex.doCall(st, fr, in)
	case *ssa.Defer:
		fv, args, outs := ex.prepCall(st, fr, &in.Call)
		if outs != nil {
			return outs
		}
		fr.defs = append(fr.defs[:len(fr.defs):len(fr.defs)], deferred{fv, args})
		return nil
	case *ssa.ChangeInterface:
		ex.set(fr, in, ex.val(fr, in.X))
		return nil
	case *ssa.ChangeType:
		ex.set(fr, in, ex.val(fr, in.X))
		return nil
	case *ssa.Convert:
		ex.set(fr, in, ex.convert(st, ex.val(fr, in.X), in.X.Type(), in.Type()))
		return nil
	case *ssa.MultiConvert:
		ex.set(fr, in, ex.convert(st, ex.val(fr, in.X), in.X.Type(), in.Type()))
		return nil
	case *ssa.Extract:
		t, ok := ex.val(fr, in.Tuple).(*Tuple)
		if !ok {
			panic(unsup("extract from %T", ex.val(fr, in.Tuple)))
		}
		ex.set(fr, in, t.els[in.Index])
		return nil
	case *ssa.Field:
		a, ok := ex.val(fr, in.X).(*Agg)
		if !ok {
			panic(unsup("field of %T", ex.val(fr, in.X)))
		}
		ex.set(fr, in, a.els[in.Field])
		return nil
	case *ssa.FieldAddr:
		p, ok := ex.val(fr, in.X).(*Ptr)
		if !ok {
			panic(unsup("field address of %T", ex.val(fr, in.X)))
		}
		if p.isNil() {
			return []Out{{kind: OPanic, st: st, msg: "nil pointer dereference"}}
		}
		ex.set(fr, in, p.sub(in.Field))
		return nil
	case *ssa.Index:
		x := ex.val(fr, in.X)
		i := ex.val(fr, in.Index).(*Term)
		_, isS, _ := bvWidth(in.Index.Type())
		i = ext64(i, isS)
		switch x := x.(type) {
		case *Agg:
			return ex.guard(st, MkUlt(i, MkBV(uint64(len(x.els)), 64)), "index out of range", func(s *State) []Out {
				if i.IsConst() {
					return one(s, x.els[i.u])
				}
				return one(s, getPath(x, []PEl{{i: len(x.els), t: i}}))
			})
		case *Str:
			return ex.guard(st, MkUlt(i, MkBV(uint64(len(x.b)), 64)), "index out of range", func(s *State) []Out {
				return one(s, strIndex(x, i))
			})
		}
		panic(unsup("index %T", x))
	case *ssa.Lookup:
		x := ex.val(fr, in.X)
		switch x := x.(type) {
		case *Str:
			i := ext64(ex.val(fr, in.Index).(*Term), true)
			return ex.guard(st, MkUlt(i, MkBV(uint64(len(x.b)), 64)), "index out of range", func(s *State) []Out {
				return one(s, strIndex(x, i))
			})
		case *MapRef:
			var r Val
			ok := tFalse
			if x.obj != 0 {
				m := st.get(x.obj).(*MapV)
				k := ex.val(fr, in.Index)
				for i := range m.keys {
					e := ex.equal(m.keys[i], k)
					if e == tTrue {
						r, ok = m.vals[i], tTrue
					} else if e != tFalse {
						panic(unsup("symbolic map key"))
					}
				}
			}
			if r == nil {
				et := in.X.Type().Underlying().(*types.Map).Elem()
				r = zeroVal(et)
			}
			if in.CommaOk {
				r = &Tuple{[]Val{r, ok}}
			}
			ex.set(fr, in, r)
			return nil
		}
		panic(unsup("lookup %T", x))
	case *ssa.IndexAddr:
		x := ex.val(fr, in.X)
		i := ex.val(fr, in.Index).(*Term)
		_, isS, _ := bvWidth(in.Index.Type())
		i = ext64(i, isS)
		switch x := x.(type) {
		case *Ptr:
			if x.isNil() {
				return []Out{{kind: OPanic, st: st, msg: "nil pointer dereference"}}
			}
			n := int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			if i.IsConst() && i.u < uint64(n) {
				ex.set(fr, in, x.sub(int(i.u)))
				return nil
			}
			return ex.guard(st, MkUlt(i, MkBV(uint64(n), 64)), "index out of range", func(s *State) []Out {
				return one(s, x.subT(i, n))
			})
		case *Slice:
			if i.IsConst() && i.u < uint64(x.ln) {
				ex.set(fr, in, x.arr.sub(x.off+int(i.u)))
				return nil
			}
			return ex.guard(st, MkUlt(i, MkBV(uint64(x.ln), 64)), "index out of range", func(s *State) []Out {
				if i.IsConst() {
					return one(s, x.arr.sub(x.off+int(i.u)))
				}
				return one(s, x.arr.subT(MkAdd(i, MkBV(uint64(x.off), 64)), x.off+x.ln))
			})
		}
		panic(unsup("index address %T", x))
	case *ssa.Store:
		p, ok := ex.val(fr, in.Addr).(*Ptr)
		if !ok {
			panic(unsup("store through %T", ex.val(fr, in.Addr)))
		}
		if p.isNil() {
			return []Out{{kind: OPanic, st: st, msg: "nil pointer dereference"}}
		}
		st.store(p, ex.val(fr, in.Val))
		return nil
	case *ssa.MakeInterface:
		ex.set(fr, in, &Iface{in.X.Type(), ex.val(fr, in.X)})
		return nil
	case *ssa.MakeClosure:
		f := &Func{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.free = append(f.free, ex.val(fr, b))
		}
		ex.set(fr, in, f)
		return nil
	case *ssa.MakeMap:
		p := st.alloc(&MapV{})
		ex.set(fr, in, &MapRef{p.obj})
		return nil
	case *ssa.MapUpdate:
		m, ok := ex.val(fr, in.Map).(*MapRef)
		if !ok {
			panic(unsup("map update"))
		}
		if m.obj == 0 {
			return []Out{{kind: OPanic, st: st, msg: "assignment to entry in nil map"}}
		}
		mv := st.get(m.obj).(*MapV)
		k, v := ex.val(fr, in.Key), ex.val(fr, in.Value)
		n := &MapV{append([]Val{}, mv.keys...), append([]Val{}, mv.vals...)}
		found := false
		for i := range n.keys {
			e := ex.equal(n.keys[i], k)
			if e == tTrue {
				n.vals[i] = v
				found = true
			} else if e != tFalse {
				panic(unsup("symbolic map key"))
			}
		}
		if !found {
			n.keys = append(n.keys, k)
			n.vals = append(n.vals, v)
		}
		st.heap[m.obj] = n
		return nil
	case *ssa.MakeSlice:
		l, c := ex.val(fr, in.Len).(*Term), ex.val(fr, in.Cap).(*Term)
		l, c = ext64(l, true), ext64(c, true)
		et := in.Type().Underlying().(*types.Slice).Elem()
		lim := MkBV(1<<20, 64)
		return ex.guard(st, MkAnd(MkUlt(l, lim), MkNot(MkUlt(c, l))), "makeslice: len out of range", func(s *State) []Out {
			return ex.concretize(s, l, 300, func(s *State, lv uint64) []Out {
				return ex.concretize(s, c, 300, func(s *State, cv uint64) []Out {
					if cv > 1<<20 {
						panic(unsup("huge make"))
					}
					a := &Agg{make([]Val, cv)}
					z := zeroVal(et)
					for i := range a.els {
						a.els[i] = z
					}
					return one(s, &Slice{arr: s.alloc(a), ln: int(lv), cp: int(cv)})
				})
			})
		})
	case *ssa.Slice:
		return ex.sliceOp(st, fr, in)
	case *ssa.SliceToArrayPointer:
		s := ex.val(fr, in.X).(*Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.ln < n {
			return []Out{{kind: OPanic, st: st, msg: "slice to array pointer: length"}}
		}
		if s.arr == nil {
			ex.set(fr, in, nilPtr)
			return nil
		}
		if s.off == 0 {
			if a, ok := st.load(s.arr).(*Agg); ok && len(a.els) == n {
				ex.set(fr, in, s.arr)
				return nil
			}
		}
		// snapshot
		a := &Agg{make([]Val, n)}
		for i := range a.els {
			a.els[i] = st.load(s.arr.sub(s.off + i))
		}
		p := st.alloc(a)
		readonlyObj[p.obj] = true
		ex.set(fr, in, p)
		return nil
	case *ssa.TypeAssert:
		x := ex.val(fr, in.X).(*Iface)
		ok := false
		if x.typ != nil {
			if types.IsInterface(in.AssertedType) {
				it := in.AssertedType.Underlying().(*types.Interface)
				if _, ho := x.typ.(*modelType); ho {
					ok = true
				} else {
					ok = types.Implements(x.typ, it)
				}
			} else {
				ok = identType(x.typ, in.AssertedType)
			}
		}
		var v Val
		if ok {
			if types.IsInterface(in.AssertedType) {
				v = x
			} else {
				v = x.v
			}
		} else {
			if !in.CommaOk {
				return []Out{{kind: OPanic, st: st, msg: "interface conversion"}}
			}
			v = zeroVal(in.AssertedType)
		}
		if in.CommaOk {
			v = &Tuple{[]Val{v, MkBool(ok)}}
		}
		ex.set(fr, in, v)
		return nil
	case *ssa.Range:
		switch x := ex.val(fr, in.X).(type) {
		case *Str:
			ex.set(fr, in, st.alloc(&IterV{str: x.b}))
		case *MapRef:
			it := &IterV{}
			if x.obj != 0 {
				m := st.get(x.obj).(*MapV)
				it.keys, it.vals = m.keys, m.vals
			}
			ex.set(fr, in, st.alloc(it))
		default:
			panic(unsup("range over %T", x))
		}
		return nil
	case *ssa.Next:
		p := ex.val(fr, in.Iter).(*Ptr)
		it := *(st.get(p.obj).(*IterV))
		if in.IsString {
			if it.pos >= len(it.str) {
				ex.set(fr, in, &Tuple{[]Val{tFalse, MkBV(0, 64), MkBV(0, 32)}})
				return nil
			}
			b := it.str[it.pos]
			if !(b.IsConst() && b.u < 0x80) {
				panic(unsup("range over non-ASCII or symbolic string"))
			}
			ex.set(fr, in, &Tuple{[]Val{tTrue, MkBV(uint64(it.pos), 64), MkBV(b.u, 32)}})
		} else {
			if it.pos >= len(it.keys) {
				tt := in.Type().(*types.Tuple)
				z := func(i int) Val {
					if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
						return tFalse
					}
					return zeroVal(tt.At(i).Type())
				}
				ex.set(fr, in, &Tuple{[]Val{tFalse, z(1), z(2)}})
				return nil
			}
			ex.set(fr, in, &Tuple{[]Val{tTrue, it.keys[it.pos], it.vals[it.pos]}})
		}
		it.pos++
		st.heap[p.obj] = &it
		return nil
	case *ssa.Go:
		panic(unsup("goroutine"))
	}
	panic(unsup("instruction %T", in))
}

func strIndex(x *Str, i *Term) Val {
	if i.IsConst() {
		return x.b[i.u]
	}
	var r *Term
	for k := len(x.b) - 1; k >= 0; k-- {
		if r == nil {
			r = x.b[k]
		} else {
			r = MkIte(MkEq(i, MkBV(uint64(k), 64)), x.b[k], r)
		}
	}
	return r
}

func ext64(t *Term, signed bool) *Term {
	if t.sort.W == 64 {
		return t
	}
	if signed {
		return MkSExt(t, 64)
	}
	return MkZExt(t, 64)
}

func (ex *Exec) sliceOp(st *State, fr *Frame, in *ssa.Slice) []Out {
	x := ex.val(fr, in.X)
	var arr *Ptr
	var off, ln, cp int
	var sv *Str
	isNil := false
	switch x := x.(type) {
	case *Slice:
		arr, off, ln, cp = x.arr, x.off, x.ln, x.cp
		isNil = x.arr == nil
	case *Ptr:
		if x.isNil() {
			return []Out{{kind: OPanic, st: st, msg: "nil pointer dereference"}}
		}
		n := int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		arr, ln, cp = x, n, n
	case *Str:
		sv = x
		ln, cp = len(x.b), len(x.b)
	default:
		panic(unsup("slice of %T", x))
	}
	get := func(v ssa.Value, def int) *Term {
		if v == nil {
			return MkBV(uint64(def), 64)
		}
		_, s, _ := bvWidth(v.Type())
		return ext64(ex.val(fr, v).(*Term), s)
	}
	lo, hi, mx := get(in.Low, 0), get(in.High, ln), get(in.Max, cp)
	lim := MkBV(uint64(cp), 64)
	ok := MkAnd(MkNot(MkUlt(lim, mx)), MkNot(MkUlt(mx, hi)), MkNot(MkUlt(hi, lo)))
	return ex.guard(st, ok, "slice bounds out of range", func(s *State) []Out {
		return ex.concretize(s, lo, 300, func(s *State, l uint64) []Out {
			return ex.concretize(s, hi, 300, func(s *State, h uint64) []Out {
				return ex.concretize(s, mx, 300, func(s *State, m uint64) []Out {
					if sv != nil {
						return one(s, &Str{sv.b[l:h]})
					}
					if isNil {
						return one(s, nilSlice)
					}
					return one(s, &Slice{arr: arr, off: off + int(l), ln: int(h - l), cp: int(m - l)})
				})
			})
		})
	})
}

func (ex *Exec) convert(st *State, x Val, from, to types.Type) Val {
	fw, fs, fok := bvWidth(from)
	tw, _, tok := bvWidth(to)
	if fok && tok {
		t, ok := x.(*Term)
		if !ok {
			panic(unsup("convert %T", x))
		}
		if tw < fw {
			return MkExtract(t, tw-1, 0)
		}
		if tw == fw {
			return t
		}
		if fs {
			return MkSExt(t, tw)
		}
		return MkZExt(t, tw)
	}
	ub, _ := to.Underlying().(*types.Basic)
	fb, _ := from.Underlying().(*types.Basic)
	if ub != nil && ub.Kind() == types.UnsafePointer {
		if p, ok := x.(*Ptr); ok {
			return &UnsafeP{p}
		}
		panic(unsup("unsafe pointer from %T", x))
	}
	if fb != nil && fb.Kind() == types.UnsafePointer {
		u := x.(*UnsafeP)
		return ex.unsafeView(st, u.p, to)
	}
	if ub != nil && ub.Info()&types.IsString != 0 {
		switch x := x.(type) {
		case *Slice:
			return &Str{ex.bytesOf(st, x)}
		case *Str:
			return x
		case *Term:
			if x.IsConst() {
				return str(string(rune(x.SignedBig().Int64())))
			}
		}
		panic(unsup("convert to string"))
	}
	if _, ok := to.Underlying().(*types.Slice); ok {
		if s, ok := x.(*Str); ok {
			return ex.newBytes(st, s.b)
		}
		return x
	}
	if _, ok := x.(*opaqueV); ok || (fok && ub != nil && ub.Info()&types.IsFloat != 0) {
		if tok {
			if o, ok := x.(*opaqueV); ok && strings.HasPrefix(o.name, "const ") {
				if f, err := parseFloatConst(o.name[6:]); err == nil {
					return MkBV(uint64(int64(f)), tw)
				}
			}
			panic(unsup("float conversion"))
		}
		if t, ok := x.(*Term); ok && t.IsConst() && t.u < 1<<52 && t.sort.W <= 64 {
			return floatConst(float64(t.u))
		}
		return &opaqueV{"float"}
	}
	return x
}

// unsafeView: read-only snapshot of memory as another array type (sha3's word views)
func (ex *Exec) unsafeView(st *State, p *Ptr, to types.Type) Val {
	pt, ok := to.Underlying().(*types.Pointer)
	if !ok {
		panic(unsup("unsafe conversion to %s", to))
	}
	at, ok := pt.Elem().Underlying().(*types.Array)
	if !ok {
		panic(unsup("unsafe conversion to %s", to))
	}
	tw, _, ok := bvWidth(at.Elem())
	if !ok || len(p.path) == 0 || p.path[len(p.path)-1].t != nil {
		panic(unsup("unsafe view"))
	}
	base := &Ptr{p.obj, p.path[:len(p.path)-1]}
	start := p.path[len(p.path)-1].i
	arr, ok := st.load(base).(*Agg)
	if !ok {
		panic(unsup("unsafe view of non-array"))
	}
	var bytes []*Term
	for _, e := range arr.els[start:] {
		t, ok := e.(*Term)
		if !ok {
			panic(unsup("unsafe view elements"))
		}
		for b := 0; b < t.sort.W; b += 8 {
			bytes = append(bytes, MkExtract(t, b+7, b))
		}
	}
	n := int(at.Len())
	a := &Agg{make([]Val, n)}
	k := tw / 8
	for i := range a.els {
		if (i+1)*k > len(bytes) {
			a.els[i] = MkVar(fmt.Sprintf("oob!%d", i), BVS(tw)) // beyond the object: arbitrary
			continue
		}
		xs := make([]*Term, k)
		for j := 0; j < k; j++ {
			xs[k-1-j] = bytes[i*k+j]
		}
		a.els[i] = MkConcat(xs...)
	}
	v := st.alloc(a)
	readonlyObj[v.obj] = true
	return v
}

func (ex *Exec) bytesOf(st *State, s *Slice) []*Term {
	out := make([]*Term, s.ln)
	if s.ln == 0 {
		return out
	}
	a := st.load(s.arr).(*Agg)
	for i := range out {
		t, ok := a.els[s.off+i].(*Term)
		if !ok {
			panic(unsup("bytes of non-bytes"))
		}
		out[i] = t
	}
	return out
}

func (ex *Exec) newBytes(st *State, b []*Term) *Slice {
	return ex.newBytesCap(st, b, len(b))
}
func (ex *Exec) newBytesCap(st *State, b []*Term, cp int) *Slice {
	a := &Agg{make([]Val, cp)}
	for i := range a.els {
		if i < len(b) {
			a.els[i] = b[i]
		} else {
			a.els[i] = MkBV(0, 8)
		}
	}
	return &Slice{arr: st.alloc(a), ln: len(b), cp: cp}
}

func (ex *Exec) equal(x, y Val) *Term {
	switch a := x.(type) {
	case *Term:
		if b, ok := y.(*Term); ok {
			return MkEq(a, b)
		}
	case *Str:
		b := y.(*Str)
		if len(a.b) != len(b.b) {
			return tFalse
		}
		var cs []*Term
		for i := range a.b {
			cs = append(cs, MkEq(a.b[i], b.b[i]))
		}
		return MkAnd(cs...)
	case *Agg:
		b := y.(*Agg)
		var cs []*Term
		for i := range a.els {
			cs = append(cs, ex.equal(a.els[i], b.els[i]))
		}
		return MkAnd(cs...)
	case *BigV:
		return MkEq(a.t, y.(*BigV).t)
	case *Ptr:
		b, ok := y.(*Ptr)
		if !ok {
			break
		}
		if a.obj != b.obj || len(a.path) != len(b.path) {
			return tFalse
		}
		for i := range a.path {
			if a.path[i].t != nil || b.path[i].t != nil {
				panic(unsup("symbolic pointer comparison"))
			}
			if a.path[i].i != b.path[i].i {
				return tFalse
			}
		}
		return tTrue
	case *UnsafeP:
		return ex.equal(a.p, y.(*UnsafeP).p)
	case *Slice: // only against nil
		b := y.(*Slice)
		if a.arr == nil || b.arr == nil {
			return MkBool(a.arr == nil && b.arr == nil)
		}
	case *Iface:
		b, ok := y.(*Iface)
		if !ok {
			break
		}
		if a.typ == nil || b.typ == nil {
			return MkBool(a.typ == nil && b.typ == nil)
		}
		if !identType(a.typ, b.typ) {
			return tFalse
		}
		return ex.equal(a.v, b.v)
	case *Func:
		b := y.(*Func)
		na, nb := a.fn == nil && a.intr == nil, b.fn == nil && b.intr == nil
		if na || nb {
			return MkBool(na && nb)
		}
	case *MapRef:
		b := y.(*MapRef)
		return MkBool(a.obj == b.obj)
	case *opaqueV:
		if b, ok := y.(*opaqueV); ok && a == b {
			return tTrue
		}
	}
	panic(unsup("comparison of %T and %T", x, y))
}

func (ex *Exec) binop(st *State, fr *Frame, in *ssa.BinOp, x, y Val) []Out {
	switch in.Op {
	case token.EQL:
		ex.set(fr, in, ex.equal(x, y))
		return nil
	case token.NEQ:
		ex.set(fr, in, MkNot(ex.equal(x, y)))
		return nil
	}
	if sx, ok := x.(*Str); ok {
		sy := y.(*Str)
		if in.Op == token.ADD {
			ex.set(fr, in, &Str{append(append([]*Term{}, sx.b...), sy.b...)})
			return nil
		}
		cx, ok1 := concStr(sx)
		cy, ok2 := concStr(sy)
		if ok1 && ok2 {
			r := false
			switch in.Op {
			case token.LSS:
				r = cx < cy
			case token.LEQ:
				r = cx <= cy
			case token.GTR:
				r = cx > cy
			case token.GEQ:
				r = cx >= cy
			}
			ex.set(fr, in, MkBool(r))
			return nil
		}
		panic(unsup("string comparison"))
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		panic(unsup("binary %s on %T", in.Op, x))
	}
	w, sg, isBV := bvWidth(in.X.Type())
	if !isBV {
		panic(unsup("binary %s on %s", in.Op, in.X.Type()))
	}
	var r *Term
	switch in.Op {
	case token.ADD:
		r = MkAdd(a, b)
	case token.SUB:
		r = MkSub(a, b)
	case token.MUL:
		r = MkMul(a, b)
	case token.QUO, token.REM:
		nz := MkNot(MkEq(b, MkBV(0, w)))
		return ex.guard(st, nz, "integer divide by zero", func(s *State) []Out {
			var r *Term
			switch {
			case in.Op == token.QUO && sg:
				r = MkSDiv(a, b)
			case in.Op == token.QUO:
				r = MkUDiv(a, b)
			case sg:
				r = MkSRem(a, b)
			default:
				r = MkURem(a, b)
			}
			return one(s, r)
		})
	case token.AND:
		r = MkBAnd(a, b)
	case token.OR:
		r = MkBOr(a, b)
	case token.XOR:
		r = MkXor(a, b)
	case token.AND_NOT:
		r = MkBAnd(a, MkBNot(b))
	case token.SHL, token.SHR:
		_, ysg, _ := bvWidth(in.Y.Type())
		if ysg && !b.IsConst() {
			neg := MkSlt(b, MkBV(0, b.sort.W))
			if neg != tFalse {
				return ex.guard(st, MkNot(neg), "negative shift amount", func(s *State) []Out {
					return one(s, ex.shift(in.Op, a, b, w, sg))
				})
			}
		}
		r = ex.shift(in.Op, a, b, w, sg)
	case token.LSS:
		r = cmpLt(a, b, sg)
	case token.GTR:
		r = cmpLt(b, a, sg)
	case token.LEQ:
		r = MkNot(cmpLt(b, a, sg))
	case token.GEQ:
		r = MkNot(cmpLt(a, b, sg))
	default:
		panic(unsup("binary op %s", in.Op))
	}
	if cutMode && r != nil {
		r = cutStep(in, r)
	}
	ex.set(fr, in, r)
	return nil
}

func cmpLt(a, b *Term, sg bool) *Term {
	if sg {
		return MkSlt(a, b)
	}
	return MkUlt(a, b)
}

func (ex *Exec) shift(op token.Token, a, b *Term, w int, sg bool) *Term {
	if b.IsConst() {
		n := b.Big()
		k := w
		if n.IsInt64() && n.Int64() < int64(w) {
			k = int(n.Int64())
		}
		if op == token.SHL {
			if k >= w {
				return MkBV(0, w)
			}
			return MkShl(a, MkBV(uint64(k), w))
		}
		if sg {
			if k >= w {
				k = w - 1
			}
			return MkAShr(a, MkBV(uint64(k), w))
		}
		if k >= w {
			return MkBV(0, w)
		}
		return MkLShr(a, MkBV(uint64(k), w))
	}
	var amt, big *Term
	bw := b.sort.W
	if bw <= w {
		amt = MkZExt(b, w)
	} else {
		amt = MkExtract(b, w-1, 0)
	}
	if bw <= w && bw < 31 && (1<<uint(bw)) <= w {
		big = tFalse
	} else {
		big = MkNot(MkUlt(b, MkBV(uint64(w), bw)))
		if bw < 7 {
			big = tFalse
		}
	}
	var r, ov *Term
	switch {
	case op == token.SHL:
		r, ov = MkShl(a, amt), MkBV(0, w)
	case sg:
		r, ov = MkAShr(a, amt), MkAShr(a, MkBV(uint64(w-1), w))
	default:
		r, ov = MkLShr(a, amt), MkBV(0, w)
	}
	return MkIte(big, ov, r)
}

func (ex *Exec) prepCall(st *State, fr *Frame, c *ssa.CallCommon) (Val, []Val, []Out) {
	var args []Val
	if c.IsInvoke() {
		i, ok := ex.val(fr, c.Value).(*Iface)
		if !ok {
			panic(unsup("invoke on %T", ex.val(fr, c.Value)))
		}
		if i.typ == nil {
			return nil, nil, []Out{{kind: OPanic, st: st, msg: "nil interface method call"}}
		}
		for _, a := range c.Args {
			args = append(args, ex.val(fr, a))
		}
		if mt, ok := i.typ.(*modelType); ok {
			recv := i.v
			m := c.Method.Name()
			return &Func{name: mt.name + "." + m, intr: func(cc *CallCtx) []Out {
				return mt.invoke(cc, recv, m)
			}}, args, nil
		}
		fn := ex.prog.LookupMethod(i.typ, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			panic(unsup("method %s on %s", c.Method.Name(), i.typ))
		}
		return &Func{fn: fn}, append([]Val{i.v}, args...), nil
	}
	fv := ex.val(fr, c.Value)
	for _, a := range c.Args {
		args = append(args, ex.val(fr, a))
	}
	if b, ok := fv.(*ssa.Builtin); ok {
		cc := c
		return &Func{name: b.Name(), intr: func(x *CallCtx) []Out {
			return ex.builtin(x.st, b.Name(), x.args, cc)
		}}, args, nil
	}
	return fv, args, nil
}

func (ex *Exec) doCall(st *State, fr *Frame, in *ssa.Call) (res []Out) {
	if ex.initMode && fr.fn.Synthetic == "package initializer" {
		d := ex.depth
		defer func() {
			if r := recover(); r != nil {
				u, ok := r.(unsupported)
				if !ok {
					panic(r)
				}
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "  in init:", in, u.msg)
				}
				ex.depth = d
				res = one(st, &opaqueV{"init: " + u.msg})
			}
		}()
	}
	fv, args, outs := ex.prepCall(st, fr, &in.Call)
	if outs != nil {
		return outs
	}
	return ex.callVal(st, fv, args, in)
}

// Go's slice growth (runtime.growslice + size classes), for byte/word elements
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192}

func roundSize(n int) int {
	i := sort.SearchInts(sizeClasses, n)
	if i < len(sizeClasses) {
		return sizeClasses[i]
	}
	return (n + 8191) / 8192 * 8192
}
func growCap(old, need, esz int) int {
	nc := old
	d := nc + nc
	if need > d {
		nc = need
	} else if old < 256 {
		nc = d
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz <= 0 {
		return nc
	}
	return roundSize(nc*esz) / esz
}

func (ex *Exec) builtin(st *State, name string, args []Val, c *ssa.CallCommon) []Out {
	i64 := func(n int) Val { return MkBV(uint64(n), 64) }
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *Slice:
			if name == "cap" {
				return one(st, i64(x.cp))
			}
			return one(st, i64(x.ln))
		case *Str:
			return one(st, i64(len(x.b)))
		case *Agg:
			return one(st, i64(len(x.els)))
		case *Ptr:
			return one(st, i64(int(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())))
		case *MapRef:
			if x.obj == 0 {
				return one(st, i64(0))
			}
			return one(st, i64(len(st.get(x.obj).(*MapV).keys)))
		}
	case "append":
		s, _ := args[0].(*Slice)
		if s == nil {
			break
		}
		var els []Val
		switch y := args[1].(type) {
		case *Slice:
			if y.ln > 0 {
				a := st.load(y.arr).(*Agg)
				els = a.els[y.off : y.off+y.ln]
			}
		case *Str:
			for _, b := range y.b {
				els = append(els, b)
			}
		}
		if len(els) == 0 {
			return one(st, s)
		}
		n := s.ln + len(els)
		if n <= s.cp {
			a := st.load(s.arr).(*Agg)
			na := &Agg{append([]Val{}, a.els...)}
			copy(na.els[s.off+s.ln:], els)
			st.store(s.arr, na)
			return one(st, &Slice{s.arr, s.off, n, s.cp})
		}
		et := c.Signature().Params().At(0).Type().Underlying().(*types.Slice).Elem()
		esz := int(types.SizesFor("gc", "amd64").Sizeof(et))
		cp := growCap(s.cp, n, esz)
		na := &Agg{make([]Val, cp)}
		z := zeroVal(et)
		if s.ln > 0 {
			a := st.load(s.arr).(*Agg)
			copy(na.els, a.els[s.off:s.off+s.ln])
		}
		copy(na.els[s.ln:], els)
		for i := n; i < cp; i++ {
			na.els[i] = z
		}
		return one(st, &Slice{st.alloc(na), 0, n, cp})
	case "copy":
		d := args[0].(*Slice)
		var els []Val
		switch y := args[1].(type) {
		case *Slice:
			if y.ln > 0 {
				a := st.load(y.arr).(*Agg)
				els = a.els[y.off : y.off+y.ln]
			}
		case *Str:
			for _, b := range y.b {
				els = append(els, b)
			}
		}
		n := min(len(els), d.ln)
		if n > 0 {
			a := st.load(d.arr).(*Agg)
			na := &Agg{append([]Val{}, a.els...)}
			copy(na.els[d.off:], els[:n])
			st.store(d.arr, na)
		}
		return one(st, i64(n))
	case "panic":
		return []Out{{kind: OPanic, st: st, msg: "panic"}}
	case "min", "max":
		_, sg, ok := bvWidth(c.Args[0].Type())
		if ok {
			r := args[0].(*Term)
			for _, x := range args[1:] {
				y := x.(*Term)
				if name == "min" {
					r = MkIte(cmpLt(y, r, sg), y, r)
				} else {
					r = MkIte(cmpLt(r, y, sg), y, r)
				}
			}
			return one(st, r)
		}
	case "clear":
		if s, ok := args[0].(*Slice); ok {
			if s.ln > 0 {
				a := st.load(s.arr).(*Agg)
				na := &Agg{append([]Val{}, a.els...)}
				z := zeroVal(c.Args[0].Type().Underlying().(*types.Slice).Elem())
				for i := 0; i < s.ln; i++ {
					na.els[s.off+i] = z
				}
				st.store(s.arr, na)
			}
			return one(st, nil)
		}
	case "delete":
		m := args[0].(*MapRef)
		if m.obj != 0 {
			mv := st.get(m.obj).(*MapV)
			n := &MapV{}
			for i := range mv.keys {
				e := ex.equal(mv.keys[i], args[1])
				if e == tTrue {
					continue
				}
				if e != tFalse {
					panic(unsup("symbolic map key"))
				}
				n.keys = append(n.keys, mv.keys[i])
				n.vals = append(n.vals, mv.vals[i])
			}
			st.heap[m.obj] = n
		}
		return one(st, nil)
	case "print", "println":
		return one(st, nil)
	case "recover":
		return one(st, nilIface)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Ptr); ok && p.isNil() {
			return []Out{{kind: OPanic, st: st, msg: "nil pointer dereference"}}
		}
		return one(st, args[0])
	}
	panic(unsup("builtin %s", name))
}
