package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

type VecCex struct {
	Msg       string
	Vector    map[string]string
	Undecided bool
	Choices   []string
}

type HReport struct {
	Harness   string
	Props     []string
	Pkg       string
	Doc       string
	Arch      string
	Obls      []Obl
	Asserts   int
	Paths     int
	Panics    map[string]int
	Aborts    map[string]int
	Bounds    map[string]int
	Covers    map[string]bool
	Cexs      []VecCex
	Functions map[string]int64
	Contracts map[string]int64
	Stats     Stats
	WallMs    int64
	Instrs    int64
	Err       string
	Unwind    int
	Lens      string
	Vacuous   bool
}

var (
	fBuild  = flag.Bool("buildcheck", false, "build the native replays of every package")
	fProp   = flag.String("prop", "", "property id")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fChild  = flag.String("child", "", "comma-separated harnesses (child mode)")
	fH      = flag.String("h", "", "run these harnesses only (debug)")
	fArch   = flag.String("arch", "", "GOARCH")
	fDebug  = flag.Bool("debug", false, "verbose")
	fList   = flag.Bool("list", false, "list harnesses")
	fOut    = flag.String("out", "", "child output file")
	fJobs   = flag.Int("j", 8, "parallel processes")
	fBudget = flag.Int("budget", 0, "overall seconds")
	fLog    = flag.String("smtlog", "", "log queries")
)

func contractAllowed(h *Harness, name string) bool {
	for g := range h.Use {
		if groupMatch(g, name) {
			return true
		}
	}
	return false
}

// groupMatch: contract groups selected by harness directives
func groupMatch(g, name string) bool {
	r := repoPath
	switch g {
	case "curve":
		return strings.Contains(name, "secp256k1Curve).") || strings.Contains(name, "sm2_stdCurve).") || strings.Contains(name, "elliptic.CurveParams).")
	case "jac":
		return strings.Contains(name, "secp256k1Curve).") && (strings.HasSuffix(name, "Jacobian"))
	case "hash":
		for _, p := range []string{"/sm3.", "/blake256.", "/blake512.", "/sha3.", "/blake2s."} {
			if strings.HasPrefix(name, r+p) && !strings.Contains(name, "keccakF") {
				return true
			}
		}
		return false
	}
	return strings.Contains(contractGroup[name], "|"+g+"|")
}

var contractGroup = map[string]string{}

// addGroup registers a contract under a named group.
func addGroup(group, name string, f Intr) {
	if groupFns[name] == nil {
		groupFns[name] = map[string]Intr{}
		addContract(name, func(c *CallCtx) []Out {
			for g, f := range groupFns[name] {
				if activeUse[g] {
					return f(c)
				}
			}
			panic(unsup("contract group of %s", name))
		})
	}
	groupFns[name][group] = f
	contractGroup[name] += "|" + group + "|"
}

var (
	groupFns  = map[string]map[string]Intr{}
	activeUse map[string]bool
)

func runHarness(L *Loaded, h *Harness, ex0 *Exec) *HReport {
	rep := &HReport{Harness: h.Name, Props: h.Props, Pkg: h.Pkg, Doc: h.Doc, Arch: h.Arch, Unwind: h.Unwind, Panics: map[string]int{}, Aborts: map[string]int{}, Bounds: map[string]int{}}
	t0 := time.Now()
	st0 := stats
	pkg := L.pkgs[h.Pkg]
	if why, bad := L.bad[h.File]; bad {
		rep.Err = "harness does not type-check against this tree: " + why
		return rep
	}
	if pkg == nil || pkg.Func(h.Func) == nil {
		rep.Err = "harness not found"
		return rep
	}
	ex := ex0
	ex.harness = h.Func
	ex.pins = h.Pins
	ex.res = &HResult{aborts: map[string]int{}, covers: map[string]bool{}, panics: map[string]int{}}
	ex.obl = map[string]*Obl{}
	ex.encoded = map[string]int64{}
	ex.contracts = map[string]int64{}
	ex.disabled = map[string]bool{}
	ex.merge = !h.NoMerge
	ex.mergeDepth = h.MergeDepth
	ex.modFork = h.Use["modfork"]
	bitsMode = h.Use["bits"]
	smallMod = h.Use["pgrp"]
	liftAll = h.Use["lift"]
	cutMode = h.Use["cut"]
	powMode = h.Use["fepow"]
	sqWitness = nil
	activeUse = h.Use
	dlogMode = h.Use["eddlog"]
	ex.unwind = h.Unwind
	ex.feasMs, ex.assertMs = h.FeasMs, h.AssertMs
	ex.draws = h.Draws
	ex.instrs = 0
	ex.depth = 0
	recent = nil
	for n := range isContract {
		if !contractAllowed(h, n) {
			ex.disabled[n] = true
		}
	}
	lensPolicy = nil
	rep.Lens = "all"
	if h.LensSet {
		ls := h.Lens
		rep.Lens = fmt.Sprint("full and ", ls)
		lensPolicy = func(full int) []int { return ls }
	}
	timeout := h.Timeout
	if *fTier == "thorough" {
		timeout *= 3
	}
	ex.deadline = time.Now().Add(time.Duration(timeout) * time.Second)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					rep.Aborts[u.msg]++
					return
				}
				if *fDebug {
					panic(r)
				}
				rep.Aborts[fmt.Sprint("internal: ", r)]++
			}
		}()
		// package initialisation first (concrete)
		ex.initPkg(pkg)
		st := &State{heap: map[int]Val{}, base: ex.base, names: map[string]int{}, loops: map[int64]int{}}
		outs := ex.call(st, pkg.Func(h.Func), nil, nil, nil)
		for _, o := range outs {
			rep.Paths++
			switch o.kind {
			case OPanic:
				r, m := Check(o.st.pc, ex.assertMs)
				if r == Unsat {
					continue
				}
				rep.Panics[o.msg]++
				if rep.Panics[o.msg] <= 3 {
					ex.res.cexs = append(ex.res.cexs, Cex{msg: "panic: " + o.msg, inputs: o.st.inputs, model: m, choices: o.st.choices, undecided: r != Sat})
				}
			case OAbort:
				if strings.HasPrefix(o.msg, "unwind bound") || strings.HasPrefix(o.msg, "bound:") {
					rep.Bounds[o.msg]++
					continue
				}
				rep.Aborts[o.msg]++
				if rep.Aborts[o.msg] <= 2 {
					if r, m := Check(o.st.pc, ex.feasMs); r != Unsat {
						ex.res.cexs = append(ex.res.cexs, Cex{msg: "not encoded: " + o.msg, inputs: o.st.inputs, model: m, choices: o.st.choices, undecided: true})
					}
				}
			}
		}
	}()
	for k, v := range ex.res.aborts {
		rep.Aborts[k] += v
	}
	var ms []string
	for m := range ex.obl {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	tot := 0
	for _, m := range ms {
		rep.Obls = append(rep.Obls, *ex.obl[m])
		tot += ex.obl[m].Proved
	}
	rep.Asserts = ex.res.asserts
	rep.Covers = ex.res.covers
	for _, v := range rep.Covers {
		if !v {
			rep.Vacuous = true
		}
	}
	if rep.Asserts == 0 {
		rep.Vacuous = true
	}
	for _, c := range ex.res.cexs {
		rep.Cexs = append(rep.Cexs, VecCex{Msg: c.msg, Vector: vectorOf(c), Undecided: c.undecided, Choices: c.choices})
	}
	rep.Functions = map[string]int64{}
	for n, k := range ex.encoded {
		if !strings.Contains(n, "zzverif") && !strings.Contains(n, ".VH_") {
			rep.Functions[n] = k
		}
	}
	rep.Contracts = ex.contracts
	rep.Stats = stats
	rep.Stats.Queries -= st0.Queries
	rep.Stats.FFQueries -= st0.FFQueries
	rep.Stats.UnsatN -= st0.UnsatN
	rep.Stats.SatN -= st0.SatN
	rep.Stats.Unk -= st0.Unk
	rep.Stats.SolverMs -= st0.SolverMs
	rep.Stats.Errors -= st0.Errors
	rep.Stats.Simplified -= st0.Simplified
	rep.WallMs = time.Since(t0).Milliseconds()
	rep.Instrs = ex.instrs
	return rep
}

func vectorOf(c Cex) map[string]string {
	v := map[string]string{}
	memo := map[int]*big.Int{}
	m := c.model
	if m == nil {
		m = Model{}
	}
	for _, in := range c.inputs {
		func() {
			defer func() { recover() }()
			if in.kind == "int" {
				x := evalTerm(in.els[0], m, memo)
				v[in.name] = hexOf(x)
				return
			}
			var sb strings.Builder
			for _, b := range in.els {
				fmt.Fprintf(&sb, "%02x", evalTerm(b, m, memo).Uint64()&0xff)
			}
			v[in.name] = sb.String()
		}()
	}
	return v
}

func hexOf(x *big.Int) string {
	s := x.Text(16)
	if len(s)%2 == 1 {
		s = "0" + s
	}
	return s
}

func childMain(names []string) {
	all := parseHarnesses()
	by := map[string]*Harness{}
	for _, h := range all {
		by[h.Name] = h
	}
	// group by architecture
	arch := *fArch
	var hs []*Harness
	dirset := map[string]bool{}
	for _, n := range names {
		h := by[n]
		if h == nil {
			k := 0
			for _, v := range all {
				if v.Func == n {
					hs = append(hs, v)
					dirset[v.Pkg] = true
					k++
				}
			}
			if k > 0 {
				continue
			}
		}
		if h == nil {
			fmt.Fprintln(os.Stderr, "no harness", n)
			continue
		}
		hs = append(hs, h)
		dirset[h.Pkg] = true
	}
	var dirs []string
	for d := range dirset {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	var reps []*HReport
	t0 := time.Now()
	L, err := load(dirs, arch)
	if *fDebug {
		fmt.Fprintln(os.Stderr, "loaded in", time.Since(t0), err)
	}
	if err != nil {
		for _, h := range hs {
			reps = append(reps, &HReport{Harness: h.Name, Props: h.Props, Pkg: h.Pkg, Err: "load: " + err.Error()})
		}
	} else {
		ex := newExec(L)
		for _, h := range hs {
			r := runHarness(L, h, ex)
			reps = append(reps, r)
			if *fDebug {
				printReport(r)
			}
			writeReports(reps)
		}
	}
	closeSolvers()
	writeReports(reps)
}

func writeReports(reps []*HReport) {
	if *fOut == "" {
		return
	}
	b, _ := json.Marshal(reps)
	os.WriteFile(*fOut+".tmp", b, 0644)
	os.Rename(*fOut+".tmp", *fOut)
}

func printReport(r *HReport) {
	fmt.Printf("%-34s %6dms paths=%d asserts=%d q=%d ff=%d unk=%d instrs=%d %s\n", r.Harness, r.WallMs, r.Paths, r.Asserts, r.Stats.Queries, r.Stats.FFQueries, r.Stats.Unk, r.Instrs, r.Err)
	for _, o := range r.Obls {
		mark := "ok"
		if o.Failed > 0 {
			mark = "FAILED"
		} else if o.Unknown > 0 {
			mark = "UNKNOWN"
		}
		fmt.Printf("    %-8s %s (proved %d, trivially %d, unknown %d, failed %d)\n", mark, o.Msg, o.Proved, o.Trivial, o.Unknown, o.Failed)
	}
	for k, v := range r.Aborts {
		fmt.Printf("    ABORT %s x%d\n", k, v)
	}
	for k, v := range r.Bounds {
		fmt.Printf("    bound %s x%d\n", k, v)
	}
	for k, v := range r.Panics {
		fmt.Printf("    PANIC %s x%d\n", k, v)
	}
	for k, v := range r.Covers {
		if !v {
			fmt.Printf("    NOT COVERED %s\n", k)
		}
	}
	if *fDebug {
		for _, c := range r.Cexs {
			fmt.Printf("    cex %s %v\n", c.Msg, c.Vector)
		}
	}
}

func newExec(L *Loaded) *Exec {
	ex := &Exec{prog: L.prog}
	ex.globals = globalMap()
	ex.inited = initedMap()
	ex.base = map[int]Val{}
	ex.encoded = map[string]int64{}
	ex.contracts = map[string]int64{}
	ex.disabled = map[string]bool{}
	ex.obl = map[string]*Obl{}
	ex.res = &HResult{aborts: map[string]int{}, covers: map[string]bool{}, panics: map[string]int{}}
	ex.unwind = 1000
	ex.merge = true
	ex.deadline = time.Now().Add(10 * time.Minute)
	return ex
}

func main() {
	flag.Parse()
	if pf := os.Getenv("GOSYM_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		time.AfterFunc(60*time.Second, pprof.StopCPUProfile)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(200)
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	if v := os.Getenv("REPO_DIR"); v != "" {
		repoDir = v
	}
	if *fLog != "" {
		f, _ := os.Create(*fLog)
		queryLog = f
	}
	if *fList {
		for _, h := range parseHarnesses() {
			fmt.Println(h.Name, h.Pkg, h.Props, h.Tier, h.Cost)
		}
		return
	}
	var err error
	workDir, err = os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println("cannot create a work directory:", err)
		os.Exit(0)
	}
	code := 0
	func() {
		defer os.RemoveAll(workDir)
		if err := prepareMod(); err != nil {
			fmt.Println("cannot prepare module files:", err)
			return
		}
		if *fChild != "" {
			childMain(strings.Split(*fChild, ","))
			return
		}
		if *fH != "" {
			*fDebug = true
			childMain(strings.Split(*fH, ","))
			return
		}
		if *fBuild {
			m := map[string]*Harness{}
			type pa struct{ p, a string }
			seen := map[pa]bool{}
			for _, h := range parseHarnesses() {
				m[h.Func] = h
				seen[pa{h.Pkg, h.Arch}] = true
			}
			for k := range seen {
				b := buildReplay(k.p, k.a, m, map[string]bool{})
				fmt.Println("replay build", k.p, k.a, b.err)
			}
			return
		}
		code = propMain()
	}()
	os.Exit(code)
}

type job struct {
	names []string
	arch  string
	cost  int
}

func propMain() int {
	t0 := time.Now()
	all := parseHarnesses()
	var sel []*Harness
	for _, h := range all {
		ok := false
		for _, p := range h.Props {
			if p == *fProp {
				ok = true
			}
		}
		if ok && (h.Tier == "" || h.Tier == *fTier) {
			sel = append(sel, h)
		}
	}
	// pack into jobs: one architecture per job, balanced by cost
	byArch := map[string][]*Harness{}
	for _, h := range sel {
		byArch[h.Arch] = append(byArch[h.Arch], h)
	}
	var jobs []*job
	total := 0
	for _, h := range sel {
		total += h.Cost
	}
	for a, hs := range byArch {
		sort.SliceStable(hs, func(i, j int) bool { return hs[i].Cost > hs[j].Cost })
		c := 0
		for _, h := range hs {
			c += h.Cost
		}
		n := c * (*fJobs) / max(total, 1)
		n = max(1, min(n+1, len(hs)))
		js := make([]*job, n)
		for i := range js {
			js[i] = &job{arch: a}
		}
		for _, h := range hs {
			b := 0
			for i := range js {
				if js[i].cost < js[b].cost {
					b = i
				}
			}
			js[b].names = append(js[b].names, h.Name)
			js[b].cost += h.Cost
		}
		jobs = append(jobs, js...)
	}
	budget := 780
	if *fTier == "thorough" {
		budget = 850
	}
	if *fBudget > 0 {
		budget = *fBudget
	}
	deadline := t0.Add(time.Duration(budget-120) * time.Second)
	self, _ := os.Executable()
	sem := make(chan bool, *fJobs)
	var wg sync.WaitGroup
	var mu, rmu sync.Mutex
	// a violation already reproduced on the real code ends the search
	stop := make(chan bool)
	hit := ""
	stopped := func() bool {
		select {
		case <-stop:
			return true
		default:
			return false
		}
	}
	harnessOf := map[string]*Harness{}
	for _, h := range all {
		harnessOf[h.Name] = h
	}
	knownSet := loadKnown()
	early := func(rs []*HReport) {
		rmu.Lock()
		defer rmu.Unlock()
		for _, r := range rs {
			for i, c := range r.Cexs {
				if c.Undecided || stopped() {
					continue
				}
				h := harnessOf[r.Harness]
				rr := replay(h, c.Vector, h.Tries, max(5, h.Budget), harnessOf, map[string]bool{})
				if rr.Kind != "fail" && rr.Kind != "panic" {
					continue
				}
				msg := rr.Msg
				if rr.Kind != "fail" {
					msg = rr.Kind + ": " + rr.Msg
				}
				isKnown := false
				for _, k := range knownSet {
					isKnown = isKnown || k.matches(*fProp, h.Func, msg, rr.Vector)
				}
				if !isKnown {
					hit = r.Harness
					r.Cexs[i].Vector = rr.Vector
					close(stop)
				}
			}
		}
	}
	var reps []*HReport
	for i, j := range jobs {
		if len(j.names) == 0 {
			continue
		}
		wg.Add(1)
		go func(i int, j *job) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			out := filepath.Join(workDir, fmt.Sprintf("out%d.json", i))
			args := []string{"-child", strings.Join(j.names, ","), "-out", out, "-tier", *fTier}
			if j.arch != "" {
				args = append(args, "-arch", j.arch)
			}
			c := exec.Command(self, args...)
			c.Env = append(os.Environ(), "TMPDIR="+workDir, "GOMEMLIMIT=6GiB")
			setpgid(c)
			done := make(chan bool)
			c.Stderr = os.Stderr
			if !stopped() && c.Start() == nil {
				go func() { c.Wait(); close(done) }()
				select {
				case <-done:
				case <-stop:
					killGroup(c)
					<-done
				case <-time.After(time.Until(deadline)):
					killGroup(c)
					<-done
				}
			}
			var rs []*HReport
			if b, err := os.ReadFile(out); err == nil {
				json.Unmarshal(b, &rs)
			}
			have := map[string]bool{}
			for _, r := range rs {
				have[r.Harness] = true
			}
			early(rs)
			for _, n := range j.names {
				if !have[n] {
					rs = append(rs, &HReport{Harness: n, Err: "no result within the time budget"})
				}
			}
			mu.Lock()
			reps = append(reps, rs...)
			mu.Unlock()
		}(i, j)
	}
	wg.Wait()
	sort.Slice(reps, func(i, j int) bool { return reps[i].Harness < reps[j].Harness })
	for _, r := range reps {
		printReport(r)
	}
	byName := map[string]*Harness{}
	for _, h := range all {
		byName[h.Name] = h
	}
	// what was reproduced already comes first, then what the solver refuted
	rank := func(r *HReport) int {
		if r.Harness == hit {
			return 0
		}
		for _, c := range r.Cexs {
			if !c.Undecided {
				return 1
			}
		}
		return 2
	}
	sort.SliceStable(reps, func(i, j int) bool { return rank(reps[i]) < rank(reps[j]) })
	for _, r := range reps {
		sort.SliceStable(r.Cexs, func(i, j int) bool { return !r.Cexs[i].Undecided && r.Cexs[j].Undecided })
	}
	return conclude(reps, byName, t0, time.Now().Add(110*time.Second))
}

var _ = runtime.NumCPU
