package main

// Replay of counterexamples on the real code, known findings, evidence.

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

func globalMap() map[*ssa.Global]*Ptr  { return map[*ssa.Global]*Ptr{} }
func initedMap() map[*ssa.Package]bool { return map[*ssa.Package]bool{} }

func setpgid(c *exec.Cmd) { c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true} }
func killGroup(c *exec.Cmd) {
	if c.Process != nil {
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	}
}

type replayBin struct {
	path string
	err  string
}

var replayBins = map[string]*replayBin{}

// buildReplay compiles the package's test binary with the harness overlay.
func buildReplay(pkg, arch string, all map[string]*Harness, badFiles map[string]bool) *replayBin {
	key := pkg + "|" + arch
	if b, ok := replayBins[key]; ok {
		return b
	}
	rel := pkg
	if pkg == "" {
		rel = "_root"
	}
	ov := map[string]string{}
	for k, v := range vrtFiles() {
		ov[k] = v
	}
	pkgName := ""
	for k, v := range overlayFiles(rel) {
		if badFiles[v] {
			continue
		}
		ov[k] = v
		if pkgName == "" {
			b, _ := os.ReadFile(v)
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "package ") {
					pkgName = strings.TrimSpace(l[8:])
				}
			}
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\t\"%s\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tvrt.Replay(map[string]func(){\n", pkgName, vrtPath)
	var ns []string
	have := map[string]bool{}
	for _, h := range all {
		if h.Pkg == pkg && !badFiles[h.File] && h.Arch == arch && !have[h.Func] {
			have[h.Func] = true
			ns = append(ns, h.Func)
		}
	}
	sort.Strings(ns)
	for _, n := range ns {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	tf := filepath.Join(workDir, "replay_"+strings.ReplaceAll(rel, "/", "_")+arch+"_test.go")
	os.WriteFile(tf, []byte(sb.String()), 0644)
	ov[filepath.Join(repoDir, pkg, "zz_verif_replay_test.go")] = tf
	// hide the package's own tests: they are not part of the replay
	g, _ := filepath.Glob(filepath.Join(repoDir, pkg, "*_test.go"))
	for _, f := range g {
		ov[f] = ""
	}
	ob, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(workDir, "overlay_"+strings.ReplaceAll(rel, "/", "_")+arch+".json")
	os.WriteFile(of, ob, 0644)
	bin := filepath.Join(workDir, "replay_"+strings.ReplaceAll(rel, "/", "_")+arch+".test")
	c := exec.Command("go", "test", "-vet=off", "-c", "-overlay", of, "-o", bin, "./"+pkg)
	c.Dir = repoDir
	c.Env = goEnv("")
	if strings.HasPrefix(arch, "tags_") {
		c.Env = goEnv(arch)
	}
	out, err := c.CombinedOutput()
	r := &replayBin{path: bin}
	if err != nil {
		// leave out harness files that do not compile against this tree
		nb := map[string]bool{}
		for k, v := range badFiles {
			nb[k] = v
		}
		more := false
		for tgt, src := range ov {
			if b := filepath.Base(tgt); strings.HasPrefix(b, "zz_verif_") && src != "" && src != tf && bytes.Contains(out, []byte(b+":")) && !nb[src] {
				nb[src] = true
				more = true
			}
		}
		if more {
			return buildReplay(pkg, arch, all, nb)
		}
		r.err = string(out)
		if *fDebug || os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "replay build:", r.err)
		}
	}
	replayBins[key] = r
	return r
}

type replayResult struct {
	Kind   string
	Msg    string
	Vector map[string]string
	Tries  int
}

func replay(h *Harness, vec map[string]string, tries int, budget int, all map[string]*Harness, bad map[string]bool) replayResult {
	b := buildReplay(h.Pkg, h.Arch, all, bad)
	if b.err != "" {
		return replayResult{Kind: "nobuild", Msg: b.err}
	}
	vb, _ := json.Marshal(vec)
	f := filepath.Join(workDir, fmt.Sprintf("vec%d.json", time.Now().UnixNano()))
	os.WriteFile(f, vb, 0644)
	c := exec.Command(b.path, "-test.run", "^TestVerifReplay$", "-test.timeout", fmt.Sprintf("%ds", budget+60))
	c.Dir = workDir
	c.Env = append(os.Environ(), "VRT_HARNESS="+h.Func, "VRT_VECTOR="+f, fmt.Sprintf("VRT_TRIES=%d", tries), fmt.Sprintf("VRT_BUDGET=%d", budget))
	out, _ := c.CombinedOutput()
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "VRT-RESULT ") {
			var r replayResult
			json.Unmarshal([]byte(l[11:]), &r)
			return r
		}
	}
	if bytes.Contains(out, []byte("panic:")) || bytes.Contains(out, []byte("fatal error:")) {
		return replayResult{Kind: "panic", Msg: firstLine(string(out)), Vector: vec}
	}
	return replayResult{Kind: "error", Msg: firstLine(string(out))}
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			return l
		}
	}
	return ""
}

type Known struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Match    string            `json:"match"`            // substring of the failing assertion
	Inputs   map[string]string `json:"inputs,omitempty"` // input name -> required hex prefix
	What     string            `json:"what"`
	Fixed    string            `json:"fixed,omitempty"` // commit: a repaired defect suppresses nothing
}

func loadKnown() []Known {
	var out []Known
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		var k Known
		if json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

func (k *Known) matches(prop, harness, msg string, vec map[string]string) bool {
	if k.Fixed != "" || k.Property != prop || (k.Harness != "" && k.Harness != harness) || !strings.Contains(msg, k.Match) {
		return false
	}
	for n, p := range k.Inputs {
		if !strings.HasPrefix(vec[n], p) {
			return false
		}
	}
	return true
}

func conclude(reps []*HReport, all map[string]*Harness, t0, deadline time.Time) int {
	known := loadKnown()
	bad := map[string]bool{}
	for _, r := range reps {
		if strings.HasPrefix(r.Err, "harness does not type-check") {
			bad[all[r.Harness].File] = true
		}
	}
	violations := 0
	type conf struct {
		Harness, Msg string
		Vector       map[string]string
		Known        string
	}
	var confirmed []conf
	var inconclusive []string
	seenKnown := map[string]bool{}
	os.MkdirAll(filepath.Join(verifDir, "evidence", "replay"), 0755)
	for _, r := range reps {
		h := all[r.Harness]
		done := map[string]bool{}
		for _, c := range r.Cexs {
			if done[c.Msg] {
				continue
			}
			if time.Now().After(deadline) {
				inconclusive = append(inconclusive, r.Harness+": "+c.Msg+" (no time left to replay)")
				continue
			}
			tries, bud := h.Tries, 10
			if !c.Undecided {
				tries, bud = h.Tries*5, 20
			}
			bud = max(bud, h.Budget)
			rr := replay(h, c.Vector, tries, bud, all, bad)
			fmt.Printf("  replay %s [%s]: %s %s (%d tries)\n", r.Harness, c.Msg, rr.Kind, firstLine(rr.Msg), rr.Tries)
			if rr.Kind != "fail" && rr.Kind != "panic" && rr.Kind != "timeout" {
				inconclusive = append(inconclusive, r.Harness+": "+c.Msg+" (not reproduced on the real code)")
				continue
			}
			done[c.Msg] = true
			msg := rr.Msg
			if rr.Kind != "fail" {
				msg = rr.Kind + ": " + rr.Msg
			}
			cf := conf{r.Harness, msg, rr.Vector, ""}
			for _, k := range known {
				if k.matches(*fProp, h.Func, msg, rr.Vector) {
					cf.Known = k.What
					if !seenKnown[k.What] {
						seenKnown[k.What] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fProp, k.What)
					}
				}
			}
			confirmed = append(confirmed, cf)
			if cf.Known != "" {
				continue
			}
			dup := false
			for _, x := range confirmed[:len(confirmed)-1] {
				if x.Harness == cf.Harness && x.Msg == cf.Msg {
					dup = true
				}
			}
			if dup {
				continue
			}
			violations++
			if t := time.Now().Add(20 * time.Second); t.Before(deadline) {
				deadline = t
			}
			body, _ := json.MarshalIndent(map[string]interface{}{"property": *fProp, "harness": r.Harness, "file": h.File, "message": msg, "solver_obligation": c.Msg, "inputs": rr.Vector, "model_inputs": c.Vector, "how": "VRT_HARNESS and VRT_VECTOR of /verif/vrt select the harness and these inputs; see DESIGN.md"}, "", " ")
			sum := sha256.Sum256(body)
			p := filepath.Join(verifDir, "evidence", "replay", *fProp+"-"+hex.EncodeToString(sum[:5])+".json")
			os.WriteFile(p, body, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, p)
			fmt.Printf("  %s: %s\n", r.Harness, msg)
		}
	}
	writeEvidence(reps, all, confirmed, inconclusive, violations, t0)
	if violations > 0 {
		return 1
	}
	return 0
}

func writeEvidence(reps []*HReport, all map[string]*Harness, confirmed interface{}, inconclusive []string, violations int, t0 time.Time) {
	funcs := map[string]int64{}
	contracts := map[string]int64{}
	obl, proved, triv, unk, failed := 0, 0, 0, 0, 0
	var q, ffq, ms, simp int64
	paths := 0
	var hs []map[string]interface{}
	var incomplete []string
	bounds := map[string]int{}
	vac := []string{}
	for _, r := range reps {
		for n, k := range r.Functions {
			funcs[strings.TrimPrefix(n, repoPath+"/")] += k
		}
		for n, k := range r.Contracts {
			contracts[strings.TrimPrefix(n, repoPath+"/")] += k
		}
		for _, o := range r.Obls {
			obl += o.Proved + o.Unknown + o.Failed
			proved += o.Proved
			triv += o.Trivial
			unk += o.Unknown
			failed += o.Failed
		}
		q += int64(r.Stats.Queries)
		ffq += int64(r.Stats.FFQueries)
		ms += r.Stats.SolverMs
		simp += int64(r.Stats.Simplified)
		paths += r.Paths
		for b, k := range r.Bounds {
			bounds[b] += k
		}
		if r.Vacuous && r.Err == "" {
			vac = append(vac, r.Harness)
		}
		if r.Err != "" {
			incomplete = append(incomplete, r.Harness+": "+r.Err)
		}
		for a := range r.Aborts {
			incomplete = append(incomplete, r.Harness+": "+a)
		}
		var os_ []string
		for _, o := range r.Obls {
			s := "proved"
			if o.Failed > 0 {
				s = "failed"
			} else if o.Unknown > 0 {
				s = "undecided"
			}
			os_ = append(os_, s+": "+o.Msg)
		}
		hs = append(hs, map[string]interface{}{"name": r.Harness, "package": r.Pkg, "arch": r.Arch, "obligations": os_, "paths": r.Paths, "queries": r.Stats.Queries, "field_queries": r.Stats.FFQueries, "solver_ms": r.Stats.SolverMs, "wall_ms": r.WallMs, "unwind": r.Unwind, "encoding_lengths": r.Lens, "reachability_witnesses": r.Covers})
	}
	var fl []string
	for n := range funcs {
		fl = append(fl, n)
	}
	sort.Strings(fl)
	var cl []string
	for n := range contracts {
		cl = append(cl, n)
	}
	sort.Strings(cl)
	sort.Strings(incomplete)
	level, note := propLevel(*fProp)
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": *fProp, "tier": *fTier, "seed": seed, "level": level,
		"coverage": map[string]interface{}{
			"explanation":                  "Solver-based checking: the functions below are executed symbolically from go/ssa built from the current working tree; every assertion of every harness is discharged by z3 (bit-vectors / finite fields) over all values within the bounds. " + note,
			"functions_encoded":            fl,
			"contracts_used":               cl,
			"obligations":                  obl,
			"discharged":                   proved,
			"closed_by_rewriting":          triv,
			"undecided":                    unk,
			"failed":                       failed,
			"queries":                      q,
			"field_queries":                ffq,
			"queries_closed_before_solver": simp,
			"solver_ms":                    ms,
			"paths":                        paths,
			"harnesses":                    hs,
			"bounds_reached":               bounds,
			"incomplete":                   incomplete,
			"inconclusive":                 inconclusive,
			"vacuous":                      vac,
			"confirmed":                    confirmed,
			"checker_cmd":                  "bash /verif/run.sh " + *fProp + " " + *fTier,
			"trusted_base":                 []string{"gosym symbolic interpreter (/verif/gosym)", "z3-new 5.3.2", "golang.org/x/tools/go/ssa", "library models listed in DESIGN.md"},
		},
		"assumptions": propAssumptions(*fProp),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir, "evidence", *fProp+".json"), b, 0644)
	fmt.Printf("%s %s: %d obligations, %d discharged, %d undecided, %d failed; %d+%d queries, %d ms solver, %.1fs wall; violations=%d\n", *fProp, *fTier, obl, proved, unk, failed, q, ffq, ms, time.Since(t0).Seconds(), violations)
	for _, i := range incomplete {
		fmt.Println("  incomplete:", i)
	}
	for _, v := range vac {
		fmt.Println("  vacuous:", v)
	}
}

func propLevel(id string) (string, string) {
	var mf struct {
		Checks []struct{ Property, Level, Level_note string }
	}
	b, _ := os.ReadFile(filepath.Join(verifDir, "MANIFEST.json"))
	json.Unmarshal(b, &mf)
	for _, c := range mf.Checks {
		if c.Property == id {
			return c.Level, c.Level_note
		}
	}
	return "other", ""
}

func propAssumptions(id string) []string {
	out := []string{
		"math/big, crypto/*, golang.org/x/crypto and the third-party pairing libraries behave as documented (modelled, see DESIGN.md)",
		"hash functions are uninterpreted functions of their input where a harness uses the hash contract",
		"a sequential execution; inputs are byte slices of the sizes stated in each harness",
	}
	b, err := os.ReadFile(filepath.Join(verifDir, "assumptions.json"))
	if err == nil {
		m := map[string][]string{}
		json.Unmarshal(b, &m)
		out = append(out, m[id]...)
	}
	return out
}
