package main

// Loading /repo plus the overlay of harness files into SSA.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Harness struct {
	Func       string         // Go function
	Split      [][2]string    // choice name, count
	Pins       map[string]int // choices fixed in this variant
	Name       string         // VH_...
	Pkg        string         // package dir relative to the repo ("" = root)
	Props      []string
	MergeDepth int
	Use        map[string]bool // contract groups
	NoMerge    bool
	Draws      int
	Unwind     int
	Lens       []int
	LensSet    bool
	Timeout    int // seconds
	AssertMs   int
	FeasMs     int
	Tier       string // "" or "thorough"
	Arch       string
	Cost       int
	Tries      int
	Budget     int
	File       string
	Doc        string
	Sweep      bool
}

var repoDir, verifDir, workDir = "/repo", "/verif", ""

func relDirs() []string {
	var out []string
	root := filepath.Join(verifDir, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() && p != root {
			g, _ := filepath.Glob(filepath.Join(p, "*.go"))
			if len(g) > 0 {
				r, _ := filepath.Rel(root, p)
				out = append(out, r)
			}
		}
		return nil
	})
	sort.Strings(out)
	return out
}

func dirOf(rel string) string {
	if rel == "_root" {
		return ""
	}
	return rel
}

// overlayFiles: repo path -> verif path for one harness directory
func overlayFiles(rel string) map[string]string {
	out := map[string]string{}
	g, _ := filepath.Glob(filepath.Join(verifDir, "harness", rel, "*.go"))
	for _, f := range g {
		out[filepath.Join(repoDir, dirOf(rel), "zz_verif_"+filepath.Base(f))] = f
	}
	return out
}

func vrtFiles() map[string]string {
	out := map[string]string{}
	g, _ := filepath.Glob(filepath.Join(verifDir, "vrt", "*.go"))
	for _, f := range g {
		out[filepath.Join(repoDir, "zzverif", "vrt", filepath.Base(f))] = f
	}
	return out
}

// parseHarnesses scans harness sources for directives without type checking.
func parseHarnesses() []*Harness {
	var out []*Harness
	for _, rel := range relDirs() {
		g, _ := filepath.Glob(filepath.Join(verifDir, "harness", rel, "*.go"))
		for _, f := range g {
			b, _ := os.ReadFile(f)
			lines := strings.Split(string(b), "\n")
			var dirs []string
			var doc []string
			for _, l := range lines {
				t := strings.TrimSpace(l)
				if strings.HasPrefix(t, "//vrt:") {
					dirs = append(dirs, strings.TrimPrefix(t, "//vrt:"))
					continue
				}
				if strings.HasPrefix(t, "// ") && len(dirs) == 0 {
					doc = append(doc, strings.TrimPrefix(t, "// "))
					continue
				}
				if strings.HasPrefix(l, "func VH_") {
					name := l[5:strings.IndexByte(l, '(')]
					h := &Harness{Name: name, Func: name, Pkg: dirOf(rel), Use: map[string]bool{}, Unwind: 300, Draws: 2, Timeout: 120, AssertMs: 30000, FeasMs: 3000, Cost: 10, Tries: 300, File: f, Doc: strings.Join(doc, " ")}
					for _, d := range dirs {
						h.directive(d)
					}
					out = append(out, h.expand()...)
				}
				dirs, doc = nil, nil
			}
		}
	}
	return out
}

// expand turns a split directive into one variant per choice value.
func (h *Harness) expand() []*Harness {
	out := []*Harness{h}
	for _, sp := range h.Split {
		n, _ := strconv.Atoi(sp[1])
		var next []*Harness
		for _, v := range out {
			for i := 0; i < n; i++ {
				c := *v
				c.Name = fmt.Sprintf("%s@%s=%d", v.Name, sp[0], i)
				c.Pins = map[string]int{sp[0]: i}
				for k, x := range v.Pins {
					c.Pins[k] = x
				}
				next = append(next, &c)
			}
		}
		out = next
	}
	return out
}

func (h *Harness) directive(d string) {
	w := strings.Fields(d)
	if len(w) == 0 {
		return
	}
	num := func(i int) int {
		n, _ := strconv.Atoi(w[i])
		return n
	}
	switch w[0] {
	case "prop":
		h.Props = append(h.Props, strings.Split(w[1], ",")...)
	case "use":
		for _, x := range strings.Split(w[1], ",") {
			h.Use[x] = true
		}
	case "split":
		h.Split = append(h.Split, [2]string{w[1], w[2]})
	case "nomerge":
		if len(w) > 1 {
			h.MergeDepth = num(1)
		} else {
			h.NoMerge = true
		}
	case "draws":
		h.Draws = num(1)
	case "unwind":
		h.Unwind = num(1)
	case "lens":
		h.LensSet = true
		if len(w) > 1 {
			for _, x := range strings.Split(w[1], ",") {
				n, _ := strconv.Atoi(x)
				h.Lens = append(h.Lens, n)
			}
		}
	case "timeout":
		h.Timeout = num(1)
	case "assertms":
		h.AssertMs = num(1)
	case "feasms":
		h.FeasMs = num(1)
	case "tier":
		h.Tier = w[1]
	case "arch":
		h.Arch = w[1]
	case "cost":
		h.Cost = num(1)
	case "budget":
		h.Budget = num(1)
	case "tries":
		h.Tries = num(1)
	}
}

func goEnv(arch string) []string {
	env := os.Environ()
	var out []string
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOARCH=") {
			continue
		}
		out = append(out, e)
	}
	tags := ""
	if t, ok := strings.CutPrefix(arch, "tags_"); ok {
		tags, arch = " -tags="+t, ""
	}
	out = append(out, "GOFLAGS=-mod=mod -modfile="+filepath.Join(workDir, "repo.mod")+tags, "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	if arch != "" {
		out = append(out, "GOARCH="+arch)
	}
	return out
}

// prepareMod copies the module files used for loading.
func prepareMod() error {
	mod, err := os.ReadFile(filepath.Join(verifDir, "mod", "repo.mod"))
	if err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(verifDir, "mod", "repo.sum"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(workDir, "repo.mod"), mod, 0644); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(workDir, "repo.sum"), sum, 0644)
}

type Loaded struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package // by dir
	bad  map[string]string       // harness file -> load error
}

func load(dirs []string, arch string) (*Loaded, error) {
	L := &Loaded{pkgs: map[string]*ssa.Package{}, bad: map[string]string{}}
	for attempt := 0; attempt < 6; attempt++ {
		ov := map[string][]byte{}
		src := map[string]string{}
		add := func(m map[string]string) {
			for k, v := range m {
				if _, bad := L.bad[v]; bad {
					continue
				}
				b, _ := os.ReadFile(v)
				ov[k] = b
				src[k] = v
			}
		}
		add(vrtFiles())
		var pats []string
		for _, d := range dirs {
			rel := d
			if d == "" {
				rel = "_root"
			}
			add(overlayFiles(rel))
			pats = append(pats, "./"+d)
		}
		cfg := &packages.Config{
			Mode:    packages.LoadAllSyntax,
			Dir:     repoDir,
			Env:     goEnv(arch),
			Overlay: ov,
		}
		pk, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		redo := false
		var errs []string
		for _, p := range pk {
			for _, e := range p.Errors {
				file := e.Pos
				if i := strings.IndexByte(file, ':'); i >= 0 {
					file = file[:i]
				}
				if s, ok := src[file]; ok && !strings.Contains(s, "/vrt/") {
					if _, done := L.bad[s]; !done {
						L.bad[s] = e.Msg
						redo = true
					}
				} else {
					errs = append(errs, e.Error())
				}
			}
		}
		if redo {
			continue
		}
		if len(errs) > 0 {
			return nil, fmt.Errorf("%s", strings.Join(errs, "; "))
		}
		prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
		for _, p := range pk {
			sp := prog.Package(p.Types)
			r, _ := filepath.Rel(repoPath, p.PkgPath)
			if r == "." {
				r = ""
			}
			L.pkgs[r] = sp
		}
		L.prog = prog
		prog.Build()
		return L, nil
	}
	return nil, fmt.Errorf("harness files keep failing to load: %v", L.bad)
}

var _ = ast.Print
var _ = json.Marshal
