package main

// Symbolic execution of assembly functions: the package's .s files are
// assembled from the current source, disassembled, and interpreted one machine
// instruction at a time.  Straight-line code over 64-bit integer registers.

import (
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var asmCache = map[string]map[string][][]string{}

func asmInstrs(fn *ssa.Function) [][]string {
	pos := fn.Prog.Fset.Position(fn.Pos())
	dir := filepath.Dir(pos.Filename)
	m, ok := asmCache[dir]
	if !ok {
		m = map[string][][]string{}
		asmCache[dir] = m
		root := ""
		if b, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
			root = strings.TrimSpace(string(b))
		}
		fs, _ := filepath.Glob(filepath.Join(dir, "*_amd64.s"))
		for _, f := range fs {
			o := filepath.Join(workDir, "asm_"+filepath.Base(f)+".o")
			if out, err := exec.Command("go", "tool", "asm", "-p", "x", "-I", filepath.Join(root, "pkg/include"), "-D", "GOOS_linux", "-D", "GOARCH_amd64", "-o", o, f).CombinedOutput(); err != nil {
				panic(unsup("assembling %s: %s", filepath.Base(f), out))
			}
			out, err := exec.Command("go", "tool", "objdump", o).Output()
			os.Remove(o)
			if err != nil {
				panic(unsup("objdump: %v", err))
			}
			cur := ""
			for _, l := range strings.Split(string(out), "\n") {
				if strings.HasPrefix(l, "TEXT ") {
					cur = strings.TrimPrefix(strings.TrimSuffix(strings.Fields(l)[1], "(SB)"), "x.")
					continue
				}
				p := strings.Split(l, "\t")
				var q []string
				for _, x := range p {
					if x = strings.TrimSpace(x); x != "" {
						q = append(q, x)
					}
				}
				if cur == "" || len(q) < 4 {
					continue
				}
				ins := strings.SplitN(q[3], " ", 2)
				it := []string{ins[0]}
				if len(ins) == 2 {
					for _, a := range strings.Split(ins[1], ", ") {
						it = append(it, strings.TrimSpace(a))
					}
				}
				m[cur] = append(m[cur], it)
			}
		}
	}
	return m[fn.Name()]
}

type asmPtr struct {
	p   *Ptr // array of 64-bit words; nil for the stack
	off int64
}

// asmCall: all parameters are pointers to arrays of 64-bit words (ABI0).
func (c *CallCtx) asmCall(ins [][]string) []Out {
	regs := map[string]interface{}{"SP": asmPtr{nil, 0}}
	stack := map[int64]interface{}{}
	for i, a := range c.args {
		p, ok := a.(*Ptr)
		if !ok || p.isNil() {
			panic(unsup("assembly argument"))
		}
		stack[int64(8+8*i)] = asmPtr{p, 0}
	}
	mem := map[int]*Agg{}
	agg := func(p *Ptr) *Agg {
		a, ok := mem[p.obj]
		if !ok {
			o, ok := c.st.load(p).(*Agg)
			if !ok {
				panic(unsup("assembly memory operand"))
			}
			a = &Agg{append([]Val{}, o.els...)}
			mem[p.obj] = a
		}
		return a
	}
	num := func(s string) int64 {
		n, err := strconv.ParseInt(s, 0, 64)
		if err != nil {
			u, e := strconv.ParseUint(s, 0, 64)
			if e != nil {
				panic(unsup("assembly operand %s", s))
			}
			n = int64(u)
		}
		return n
	}
	addr := func(s string) asmPtr {
		i := strings.IndexByte(s, '(')
		r, ok := regs[s[i+1:len(s)-1]].(asmPtr)
		if !ok {
			panic(unsup("assembly address %s", s))
		}
		if i > 0 {
			r.off += num(s[:i])
		}
		return r
	}
	isMem := func(s string) bool { return strings.HasSuffix(s, ")") }
	get := func(s string) interface{} {
		switch {
		case strings.HasPrefix(s, "$"):
			return MkBV(uint64(num(s[1:])), 64)
		case isMem(s):
			a := addr(s)
			if a.p == nil {
				v, ok := stack[a.off]
				if !ok {
					panic(unsup("assembly reads uninitialised stack"))
				}
				return v
			}
			g := agg(a.p)
			if a.off%8 != 0 || a.off < 0 || int(a.off/8) >= len(g.els) {
				panic(unsup("assembly reads outside its argument"))
			}
			return g.els[a.off/8]
		}
		v, ok := regs[s]
		if !ok {
			return MkVar("asmreg!"+s, BVS(64))
		}
		return v
	}
	term := func(s string) *Term {
		t, ok := get(s).(*Term)
		if !ok || t.sort.W != 64 {
			panic(unsup("assembly value %s", s))
		}
		return t
	}
	set := func(s string, v interface{}) {
		if !isMem(s) {
			regs[s] = v
			return
		}
		a := addr(s)
		if a.p == nil {
			stack[a.off] = v
			return
		}
		g := agg(a.p)
		t, ok := v.(*Term)
		if !ok || a.off%8 != 0 || a.off < 0 || int(a.off/8) >= len(g.els) {
			panic(unsup("assembly writes outside its argument"))
		}
		g.els[a.off/8] = t
	}
	addSP := func(n int64) {
		r := regs["SP"].(asmPtr)
		r.off += n
		regs["SP"] = r
	}
	for pc, in := range ins {
		c.ex.instrs++
		op := in[0]
		switch op {
		case "RET":
			for _, a := range c.args {
				p := a.(*Ptr)
				if g, ok := mem[p.obj]; ok {
					c.st.store(p, g)
				}
			}
			return c.ret(&Tuple{})
		case "CMPQ":
			// the stack-split check of the prologue
			if pc+1 < len(ins) && ins[pc+1][0] == "JBE" && in[2] == "0x10(R14)" && pc < 4 {
				continue
			}
			panic(unsup("assembly comparison"))
		case "JBE":
			if pc < 5 {
				continue
			}
			panic(unsup("assembly branch"))
		case "LEAQ":
			if isMem(in[1]) {
				set(in[2], addr(in[1]))
				continue
			}
			panic(unsup("assembly LEAQ"))
		case "MOVQ":
			if in[1] == "FS:0" {
				continue
			}
			set(in[2], get(in[1]))
		case "MOVL":
			if !strings.HasPrefix(in[1], "$") || isMem(in[2]) {
				panic(unsup("assembly MOVL"))
			}
			set(in[2], MkBV(uint64(uint32(num(in[1][1:]))), 64))
		case "PUSHQ":
			v := get(in[1])
			addSP(-8)
			set("0(SP)", v)
		case "POPQ":
			set(in[1], get("0(SP)"))
			addSP(8)
		case "ADDQ", "SUBQ":
			if in[2] == "SP" && strings.HasPrefix(in[1], "$") {
				n := num(in[1][1:])
				if op == "SUBQ" {
					n = -n
				}
				addSP(n)
				continue
			}
			if op == "ADDQ" {
				set(in[2], MkAdd(term(in[1]), term(in[2])))
			} else {
				set(in[2], MkSub(term(in[2]), term(in[1])))
			}
		case "XORQ":
			if in[1] == in[2] && !isMem(in[1]) {
				set(in[2], MkBV(0, 64))
			} else {
				set(in[2], MkXor(term(in[2]), term(in[1])))
			}
		case "ANDQ":
			set(in[2], MkBAnd(term(in[2]), term(in[1])))
		case "ORQ":
			set(in[2], MkBOr(term(in[2]), term(in[1])))
		case "NOTQ":
			set(in[1], MkBNot(term(in[1])))
		case "ROLQ", "RORQ":
			n := num(strings.TrimPrefix(in[1], "$")) & 63
			if op == "RORQ" {
				n = (64 - n) & 63
			}
			t := term(in[2])
			if n != 0 {
				t = MkConcat(MkExtract(t, 63-int(n), 0), MkExtract(t, 63, 64-int(n)))
			}
			set(in[2], t)
		case "SHLQ", "SHRQ":
			n := int(num(strings.TrimPrefix(in[1], "$"))) & 63
			t := term(in[2])
			if n != 0 {
				if op == "SHLQ" {
					t = MkConcat(MkExtract(t, 63-n, 0), MkBV(0, n))
				} else {
					t = MkConcat(MkBV(0, n), MkExtract(t, 63, n))
				}
			}
			set(in[2], t)
		case "NOPL", "NOPW", "NOP", "XCHGL":
		default:
			panic(unsup("assembly instruction %s", op))
		}
	}
	panic(unsup("assembly without RET"))
}
