package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect analysis of the library packages: what a function can touch besides
// its arguments. It is a flow-insensitive, field-based may-alias analysis over
// the SSA form, run to a fixpoint.

var libPkgs = []string{"ecmascript/ast", "ecmascript/errs", "ecmascript/lexer", "ecmascript/parser"}

// probeSpec is overlaid on the ast package: it contains one instance of each
// forbidden effect, which must be reported on every run.
const probeSpec = `package ast

import (
	"fmt"
	"os"
	"sync"
	"time"
)

var vProbeMap = map[string]int{}
var vProbeStruct struct{ p *vProbeT }

type vProbeT struct{ n int }

func vProbeGlobal(k string)       { vProbeMap[k] = 1 }
func vProbeGet() *vProbeT         { return vProbeStruct.p }
func vProbeIndirect()             { vProbeSet(vProbeGet()) }
func vProbeSet(t *vProbeT)        { t.n = 1 }
func vProbePrint()                { fmt.Println("x") }
func vProbeFile()                 { os.Remove("x") }
func vProbeTime() int             { return time.Now().Day() }
func vProbeGo()                   { go vProbePrint() }
func vProbePool(p *sync.Pool)     { p.Put(1) }
func vProbeRange() (s string)     { for k := range vProbeMap { s += k }; return }
func vProbePrintln()              { println("x") }
func vProbeValue() func(int)      { return os.Exit }
`

var probeWant = map[string][]string{
	"purity":    {"vProbePrint", "vProbeFile", "vProbeTime", "vProbeGo", "vProbePrintln", "vProbeValue", "vProbePool"},
	"isolation": {"vProbeGlobal", "vProbeSet", "vProbeTime", "vProbeGo", "vProbeRange", "vProbePool"},
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true,
	"errors": true, "math": true, "math/big": true, "math/bits": true, "math/cmplx": true, "bytes": true,
	"sort": true, "slices": true, "maps": true, "cmp": true, "io": true, "bufio": true, "net/url": true,
	"container/list": true, "container/heap": true, "container/ring": true, "regexp": true, "regexp/syntax": true,
	"encoding/json": true, "encoding/hex": true, "encoding/binary": true, "iter": true, "text/tabwriter": true,
	"internal/cpu": true, "reflect": true, "path": true, "hash/fnv": true, "hash": true,
}

var pureFmt = map[string]bool{
	"Sprintf": true, "Sprint": true, "Sprintln": true, "Errorf": true, "Append": true, "Appendf": true, "Appendln": true,
	"Sscanf": true, "Sscan": true, "Sscanln": true,
}

type effects struct {
	p      *Prog
	funcs  []*ssa.Function
	taint  map[ssa.Value]string // global the value may point into
	cells  map[string]string
	work   bool
	sites  int
	stores int
	finds  []*Finding
	byName map[string][]*ssa.Function
	isInit map[*ssa.Function]bool
}

func newEffects(p *Prog, pkgs []string) *effects {
	a := &effects{p: p, taint: map[ssa.Value]string{}, cells: map[string]string{}, byName: map[string][]*ssa.Function{}, isInit: map[*ssa.Function]bool{}}
	in := map[*ssa.Package]bool{}
	for _, s := range pkgs {
		if q := p.pkg(s); q != nil {
			in[q] = true
		}
	}
	for _, f := range p.allFuncs() {
		if in[f.Pkg] {
			a.funcs = append(a.funcs, f)
			if f.Signature.Recv() != nil {
				a.byName[f.Name()] = append(a.byName[f.Name()], f)
			}
			top := f
			for top.Parent() != nil {
				top = top.Parent()
			}
			if top.Signature.Recv() == nil && (top.Name() == "init" || strings.HasPrefix(top.Name(), "init#")) {
				a.isInit[f] = true
			}
		}
	}
	return a
}

func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerLike(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointerLike(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerLike(u.At(i).Type()) {
				return true
			}
		}
		return false
	case *types.Signature:
		return false
	}
	return true
}

func (a *effects) mark(v ssa.Value, g string) {
	if v == nil || g == "" || a.taint[v] != "" {
		return
	}
	a.taint[v] = g
	a.work = true
}

func (a *effects) markCell(k, g string) {
	if k == "" || g == "" || a.cells[k] != "" {
		return
	}
	a.cells[k] = g
	a.work = true
}

// cell names the abstract memory location of an address.
func cell(addr ssa.Value) string {
	switch v := addr.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("field %s.%d", deref(v.X.Type()), v.Field)
	case *ssa.IndexAddr:
		return "elem " + v.Type().String()
	case *ssa.Alloc:
		return fmt.Sprintf("alloc %s %s", v.Parent(), v.Name())
	case *ssa.Global:
		return "global " + v.String()
	}
	return "mem " + addr.Type().String()
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (a *effects) callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		var out []*ssa.Function
		for _, f := range a.byName[c.Method.Name()] {
			out = append(out, f)
		}
		return out
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	// A call of a function value: any function of the same signature.
	var out []*ssa.Function
	for _, f := range a.funcs {
		if types.Identical(f.Signature, c.Signature()) {
			out = append(out, f)
		}
	}
	return out
}

// solve computes what may point into package-level variables.
func (a *effects) solve() {
	for {
		a.work = false
		for _, f := range a.funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					a.transfer(f, ins)
				}
			}
		}
		if !a.work {
			return
		}
	}
}

func (a *effects) of(v ssa.Value) string {
	if g, ok := v.(*ssa.Global); ok {
		if g.Pkg != nil && a.p.Pkgs[g.Pkg.Pkg.Path()] != nil {
			return g.Name()
		}
		return g.String()
	}
	return a.taint[v]
}

func (a *effects) transfer(f *ssa.Function, ins ssa.Instruction) {
	pass := func(v ssa.Value, xs ...ssa.Value) {
		if !pointerLike(v.Type()) {
			return
		}
		for _, x := range xs {
			a.mark(v, a.of(x))
		}
	}
	switch i := ins.(type) {
	case *ssa.FieldAddr:
		pass(i, i.X)
	case *ssa.IndexAddr:
		pass(i, i.X)
	case *ssa.Field:
		pass(i, i.X)
	case *ssa.Index:
		pass(i, i.X)
	case *ssa.Lookup:
		pass(i, i.X)
	case *ssa.Slice:
		pass(i, i.X)
	case *ssa.UnOp:
		if i.Op == token.MUL {
			pass(i, i.X)
			if pointerLike(i.Type()) {
				a.mark(i, a.cells[cell(i.X)])
			}
		}
	case *ssa.Phi:
		pass(i, i.Edges...)
	case *ssa.ChangeType:
		pass(i, i.X)
	case *ssa.Convert:
		pass(i, i.X)
	case *ssa.MakeInterface:
		pass(i, i.X)
	case *ssa.ChangeInterface:
		pass(i, i.X)
	case *ssa.TypeAssert:
		pass(i, i.X)
	case *ssa.SliceToArrayPointer:
		pass(i, i.X)
	case *ssa.Extract:
		pass(i, i.Tuple)
	case *ssa.Range:
		a.mark(i, a.of(i.X))
	case *ssa.Next:
		pass(i, i.Iter)
	case *ssa.Store:
		if pointerLike(i.Val.Type()) {
			if _, ok := i.Val.(*ssa.Global); ok || a.taint[i.Val] != "" {
				a.markCell(cell(i.Addr), a.of(i.Val))
			}
		}
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		for k, b := range i.Bindings {
			if pointerLike(fn.FreeVars[k].Type()) {
				a.mark(fn.FreeVars[k], a.of(b))
				if g := a.cells[cell(b)]; g != "" {
					a.markCell(cell(fn.FreeVars[k]), g)
				}
			}
		}
	case *ssa.Return:
	}
	if ci, ok := ins.(ssa.CallInstruction); ok {
		c := ci.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" && ci.Value() != nil {
				pass(ci.Value(), c.Args...)
			}
			return
		}
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, args...)
		}
		for _, fn := range a.callees(c) {
			if fn.Blocks == nil {
				continue
			}
			for k, p := range fn.Params {
				if k < len(args) && pointerLike(p.Type()) {
					a.mark(p, a.of(args[k]))
				}
			}
			if v := ci.Value(); v != nil && pointerLike(v.Type()) {
				for _, b := range fn.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, w := range r.Results {
							if pointerLike(w.Type()) {
								a.mark(v, a.of(w))
							}
						}
					}
				}
			}
		}
	}
}

func (a *effects) report(kind string, f *ssa.Function, pos token.Pos, format string, args ...interface{}) {
	if !pos.IsValid() {
		pos = f.Pos()
	}
	a.finds = append(a.finds, &Finding{Kind: kind, Where: f.RelString(nil), Pos: a.p.pos(pos), Msg: fmt.Sprintf(format, args...)})
}

func extPkg(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if f.Origin() != nil && f.Origin().Pkg != nil {
		return f.Origin().Pkg.Pkg.Path()
	}
	return ""
}

func (a *effects) inRepo(f *ssa.Function) bool {
	pk := extPkg(f)
	return pk == "" || strings.HasPrefix(pk, modPath)
}

// memWriter reports whether an io.Writer argument is an in-memory buffer.
func memWriter(v ssa.Value) bool {
	if m, ok := v.(*ssa.MakeInterface); ok {
		switch m.X.Type().String() {
		case "*strings.Builder", "*bytes.Buffer":
			return true
		}
	}
	return false
}

func (a *effects) pureCallee(fn *ssa.Function, args []ssa.Value) bool {
	pk := extPkg(fn)
	if pk == "fmt" {
		if pureFmt[fn.Name()] {
			return true
		}
		if strings.HasPrefix(fn.Name(), "Fprint") && len(args) > 0 && memWriter(args[0]) {
			return true
		}
		return false
	}
	return purePkgs[pk]
}

// purity: no library function reaches the process's surroundings.
func (a *effects) purity() {
	for _, f := range a.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Go:
					a.report("effect", f, i.Pos(), "starts a goroutine")
				case *ssa.Send, *ssa.Select:
					a.report("effect", f, ins.Pos(), "communicates over a channel")
				case *ssa.Convert:
					if bt, ok := i.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
						a.report("effect", f, i.Pos(), "converts a pointer to unsafe.Pointer")
					}
				}
				if ci, ok := ins.(ssa.CallInstruction); ok {
					a.sites++
					c := ci.Common()
					switch fn := c.Value.(type) {
					case *ssa.Builtin:
						if n := fn.Name(); n == "print" || n == "println" {
							a.report("effect", f, ci.Pos(), "prints with %s", n)
						}
					default:
						if c.IsInvoke() {
							a.invoke(f, c, ci.Pos())
						} else if fn := c.StaticCallee(); fn != nil && !a.inRepo(fn) && fn.Name() != "init" && !a.pureCallee(fn, c.Args) {
							a.report("effect", f, ci.Pos(), "calls %s", fn.RelString(nil))
						}
					}
				}
				if a.isInit[f] && f.Name() == "init" && f.Synthetic != "" {
					if ci, ok := ins.(ssa.CallInstruction); ok {
						if fn := ci.Common().StaticCallee(); fn != nil && fn.Name() == "init" {
							continue
						}
					}
				}
				var ops []*ssa.Value
				for _, op := range ins.Operands(ops) {
					if *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Function:
						if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().Value == v {
							continue
						}
						if !a.inRepo(v) && !a.pureCallee(v, nil) {
							a.report("effect", f, ins.Pos(), "uses %s as a value", v.RelString(nil))
						}
					case *ssa.Global:
						if v.Pkg != nil && a.p.Pkgs[v.Pkg.Pkg.Path()] == nil && !purePkgs[v.Pkg.Pkg.Path()] {
							if !a.isInit[f] || v.Name() != "init$guard" {
								a.report("effect", f, ins.Pos(), "uses the variable %s", v.String())
							}
						}
					}
				}
			}
		}
	}
}

// Interfaces that are implemented by the caller of the library: what their
// methods do is up to the caller.
var givenIface = map[string]bool{"io": true, "bufio": true}

func (a *effects) invoke(f *ssa.Function, c *ssa.CallCommon, pos token.Pos) {
	t := c.Value.Type()
	if n, ok := types.Unalias(t).(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() == nil || strings.HasPrefix(o.Pkg().Path(), modPath) || givenIface[o.Pkg().Path()] || purePkgs[o.Pkg().Path()] {
			return
		}
		if o.Pkg().Path() == "fmt" && o.Name() == "Stringer" {
			return
		}
		a.report("effect", f, pos, "calls method %s of %s", c.Method.Name(), n)
		return
	}
}

// Functions outside the repository that only read what they are given.
func readsOnly(fn *ssa.Function, argIndex int) bool {
	switch extPkg(fn) {
	case "unicode", "unicode/utf8", "unicode/utf16", "errors", "strconv", "fmt", "math", "math/bits", "regexp", "reflect", "path":
		return true
	case "strings", "bytes":
		if r := fn.Signature.Recv(); r != nil {
			return typeName(r.Type()) == "*Replacer"
		}
		return true
	case "math/big":
		if fn.Signature.Recv() == nil {
			return true
		}
		switch fn.Name() {
		case "Cmp", "CmpAbs", "Sign", "String", "Text", "Int64", "Uint64", "IsInt64", "IsUint64", "Float64", "BitLen", "Bit", "Bytes":
			return true
		}
		return argIndex > 0
	case "net/url":
		return fn.Signature.Recv() != nil
	}
	return false
}

// isolation: no library function writes memory that outlives a call through a
// package-level variable, and nothing depends on time, scheduling or map order.
func (a *effects) isolation() {
	a.solve()
	for _, f := range a.funcs {
		if a.isInit[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					a.stores++
					if g := a.of(i.Addr); g != "" {
						a.report("shared", f, i.Pos(), "writes to memory of the package-level variable %s", g)
					}
				case *ssa.MapUpdate:
					a.stores++
					if g := a.of(i.Map); g != "" {
						a.report("shared", f, i.Pos(), "writes to memory of the package-level variable %s", g)
					}
				case *ssa.Go:
					a.report("shared", f, i.Pos(), "starts a goroutine")
				case *ssa.Send, *ssa.Select:
					a.report("shared", f, ins.Pos(), "communicates over a channel")
				case *ssa.Range:
					if _, ok := i.X.Type().Underlying().(*types.Map); ok {
						a.report("order", f, i.Pos(), "iterates over a map, whose order varies from run to run")
					}
				}
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				a.sites++
				c := ci.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append", "copy", "delete", "clear":
						a.stores++
						g := a.of(c.Args[0])
						if bi.Name() == "append" {
							// Appending to the full slice of a variable may write behind its end.
							if cst, ok := c.Args[0].(*ssa.Const); ok && cst.IsNil() {
								g = ""
							}
						}
						if g != "" {
							a.report("shared", f, ci.Pos(), "%ss memory of the package-level variable %s", bi.Name(), g)
						}
					}
					continue
				}
				fn := c.StaticCallee()
				if fn == nil || a.inRepo(fn) {
					continue
				}
				switch pk := extPkg(fn); pk {
				case "time", "math/rand", "math/rand/v2", "crypto/rand", "os", "runtime", "sync", "sync/atomic", "unsafe", "syscall":
					a.report("shared", f, ci.Pos(), "depends on %s", fn.RelString(nil))
					continue
				case "maps":
					a.report("order", f, ci.Pos(), "iterates over a map with %s, whose order varies from run to run", fn.RelString(nil))
				}
				for k, v := range c.Args {
					if g := a.of(v); g != "" && pointerLike(v.Type()) && !readsOnly(fn, k) {
						a.report("shared", f, ci.Pos(), "hands memory of the package-level variable %s to %s", g, fn.RelString(nil))
					}
				}
				if extPkg(fn) == "fmt" {
					for _, v := range c.Args {
						if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
							a.report("order", f, ci.Pos(), "formats an address")
						}
					}
				}
			}
		}
	}
}

// split separates the findings in the probe functions from the others, and
// tells which probes were not reported.
func (a *effects) split(want []string) (finds []*Finding, missed []string) {
	hit := map[string]bool{}
	for _, f := range a.finds {
		if i := strings.LastIndex(f.Where, ".vProbe"); i >= 0 {
			hit[f.Where[i+1:]] = true
			continue
		}
		if strings.HasSuffix(f.Where, "ast.init") {
			continue
		}
		finds = append(finds, f)
	}
	for _, w := range want {
		if !hit[w] {
			missed = append(missed, w)
		}
	}
	sort.Strings(missed)
	return
}
