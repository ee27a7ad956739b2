package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// driver is a pair of programs that are compared: one that uses the code of the
// repository, and one that uses its reference.
type driver struct {
	name  string // vDrive<name>Impl and vDrive<name>Spec
	pkg   string
	entry func(c *driverClient, s *State) []Value // arguments
	// wrap has the functions that are executed in place of others.
	wrap map[string]string
	// models has the functions that are executed in place of functions of other packages.
	models map[string]string
	// loose is set if lists and counters may be forgotten.
	loose bool
	js    bool
	// whether no exploration may find less events
	events []string
	desc   string
}

// driverClient gives the meaning of what the drivers use.
type driverClient struct {
	p    *Prog
	e    *Engine
	d    *driver
	pk   *ssa.Package
	ev   map[*ssa.Function]*NT
	wrap map[*ssa.Function]*ssa.Function
	repl map[string]*ssa.Function // models
	cur  *Product
}

func newDriverClient(p *Prog, e *Engine, d *driver) (*driverClient, error) {
	c := &driverClient{p: p, e: e, d: d, ev: map[*ssa.Function]*NT{}, wrap: map[*ssa.Function]*ssa.Function{}}
	c.pk = p.pkg(d.pkg)
	if c.pk == nil {
		return nil, fmt.Errorf("package %s not found", d.pkg)
	}
	for n, m := range c.pk.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(n, "v") {
			continue
		}
		if n == "vChoose" || strings.HasPrefix(n, "vSome") || strings.HasPrefix(n, "vOut") {
			c.ev[f] = &NT{name: n, impl: f, spec: f, pure: true}
		}
	}
	for from, to := range d.wrap {
		f, g := c.function(from), c.pk.Func(to)
		if f == nil || g == nil {
			return nil, fmt.Errorf("%s not found", from)
		}
		c.wrap[f] = g
	}
	c.repl = map[string]*ssa.Function{}
	for from, to := range d.models {
		if c.repl[from] = c.pk.Func(to); c.repl[from] == nil {
			return nil, fmt.Errorf("%s not found", to)
		}
	}
	e.history = 0
	e.nodeType = types.NewInterfaceType(nil, nil)
	return c, nil
}

// function finds a function or method of the package.
func (c *driverClient) function(n string) *ssa.Function {
	t, m, ok := strings.Cut(n, ".")
	if !ok {
		return c.pk.Func(n)
	}
	ty := c.pk.Type(t)
	if ty == nil {
		return nil
	}
	for _, f := range methodsOf(c.p, ty.Type()) {
		if f.Name() == m {
			return f
		}
	}
	return nil
}

func (c *driverClient) domain(x *Exec, t *Term) IntSet {
	if t.Op == "rune" {
		return setRange(-2, unicode.MaxRune)
	}
	return nil
}

func (c *driverClient) sym(x *Exec, pos int) *Term {
	s := x.s
	i := pos - s.strm.base
	if i < 0 {
		giveUp("input %d before the window", -i)
	}
	for len(s.strm.syms) <= i {
		if c.d.pkg == "ecmascript/lexer" {
			s.strm.syms = append(s.strm.syms, s.fresh("rune", runeType))
		} else {
			s.strm.syms = append(s.strm.syms, s.fresh("tok", c.tokenType()))
		}
	}
	return s.strm.syms[i]
}

func (c *driverClient) tokenType() types.Type {
	return c.p.pkg("ecmascript/lexer").Type("Token").Type()
}

func (c *driverClient) call(x *Exec, fn *ssa.Function, name string, args []Value, site ssa.CallInstruction) (Value, bool) {
	if nt := c.ev[fn]; nt != nil {
		ev := &CallEvent{nt: nt}
		for _, a := range args {
			if v, ok := a.(VInt); ok {
				a = x.norm(v)
			}
			ev.args = append(ev.args, a)
		}
		x.t.call = ev
		panic(pause{stCall})
	}
	if w := c.wrap[fn]; w != nil {
		x.e.push(x.s, x.t, w, args, nil)
		panic(pause{stRun})
	}
	if w := c.repl[name]; w != nil {
		x.e.push(x.s, x.t, w, args, nil)
		panic(pause{stRun})
	}
	if c.repl["os.Open"] != nil {
		switch name {
		case "flag.Args", "path/filepath.Abs", "(syscall/js.Value).String":
			if name == "flag.Args" {
				name = "vArgs"
			}
			return x.pure(fn, name, args), true
		}
		if fn.Blocks == nil && !c.harmless(fn) {
			giveUp("call of %s", name)
		}
		if fn.Pkg == c.pk && (fn.Name() == "vArgs" || fn.Name() == "vJSON") {
			return x.pure(fn, fn.Name(), args), true
		}
	}
	switch name {
	case "errors.Is":
		// Only the errors of the model occur.
		v, ok := args[0].(*VIface)
		if _, null := args[0].(VNil); null {
			return vbool(false), true
		}
		w, ok2 := args[1].(*VIface)
		if ok && ok2 {
			return vbool(types.Identical(v.Type, w.Type) && sameValue(v.V, w.V)), true
		}
		return nil, false
	case "(*" + lexerPkg + ".Lexer).Lex":
		if c.d.pkg == "ecmascript/parser" {
			t := c.sym(x, x.t.pos)
			x.t.pos++
			x.yield, x.scanned = true, true
			return x.termVal(t), true
		}
	case "(*" + lexerPkg + ".Lexer).ReLex":
		if c.d.pkg == "ecmascript/parser" {
			t := c.sym(x, x.t.pos)
			x.t.pos++
			x.yield, x.scanned = true, true
			return x.termVal(mkApp("relex", fn.Signature.Results().At(0).Type(), t)), true
		}
	case "(*" + lexerPkg + ".Lexer).Location":
		if c.d.pkg == "ecmascript/parser" {
			return x.termVal(mkApp("loc", fn.Signature.Results().At(0).Type(), c.sym(x, x.t.pos))), true
		}
	case "(" + lexerPkg + ".Token).Source", "(" + lexerPkg + ".TokenType).String":
		if c.d.name != "Source" || name[len(name)-1] == 'g' {
			return x.s.fresh("text", types.Typ[types.String]), true
		}
	}
	if fn.Pkg == c.pk && isSpecFn(fn) {
		switch fn.Name() {
		case "vRead":
			r := x.norm(VInt{T: c.sym(x, x.t.pos)})
			if x.test(c.sym(x, x.t.pos), setRange(-2, -1)) {
				return x.norm(r), true
			}
			x.t.pos++
			x.yield, x.scanned = true, true
			return x.norm(r), true
		case "vBack":
			x.t.pos--
			if x.t.pos < x.s.strm.base {
				giveUp("unreads a rune that has been forgotten")
			}
			return VTuple{}, true
		case "vReadErr":
			return &VIface{readError, mkApp("readerr", types.Typ[types.String], c.sym(x, x.t.pos))}, true
		}
	}
	return nil, false
}

var readError = errorType("read error")

func (c *driverClient) invoke(x *Exec, recv *Term, m *types.Func, args []Value) (Value, bool) {
	if len(c.d.models) > 0 && (m.Name() == "ESTree" || m.Name() == "Error") {
		return x.termVal(mkApp(m.Name(), m.Type().(*types.Signature).Results().At(0).Type(), recv)), true
	}
	return nil, false
}

func (c *driverClient) strEq(x *Exec, s Value, k string) (bool, bool) { return false, false }

// harmless tells whether a function of another package does nothing but compute
// something, or write to the log.
func (c *driverClient) harmless(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return true
	}
	switch p, n := fn.Pkg.Pkg.Path(), fn.Name(); p {
	case "strings", "strconv", "path", "path/filepath", "net/url", "errors", "unicode", "unicode/utf8", "bytes", "slices":
		return true
	case "fmt":
		return strings.HasPrefix(n, "S") && !strings.Contains(n, "can") || n == "Errorf"
	case "log":
		return n == "SetFlags" || n == "SetPrefix" || n == "Flags" || n == "Prefix"
	}
	return false
}

// quiet tells whether a deferred call only closes files and writes to the log.
func (c *driverClient) quiet(call *ssa.CallCommon) bool {
	if len(c.d.models) == 0 || call.IsInvoke() {
		return false
	}
	is := func(fn *ssa.Function) bool {
		n := fnName(fn)
		return n == "(*os.File).Close" || strings.HasPrefix(n, "log.Print")
	}
	fn := call.StaticCallee()
	if fn == nil {
		return false
	}
	if is(fn) {
		return true
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Call:
				if g := i.Call.StaticCallee(); g == nil || !is(g) {
					return false
				}
			case *ssa.Store:
				a := i.Addr
				for {
					if f, ok := a.(*ssa.IndexAddr); ok {
						a = f.X
					} else if f, ok := a.(*ssa.FieldAddr); ok {
						a = f.X
					} else {
						break
					}
				}
				if _, ok := a.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic:
				return false
			}
		}
	}
	return len(fn.Blocks) > 0
}

func (c *driverClient) grant(x *Exec, ev *CallEvent) Value {
	n := ev.nt.name
	x.s.moved = true
	rs := ev.nt.impl.Signature.Results()
	switch {
	case n == "vChoose":
		c.generalise(x.s)
		t := x.s.fresh("choice", types.Typ[types.Int])
		x.s.set(t, setRange(0, ev.args[0].(VInt).K-1))
		return VInt{T: t}
	case rs.Len() == 0:
		return VTuple{}
	case n == "vSomeErr":
		return &VIface{errorString, x.s.fresh("error", errorString)}
	}
	t := x.s.fresh("some", rs.At(0).Type())
	if types.IsInterface(t.Type) {
		x.s.set(x.typeofTerm(t), setRange(1, 1<<20))
	}
	return x.termVal(t)
}

// history keeps a rune that may be unread.
func (c *driverClient) history(s *State) int { return 1 }

// generalise makes large counters symbolic: what both programs count is known up
// to what it was at some earlier time.
func (c *driverClient) generalise(s *State) {
	const big, far = 4, 3
	type atom struct {
		t *Term
		k int64
	}
	small := int64(big)
	known := func(v VInt) VInt {
		if v.T != nil {
			if d, ok := s.cons[v.T.raw]; ok && d.set.size() == 1 {
				k := d.set[0].lo
				if v.Neg {
					k = -k
				}
				return vint(k + v.K)
			}
		}
		return v
	}
	each := func(f func(v VInt) Value) {
		for o, v := range s.heap {
			s.heap[o] = mapInts(v, func(v VInt) Value { return f(known(v)) })
		}
	}
	split := func(v VInt) (*Term, int64, bool) {
		switch {
		case v.T == nil && v.K >= small:
			return nil, v.K, false
		case v.T == nil && v.K <= -small:
			return nil, -v.K, true
		case v.T != nil && v.T.Op == "idx" && !v.Neg:
			return v.T, v.K, false
		case v.T != nil && v.T.Op == "idx":
			return v.T, -v.K, true
		}
		return nil, 0, false
	}
	each(func(v VInt) Value {
		if v.T == nil && (v.K >= big || v.K <= -big) {
			small = big - 1
		}
		return v
	})
	ks := map[string][]int64{}
	syms := map[string]*Term{}
	each(func(v VInt) Value {
		t, k, _ := split(v)
		if t == nil && k == 0 {
			return v
		}
		n := ""
		if t != nil {
			n = t.raw
		}
		syms[n] = t
		ks[n] = append(ks[n], k)
		return v
	})
	repl := map[string]map[int64]VInt{}
	for n, l := range ks {
		sortInts(l)
		repl[n] = map[int64]VInt{}
		var base *Term
		var start, last int64
		for _, k := range l {
			if base == nil || k-last > far || n == "" && k-last > 1 {
				base = s.fresh("idx", types.Typ[types.Int])
				start = k
				lo := k
				if t := syms[n]; t != nil {
					lo += s.cons[t.raw].set[0].lo
				}
				s.set(base, setRange(min(lo, big), maxInt))
			}
			last = k
			repl[n][k] = VInt{T: base, K: k - start}
		}
	}
	each(func(v VInt) Value {
		t, k, neg := split(v)
		if t == nil && k == 0 {
			return v
		}
		n := ""
		if t != nil {
			n = t.raw
		}
		w := repl[n][k]
		if neg {
			w.Neg, w.K = true, -w.K
		}
		return w
	})
}

func sortInts(l []int64) {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// mapInts maps the fields of type int of structures.
func mapInts(v Value, f func(v VInt) Value) Value {
	s, ok := v.(*VStruct)
	if !ok {
		return v
	}
	st := structOf(s.Type)
	if st == nil {
		return v
	}
	fs := append([]Value{}, s.F...)
	for i := range fs {
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			if n, ok := fs[i].(VInt); ok {
				fs[i] = f(n)
			}
		} else {
			fs[i] = mapInts(fs[i], f)
		}
	}
	return &VStruct{s.Type, fs}
}

func (c *driverClient) finish(x *Exec) {}
func (c *driverClient) free(x *Exec)   {}

func (c *driverClient) failure(x *Exec, v Value) (bool, string) {
	return false, "panics with " + rawKey(v)
}

func (c *driverClient) collapsible(t types.Type) bool           { return false }
func (c *driverClient) forgotten(x *Exec, old Value, sym *Term) {}

func (c *driverClient) symText(s *State, t *Term) string {
	if t == nil {
		return "?"
	}
	if k, ok := s.cons[t.raw]; ok && t.Op == "rune" && k.set.size() < 8 {
		return "[" + runeText(k.set) + "]"
	}
	return t.Op
}

func (c *driverClient) start() (*State, error) {
	s := &State{heap: map[int]Value{}, cons: map[string]con{}}
	im, sp := &Thread{}, &Thread{}
	s.th[0], s.th[1] = im, sp
	for tid, n := range []string{"Impl", "Spec"} {
		f := c.pk.Func("vDrive" + c.d.name + n)
		if f == nil {
			return nil, fmt.Errorf("vDrive%s%s not found", c.d.name, n)
		}
		if tid == 0 {
			var args []Value
			for _, p := range f.Params {
				t := s.fresh("in", p.Type())
				if _, ok := p.Type().Underlying().(*types.Pointer); ok {
					s.set(mkApp("isnil", types.Typ[types.Bool], t), setOf(0))
				}
				if _, ok := p.Type().Underlying().(*types.Slice); ok {
					args = append(args, &VList{Base: t})
					continue
				}
				args = append(args, t)
			}
			s.extra = map[string]Value{"args": VTuple(args)}
		}
		args := append([]Value{}, s.extra["args"].(VTuple)...)
		c.e.push(s, s.th[tid], f, args, nil)
	}
	return s, nil
}

// runDriver compares a pair of drivers.
func runDriver(p *Prog, d *driver, end time.Time) ([]*Finding, *Product, error) {
	e := newEngine(p)
	if err := e.initPackages(); err != nil {
		return nil, nil, err
	}
	c, err := newDriverClient(p, e, d)
	if err != nil {
		return nil, nil, err
	}
	e.cl = c
	q := newProduct(e, c, d.name)
	q.exact, q.lockstep, q.forget = !d.loose, d.loose, d.loose
	q.limit = 1 << 30
	q.deadline = end
	c.cur = q
	func() {
		defer func() {
			if r := recover(); r != nil {
				q.find(nil, "undecided", "?", "", "the analysis failed: %v", r)
			}
		}()
		s, err := c.start()
		if err != nil {
			q.find(nil, "undecided", "?", "", "%v", err)
			return
		}
		q.start(s)
		q.solve()
		if q.cut {
			q.find(nil, "undecided", "?", "", "not finished in time")
		}
	}()
	var out []*Finding
	for _, k := range sortedFinds(q.finds) {
		out = append(out, q.finds[k])
	}
	return out, q, nil
}

// mainModels has what the commands use.
var mainReplaced = map[string]string{
	"os.Open": "vOpen", "os.OpenFile": "vOpenFile", "(*os.File).Close": "vClose",
	"bufio.NewReader": "vBufio", "bufio.NewReaderSize": "vBufioSize", "strings.NewReader": "vStringReader",
	lexerPkg + ".NewScanner": "vNewScanner", lexerPkg + ".NewLexer": "vNewLexer",
	parserPkg + ".NewParser": "vNewParser", "(*" + parserPkg + ".Parser).Parse": "vParse",
	"encoding/json.NewEncoder": "vNewEncoder", "(*encoding/json.Encoder).SetIndent": "vSetIndent",
	"(*encoding/json.Encoder).SetEscapeHTML": "vSetEscapeHTML", "(*encoding/json.Encoder).Encode": "vEncode",
	"(*os.File).Write": "vWrite", "(*os.File).WriteString": "vWriteString", "io.WriteString": "vIOWriteString",
	"fmt.Fprint": "vFprint", "fmt.Fprintln": "vFprintln", "fmt.Fprintf": "vFprintf",
	"fmt.Print": "vPrint", "fmt.Println": "vPrintln", "fmt.Printf": "vPrintf",
	"flag.Parse": "vFlagParse", "flag.NArg": "vNArg", "flag.Arg": "vArg",
	"log.Print": "vLog", "log.Println": "vLog", "log.Printf": "vLogf",
	"log.Fatal": "vFatal", "log.Fatalln": "vFatal", "log.Fatalf": "vFatalf", "os.Exit": "vOsExit",
}

var drivers = map[string]*driver{
	"CLI":       {name: "CLI", pkg: "cmd/estree", loose: true, models: mainReplaced, events: []string{"vOutFlags", "vOutOpen", "vOutWrite", "vOutParse", "vOutJSON", "vOutExit"}},
	"Web":       {name: "Web", pkg: "web/parser", loose: true, js: true, models: mainReplaced, events: []string{"vOutParse", "vOutResult"}},
	"Scanner":   {name: "Scanner", pkg: "ecmascript/lexer", events: []string{"vOutRune", "vOutLoc", "vOutErr"}},
	"Constants": {name: "Constants", pkg: "ecmascript/lexer", events: []string{"vSomeText"}},
	"Strings":   {name: "Strings", pkg: "ecmascript/lexer", events: []string{"vOutText"}},
	"Source":    {name: "Source", pkg: "ecmascript/lexer", events: []string{"vOutText"}},
	"Tokens":    {name: "Tokens", pkg: "ecmascript/parser", events: []string{"vOutToken", "vOutLoc", "vOutInt", "vOutRe", "vOutPanic"}},
	"Parse": {name: "Parse", pkg: "ecmascript/parser", events: []string{"vOutNode", "vOutErr", "vOutCall", "vOutPanic"},
		wrap: map[string]string{"Parser.parseScript": "vAnyScript", "Parser.parseModule": "vAnyModule", "Parser.parseExpression": "vAnyExpression"}},
}
