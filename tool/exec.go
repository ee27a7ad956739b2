package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine interprets SSA over abstract values.
type Engine struct {
	p       *Prog
	infos   map[*ssa.Function]*FnInfo
	typeIDs map[string]int
	typeOf  []types.Type // by id; id 0 is nil
	strIDs  map[string]int64
	globals map[*ssa.Global]int
	gtypes  map[int]*ssa.Global
	gheap   map[int]Value
	cl      Client
	history int

	steps    int64
	funcs    map[*ssa.Function]bool
	gwrites  map[string]bool
	maxDepth int

	nodeType  types.Type // the interface of AST nodes
	nodeTypes IntSet     // the types that implement it
}

// Client supplies the meaning of symbols and of the calls that are not
// interpreted.
type Client interface {
	// domain is the domain of a symbol, or nil.
	domain(x *Exec, t *Term) IntSet
	// call handles a call; ok is false if it should be interpreted.
	call(x *Exec, fn *ssa.Function, name string, args []Value, site ssa.CallInstruction) (v Value, ok bool)
	// invoke handles a method call on a symbolic interface value.
	invoke(x *Exec, recv *Term, m *types.Func, args []Value) (v Value, ok bool)
	// strEq decides whether the symbolic string equals the constant.
	strEq(x *Exec, s Value, c string) (res, known bool)
}

// boxer gives values a different form when they are put into an interface.
type boxer interface {
	box(x *Exec, t types.Type, v Value) Value
}

// fork is thrown to split the state.
type fork struct {
	t   *Term
	set IntSet
}

// pause is thrown to stop a thread before the current instruction.
type pause struct{ status int }

// gopanic is thrown when the program panics.
type gopanic struct{ v Value }

// undecided is thrown when the analysis can not follow the program.
type undecided struct{ msg string }

// violated is thrown when an operation of the program is wrong in itself.
type violated struct{ kind, msg string }

func giveUp(format string, args ...interface{}) {
	panic(undecided{fmt.Sprintf(format, args...)})
}

func newEngine(p *Prog) *Engine {
	e := &Engine{p: p, infos: map[*ssa.Function]*FnInfo{}, typeIDs: map[string]int{}, typeOf: []types.Type{nil},
		strIDs: map[string]int64{}, globals: map[*ssa.Global]int{}, gtypes: map[int]*ssa.Global{}, gheap: map[int]Value{},
		funcs: map[*ssa.Function]bool{}, gwrites: map[string]bool{}, maxDepth: 60}
	return e
}

func (e *Engine) typeID(t types.Type) int64 {
	k := types.TypeString(t, nil)
	if id, ok := e.typeIDs[k]; ok {
		return int64(id)
	}
	id := len(e.typeOf)
	e.typeIDs[k] = id
	e.typeOf = append(e.typeOf, t)
	return int64(id)
}

func (e *Engine) strID(s string) int64 {
	if id, ok := e.strIDs[s]; ok {
		return id
	}
	id := int64(len(e.strIDs) + 1)
	e.strIDs[s] = id
	return id
}

func (e *Engine) info(fn *ssa.Function) *FnInfo {
	in := e.infos[fn]
	if in == nil {
		in = newFnInfo(fn)
		e.infos[fn] = in
	}
	return in
}

func (e *Engine) global(g *ssa.Global) int {
	if o, ok := e.globals[g]; ok {
		return o
	}
	o := -len(e.globals) - 1
	e.globals[g] = o
	e.gtypes[o] = g
	return o
}

// initPackages evaluates the initializers of the repository's packages to
// obtain the values of the package-level variables.
func (e *Engine) initPackages() (err error) {
	var order []*ssa.Package
	seen := map[*ssa.Package]bool{}
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, imp := range p.Pkg.Imports() {
			if q := e.p.Pkgs[imp.Path()]; q != nil {
				visit(q)
			}
		}
		order = append(order, p)
	}
	var names []string
	for n := range e.p.Pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		visit(e.p.Pkgs[n])
	}
	for _, p := range order {
		fn := p.Func("init")
		if fn == nil {
			continue
		}
		s := &State{heap: map[int]Value{}, cons: map[string]con{}, next: 1 << 20 * (len(e.globals) + 1)}
		for o, v := range e.gheap {
			s.heap[o] = v
		}
		t := &Thread{}
		s.th[0] = t
		e.push(s, t, fn, nil, nil)
		x := &Exec{e: e, s: s, t: t, init: true}
		x.run()
		if x.err != "" {
			return fmt.Errorf("initializing %s: %s", p.Pkg.Path(), x.err)
		}
		if t.status != stDone {
			return fmt.Errorf("initializing %s: stopped in status %d", p.Pkg.Path(), t.status)
		}
		// Objects that globals refer to become global objects themselves.
		e.gheap = s.heap
	}
	// Renumber plain objects of the initial heap as global ones.
	ren := map[int]int{}
	for o := range e.gheap {
		if o > 0 {
			ren[o] = -(1 << 30) - len(ren)
		}
	}
	h := map[int]Value{}
	for o, v := range e.gheap {
		v = mapValue(v, func(v Value) Value {
			if p, ok := v.(*VPtr); ok {
				if n, ok := ren[p.Obj]; ok {
					return &VPtr{n, p.Path}
				}
			}
			if p, ok := v.(*VRef); ok {
				if n, ok := ren[p.Obj]; ok {
					return &VRef{n}
				}
			}
			return nil
		})
		if n, ok := ren[o]; ok {
			o = n
		}
		h[o] = v
	}
	e.gheap = h
	return nil
}

func (e *Engine) push(s *State, t *Thread, fn *ssa.Function, args, bind []Value) *Frame {
	if fn.Blocks == nil {
		giveUp("call of %s, which has no source", fn)
	}
	if len(t.frames) >= e.maxDepth {
		giveUp("recursion through %s can not be bounded", fn)
	}
	e.funcs[fn] = true
	in := e.info(fn)
	f := &Frame{fn: fn, info: in, env: make([]Value, in.n), bind: bind, block: fn.Blocks[0]}
	if len(args) != len(fn.Params) {
		giveUp("call of %s with %d arguments", fn, len(args))
	}
	for i, a := range args {
		f.env[i] = a
	}
	t.frames = append(t.frames, f)
	return f
}

// Exec runs one thread of one state.
type Exec struct {
	e       *Engine
	s       *State
	t       *Thread
	tid     int
	init    bool
	err     string
	fork    []*State
	errKind string
	loop    bool // stop at loop heads
	pos     token.Pos

	merges, mayYield, yield, yielded, scanned, joint bool // see Product.run
}

// run executes the thread until it pauses, ends or fails. States split off are
// added to x.fork.
func (x *Exec) run() {
	x.t.status = stRun
	for x.t.status == stRun && x.err == "" && !x.yielded {
		x.step()
	}
}

func (x *Exec) step() {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case fork:
			d := x.dom(r.t)
			a, b := d.inter(r.set), d.minus(r.set)
			if a.empty() || b.empty() {
				panic("fork without alternatives")
			}
			o := x.s.clone()
			o.set(r.t, b)
			x.fork = append(x.fork, o)
			x.s.set(r.t, a)
		case pause:
			x.t.status = r.status
		case gopanic:
			x.unwind(r.v)
		case undecided:
			x.err = fmt.Sprintf("%s: %s", x.where(), r.msg)
		case violated:
			x.err = fmt.Sprintf("%s: %s", x.where(), r.msg)
			x.errKind = r.kind
		default:
			panic(r)
		}
	}()
	for x.t.status == stRun {
		x.e.steps++
		x.step1()
		if x.yield {
			x.yield = false
			if x.scanned {
				x.scanned = false
				if o := x.s.th[1-x.tid]; x.merges && x.s.mode == modeBoth && alive(o) && x.t.pos > o.pos {
					x.yielded, x.joint = true, true
					return
				}
			}
			if x.mayYield || len(x.fork) > 0 && x.merges {
				x.yielded = true
				return
			}
		}
	}
}

func (x *Exec) where() string {
	for i := len(x.t.frames) - 1; i >= 0; i-- {
		f := x.t.frames[i]
		for pc := f.pc; pc >= 0 && pc < len(f.block.Instrs); pc-- {
			if p := f.block.Instrs[pc].Pos(); p.IsValid() {
				return x.e.p.pos(p) + " (" + f.fn.Name() + ")"
			}
		}
		for _, ins := range f.block.Instrs {
			if p := ins.Pos(); p.IsValid() {
				return x.e.p.pos(p) + " (" + f.fn.Name() + ")"
			}
		}
	}
	if len(x.t.frames) > 0 {
		f := x.t.frames[len(x.t.frames)-1]
		return x.e.p.pos(f.fn.Pos()) + " (" + f.fn.Name() + ")"
	}
	return "?"
}

func (x *Exec) dom(t *Term) IntSet {
	if c, ok := x.s.cons[t.raw]; ok {
		return c.set
	}
	return x.domain(t)
}

func (x *Exec) domain(t *Term) IntSet {
	if x.e.cl != nil {
		if d := x.e.cl.domain(x, t); d != nil {
			return d
		}
	}
	if t.Op == "app" {
		switch t.Name {
		case "len", "typeof", "strid":
			return setRange(0, maxInt)
		case "isnil", "eq", "lt", "streq", "temporal", "nonils":
			return setBool
		}
	}
	if t.Type != nil {
		if b, ok := t.Type.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsBoolean != 0:
				return setBool
			case b.Info()&types.IsUnsigned != 0:
				return setRange(0, maxInt)
			}
		}
	}
	return setAll
}

// test decides whether t is in set, splitting the state if necessary.
func (x *Exec) test(t *Term, set IntSet) bool {
	d := x.dom(t)
	i := d.inter(set)
	if i.empty() {
		return false
	}
	if i.size() == d.size() {
		return true
	}
	panic(fork{t, set})
}

func (x *Exec) runtime(format string, args ...interface{}) {
	panic(gopanic{VRuntime{fmt.Sprintf(format, args...) + " at " + x.where()}})
}

// ---- values ----

func (x *Exec) val(f *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Function:
		return &VFunc{Fn: v}
	case *ssa.Global:
		return &VPtr{Obj: x.e.global(v)}
	case *ssa.FreeVar:
		for i, b := range f.fn.FreeVars {
			if b == v {
				return f.bind[i]
			}
		}
	case *ssa.Builtin:
		return v
	}
	i, ok := f.info.idx[v]
	if !ok {
		giveUp("unknown value %s", v)
	}
	r := f.env[i]
	if r == nil {
		giveUp("value %s of %s is not defined", v.Name(), f.fn)
	}
	return r
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch b := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return vbool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return VStr(constant.StringVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return vint(v)
			}
			return mkApp("const:"+c.Value.ExactString(), c.Type())
		}
	}
	return mkApp("const:"+c.Value.ExactString(), c.Type())
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&(types.IsBoolean|types.IsInteger) != 0:
			return vint(0)
		case u.Info()&types.IsString != 0:
			return VStr("")
		case u.Kind() == types.UntypedNil:
			return VNil{}
		}
		return mkApp("const:0", t)
	case *types.Struct:
		if isBuilder(t) {
			return &VCat{}
		}
		fs := make([]Value, u.NumFields())
		for i := range fs {
			fs[i] = zero(u.Field(i).Type())
		}
		return &VStruct{t, fs}
	case *types.Array:
		if u.Len() > 256 {
			giveUp("array of %d elements", u.Len())
		}
		fs := make([]Value, u.Len())
		for i := range fs {
			fs[i] = zero(u.Elem())
		}
		return &VStruct{t, fs}
	case *types.Slice:
		return &VList{Nil: true}
	case *types.Tuple:
		tu := make(VTuple, u.Len())
		for i := range tu {
			tu[i] = zero(u.At(i).Type())
		}
		return tu
	}
	return VNil{}
}

func isBuilder(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return s == "strings.Builder" || s == "bytes.Buffer"
}

// termVal is the value of a symbol.
func (x *Exec) termVal(t *Term) Value {
	if t.Type == nil {
		return t
	}
	switch u := t.Type.Underlying().(type) {
	case *types.Basic:
		if u.Info()&(types.IsBoolean|types.IsInteger) != 0 {
			return x.norm(VInt{T: t})
		}
	case *types.Slice:
		return &VList{Base: t}
	case *types.Tuple:
		tu := make(VTuple, u.Len())
		for i := range tu {
			tu[i] = x.termVal(mkSel(t, fmt.Sprint(i), u.At(i).Type()))
		}
		return tu
	}
	return t
}

func (x *Exec) norm(v VInt) VInt {
	if v.T != nil {
		if k, ok := x.dom(v.T).single(); ok {
			if v.Neg {
				return vint(v.K - k)
			}
			return vint(v.K + k)
		}
	}
	return v
}

func (x *Exec) field(v Value, i int) Value {
	switch v := v.(type) {
	case *VStruct:
		return v.F[i]
	case *Term:
		st := structOf(v.Type)
		if st == nil {
			giveUp("field of %s", v.raw)
		}
		return x.termVal(mkSel(v, st.Field(i).Name(), st.Field(i).Type()))
	}
	giveUp("field of %T", v)
	return nil
}

func (x *Exec) getPath(v Value, path []int) Value {
	for _, i := range path {
		if f, ok := v.(*VFill); ok && i < 0 && -1-i < len(f.Elems) {
			v = f.Elems[-1-i]
			continue
		}
		v = x.field(v, i)
	}
	return v
}

func (x *Exec) setPath(v Value, path []int, w Value) Value {
	if len(path) == 0 {
		return w
	}
	switch u := v.(type) {
	case *VFill:
		k := -1 - path[0]
		if k < 0 || k >= len(u.Elems) {
			giveUp("element %d of a slice", k)
		}
		f := *u
		f.Elems = append([]Value{}, u.Elems...)
		f.Elems[k] = x.setPath(f.Elems[k], path[1:], w)
		return &f
	case *VStruct:
		fs := append([]Value{}, u.F...)
		fs[path[0]] = x.setPath(fs[path[0]], path[1:], w)
		return &VStruct{u.Type, fs}
	case *Term:
		st := structOf(u.Type)
		if st == nil {
			giveUp("assignment to a part of %s", u.raw)
		}
		fs := make([]Value, st.NumFields())
		for i := range fs {
			fs[i] = x.field(u, i)
		}
		return x.setPath(&VStruct{u.Type, fs}, path, w)
	}
	giveUp("assignment to a part of %T", v)
	return nil
}

func (x *Exec) obj(o int) Value {
	if v, ok := x.s.heap[o]; ok {
		return v
	}
	if o < 0 {
		if v, ok := x.e.gheap[o]; ok {
			return v
		}
		if g := x.e.gtypes[o]; g != nil {
			et := g.Type().(*types.Pointer).Elem()
			if g.Pkg != nil && x.e.p.Pkgs[g.Pkg.Pkg.Path()] == nil {
				if g.String() == "io.EOF" {
					return &VIface{errorString, VStr("EOF")}
				}
				return x.termVal(mkApp("global "+g.String(), et))
			}
			return zero(et)
		}
	}
	giveUp("dangling object %d", o)
	return nil
}

func (x *Exec) load(p Value) Value {
	switch p := p.(type) {
	case *VPtr:
		return x.getPath(x.obj(p.Obj), p.Path)
	case *VTPtr:
		return x.termVal(p.T)
	case VNil:
		x.runtime("nil pointer dereference")
	case *Term:
		x.nonNil(p)
		return x.termVal(x.deref(p))
	}
	giveUp("load through %T", p)
	return nil
}

func (x *Exec) deref(p *Term) *Term {
	return mkSel(p, "*", p.Type.Underlying().(*types.Pointer).Elem())
}

func (x *Exec) nonNil(p *Term) {
	if x.test(mkApp("isnil", types.Typ[types.Bool], p), setOf(1)) {
		x.runtime("nil pointer dereference")
	}
}

func (x *Exec) store(p, v Value) {
	switch p := p.(type) {
	case *VPtr:
		if x.s.ro[p.Obj] {
			giveUp("assignment to an element of a slice that is shared")
		}
		if p.Obj < 0 && !x.init {
			n := "?"
			if g := x.e.gtypes[p.Obj]; g != nil {
				n = g.String()
			}
			x.e.gwrites[n+" in "+x.where()] = true
		}
		x.s.heap[p.Obj] = x.setPath(x.obj(p.Obj), p.Path, v)
		return
	case VNil:
		x.runtime("nil pointer dereference")
	}
	giveUp("store through %T", p)
}

// typeof returns the dynamic type of an interface value if it is known.
func (x *Exec) typeofTerm(t *Term) *Term { return mkApp("typeof", types.Typ[types.Int], t) }

// asserted is the value of a symbolic interface value after a type assertion.
func (x *Exec) asserted(t *Term, typ types.Type) Value {
	return x.termVal(mkSel(t, "("+types.TypeString(typ, nil)+")", typ))
}

// ---- stepping ----

func (x *Exec) step1() {
	f := x.t.top()
	ins := f.block.Instrs[f.pc]
	set := func(v ssa.Value, r Value) {
		f.env[f.info.idx[v]] = r
		f.pc++
	}
	switch i := ins.(type) {
	case *ssa.DebugRef:
		f.pc++

	case *ssa.Alloc:
		set(i, &VPtr{Obj: x.s.alloc(zero(i.Type().Underlying().(*types.Pointer).Elem()))})

	case *ssa.BinOp:
		set(i, x.binop(i.Op, x.val(f, i.X), x.val(f, i.Y), i.X.Type(), i.Type()))

	case *ssa.UnOp:
		v := x.val(f, i.X)
		switch i.Op {
		case token.MUL:
			set(i, x.load(v))
		case token.NOT:
			b := v.(VInt)
			set(i, vbool(!x.truth(b)))
		case token.SUB:
			if n, ok := v.(VInt); ok {
				set(i, VInt{T: n.T, Neg: n.T != nil && !n.Neg, K: -n.K})
			} else {
				set(i, mkApp("neg", i.Type(), v))
			}
		case token.XOR:
			n := x.norm(v.(VInt))
			if n.isConst() {
				set(i, vint(^n.K))
			} else {
				set(i, x.termVal(mkApp("not", i.Type(), n)))
			}
		default:
			giveUp("operator %s", i.Op)
		}

	case *ssa.Call:
		x.doCall(f, i, &i.Call)

	case *ssa.ChangeInterface:
		set(i, x.val(f, i.X))

	case *ssa.ChangeType:
		set(i, retype(x.val(f, i.X), i.Type()))

	case *ssa.Convert:
		set(i, x.convert(x.val(f, i.X), i.X.Type(), i.Type()))

	case *ssa.Defer:
		d := deferred{}
		c := &i.Call
		if q, ok := x.e.cl.(interface{ quiet(c *ssa.CallCommon) bool }); ok && q.quiet(c) {
			f.pc++
			break
		}
		if c.IsInvoke() {
			d.m = c.Method
		}
		d.fn = x.val(f, c.Value)
		for _, a := range c.Args {
			d.args = append(d.args, x.val(f, a))
		}
		f.defers = append(f.defers, d)
		f.pc++

	case *ssa.Extract:
		v := x.val(f, i.Tuple)
		t, ok := v.(VTuple)
		if !ok {
			giveUp("component of %T", v)
		}
		set(i, t[i.Index])

	case *ssa.Field:
		set(i, x.field(x.val(f, i.X), i.Field))

	case *ssa.FieldAddr:
		switch p := x.val(f, i.X).(type) {
		case *VPtr:
			set(i, &VPtr{p.Obj, append(append([]int{}, p.Path...), i.Field)})
		case VNil:
			x.runtime("nil pointer dereference")
		case *VTPtr:
			st := structOf(p.T.Type)
			set(i, &VTPtr{mkSel(p.T, st.Field(i.Field).Name(), st.Field(i.Field).Type())})
		case *Term:
			x.nonNil(p)
			t := x.deref(p)
			st := structOf(t.Type)
			set(i, &VTPtr{mkSel(t, st.Field(i.Field).Name(), st.Field(i.Field).Type())})
		default:
			giveUp("field address of %T", p)
		}

	case *ssa.If:
		if x.truth(x.val(f, i.Cond).(VInt)) {
			x.jump(f, f.block.Succs[0])
		} else {
			x.jump(f, f.block.Succs[1])
		}

	case *ssa.Index:
		set(i, x.index(x.val(f, i.X), x.val(f, i.Index)))

	case *ssa.IndexAddr:
		set(i, x.indexAddr(x.val(f, i.X), x.val(f, i.Index)))

	case *ssa.Jump:
		x.jump(f, f.block.Succs[0])

	case *ssa.Lookup:
		set(i, x.lookup(x.val(f, i.X), x.val(f, i.Index), i))

	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range i.Bindings {
			bs = append(bs, x.val(f, b))
		}
		set(i, &VFunc{i.Fn.(*ssa.Function), bs})

	case *ssa.MakeInterface:
		if b, ok := x.e.cl.(boxer); ok {
			if v := b.box(x, i.X.Type(), x.val(f, i.X)); v != nil {
				set(i, v)
				break
			}
		}
		set(i, &VIface{i.X.Type(), x.val(f, i.X)})

	case *ssa.MakeMap:
		set(i, &VPtr{Obj: x.s.alloc(&VMapData{Elem: i.Type().Underlying().(*types.Map).Elem()})})

	case *ssa.MakeSlice:
		n, ok := x.val(f, i.Len).(VInt)
		if !ok {
			giveUp("make with a length of %T", x.val(f, i.Len))
		}
		n = x.norm(n)
		et := i.Type().Underlying().(*types.Slice).Elem()
		if n.isConst() {
			if n.K == 0 {
				set(i, &VList{})
				break
			}
			if n.K > 256 {
				giveUp("make of %d elements", n.K)
			}
			fs := make([]Value, n.K)
			for k := range fs {
				fs[k] = zero(et)
			}
			set(i, &VRef{x.s.alloc(&VStruct{types.NewArray(et, n.K), fs})})
			break
		}
		set(i, &VRef{x.s.alloc(&VFill{Len: n, Zero: zero(et)})})

	case *ssa.MapUpdate:
		x.mapUpdate(x.val(f, i.Map), x.val(f, i.Key), x.val(f, i.Value))
		f.pc++

	case *ssa.Panic:
		panic(gopanic{x.val(f, i.X)})

	case *ssa.Phi:
		giveUp("unexpected phi")

	case *ssa.Range:
		set(i, x.rangeOver(x.val(f, i.X)))

	case *ssa.Next:
		set(i, x.next(x.val(f, i.Iter), i))

	case *ssa.Return:
		var r Value
		switch len(i.Results) {
		case 0:
			r = VTuple{}
		case 1:
			r = x.val(f, i.Results[0])
		default:
			tu := VTuple{}
			for _, v := range i.Results {
				tu = append(tu, x.val(f, v))
			}
			r = tu
		}
		x.ret(r)

	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			x.callDeferred(d)
			return
		}
		f.pc++

	case *ssa.Slice:
		x.slice(f, i, set)

	case *ssa.Store:
		x.store(x.val(f, i.Addr), x.val(f, i.Val))
		f.pc++

	case *ssa.TypeAssert:
		set(i, x.typeAssert(x.val(f, i.X), i))

	default:
		giveUp("instruction %T", ins)
	}
}

// VFill is the content of a slice made with a symbolic length that is filled
// from the front: the element Base, then Elems, then zero values.
type VFill struct {
	Base  *Term
	Start VInt // index of Elems[0]
	Elems []Value
	Len   VInt
	Zero  Value
}

func retype(v Value, t types.Type) Value {
	if s, ok := v.(*VStruct); ok {
		return &VStruct{t, s.F}
	}
	return v
}

func (x *Exec) truth(b VInt) bool {
	if b.isConst() {
		return b.K != 0
	}
	if b.Neg || b.K != 0 {
		giveUp("condition %v", rawKey(b))
	}
	return x.test(b.T, setOf(1))
}

func (x *Exec) jump(f *Frame, to *ssa.BasicBlock) {
	from := f.block
	if phis := f.info.phis[to]; len(phis) > 0 {
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		vals := make([]Value, len(phis))
		for k, p := range phis {
			e := p.Edges[pi]
			if r, ok := f.info.idx[e]; ok {
				vals[k] = f.env[r] // may be undefined
			} else {
				vals[k] = x.val(f, e)
			}
		}
		for k, p := range phis {
			f.env[f.info.idx[p]] = vals[k]
		}
	}
	f.prev = from
	f.block = to
	f.pc = 0
	for f.pc < len(to.Instrs) {
		if _, ok := to.Instrs[f.pc].(*ssa.Phi); !ok {
			break
		}
		f.pc++
	}
	if f.info.heads[to] && x.loop {
		x.t.status = stLoop
	}
}

func (x *Exec) ret(r Value) {
	t := x.t
	f := t.top()
	t.frames = t.frames[:len(t.frames)-1]
	if len(t.frames) == 0 {
		t.ret = r
		t.status = stDone
		return
	}
	p := t.top()
	if f.isDefer {
		if p.unwind == 2 {
			x.continueUnwind()
		}
		return // the RunDefers instruction of p is executed again
	}
	if v, ok := p.block.Instrs[p.pc].(ssa.Value); ok {
		p.env[p.info.idx[v]] = r
	}
	p.pc++
	x.yield = true
}

// unwind starts or continues panicking with v.
func (x *Exec) unwind(v Value) {
	if x.tid == 0 {
		x.s.failedAt = x.where()
	} else {
		x.s.specAt = x.where()
	}
	x.t.panicv = v
	x.t.top().unwind = 2
	x.continueUnwind()
}

func (x *Exec) continueUnwind() {
	t := x.t
	for {
		f := t.top()
		if t.panicv == nil && f.unwind == 2 && f.recov {
			// Recovered: run the remaining deferred calls, then return.
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				x.callDeferredSafe(d)
				return
			}
			f.unwind = 0
			f.recov = false
			if f.fn.Recover == nil {
				x.ret(zero(f.fn.Signature.Results()))
				return
			}
			f.block = f.fn.Recover
			f.pc = 0
			return
		}
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			x.callDeferredSafe(d)
			return
		}
		t.frames = t.frames[:len(t.frames)-1]
		if len(t.frames) == 0 {
			t.status = stFailed
			return
		}
		t.top().unwind = 2
	}
}

func (x *Exec) callDeferredSafe(d deferred) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				x.err = x.where() + ": " + u.msg
				return
			}
			panic(r)
		}
	}()
	x.callDeferred(d)
}

func (x *Exec) callDeferred(d deferred) {
	fv, ok := d.fn.(*VFunc)
	if d.m != nil || !ok {
		if b, ok := d.fn.(*ssa.Builtin); ok {
			giveUp("deferred builtin %s", b.Name())
		}
		giveUp("deferred call of %T", d.fn)
	}
	if fv.Fn.Blocks == nil {
		return // external, assumed to return normally
	}
	f := x.e.push(x.s, x.t, fv.Fn, d.args, fv.Bind)
	f.isDefer = true
}

// ---- calls ----

func (x *Exec) doCall(f *Frame, site *ssa.Call, c *ssa.CallCommon) {
	set := func(r Value) {
		f.env[f.info.idx[site]] = r
		f.pc++
	}
	args := make([]Value, 0, len(c.Args)+1)
	if c.IsInvoke() {
		recv := x.val(f, c.Value)
		switch r := recv.(type) {
		case VNil:
			x.runtime("method %s called on a nil interface", c.Method.Name())
		case *Term:
			for _, a := range c.Args {
				args = append(args, x.val(f, a))
			}
			if x.test(x.typeofTerm(r), setOf(0)) {
				x.runtime("method %s called on a nil interface", c.Method.Name())
			}
			if v, ok := x.e.cl.invoke(x, r, c.Method, args); ok {
				set(v)
				return
			}
			giveUp("method %s of %s", c.Method.Name(), r.raw)
		case *VIface:
			fn := x.method(r.Type, c.Method)
			if fn == nil {
				giveUp("method %s of %s", c.Method.Name(), r.Type)
			}
			args = append(args, r.V)
			for _, a := range c.Args {
				args = append(args, x.val(f, a))
			}
			x.callFn(f, site, &VFunc{Fn: fn}, args, set)
			return
		}
		giveUp("method call on %T", recv)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		for _, a := range c.Args {
			args = append(args, x.val(f, a))
		}
		if r := x.builtin(f, b, args, site); r != nil {
			set(r)
		}
		return
	}
	fv := x.val(f, c.Value)
	for _, a := range c.Args {
		args = append(args, x.val(f, a))
	}
	switch fv := fv.(type) {
	case *VFunc:
		x.callFn(f, site, fv, args, set)
	case VNil:
		x.runtime("call of a nil function")
	default:
		giveUp("call of %T", fv)
	}
}

func (x *Exec) method(t types.Type, m *types.Func) *ssa.Function {
	sel := x.e.p.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return x.e.p.SSA.MethodValue(sel)
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (x *Exec) callFn(f *Frame, site *ssa.Call, fv *VFunc, args []Value, set func(Value)) {
	fn := fv.Fn
	name := fnName(fn)
	if x.init {
		if fn.Name() == "init" && fn.Blocks == nil || fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != f.fn.Pkg {
			set(VTuple{})
			return
		}
	} else if x.e.cl != nil {
		if v, ok := x.e.cl.call(x, fn, name, args, site); ok {
			set(v)
			return
		}
	}
	if v, ok := x.external(fn, name, args); ok {
		set(v)
		return
	}
	if fn.Blocks == nil {
		giveUp("call of %s", fn)
	}
	x.e.push(x.s, x.t, fn, args, fv.Bind)
}

func (x *Exec) builtin(f *Frame, b *ssa.Builtin, args []Value, site *ssa.Call) Value {
	switch b.Name() {
	case "len":
		return x.length(args[0])
	case "cap":
		return x.length(args[0])
	case "append":
		l := x.toList(args[0])
		var m *VList
		switch a := args[1].(type) {
		case VStr:
			m = &VList{}
			for _, c := range []byte(string(a)) {
				m.Elems = append(m.Elems, vint(int64(c)))
			}
		default:
			m = x.toList(args[1])
		}
		if m.Base == nil {
			if len(m.Elems) == 0 {
				return l
			}
			return &VList{Base: l.Base, Elems: append(append([]Value{}, l.Elems...), m.Elems...)}
		}
		if l.Base == nil && len(l.Elems) == 0 {
			return &VList{Base: m.Base, Elems: m.Elems, Nil: l.Nil}
		}
		return &VList{Base: mkApp("concat", site.Type(), l, m)}
	case "copy":
		giveUp("copy")
	case "recover":
		t := x.t
		// Only when called directly by a function deferred by a panicking one.
		if t.panicv != nil && f.isDefer && len(t.frames) >= 2 && t.frames[len(t.frames)-2].unwind == 2 {
			v := t.panicv
			t.panicv = nil
			t.parent().recov = true
			switch v := v.(type) {
			case VRuntime:
				return &VIface{runtimeError, v}
			}
			return v
		}
		return VNil{}
	case "print", "println", "close", "clear":
		return VTuple{}
	case "delete":
		giveUp("delete")
	case "min", "max":
		a, ok := args[0].(VInt)
		if !ok {
			giveUp("%s", b.Name())
		}
		for _, v := range args[1:] {
			w := v.(VInt)
			if x.cmpInt(token.LSS, w, a) == (b.Name() == "min") {
				a = w
			}
		}
		return a
	case "ssa:wrapnilchk":
		if _, ok := args[0].(VNil); ok {
			x.runtime("nil pointer dereference")
		}
		if t, ok := args[0].(*Term); ok {
			x.nonNil(t)
		}
		return args[0]
	}
	giveUp("builtin %s", b.Name())
	return nil
}

var runtimeError = errorType("runtime.Error")

func (x *Exec) length(v Value) Value {
	switch v := v.(type) {
	case VStr:
		return vint(int64(len(v)))
	case *VCat:
		s := x.normStr(v)
		if c, ok := s.(VStr); ok {
			return vint(int64(len(c)))
		}
		t := mkApp("strlen", types.Typ[types.Int], s)
		if _, ok := x.s.cons[t.raw]; !ok {
			if c, ok := s.(*VCat); ok {
				n := int64(0)
				for _, p := range c.Parts {
					switch p := p.(type) {
					case VStr:
						n += int64(len(p))
					case VInt:
						n++
					}
				}
				x.s.set(t, setRange(n, maxInt))
			}
		}
		return x.termVal(t)
	case *VList:
		if v.Base == nil {
			return vint(int64(len(v.Elems)))
		}
		n := x.norm(VInt{T: mkApp("len", types.Typ[types.Int], &VList{Base: v.Base})})
		n.K += int64(len(v.Elems))
		return n
	case *VRef:
		switch a := x.obj(v.Obj).(type) {
		case *VStruct:
			return vint(int64(len(a.F)))
		case *VFill:
			return a.Len
		}
	case *VStruct:
		return vint(int64(len(v.F)))
	case *VPtr:
		switch a := x.load(v).(type) {
		case *VMapData:
			return vint(int64(len(a.Keys)))
		case *VStruct:
			return vint(int64(len(a.F)))
		}
	case VNil:
		return vint(0)
	case *Term:
		return x.termVal(mkApp("strlen", types.Typ[types.Int], v))
	}
	giveUp("length of %T", v)
	return nil
}

func (x *Exec) toList(v Value) *VList {
	switch v := v.(type) {
	case *VList:
		return v
	case VNil:
		return &VList{Nil: true}
	case *VRef:
		switch a := x.obj(v.Obj).(type) {
		case *VStruct:
			return &VList{Elems: a.F}
		case *VFill:
			// All elements must have been assigned. Every index was checked
			// against the length before it was filled, so end <= Len.
			end := VInt{T: a.Start.T, Neg: a.Start.Neg, K: a.Start.K + int64(len(a.Elems))}
			if x.cmpInt(token.LSS, end, a.Len) {
				giveUp("slice that is not filled completely")
			}
			return &VList{Base: a.Base, Elems: a.Elems}
		}
	}
	giveUp("list of %T", v)
	return nil
}

// ---- operators ----

func (x *Exec) binop(op token.Token, a, b Value, xt, rt types.Type) Value {
	switch op {
	case token.EQL:
		return vbool(x.equal(a, b, xt))
	case token.NEQ:
		return vbool(!x.equal(a, b, xt))
	}
	if isString(xt) {
		switch op {
		case token.ADD:
			return x.concat(a, b)
		}
		sa, ok1 := a.(VStr)
		sb, ok2 := b.(VStr)
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return vbool(sa < sb)
			case token.LEQ:
				return vbool(sa <= sb)
			case token.GTR:
				return vbool(sa > sb)
			case token.GEQ:
				return vbool(sa >= sb)
			}
		}
		return x.boolTerm(mkApp("str"+op.String(), rt, a, b))
	}
	i, ok1 := a.(VInt)
	j, ok2 := b.(VInt)
	if !ok1 || !ok2 {
		if bt, ok := rt.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
			return x.boolTerm(mkApp("op"+op.String(), rt, a, b))
		}
		return mkApp("op"+op.String(), rt, a, b)
	}
	i, j = x.norm(i), x.norm(j)
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return vbool(x.cmpInt(op, i, j))
	case token.ADD:
		if j.isConst() {
			return VInt{i.T, i.Neg, i.K + j.K}
		}
		if i.isConst() {
			return VInt{j.T, j.Neg, i.K + j.K}
		}
		if i.T.raw == j.T.raw && i.Neg != j.Neg {
			return vint(i.K + j.K)
		}
	case token.SUB:
		if j.isConst() {
			return VInt{i.T, i.Neg, i.K - j.K}
		}
		if i.isConst() {
			return VInt{j.T, !j.Neg, i.K - j.K}
		}
		if i.T.raw == j.T.raw && i.Neg == j.Neg {
			return vint(i.K - j.K)
		}
	}
	if i.isConst() && j.isConst() {
		switch op {
		case token.MUL:
			return vint(i.K * j.K)
		case token.QUO, token.REM:
			if j.K == 0 {
				x.runtime("integer division by zero")
			}
			if op == token.QUO {
				return vint(i.K / j.K)
			}
			return vint(i.K % j.K)
		case token.AND:
			return vint(i.K & j.K)
		case token.OR:
			return vint(i.K | j.K)
		case token.XOR:
			return vint(i.K ^ j.K)
		case token.AND_NOT:
			return vint(i.K &^ j.K)
		case token.SHL:
			if j.K >= 0 && j.K < 62 {
				return vint(i.K << uint(j.K))
			}
		case token.SHR:
			if j.K >= 0 && j.K < 63 {
				return vint(i.K >> uint(j.K))
			}
		}
	}
	// Small domains: enumerate.
	for _, v := range []VInt{i, j} {
		if v.T == nil {
			continue
		}
		if d := x.dom(v.T); d.size() <= 8 && !d.empty() {
			x.test(v.T, setOf(d[0].lo)) // splits
		}
	}
	return x.termVal(mkApp("op"+op.String(), rt, i, j))
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) boolTerm(t *Term) Value { return vbool(x.test(t, setOf(1))) }

var flip = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}

// knownLess tells whether a < b+d is known from an earlier comparison.
func (x *Exec) knownLess(a, b VInt, d int64) bool {
	k := a.K - b.K - d // a.T + k < b.T
	a.K, b.K = 0, 0
	for j := k - 2; j <= k+2; j++ {
		// a.T + j < b.T, or not b.T - j < a.T + 1.
		a.K = j
		if c, ok := x.s.cons[mkApp("lt", types.Typ[types.Bool], a, b).raw]; ok && j >= k && c.set.subset(setOf(1)) {
			return true
		}
		// not b.T + i < a.T: a.T - i - 1 < b.T.
		if a.Neg || b.Neg {
			continue
		}
		i := -j - 1
		if c, ok := x.s.cons[mkApp("lt", types.Typ[types.Bool], VInt{T: b.T, K: i}, VInt{T: a.T}).raw]; ok && j >= k && c.set.subset(setOf(0)) {
			return true
		}
	}
	return false
}

// cmpInt decides a comparison.
func (x *Exec) cmpInt(op token.Token, a, b VInt) bool {
	a, b = x.norm(a), x.norm(b)
	if a.isConst() && b.isConst() {
		return cmpSet(op.String(), b.K).has(a.K)
	}
	if a.isConst() {
		return x.cmpInt(flip[op], b, a)
	}
	if b.isConst() {
		if a.Neg { // K - t op c  <=>  t flip(op) K - c
			return x.test(a.T, cmpSet(flip[op].String(), a.K-b.K))
		}
		return x.test(a.T, cmpSet(op.String(), b.K-a.K))
	}
	if a.T.raw == b.T.raw && a.Neg == b.Neg {
		return cmpSet(op.String(), b.K).has(a.K)
	}
	// Disjoint ranges.
	da, db := x.dom(a.T).affine(a.Neg, a.K), x.dom(b.T).affine(b.Neg, b.K)
	if da.inter(db).empty() && (op == token.EQL || op == token.NEQ) {
		return op == token.NEQ
	}
	amin, amax, bmin, bmax := da[0].lo, da[len(da)-1].hi, db[0].lo, db[len(db)-1].hi
	lt := func(a, b VInt) bool {
		if x.knownLess(a, b, 0) {
			return true
		}
		if x.knownLess(b, a, 1) {
			return false
		}
		b.K, a.K = 0, a.K-b.K
		return x.test(mkApp("lt", types.Typ[types.Bool], a, b), setOf(1))
	}
	switch op {
	case token.LSS:
		if amax < bmin {
			return true
		}
		if amin >= bmax {
			return false
		}
		return lt(a, b)
	case token.GTR:
		return x.cmpInt(token.LSS, b, a)
	case token.LEQ:
		return !x.cmpInt(token.LSS, b, a)
	case token.GEQ:
		return !x.cmpInt(token.LSS, a, b)
	case token.NEQ:
		return !x.cmpInt(token.EQL, a, b)
	case token.EQL:
		if x.knownLess(a, b, 0) || x.knownLess(b, a, 0) {
			return false
		}
		if x.knownLess(a, b, 1) && x.knownLess(b, a, 1) {
			return true
		}
		if a.T.raw > b.T.raw {
			a, b = b, a
		}
		b.K, a.K = 0, a.K-b.K
		return x.test(mkApp("eq", types.Typ[types.Bool], a, b), setOf(1))
	}
	giveUp("comparison %s", op)
	return false
}

// stdFile tells whether a term is one of the standard files.
func stdFile(t *Term) bool {
	n := t.Name
	return n == "global os.Stdin" || n == "global os.Stdout" || n == "global os.Stderr"
}

func (x *Exec) equal(a, b Value, t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct:
		st := structOf(t)
		for i := 0; i < st.NumFields(); i++ {
			if !x.equal(x.field(a, i), x.field(b, i), st.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	if ai, ok := a.(VInt); ok {
		if bi, ok := b.(VInt); ok {
			return x.cmpInt(token.EQL, ai, bi)
		}
	}
	if isString(t) {
		return x.strEqual(a, b)
	}
	if at, ok := a.(*Term); ok {
		if bt, ok := b.(*Term); ok && stdFile(at) && stdFile(bt) {
			return at.raw == bt.raw
		}
	}
	_, an := a.(VNil)
	_, bn := b.(VNil)
	if an && bn {
		return true
	}
	if bn {
		a, b = b, a
		an, bn = bn, an
	}
	if an {
		switch b := b.(type) {
		case *VList:
			if b.Nil {
				return true
			}
			if b.Base != nil && len(b.Elems) == 0 {
				return x.test(mkApp("isnil", types.Typ[types.Bool], b), setOf(1))
			}
			return false
		case *Term:
			if types.IsInterface(b.Type) {
				return x.test(x.typeofTerm(b), setOf(0))
			}
			return x.test(mkApp("isnil", types.Typ[types.Bool], b), setOf(1))
		}
		return false
	}
	if al, ok := a.(*VList); ok {
		// Comparison with the nil slice.
		if bl, ok := b.(*VList); ok {
			if al.Nil {
				al, bl = bl, al
			}
			if bl.Nil {
				if al.Nil {
					return true
				}
				if al.Base != nil && len(al.Elems) == 0 {
					return x.test(mkApp("isnil", types.Typ[types.Bool], al), setOf(1))
				}
				return false
			}
		}
	}
	switch av := a.(type) {
	case *VPtr:
		if bv, ok := b.(*VPtr); ok {
			return av.Obj == bv.Obj && fmt.Sprint(av.Path) == fmt.Sprint(bv.Path)
		}
		if _, ok := b.(*VTPtr); ok {
			return false
		}
	case *VIface:
		if bv, ok := b.(*VIface); ok {
			if !types.Identical(av.Type, bv.Type) {
				return false
			}
			return x.equal(av.V, bv.V, av.Type)
		}
	}
	ka, kb := rawKey(a), rawKey(b)
	if ka == kb {
		return true
	}
	if ka > kb {
		a, b = b, a
	}
	return x.test(mkApp("eq", types.Typ[types.Bool], a, b), setOf(1))
}

// ---- strings ----

// parts flattens a string.
func (x *Exec) parts(v Value) []Value {
	switch v := v.(type) {
	case VStr:
		if v == "" {
			return nil
		}
		return []Value{v}
	case *VCat:
		var out []Value
		for _, p := range v.Parts {
			if i, ok := p.(VInt); ok {
				if i.T == nil || i.T.Op != "rune" {
					i = x.norm(i)
				}
				if i.isConst() {
					p = VStr(string(rune(i.K)))
				} else {
					p = i
				}
			}
			if s, ok := p.(VStr); ok && len(out) > 0 {
				if s == "" {
					continue
				}
				if q, ok := out[len(out)-1].(VStr); ok {
					out[len(out)-1] = q + s
					continue
				}
			}
			out = append(out, p)
		}
		return out
	case *Term:
		return []Value{v}
	}
	giveUp("string %T", v)
	return nil
}

func (x *Exec) normStr(v Value) Value {
	ps := x.parts(v)
	switch len(ps) {
	case 0:
		return VStr("")
	case 1:
		switch p := ps[0].(type) {
		case VStr, *Term:
			return p
		}
	}
	return &VCat{ps}
}

// constStr is the string with the values of known runes.
func (x *Exec) constStr(v Value) Value {
	v = x.normStr(v)
	c, ok := v.(*VCat)
	if !ok {
		return v
	}
	ps := make([]Value, len(c.Parts))
	for i, p := range c.Parts {
		if n, ok := p.(VInt); ok {
			p = x.norm(n)
		}
		ps[i] = p
	}
	return x.normStr(&VCat{ps})
}

func (x *Exec) concat(a, b Value) Value {
	return x.normStr(&VCat{append(append([]Value{}, x.parts(a)...), x.parts(b)...)})
}

func (x *Exec) strEqual(a, b Value) bool {
	a, b = x.constStr(a), x.constStr(b)
	sa, ok1 := a.(VStr)
	sb, ok2 := b.(VStr)
	if ok1 && ok2 {
		return sa == sb
	}
	if rawKey(a) == rawKey(b) {
		return true
	}
	if ok1 {
		a, sb, ok2 = b, sa, true
	}
	if ok2 {
		return x.strConst(a, string(sb))
	}
	if rawKey(a) > rawKey(b) {
		a, b = b, a
	}
	return x.test(mkApp("streq", types.Typ[types.Bool], a, b), setOf(1))
}

// strConst decides whether a symbolic string equals a constant.
func (x *Exec) strConst(a Value, c string) bool {
	if x.e.cl != nil {
		if r, ok := x.e.cl.strEq(x, a, c); ok {
			return r
		}
	}
	if cat, ok := a.(*VCat); ok {
		// Match constant and rune parts from the front.
		ps := cat.Parts
		rest := c
		exact := true
		for len(ps) > 0 && exact {
			switch p := ps[0].(type) {
			case VStr:
				if !strings.HasPrefix(rest, string(p)) {
					return false
				}
				rest = rest[len(p):]
			case VInt:
				if rest == "" {
					return false
				}
				r := []rune(rest)[0]
				if !x.cmpInt(token.EQL, p, vint(int64(r))) {
					return false
				}
				rest = rest[len(string(r)):]
			default:
				exact = false
				continue
			}
			ps = ps[1:]
		}
		if exact {
			return rest == ""
		}
		min := 0
		for _, p := range ps {
			switch p := p.(type) {
			case VStr:
				min += len(p)
			case VInt:
				min++
			}
		}
		if min > len(rest) {
			return false
		}
	}
	return x.test(x.strid(a), setOf(x.e.strID(c)))
}

func (x *Exec) strid(a Value) *Term { return mkApp("strid", types.Typ[types.Int], a) }

func (x *Exec) convert(v Value, from, to types.Type) Value {
	if from == types.Typ[types.UnsafePointer] || to == types.Typ[types.UnsafePointer] {
		return v // of the models
	}
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if tb != nil && tb.Info()&types.IsString != 0 {
		switch w := v.(type) {
		case VInt:
			return x.normStr(&VCat{[]Value{w}})
		case *VList, *VRef:
			l := x.toList(w)
			var ps []Value
			if l.Base != nil {
				ps = append(ps, runeBase(l)...)
			}
			return x.normStr(&VCat{append(ps, l.Elems...)})
		case VNil:
			return VStr("")
		}
		return v
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && fb != nil && fb.Info()&types.IsString != 0 {
		if s, ok := v.(VStr); ok {
			l := &VList{}
			if sl.Elem().Underlying().(*types.Basic).Kind() == types.Byte {
				for _, c := range []byte(string(s)) {
					l.Elems = append(l.Elems, vint(int64(c)))
				}
			} else {
				for _, c := range string(s) {
					l.Elems = append(l.Elems, vint(int64(c)))
				}
			}
			return l
		}
		return &VList{Base: mkApp("slice", to, v)}
	}
	if fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		i, ok := v.(VInt)
		if ok {
			i = x.norm(i)
			if i.isConst() {
				switch tb.Kind() {
				case types.Uint8:
					i.K = int64(uint8(i.K))
				case types.Int8:
					i.K = int64(int8(i.K))
				case types.Uint16:
					i.K = int64(uint16(i.K))
				case types.Int16:
					i.K = int64(int16(i.K))
				case types.Uint32:
					i.K = int64(uint32(i.K))
				case types.Int32:
					i.K = int64(int32(i.K))
				}
				return i
			}
			switch tb.Kind() {
			case types.Uint8, types.Int8, types.Uint16, types.Int16, types.Uint32:
				lim := map[types.BasicKind]IntSet{types.Uint8: setRange(0, 255), types.Int8: setRange(-128, 127), types.Uint16: setRange(0, 65535), types.Int16: setRange(-32768, 32767), types.Uint32: setRange(0, 1<<32-1)}[tb.Kind()]
				if !x.dom(i.T).affine(i.Neg, i.K).subset(lim) {
					return x.termVal(mkApp("conv:"+tb.Name(), to, i))
				}
			}
			return i
		}
	}
	return mkApp("conv:"+to.String(), to, v)
}

// ---- aggregates ----

func (x *Exec) index(v, i Value) Value {
	idx := x.norm(i.(VInt))
	bad := func() { x.runtime("index out of range") }
	switch v := v.(type) {
	case VStr:
		if !idx.isConst() {
			if len(v) == 0 || x.cmpInt(token.LSS, idx, vint(0)) || !x.cmpInt(token.LSS, idx, vint(int64(len(v)))) {
				bad()
			}
			return x.termVal(mkApp("byte", types.Typ[types.Byte], v, idx))
		}
		if idx.K < 0 || idx.K >= int64(len(v)) {
			bad()
		}
		return vint(int64(v[idx.K]))
	case *VStruct:
		if !idx.isConst() {
			for k := range v.F {
				if x.cmpInt(token.EQL, idx, vint(int64(k))) {
					return v.F[k]
				}
			}
			bad()
		}
		if idx.K < 0 || idx.K >= int64(len(v.F)) {
			bad()
		}
		return v.F[idx.K]
	case *VCat, *Term:
		n := x.length(v).(VInt)
		if x.cmpInt(token.LSS, idx, vint(0)) || !x.cmpInt(token.LSS, idx, n) {
			bad()
		}
		if ps := x.parts(v); len(ps) > 0 {
			if c, ok := ps[0].(VStr); ok && idx.isConst() && idx.K < int64(len(c)) {
				return vint(int64(c[idx.K]))
			}
			if c, ok := ps[len(ps)-1].(VStr); ok && idx.T != nil && n.T != nil && idx.T.raw == n.T.raw && !idx.Neg && !n.Neg {
				if d := n.K - idx.K; d > 0 && d <= int64(len(c)) {
					return vint(int64(c[int64(len(c))-d]))
				}
			}
		}
		return x.termVal(mkApp("byte", types.Typ[types.Byte], v, idx))
	case *VRef, VNil:
		return x.index(x.toList(v), i)
	case *VList:
		return x.elem(v, idx)
	}
	giveUp("index of %T", v)
	return nil
}

// elem is an element of a list.
func (x *Exec) elem(v *VList, idx VInt) Value {
	if v.Base == nil {
		if !idx.isConst() {
			for k := range v.Elems {
				if x.cmpInt(token.EQL, idx, vint(int64(k))) {
					return v.Elems[k]
				}
			}
			x.runtime("index out of range")
		}
		if idx.K < 0 || idx.K >= int64(len(v.Elems)) {
			x.runtime("index out of range")
		}
		return v.Elems[idx.K]
	}
	ln := mkApp("len", types.Typ[types.Int], &VList{Base: v.Base})
	if idx.T != nil && idx.T.raw == ln.raw && !idx.Neg {
		// Counted from the end.
		if idx.K >= int64(len(v.Elems)) {
			x.runtime("index out of range")
		}
		if idx.K >= 0 {
			return v.Elems[idx.K]
		}
		if x.test(ln, setRange(0, -idx.K-1)) {
			x.runtime("index out of range")
		}
	} else {
		if x.cmpInt(token.LSS, idx, vint(0)) {
			x.runtime("index out of range")
		}
		if !x.cmpInt(token.LSS, idx, VInt{T: ln}) {
			for k := range v.Elems {
				if x.cmpInt(token.EQL, idx, VInt{T: ln, K: int64(k)}) {
					return v.Elems[k]
				}
			}
			x.runtime("index out of range")
		}
	}
	et := v.Base.Type.Underlying().(*types.Slice).Elem()
	return x.termVal(mkApp("elem", et, &VList{Base: v.Base}, idx))
}

func (x *Exec) indexAddr(v, i Value) Value {
	idx := x.norm(i.(VInt))
	switch v := v.(type) {
	case *VPtr: // pointer to array
		a := x.load(v)
		n := x.length(a).(VInt)
		if !idx.isConst() {
			for k := int64(0); k < n.K; k++ {
				if x.cmpInt(token.EQL, idx, vint(k)) {
					return &VPtr{v.Obj, append(append([]int{}, v.Path...), int(k))}
				}
			}
			x.runtime("index out of range")
		}
		if idx.K < 0 || idx.K >= n.K {
			x.runtime("index out of range")
		}
		return &VPtr{v.Obj, append(append([]int{}, v.Path...), int(idx.K))}
	case *VRef:
		switch a := x.obj(v.Obj).(type) {
		case *VStruct:
			if !idx.isConst() {
				for k := range a.F {
					if x.cmpInt(token.EQL, idx, vint(int64(k))) {
						return &VPtr{v.Obj, []int{k}}
					}
				}
				x.runtime("index out of range")
			}
			if idx.K < 0 || idx.K >= int64(len(a.F)) {
				x.runtime("index out of range")
			}
			return &VPtr{v.Obj, []int{int(idx.K)}}
		case *VFill:
			return x.fillAddr(v.Obj, a, idx)
		}
	case *VList, VNil:
		w := x.elem(x.toList(v), idx)
		o := x.s.alloc(w)
		ro := map[int]bool{o: true}
		for k := range x.s.ro {
			ro[k] = true
		}
		x.s.ro = ro
		return &VPtr{Obj: o}
	}
	giveUp("element address of %T", v)
	return nil
}

func (x *Exec) fillAddr(o int, a *VFill, idx VInt) Value {
	if x.cmpInt(token.LSS, idx, vint(0)) || !x.cmpInt(token.LSS, idx, a.Len) {
		x.runtime("index out of range")
	}
	// The k-th known element, or the next one.
	for k := 0; k <= len(a.Elems); k++ {
		at := VInt{a.Start.T, a.Start.Neg, a.Start.K + int64(k)}
		if rawKey(x.norm(at)) == rawKey(idx) {
			if k == len(a.Elems) {
				b := *a
				b.Elems = append(append([]Value{}, a.Elems...), a.Zero)
				x.s.heap[o] = &b
			}
			return &VPtr{o, []int{-1 - k}}
		}
	}
	giveUp("slice that is not filled in order")
	return nil
}

func (x *Exec) slice(f *Frame, i *ssa.Slice, set func(ssa.Value, Value)) {
	v := x.val(f, i.X)
	var lo, hi Value
	if i.Low != nil {
		lo = x.norm(x.val(f, i.Low).(VInt))
	}
	if i.High != nil {
		hi = x.norm(x.val(f, i.High).(VInt))
	}
	isC := func(v Value, k int64) bool { n, ok := v.(VInt); return ok && n.isConst() && n.K == k }
	if p, ok := v.(*VPtr); ok {
		// Array.
		a, ok := x.load(p).(*VStruct)
		if !ok {
			giveUp("slice of %T", x.load(p))
		}
		if len(p.Path) == 0 && (lo == nil || isC(lo, 0)) && hi == nil && x.escapes(f, i) {
			set(i, &VRef{p.Obj})
			return
		}
		v = &VList{Elems: a.F}
	}
	if r, ok := v.(*VRef); ok {
		if (lo == nil || isC(lo, 0)) && (hi == nil || rawKey(hi) == rawKey(x.length(r))) {
			set(i, r)
			return
		}
		v = x.toList(v)
	}
	switch v := v.(type) {
	case VNil:
		set(i, &VList{Nil: true})
		return
	case *VList:
		if lo == nil {
			lo = vint(0)
		}
		l := lo.(VInt)
		n := x.length(v).(VInt)
		h := n
		if hi != nil {
			h = hi.(VInt)
		}
		if rawKey(h) == rawKey(n) && isC(lo, 0) {
			set(i, v)
			return
		}
		if v.Base == nil && l.isConst() && h.isConst() {
			if l.K < 0 || l.K > h.K || h.K > int64(len(v.Elems)) {
				x.runtime("slice bounds out of range")
			}
			set(i, &VList{Elems: v.Elems[l.K:h.K:h.K]})
			return
		}
		if v.Base != nil && isC(lo, 0) && h.T != nil && n.T != nil && h.T.raw == n.T.raw && !h.Neg {
			if d := n.K - h.K; d >= 0 && d <= int64(len(v.Elems)) {
				set(i, &VList{Base: v.Base, Elems: v.Elems[:int64(len(v.Elems))-d]})
				return
			}
		}
		if x.cmpInt(token.LSS, l, vint(0)) || x.cmpInt(token.LSS, h, l) || x.cmpInt(token.LSS, n, h) {
			x.runtime("slice bounds out of range")
		}
		set(i, &VList{Base: mkApp("sub", i.Type(), v, l, h)})
		return
	case VStr:
		l, h := vint(0), vint(int64(len(v)))
		if lo != nil {
			l = lo.(VInt)
		}
		if hi != nil {
			h = hi.(VInt)
		}
		if l.isConst() && h.isConst() {
			if l.K < 0 || l.K > h.K || h.K > int64(len(v)) {
				x.runtime("slice bounds out of range")
			}
			set(i, v[l.K:h.K])
			return
		}
	}
	// Strings.
	if isString(i.X.Type()) {
		n := x.length(v).(VInt)
		l, h := vint(0), n
		if lo != nil {
			l = lo.(VInt)
		}
		if hi != nil {
			h = hi.(VInt)
		}
		if x.cmpInt(token.LSS, l, vint(0)) || x.cmpInt(token.LSS, h, l) || x.cmpInt(token.LSS, n, h) {
			x.runtime("slice bounds out of range")
		}
		if l.isConst() && h.isConst() {
			if ps := x.parts(v); len(ps) > 0 {
				if c, ok := ps[0].(VStr); ok && h.K <= int64(len(c)) {
					set(i, c[l.K:h.K])
					return
				}
			}
		}
		if ps, ok := cutParts(x.parts(v), l, h, n); ok {
			set(i, x.normStr(&VCat{ps}))
			return
		}
		set(i, mkApp("substr", i.Type(), v, l, h))
		return
	}
	giveUp("slice of %T", v)
}

func nonEmpty(ps []Value) []Value {
	var out []Value
	for _, p := range ps {
		if p != VStr("") {
			out = append(out, p)
		}
	}
	return out
}

// cutParts returns the parts of a string of length n from l to h, if only constant
// parts are cut.
func cutParts(ps []Value, l, h, n VInt) ([]Value, bool) {
	if !l.isConst() || len(ps) == 0 {
		return nil, false
	}
	ps = append([]Value{}, ps...)
	if rawKey(h) != rawKey(n) {
		if h.T == nil || n.T == nil || h.T.raw != n.T.raw || h.Neg || n.Neg || h.K > n.K || len(ps) < 2 {
			return nil, false
		}
		c, ok := ps[len(ps)-1].(VStr)
		d := int(n.K - h.K)
		if !ok || d > len(c) {
			return nil, false
		}
		ps[len(ps)-1] = c[:len(c)-d]
	}
	if l.K > 0 {
		c, ok := ps[0].(VStr)
		if !ok || l.K > int64(len(c)) {
			return nil, false
		}
		ps[0] = c[l.K:]
	}
	return nonEmpty(ps), true
}

// escapes tells whether elements of the sliced array are still assigned to
// after the slice was taken.
func (x *Exec) escapes(f *Frame, i *ssa.Slice) bool {
	refs := i.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, q := range *ia.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == ia {
					return true
				}
				if _, ok := q.(*ssa.FieldAddr); ok {
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) mapUpdate(m, k, v Value) {
	p, ok := m.(*VPtr)
	if !ok {
		if _, ok := m.(VNil); ok {
			x.runtime("assignment to entry in nil map")
		}
		giveUp("assignment to an entry of %T", m)
	}
	d, ok := x.load(p).(*VMapData)
	if !ok {
		giveUp("assignment to an entry of a symbolic map")
	}
	if p.Obj < 0 && !x.init {
		x.e.gwrites["map in "+x.where()] = true
	}
	e := &VMapData{Elem: d.Elem, Keys: append([]Value{}, d.Keys...), Vals: append([]Value{}, d.Vals...)}
	kk := rawKey(k)
	if strings.Contains(kk, "#") {
		giveUp("map update with a symbolic key")
	}
	for i := range e.Keys {
		if rawKey(e.Keys[i]) == kk {
			e.Vals[i] = v
			x.s.heap[p.Obj] = x.setPath(x.obj(p.Obj), p.Path, e)
			return
		}
	}
	e.Keys = append(e.Keys, k)
	e.Vals = append(e.Vals, v)
	x.s.heap[p.Obj] = x.setPath(x.obj(p.Obj), p.Path, e)
}

func (x *Exec) lookup(m, k Value, i *ssa.Lookup) Value {
	if isString(i.X.Type()) {
		return x.index(m, k)
	}
	et := i.X.Type().Underlying().(*types.Map).Elem()
	res := func(v Value, ok bool) Value {
		if i.CommaOk {
			return VTuple{v, vbool(ok)}
		}
		return v
	}
	var d *VMapData
	switch p := m.(type) {
	case VNil:
		return res(zero(et), false)
	case *VPtr:
		d, _ = x.load(p).(*VMapData)
	}
	if d == nil {
		giveUp("lookup in a symbolic map")
	}
	// Group the keys by value.
	switch k := k.(type) {
	case VInt:
		k = x.norm(k)
		groups := map[string]IntSet{}
		vals := map[string]Value{}
		var order []string
		for j := range d.Keys {
			ki, ok := d.Keys[j].(VInt)
			if !ok || !ki.isConst() {
				giveUp("map with symbolic keys")
			}
			vk := rawKey(d.Vals[j])
			if _, ok := vals[vk]; !ok {
				vals[vk] = d.Vals[j]
				order = append(order, vk)
			}
			groups[vk] = groups[vk].union(setOf(ki.K))
		}
		sort.Strings(order)
		for _, vk := range order {
			set := groups[vk]
			if k.isConst() {
				if set.has(k.K) {
					return res(vals[vk], true)
				}
				continue
			}
			kinv := set.affine(k.Neg, -k.K)
			if k.Neg {
				kinv = set.affine(true, k.K)
			}
			if x.test(k.T, kinv) {
				return res(vals[vk], true)
			}
		}
		return res(zero(et), false)
	default:
		if !isString(i.X.Type().Underlying().(*types.Map).Key()) {
			giveUp("map lookup with a key of %T", k)
		}
		kn := x.normStr(k)
		type kv struct {
			k string
			v Value
		}
		var all []kv
		for j := range d.Keys {
			ks, ok := d.Keys[j].(VStr)
			if !ok {
				giveUp("map with symbolic keys")
			}
			all = append(all, kv{string(ks), d.Vals[j]})
		}
		sort.Slice(all, func(a, b int) bool { return all[a].k < all[b].k })
		for _, e := range all {
			if x.strEqual(kn, VStr(e.k)) {
				return res(e.v, true)
			}
		}
		return res(zero(et), false)
	}
}

// VIter is an iterator over a concrete map or string.
type VIterData struct {
	Keys, Vals []Value
	I          int
}

func (x *Exec) rangeOver(v Value) Value {
	d := &VIterData{}
	switch v := v.(type) {
	case VNil:
	case VStr:
		for i, r := range string(v) {
			d.Keys = append(d.Keys, vint(int64(i)))
			d.Vals = append(d.Vals, vint(int64(r)))
		}
	case *VPtr:
		m, ok := x.load(v).(*VMapData)
		if !ok {
			giveUp("range over a symbolic map")
		}
		d.Keys, d.Vals = m.Keys, m.Vals
	default:
		giveUp("range over %T", v)
	}
	return &VPtr{Obj: x.s.alloc(d)}
}

func (x *Exec) next(v Value, i *ssa.Next) Value {
	p := v.(*VPtr)
	d := x.s.heap[p.Obj].(*VIterData)
	if d.I >= len(d.Keys) {
		tu := i.Type().(*types.Tuple)
		return VTuple{vint(0), zeroOr(tu.At(1).Type()), zeroOr(tu.At(2).Type())}
	}
	x.s.heap[p.Obj] = &VIterData{d.Keys, d.Vals, d.I + 1}
	return VTuple{vint(1), d.Keys[d.I], d.Vals[d.I]}
}

func zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return VNil{}
	}
	return zero(t)
}

func (x *Exec) typeAssert(v Value, i *ssa.TypeAssert) Value {
	fail := func(what string) Value {
		if i.CommaOk {
			return VTuple{zero(i.AssertedType), vbool(false)}
		}
		x.runtime("interface conversion: %s is not %s", what, i.AssertedType)
		return nil
	}
	ok := func(v Value) Value {
		if i.CommaOk {
			return VTuple{v, vbool(true)}
		}
		return v
	}
	iface, isIface := i.AssertedType.Underlying().(*types.Interface)
	match := func(t types.Type) bool {
		if isIface {
			return types.Implements(t, iface)
		}
		return types.Identical(t, i.AssertedType)
	}
	switch w := v.(type) {
	case VNil:
		return fail("nil")
	case *VIface:
		if match(w.Type) {
			if isIface {
				return ok(w)
			}
			return ok(w.V)
		}
		return fail(w.Type.String())
	case *Term:
		tt := x.typeofTerm(w)
		if isIface {
			var set IntSet
			x.e.typeID(i.AssertedType)
			for id := 1; id < len(x.e.typeOf); id++ {
				if x.e.typeOf[id] != nil && match(x.e.typeOf[id]) {
					set = set.union(setOf(int64(id)))
				}
			}
			if x.test(tt, set) {
				return ok(w)
			}
			return fail(w.raw)
		}
		if x.test(tt, setOf(x.e.typeID(i.AssertedType))) {
			return ok(x.asserted(w, i.AssertedType))
		}
		return fail(w.raw)
	}
	giveUp("type assertion of %T", v)
	return nil
}
