package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

const (
	parserPkg = modPath + "/ecmascript/parser"
	lexerPkg  = modPath + "/ecmascript/lexer"
	astPkg    = modPath + "/ecmascript/ast"
	errsPkg   = modPath + "/ecmascript/errs"
)

// parserClient gives the meaning of tokens and of calls of anchored functions.
type parserClient struct {
	p       *Prog
	e       *Engine
	tokType *types.Named // lexer.Token
	reType  *types.Named
	locType types.Type
	tokDom  IntSet
	tokName map[int64]string
	none    int64
	regexp  int64
	str     int64
	div     IntSet
	kwLit   map[int64]string // literal of keyword tokens
	nts     map[string]*NT   // by name of the implementation function
	ntFn    map[*ssa.Function]*NT
	node    *types.Interface
	nodeN   types.Type
	tempSet IntSet
	nilable map[string]bool
	todo    []string
	reached map[string]*instance
	cur     *Product
	inst    *instance
	// The fields that the programs look at.
	readFields map[*types.Var]bool
	budget     time.Duration // for one instance
	bounded    bool          // what is not explored in it is not a finding
	stop       func() bool   // end the analysis early
	found      func(*Finding)
	anchorsOf  func(name string) bool
}

// instance is one anchored function with given constant arguments.
type instance struct {
	key  string
	nt   *NT
	args []Value // constants, or nil
}

func lookupConst(pkg *types.Package, name string) (int64, bool) {
	c, ok := pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	v, ok := constant.Int64Val(constant.ToInt(c.Val()))
	return v, ok
}

func newParserClient(p *Prog, e *Engine) (*parserClient, error) {
	c := &parserClient{p: p, e: e, tokName: map[int64]string{}, kwLit: map[int64]string{}, nts: map[string]*NT{}, ntFn: map[*ssa.Function]*NT{}, reached: map[string]*instance{}}
	lx, pr, as := p.pkg("ecmascript/lexer"), p.pkg("ecmascript/parser"), p.pkg("ecmascript/ast")
	if lx == nil || pr == nil || as == nil {
		return nil, fmt.Errorf("packages lexer, parser and ast not found")
	}
	named := func(pkg *ssa.Package, n string) (*types.Named, error) {
		t := pkg.Type(n)
		if t == nil {
			return nil, fmt.Errorf("type %s.%s not found", pkg.Pkg.Path(), n)
		}
		return t.Type().(*types.Named), nil
	}
	var err error
	if c.tokType, err = named(lx, "Token"); err != nil {
		return nil, err
	}
	if c.reType, err = named(lx, "ReToken"); err != nil {
		return nil, err
	}
	loc, err := named(as, "Location")
	if err != nil {
		return nil, err
	}
	c.locType = loc
	nt, err := named(as, "Node")
	if err != nil {
		return nil, err
	}
	c.nodeN = nt
	c.node = nt.Underlying().(*types.Interface)
	e.nodeType = nt
	tt, err := named(lx, "TokenType")
	if err != nil {
		return nil, err
	}
	sc := lx.Pkg.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(k.Type(), tt) {
			v, _ := constant.Int64Val(k.Val())
			c.tokName[v] = strings.TrimPrefix(n, "Token")
		}
	}
	for n, dst := range map[string]*int64{"TokenNone": &c.none, "TokenLiteralRegExp": &c.regexp, "TokenLiteralString": &c.str} {
		v, ok := lookupConst(lx.Pkg, n)
		if !ok {
			return nil, fmt.Errorf("constant lexer.%s not found", n)
		}
		*dst = v
	}
	for _, n := range []string{"TokenPunctuatorDiv", "TokenPunctuatorDivAssign"} {
		v, ok := lookupConst(lx.Pkg, n)
		if !ok {
			return nil, fmt.Errorf("constant lexer.%s not found", n)
		}
		c.div = c.div.union(setOf(v))
	}
	c.tokDom = c.producible(lx, tt)
	for v, n := range c.tokName {
		if strings.HasPrefix(n, "Keyword") {
			c.kwLit[v] = strings.ToLower(strings.TrimPrefix(n, "Keyword"))
		}
	}
	c.readFields = map[*types.Var]bool{}
	for _, f := range p.allFuncs() {
		if f.Pkg != pr {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Field:
					c.readFields[structOf(i.X.Type()).Field(i.Field)] = true
				case *ssa.FieldAddr:
					for _, r := range *i.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == i {
							continue
						}
						c.readFields[structOf(i.X.Type().Underlying().(*types.Pointer).Elem()).Field(i.Field)] = true
					}
				}
			}
		}
	}
	// Node types made by the parser.
	for _, f := range p.allFuncs() {
		if f.Pkg != pr || isSpecFn(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if m, ok := i.(*ssa.MakeInterface); ok && types.Implements(m.X.Type(), c.node) {
					id := setOf(e.typeID(m.X.Type()))
					e.nodeTypes = e.nodeTypes.union(id)
					if strings.HasPrefix(typeName(m.X.Type()), "Temporal") {
						c.tempSet = c.tempSet.union(id)
					}
				}
			}
		}
	}
	e.history = 1
	c.nilable = map[string]bool{}
	for _, n := range nilableFields {
		c.nilable[n] = true
	}
	return c, nil
}

// Node fields that may be nil.
var nilableFields = []string{
	"ArrayExpression.Elements", "Property.Value", "Property.DestructureInit", "BindingElement.Init", "BindingProperty.Init",
	"VariableDeclarator.Init", "IfStatement.Alternate", "ForStatement.Init", "ForStatement.Test", "ForStatement.Update",
	"ReturnStatement.Argument", "ClassExpression.SuperClass", "ClassDeclaration.SuperClass", "TryStatement.Handler",
	"TryStatement.Finalizer", "SwitchCase.Test",
}

// producible is the set of token types that the lexer can produce: the
// constants that occur in functions that Lex can call, and in its tables.
func (c *parserClient) producible(lx *ssa.Package, tt types.Type) IntSet {
	var set IntSet
	lex := c.p.method(lx, "Lexer", "Lex")
	if lex == nil {
		for v := range c.tokName {
			set = set.union(setOf(v))
		}
		return set
	}
	seen := map[*ssa.Function]bool{}
	globals := map[*ssa.Global]bool{}
	var visit func(f *ssa.Function)
	add := func(v ssa.Value) {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && types.Identical(k.Type(), tt) {
			n, _ := constant.Int64Val(k.Value)
			set = set.union(setOf(n))
		}
		if g, ok := v.(*ssa.Global); ok {
			globals[g] = true
		}
	}
	visit = func(f *ssa.Function) {
		if seen[f] || f.Pkg != lx {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				_, isCmp := i.(*ssa.BinOp)
				for _, o := range i.Operands(nil) {
					if *o == nil {
						continue
					}
					if g, ok := (*o).(*ssa.Function); ok {
						visit(g)
					}
					if !isCmp {
						add(*o)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(lex)
	for g := range globals {
		walkHeap(c.e, c.e.gheap[c.e.global(g)], func(v Value, _ int) {
			if m, ok := v.(*VMapData); ok && types.Identical(m.Elem, tt) {
				for _, x := range m.Vals {
					if i, ok := x.(VInt); ok {
						set = set.union(setOf(i.K))
					}
				}
			}
		})
	}
	return set.union(setOf(c.none))
}

// walkHeap visits a value of the initial heap and what it points to.
func walkHeap(e *Engine, v Value, f func(Value, int)) {
	seen := map[int]bool{}
	var walk func(v Value, d int)
	walk = func(v Value, d int) {
		if v == nil || d > 20 {
			return
		}
		mapValue(v, func(w Value) Value {
			f(w, d)
			if p, ok := w.(*VPtr); ok && !seen[p.Obj] {
				seen[p.Obj] = true
				walk(e.gheap[p.Obj], d+1)
			}
			return nil
		})
	}
	walk(v, 0)
}

func (p *Prog) method(pkg *ssa.Package, typ, name string) *ssa.Function {
	t := pkg.Type(typ)
	if t == nil {
		return nil
	}
	for _, r := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := p.SSA.MethodSets.MethodSet(r)
		for i := 0; i < ms.Len(); i++ {
			if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name {
				if fn := p.SSA.FuncValue(f); fn != nil {
					return fn
				}
			}
		}
	}
	return nil
}

// Functions without which recursion has no end.
var mandatoryAnchors = map[string]bool{"parseStatement": true, "parseExpression": true, "parseArrayBindingPatternTail": true, "parseObjectBindingPatternTail": true}

// anchors pairs the functions of the implementation with the reference model.
func (c *parserClient) anchors() error {
	pr := c.p.pkg("ecmascript/parser")
	for name, m := range pr.Members {
		spec, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(name, "vParse") && !strings.HasPrefix(name, "vConvert") {
			continue
		}
		iname := "p" + name[2:]
		if strings.HasPrefix(name, "vConvert") {
			iname = "c" + name[2:]
		}
		impl := c.p.method(pr, "Parser", iname)
		mandatory := mandatoryAnchors[iname]
		if !mandatory && c.anchorsOf != nil && !c.anchorsOf(iname) {
			continue
		}
		if impl == nil || !sameParams(impl, spec) {
			if mandatory {
				return fmt.Errorf("the function %s of the parser was not found with the expected signature", iname)
			}
			continue
		}
		nt := &NT{name: iname, impl: impl, spec: spec, pure: strings.HasPrefix(iname, "convert")}
		if w, ok := pr.Members["vCall"+strings.ToUpper(iname[:1])+iname[1:]].(*ssa.Function); ok {
			nt.wrap = w
		}
		c.nts[iname] = nt
		c.ntFn[impl] = nt
		c.ntFn[spec] = nt
	}
	return nil
}

func sameParams(a, b *ssa.Function) bool {
	x, y := a.Signature, b.Signature
	if x.Params().Len()+1 != y.Params().Len() {
		return false
	}
	for i := 0; i < x.Params().Len(); i++ {
		if !types.Identical(x.Params().At(i).Type(), y.Params().At(i+1).Type()) {
			return false
		}
	}
	return types.Identical(x.Results(), y.Results())
}

// ---- input ----

func (c *parserClient) sym(x *Exec, pos int) *Term {
	s := x.s
	i := pos - s.strm.base
	if i < 0 {
		giveUp("token %d before the window", -i)
	}
	for len(s.strm.syms) <= i {
		var prev *Term
		if n := len(s.strm.syms); n > 0 {
			prev = s.strm.syms[n-1]
		}
		t := s.fresh("tok", c.tokType)
		if prev != nil && prev.Op == "tok" && x.test(mkSel(prev, "Type", c.tokField("Type")), setOf(c.none)) {
			s.set(mkSel(t, "Type", c.tokField("Type")), setOf(c.none))
		}
		s.strm.syms = append(s.strm.syms, t)
	}
	t := s.strm.syms[i]
	if t == nil {
		giveUp("token consumed by a call is read again")
	}
	return t
}

func (c *parserClient) tokField(n string) types.Type {
	st := structOf(c.tokType)
	if i := fieldIndex(st, n); i >= 0 {
		return st.Field(i).Type()
	}
	return nil
}

func (c *parserClient) peek(x *Exec, pos int) Value {
	t := c.sym(x, pos)
	if t.Op == "re" {
		panic(violated{"regex", "reads a token where a regular expression has to be scanned"})
	}
	return t
}

func (c *parserClient) loc(x *Exec, pos int) Value {
	s := x.s
	i := pos - s.strm.base
	if i < 0 {
		giveUp("location before the window")
	}
	for len(s.strm.locs) <= i {
		s.strm.locs = append(s.strm.locs, nil)
	}
	if s.strm.locs[i] == nil {
		s.strm.locs[i] = s.fresh("loc", c.locType)
	}
	return s.strm.locs[i]
}

func (c *parserClient) domain(x *Exec, t *Term) IntSet {
	switch t.Op {
	case "sel":
		if b, ok := t.Args[0].(*Term); ok {
			if b.Op == "tok" && t.Name == "Type" {
				return c.tokDom
			}
		}
	case "app":
		switch t.Name {
		case "temporal":
			// What is inside of a tree without placeholders is none.
			for b := parentTerm(t.Args[0]); b != nil; b = parentTerm(b) {
				if k, ok := x.s.cons[mkApp("temporal", types.Typ[types.Bool], b).raw]; ok && k.set.subset(setOf(0)) {
					return setOf(0)
				}
			}
		case "typeof":
			if b, ok := t.Args[0].(*Term); ok && b.Type != nil && types.IsInterface(b.Type) {
				if c.mayBeNil(b) && !(b.Op == "app" && b.Name == "elem" && c.noNils(x, b.Args[0])) {
					return x.e.nodeTypes.union(setOf(0))
				}
				return x.e.nodeTypes
			}
		case "isnil":
			if b, ok := t.Args[0].(*Term); ok && (b.Op != "sel" || b.Name[0] == '(') {
				return setOf(0)
			}
		}
	}
	return nil
}

// parentTerm is the symbol that a part was taken from.
func parentTerm(v Value) *Term {
	t, ok := v.(*Term)
	if !ok || t.Op != "sel" && !(t.Op == "app" && (t.Name == "elem" || t.Name == "deref")) {
		return nil
	}
	switch u := t.Args[0].(type) {
	case *Term:
		return u
	case *VList:
		return u.Base
	}
	return nil
}

// noNils tells whether no node in the list is nil.
func (c *parserClient) noNils(x *Exec, v Value) bool {
	l, ok := v.(*VList)
	if !ok {
		return false
	}
	if l.Base != nil {
		k, ok := x.s.cons[mkApp("nonils", types.Typ[types.Bool], l.Base).raw]
		if !(ok && k.set.subset(setOf(1))) && (l.Base.Op != "sel" || c.mayBeNil(mkApp("elem", nodeIface(c.e), &VList{Base: l.Base}, vint(0)))) {
			return false
		}
	}
	for _, e := range l.Elems {
		switch e := e.(type) {
		case *VIface:
		case *Term:
			if !types.IsInterface(e.Type) || x.dom(x.typeofTerm(e)).has(0) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// mayBeNil tells whether a node inside of a symbolic node may be nil.
func (c *parserClient) mayBeNil(t *Term) bool {
	field := func(t *Term) bool {
		if t.Op != "sel" {
			return false
		}
		b, ok := t.Args[0].(*Term)
		if !ok || b.Type == nil {
			return true
		}
		return c.nilable[typeName(b.Type)+"."+t.Name]
	}
	switch t.Op {
	case "sel":
		return field(t)
	case "app":
		if t.Name == "elem" {
			l, _ := t.Args[0].(*VList)
			return l != nil && l.Base != nil && (field(l.Base) || l.Base.Op == "list")
		}
		return true
	}
	return false
}

func (c *parserClient) symText(s *State, t *Term) string {
	if t == nil {
		return "(...)"
	}
	if t.Op == "re" {
		return "/re/"
	}
	d := c.tokDom
	if k, ok := s.cons[mkSel(t, "Type", c.tokField("Type")).raw]; ok {
		d = k.set
	}
	out := c.setText(d)
	if k, ok := s.cons[mkSel(t, "NewLine", c.tokField("NewLine")).raw]; ok {
		if v, ok := k.set.single(); ok && v == 1 {
			out = "⏎" + out
		}
	}
	return out
}

func (c *parserClient) setText(d IntSet) string {
	if d.size() > 6 {
		if r := c.tokDom.minus(d); r.size() <= 6 {
			if r.empty() {
				return "any"
			}
			return "not(" + c.setText(r) + ")"
		}
		return fmt.Sprintf("(%d token types)", d.size())
	}
	var xs []string
	d.each(func(v int64) {
		n := c.tokName[v]
		n = strings.TrimPrefix(strings.TrimPrefix(n, "Punctuator"), "Keyword")
		xs = append(xs, n)
	})
	return strings.Join(xs, "|")
}

// ---- calls ----

func isSpecFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	n := fn.Name()
	return len(n) > 1 && n[0] == 'v' && n[1] >= 'A' && n[1] <= 'Z' && fn.Pkg != nil && (fn.Pkg.Pkg.Name() == "main" || fn.Pkg.Pkg.Path() == parserPkg || fn.Pkg.Pkg.Path() == lexerPkg || fn.Pkg.Pkg.Path() == astPkg)
}

func (c *parserClient) inSpec(x *Exec) bool { return isSpecFn(x.t.top().fn) }

func (c *parserClient) call(x *Exec, fn *ssa.Function, name string, args []Value, site ssa.CallInstruction) (Value, bool) {
	if nt := c.ntFn[fn]; nt != nil {
		return c.ntCall(x, fn, nt, args), true
	}
	switch name {
	case "(*" + parserPkg + ".Scanner).PeekAt":
		i, ok := args[1].(VInt)
		if !ok || !x.norm(i).isConst() || x.norm(i).K < 0 {
			giveUp("lookahead of unknown distance")
		}
		pos := x.t.pos + int(x.norm(i).K)
		v := c.peek(x, pos)
		if x.s.strm.far < pos+1 {
			x.s.strm.far = pos + 1
		}
		return v, true
	case "(*" + parserPkg + ".Scanner).Scan":
		v := c.peek(x, x.t.pos)
		t := v.(*Term)
		if x.s.strm.far < x.t.pos+1 {
			x.s.strm.far = x.t.pos + 1
		}
		if !x.s.moved && !x.test(mkSel(t, "Type", c.tokField("Type")), setOf(c.none)) {
			x.s.moved = true
		}
		x.t.pos++
		x.yield, x.scanned = true, true
		return v, true
	case "(*" + parserPkg + ".Scanner).Location":
		return c.loc(x, x.t.pos), true
	case "(*" + parserPkg + ".Scanner).ReScan":
		if x.s.strm.far > x.t.pos {
			panic(violated{"regex", "scans a regular expression after having read past it"})
		}
		v := c.rescan(x)
		x.s.strm.far = x.t.pos
		return v, true
	case "(*" + parserPkg + ".Scanner).PeekLen":
		giveUp("number of tokens read ahead")

	case "(" + lexerPkg + ".Token).StringConstant":
		if !x.typeIn(args[0], c.str) {
			x.runtime("StringConstant of a token that is not a string")
		}
		return mkApp("stringconst", types.Typ[types.String], x.field(args[0], fieldIndex(structOf(c.tokType), "Literal"))), true
	case "(" + lexerPkg + ".Token).NumberConstant":
		l := x.field(args[0], fieldIndex(structOf(c.tokType), "Literal"))
		if !x.test(mkApp("numok", types.Typ[types.Bool], l), setOf(1)) {
			panic(gopanic{&VIface{types.NewPointer(c.errType("SyntaxError")), VNil{}}})
		}
		return mkApp("numberconst", types.Typ[types.Float64], l), true
	case "(" + lexerPkg + ".Token).Source", "(" + lexerPkg + ".Token).String", "(" + lexerPkg + ".TokenType).String":
		return x.s.fresh("text", types.Typ[types.String]), true
	}
	if x.s.mode != modeInit && fn.Name() == "ContainsTemporalNodes" && fn.Signature.Recv() != nil && len(args) == 1 {
		rt := fn.Signature.Recv().Type()
		if types.Implements(rt, c.node) && !strings.HasSuffix(fn.String(), "BaseNode).ContainsTemporalNodes") {
			return vbool(c.temporal(x, &VIface{rt, args[0]})), true
		}
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == parserPkg && isSpecFn(fn) {
		switch fn.Name() {
		case "vPeek":
			return c.peek(x, x.t.pos+int(args[0].(VInt).K)), true
		case "vScan":
			v := c.peek(x, x.t.pos)
			x.t.pos++
			x.yield, x.scanned = true, true
			return v, true
		case "vReScan":
			return c.rescan(x), true
		case "vLoc":
			return c.loc(x, x.t.pos), true
		case "vFail":
			panic(gopanic{&VIface{types.NewPointer(c.errType("SyntaxError")), VNil{}}})
		case "vImpossible":
			panic(pause{stDead})
		case "vCheck":
			b, _ := args[0].(VInt)
			if !x.truth(b) {
				msg, _ := args[1].(VStr)
				panic(violated{"result", string(msg)})
			}
			return VTuple{}, true
		case "vFree":
			if x.tid == 1 {
				x.s.mode = modeFree
				x.t.frames = nil
				panic(pause{stDone})
			}
			return VTuple{}, true
		}
	}
	return nil, false
}

const modeInit = -1

func (c *parserClient) errType(n string) types.Type {
	return c.p.pkg("ecmascript/errs").Type(n).Type()
}

func (x *Exec) typeIn(tok Value, typ int64) bool {
	st := structOf(x.e.cl.(*parserClient).tokType)
	v := x.field(tok, fieldIndex(st, "Type")).(VInt)
	v = x.norm(v)
	if v.isConst() {
		return v.K == typ
	}
	return x.test(v.T, setOf(typ))
}

func (c *parserClient) rescan(x *Exec) Value {
	prev := c.sym(x, x.t.pos-1)
	if prev.Op != "tok" || !x.test(mkSel(prev, "Type", c.tokField("Type")), c.div) {
		panic(violated{"regex", "scans a regular expression that does not start with `/`"})
	}
	s := x.s
	i := x.t.pos - s.strm.base
	for len(s.strm.syms) <= i {
		s.strm.syms = append(s.strm.syms, s.fresh("re", c.reType))
	}
	t := s.strm.syms[i]
	if t == nil || t.Op != "re" {
		panic(violated{"regex", "scans a regular expression where a token is"})
	}
	x.t.pos++
	st := structOf(c.reType)
	fs := make([]Value, st.NumFields())
	for i := range fs {
		f := st.Field(i)
		if types.Identical(f.Type(), c.tokType) {
			ts := structOf(c.tokType)
			gs := make([]Value, ts.NumFields())
			for k := range gs {
				switch ts.Field(k).Name() {
				case "Type":
					gs[k] = vint(c.regexp)
				default:
					gs[k] = x.termVal(mkSel(t, ts.Field(k).Name(), ts.Field(k).Type()))
				}
			}
			fs[i] = &VStruct{c.tokType, gs}
			continue
		}
		fs[i] = x.termVal(mkSel(t, f.Name(), f.Type()))
	}
	return &VStruct{c.reType, fs}
}

func (c *parserClient) strEq(x *Exec, s Value, k string) (bool, bool) {
	t, ok := s.(*Term)
	if !ok || t.Op != "sel" || t.Name != "Literal" {
		return false, false
	}
	b, ok := t.Args[0].(*Term)
	if !ok || b.Op != "tok" {
		return false, false
	}
	// The literal of an identifier is not a keyword, and the other way around;
	// punctuators have none.
	tt := mkSel(b, "Type", c.tokField("Type"))
	for v, l := range c.kwLit {
		if l == k {
			return x.test(tt, setOf(v)), true
		}
	}
	var lit IntSet
	c.tokDom.each(func(v int64) {
		n := c.tokName[v]
		if n == "Identifier" || n == "PrivateIdentifier" || strings.HasPrefix(n, "Literal") {
			lit = lit.union(setOf(v))
		}
	})
	if k == "" {
		if x.test(tt, lit) {
			return false, true
		}
		var kw IntSet
		for v := range c.kwLit {
			kw = kw.union(setOf(v))
		}
		return !x.test(tt, kw), true
	}
	if !x.test(tt, lit) {
		return false, true
	}
	return false, false
}

// ---- anchored calls ----

// context finds the context flags of a parser object.
func (c *parserClient) context(x *Exec, p Value) []Value {
	out := make([]Value, 3)
	var walk func(v Value, t types.Type)
	walk = func(v Value, t types.Type) {
		st := structOf(t)
		if st == nil {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			k := ctxField(f.Name())
			if k >= 0 {
				if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					out[k] = x.field(v, i)
					continue
				}
			}
			if structOf(f.Type()) != nil {
				walk(x.field(v, i), f.Type())
			}
		}
	}
	v := x.load(p)
	var t types.Type
	switch v := v.(type) {
	case *VStruct:
		t = v.Type
	case *Term:
		t = v.Type
	}
	walk(v, t)
	for i := range out {
		if out[i] == nil {
			giveUp("the flag %s of the parser was not found", []string{"strictMode", "async", "generator"}[i])
		}
	}
	return out
}

func ctxField(n string) int {
	switch strings.ToLower(n) {
	case "strict", "strictmode":
		return 0
	case "async":
		return 1
	case "generator", "gen":
		return 2
	}
	return -1
}

func (c *parserClient) ntCall(x *Exec, fn *ssa.Function, nt *NT, args []Value) Value {
	ctx := c.context(x, args[0])
	if fn == nt.impl && nt.wrap != nil {
		o := x.s.alloc(c.specParser(nt.spec, ctx))
		as := append([]Value{&VPtr{Obj: o}}, args[1:]...)
		x.e.push(x.s, x.t, nt.wrap, as, nil)
		panic(pause{stRun})
	}
	// What was read ahead must not be a regular expression.
	if x.tid == 0 && !nt.pure {
		for q := x.t.pos; q < x.s.strm.far-1; q++ {
			t := c.sym(x, q)
			if t.Op != "tok" || x.test(mkSel(t, "Type", c.tokField("Type")), c.div) {
				panic(violated{"regex", "reads ahead over the start of a regular expression"})
			}
		}
	}
	ev := &CallEvent{nt: nt, args: []Value{VTuple(ctx)}}
	for i, a := range args[1:] {
		switch w := a.(type) {
		case VInt:
			a = x.norm(w)
		case *VPtr:
			_ = i
		}
		ev.args = append(ev.args, a)
	}
	// Location arguments are determined by the caller.
	x.t.call = ev
	panic(pause{stCall})
}

func (c *parserClient) specParser(spec *ssa.Function, ctx []Value) Value {
	pt := spec.Params[0].Type().(*types.Pointer).Elem()
	st := structOf(pt)
	fs := make([]Value, st.NumFields())
	for i := range fs {
		if k := ctxField(st.Field(i).Name()); k >= 0 {
			fs[i] = ctx[k]
		} else {
			fs[i] = zero(st.Field(i).Type())
		}
	}
	return &VStruct{pt, fs}
}

const flagArrow = "exprFlagMaybeArrow"

// arrowCall tells whether a call can return placeholder nodes.
func (c *parserClient) arrowCall(nt *NT, args []Value) bool {
	fl, ok := lookupConst(c.p.pkg("ecmascript/parser").Pkg, flagArrow)
	if !ok {
		return true
	}
	for i := 1; i < nt.spec.Signature.Params().Len(); i++ {
		if typeName(nt.spec.Signature.Params().At(i).Type()) == "exprFlags" {
			v, ok := args[i].(VInt)
			return !ok || !v.isConst() || v.K&fl != 0
		}
	}
	return false
}

// resultTypes are the types of the nodes that a function of the reference model
// returns, by its source.
func (c *parserClient) resultTypes(fn *ssa.Function) IntSet {
	set, all := setOf(), false
	seen := map[ssa.Value]bool{}
	seenFn := map[*ssa.Function]bool{}
	var ofFn func(f *ssa.Function)
	var of func(v ssa.Value)
	ofFn = func(f *ssa.Function) {
		if seenFn[f] {
			return
		}
		seenFn[f] = true
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(r.Results) != 1 {
					all = true
					return
				}
				of(r.Results[0])
			}
		}
	}
	of = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.MakeInterface:
			set = set.union(setOf(c.e.typeID(v.X.Type())))
		case *ssa.Const:
			if v.IsNil() {
				set = set.union(setOf(0))
			} else {
				all = true
			}
		case *ssa.Phi:
			for _, e := range v.Edges {
				of(e)
			}
		case *ssa.ChangeInterface:
			of(v.X)
		case *ssa.Call:
			if f := v.Call.StaticCallee(); f != nil && isSpecFn(f) {
				ofFn(f)
				return
			}
			all = true
		default:
			all = true
		}
	}
	ofFn(fn)
	if all {
		return nil
	}
	return set
}

func (c *parserClient) grant(x *Exec, ev *CallEvent) Value {
	nt := ev.nt
	before := c.loc(x, x.t.pos)
	c.reach(ev)
	res := nt.spec.Signature.Results()
	var after Value
	if !nt.pure {
		i := x.t.pos - x.s.strm.base
		for len(x.s.strm.locs) <= i {
			x.s.strm.locs = append(x.s.strm.locs, nil)
		}
		l := x.s.fresh("loc", c.locType)
		x.s.strm.locs = append(x.s.strm.locs[:i+1:i+1], l)
		after = l
	}
	arrow := c.arrowCall(nt, ev.args)
	mk := func(t types.Type) Value {
		b := x.s.fresh("nt", t)
		switch u := t.Underlying().(type) {
		case *types.Interface:
			set := x.e.nodeTypes
			if nt.results == nil {
				s := c.resultTypes(nt.spec)
				if s == nil || res.Len() != 1 {
					s = set
				}
				nt.results = &s
			}
			set = *nt.results
			if !arrow {
				set = set.minus(c.tempSet)
				x.s.set(mkApp("temporal", types.Typ[types.Bool], b), setOf(0))
			}
			if nt.name == "parseExpression" && !arrow {
				b.Args = []Value{before, after}
			}
			x.s.set(x.typeofTerm(b), set)
			return b
		case *types.Slice:
			_ = u
			x.s.set(mkApp("temporal", types.Typ[types.Bool], b), setOf(0))
			return &VList{Base: b}
		case *types.Pointer:
			x.s.set(mkApp("isnil", types.Typ[types.Bool], b), setOf(0))
		}
		return x.termVal(b)
	}
	switch res.Len() {
	case 0:
		return VTuple{}
	case 1:
		return mk(res.At(0).Type())
	}
	tu := VTuple{}
	for i := 0; i < res.Len(); i++ {
		tu = append(tu, mk(res.At(i).Type()))
	}
	return tu
}

// reach records that an anchored function is called with certain constants.
func (c *parserClient) reach(ev *CallEvent) {
	in := &instance{nt: ev.nt}
	key := ev.nt.name
	for i, a := range ev.args {
		if i == 0 {
			in.args = append(in.args, nil)
			continue
		}
		v, ok := a.(VInt)
		b, isB := ev.nt.spec.Signature.Params().At(i).Type().Underlying().(*types.Basic)
		if ok && isB && b.Kind() != types.Bool {
			if !v.isConst() {
				giveUp("call of %s with an unknown %s", ev.nt.name, ev.nt.spec.Params[i].Name())
			}
			in.args = append(in.args, v)
			key += fmt.Sprintf(",%d", v.K)
			continue
		}
		in.args = append(in.args, nil)
	}
	in.key = key
	if c.reached[key] == nil {
		c.reached[key] = in
		c.todo = append(c.todo, key)
	}
}

// ---- methods of nodes ----

func (c *parserClient) invoke(x *Exec, recv *Term, m *types.Func, args []Value) (Value, bool) {
	switch m.Name() {
	case "ContainsTemporalNodes":
		return vbool(c.temporal(x, recv)), true
	case "Span":
		st := m.Type().(*types.Signature).Results().At(0).Type()
		if len(recv.Args) == 2 && recv.Op == "nt" {
			return &VStruct{st, []Value{recv.Args[0], recv.Args[1]}}, true
		}
		return x.termVal(mkApp("span", st, recv)), true
	}
	return nil, false
}

// temporal tells whether a node is or contains a placeholder node.
func (c *parserClient) temporal(x *Exec, v Value) bool {
	switch v := v.(type) {
	case *Term:
		if types.IsInterface(v.Type) {
			if d := x.dom(mkApp("temporal", types.Typ[types.Bool], v)); d.subset(setOf(0)) {
				return false
			}
			if x.test(x.typeofTerm(v), setOf(0)) {
				return false
			}
			ty := x.typeofTerm(v)
			if x.dom(ty).subset(c.tempSet) {
				return true
			}
			if x.test(mkApp("temporal", types.Typ[types.Bool], v), setOf(1)) {
				return true
			}
			if d := x.dom(ty); !d.inter(c.tempSet).empty() {
				x.s.set(ty, d.minus(c.tempSet))
			}
			return false
		}
		if v.Type != nil && strings.HasPrefix(typeName(v.Type), "Temporal") {
			return true
		}
		if v.Op == "sel" && strings.HasPrefix(v.Name, "(") {
			return c.temporal(x, v.Args[0])
		}
		return false
	case *VIface:
		if strings.HasPrefix(typeName(v.Type), "Temporal") || strings.HasPrefix(typeName(v.Type), "*Temporal") {
			return true
		}
		return c.temporal(x, v.V)
	case *VPtr:
		return c.temporal(x, x.load(v))
	case *VStruct:
		if strings.HasPrefix(typeName(v.Type), "Temporal") {
			return true
		}
		for _, f := range v.F {
			if c.temporal(x, f) {
				return true
			}
		}
	case *VList:
		if v.Base != nil {
			if sl, ok := v.Base.Type.Underlying().(*types.Slice); ok && c.mayHoldNodes(sl.Elem()) {
				if x.test(mkApp("temporal", types.Typ[types.Bool], v.Base), setOf(1)) {
					return true
				}
			}
		}
		for _, f := range v.Elems {
			if c.temporal(x, f) {
				return true
			}
		}
	}
	return false
}

func (c *parserClient) mayHoldNodes(t types.Type) bool {
	if types.IsInterface(t) {
		return true
	}
	if st := structOf(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if c.mayHoldNodes(st.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (c *parserClient) collapsible(t types.Type) bool {
	return types.Implements(t, c.node)
}

func (c *parserClient) forgotten(x *Exec, old Value, sym *Term) {
	// What was built is checked before it is forgotten.
	c.post(x, old, ".")
	if i, ok := old.(*VIface); ok {
		if t, ok := x.s.cons[x.typeofTerm(sym).raw]; ok && t.set.size() == 1 {
			v := i.V
			asr := x.asserted(sym, i.Type)
			if p, ok := v.(*VPtr); ok {
				v = x.load(p)
				if t, ok := asr.(*Term); ok {
					x.s.set(mkApp("isnil", types.Typ[types.Bool], t), setOf(0))
				}
				asr = x.load(asr)
			}
			var st *types.Struct
			switch w := v.(type) {
			case *VStruct:
				st = structOf(w.Type)
			case *Term:
				st = structOf(w.Type)
			}
			if st != nil {
				for k := 0; k < st.NumFields(); k++ {
					b, ok := st.Field(k).Type().Underlying().(*types.Basic)
					if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 || !c.readFields[st.Field(k)] {
						continue
					}
					if u, ok := x.field(v, k).(VInt); ok {
						if g, ok := x.field(asr, k).(VInt); ok && g.T != nil && !g.Neg && g.K == 0 {
							if u.isConst() {
								x.s.set(g.T, setOf(u.K))
							} else if !u.Neg && u.K == 0 {
								x.s.set(g.T, x.dom(u.T))
							}
						}
					}
				}
			}
		}
	}
	if l, ok := old.(*VList); ok && c.noNils(x, l) {
		x.s.set(mkApp("nonils", types.Typ[types.Bool], sym), setOf(1))
	}
	switch old.(type) {
	case *VList, *VIface:
		k := func() (r int64) {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(fork); ok {
						r = -1
						return
					}
					panic(e)
				}
			}()
			if c.temporal(x, old) {
				return 1
			}
			return 0
		}()
		if k >= 0 {
			x.s.set(mkApp("temporal", types.Typ[types.Bool], sym), setOf(k))
		}
	}
}

func (c *parserClient) failure(x *Exec, v Value) (bool, string) {
	if r, ok := v.(VRuntime); ok {
		return false, "run-time panic: " + r.Msg
	}
	i, ok := v.(*VIface)
	if !ok {
		return false, "panics with " + rawKey(v)
	}
	n := typeName(i.Type)
	if p, ok := i.Type.(*types.Pointer); ok {
		if nm, ok := p.Elem().(*types.Named); ok && nm.Obj().Pkg() != nil && nm.Obj().Pkg().Path() == errsPkg {
			return true, n
		}
	}
	return false, "panics with a value of type " + n
}

func (c *parserClient) free(x *Exec) {
	im := x.s.th[0]
	if c.inst.nt.name == "parseStatement" && (im.pos != x.s.strm.start || !isNilV((&comparer{x: x}).simplify(im.ret))) {
		c.cur.find(x.s, "accepts", c.inst.nt.impl.Name(), "", "returns a node where no statement starts")
		return
	}
	c.post(x, im.ret, "")
}

func (c *parserClient) finish(x *Exec) {
	p := c.cur
	im, sp := x.s.th[0], x.s.th[1]
	cm := &comparer{x: x}
	cm.diff(im.ret, sp.ret)
	for _, b := range cm.bad {
		kind := "result"
		if strings.Contains(b.path, ".span") || strings.Contains(b.path, ".Start") || strings.Contains(b.path, ".End") {
			kind = "span"
		}
		p.find(x.s, kind, c.inst.nt.impl.Name(), b.path, "%s%s is %s, specified is %s", resultName(sp.ret), b.path, b.a, b.b)
	}
	if len(cm.bad) > 0 {
		return
	}
	if po, ok := x.s.extra["parser"]; ok {
		ctx := c.context(x, po)
		cm := &comparer{x: x}
		cm.diff(VTuple(ctx), x.s.extra["ctx"])
		if len(cm.bad) > 0 && !c.inst.nt.pure && c.inst.nt.name != "parseScript" && c.inst.nt.name != "parseModule" {
			p.find(x.s, "context", c.inst.nt.impl.Name(), "after", "leaves the context changed: %s, was %s", short(x, VTuple(ctx)), short(x, x.s.extra["ctx"]))
		}
	}
	// Postconditions on which callers rely.
	if !c.inst.nt.pure && x.s.strm.far > im.pos+1 {
		for q := im.pos; q < x.s.strm.far-1; q++ {
			t := c.sym(x, q)
			if t.Op != "tok" || x.test(mkSel(t, "Type", c.tokField("Type")), c.div) {
				p.find(x.s, "regex", c.inst.nt.impl.Name(), "", "reads ahead over the start of a regular expression")
			}
		}
	}
	c.post(x, sp.ret, "")
}

func resultName(v Value) string {
	if i, ok := v.(*VIface); ok {
		return typeName(i.Type)
	}
	if s, ok := v.(*VStruct); ok {
		return typeName(s.Type)
	}
	return "result"
}

// post checks that mandatory children are there and that no placeholder node
// is left.
func (c *parserClient) post(x *Exec, v Value, path string) {
	p := c.cur
	where := c.inst.nt.impl.Name()
	if path == "" {
		arrow := c.arrowCall(c.inst.nt, c.inst.args) || c.inst.nt.pure && c.inst.nt.name != "convertExprToCallParams"
		if !arrow && c.temporal(x, v) {
			p.find(x.s, "temporal", where, "", "returns a tree with a placeholder node")
		}
		if c.inst.nt.name == "parseExpression" && !arrow {
			sp := c.spanOf(x, v)
			if sp != nil {
				cm := &comparer{x: x}
				cm.diff(VTuple(sp), VTuple{x.s.extra["loc0"], c.loc(x, x.t.pos)})
				if len(cm.bad) > 0 {
					p.find(x.s, "span", where, "", "the span of the expression is %s to %s", cm.bad[0].a, cm.bad[0].b)
				}
			}
		}
	}
	switch v := v.(type) {
	case *VIface:
		c.post(x, v.V, path)
	case *VPtr:
		c.post(x, x.load(v), path)
	case *VTPtr:
	case VTuple:
		for i, f := range v {
			c.post(x, f, fmt.Sprintf("%s#%d", path, i))
		}
	case *VList:
		for _, f := range v.Elems {
			c.post(x, f, path+"[]")
		}
	case *VStruct:
		st := structOf(v.Type)
		if st == nil {
			return
		}
		for i, f := range v.F {
			n := typeName(v.Type) + "." + st.Field(i).Name()
			if types.Identical(st.Field(i).Type(), c.nodeN) && !c.nilable[n] {
				nil_ := false
				switch w := f.(type) {
				case *VIface:
					_, nil_ = w.V.(VNil)
				case VNil:
					nil_ = true
				case *Term:
					nil_ = x.dom(x.typeofTerm(w)).has(0)
				}
				if nil_ {
					p.find(x.s, "nilchild", where, n, "%s may be nil", n)
				}
			}
			c.post(x, f, path+"."+st.Field(i).Name())
		}
	}
}

func (c *parserClient) spanOf(x *Exec, v Value) VTuple {
	switch v := v.(type) {
	case *VIface:
		return c.spanOf(x, v.V)
	case *VPtr:
		return c.spanOf(x, x.load(v))
	case *VStruct:
		st := structOf(v.Type)
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "BaseNode":
				return c.spanOf(x, x.field(v, i))
			case "span":
				s := x.field(v, i)
				return VTuple{x.field(s, 0), x.field(s, 1)}
			}
		}
	}
	return nil
}

// ---- driver ----

// startState builds the initial state of an instance.
func (c *parserClient) startState(in *instance) (*State, error) {
	s := &State{heap: map[int]Value{}, cons: map[string]con{}}
	ctx := []Value{}
	for i := 0; i < 3; i++ {
		ctx = append(ctx, VInt{T: s.fresh("ctx", types.Typ[types.Bool])})
	}
	im, sp := &Thread{}, &Thread{}
	s.th[0], s.th[1] = im, sp
	x := &Exec{e: c.e, s: s, t: im}
	po := s.alloc(c.parserObject(s, ctx))
	so := s.alloc(c.specParser(in.nt.spec, ctx))
	ia, sa := []Value{&VPtr{Obj: po}}, []Value{&VPtr{Obj: so}}
	for i := 1; i < in.nt.spec.Signature.Params().Len(); i++ {
		t := in.nt.spec.Signature.Params().At(i).Type()
		v := in.args[i]
		if v == nil {
			b := s.fresh("arg", t)
			v = x.termVal(b)
			if types.IsInterface(t) {
				s.set(x.typeofTerm(b), c.e.nodeTypes)
			}
			if types.Identical(t, c.locType) {
				// The start of a node that was begun by the caller.
				v = b
			}
		}
		ia, sa = append(ia, v), append(sa, v)
	}
	c.e.push(s, im, in.nt.impl, ia, nil)
	c.e.push(s, sp, in.nt.spec, sa, nil)
	s.extra = map[string]Value{"parser": &VPtr{Obj: po}, "ctx": VTuple(ctx), "loc0": c.loc(x, 0)}
	return s, nil
}

// parserObject builds a Parser in the middle of a parse.
func (c *parserClient) parserObject(s *State, ctx []Value) Value {
	pr := c.p.pkg("ecmascript/parser")
	pt := pr.Type("Parser").Type()
	x := &Exec{e: c.e, s: s}
	var build func(t types.Type, name string) Value
	build = func(t types.Type, name string) Value {
		if k := ctxField(name); k >= 0 {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				return ctx[k]
			}
		}
		if st := structOf(t); st != nil && types.Identical(t, pt) || st != nil && strings.HasPrefix(types.TypeString(t, nil), parserPkg) {
			fs := make([]Value, st.NumFields())
			for i := range fs {
				fs[i] = build(st.Field(i).Type(), st.Field(i).Name())
			}
			return &VStruct{t, fs}
		}
		if p, ok := t.(*types.Pointer); ok && typeName(p.Elem()) == "Scanner" {
			return &VPtr{Obj: s.alloc(s.fresh("scanner", p.Elem()))}
		}
		return x.termVal(s.fresh("field", t))
	}
	return build(pt, "")
}

// unitStat says how the analysis of one instance went.
type unitStat struct {
	key                                     string
	runs, states, forks, rets, fails, finds int
	cut                                     bool
	secs                                    float64
}

// runInstance analyses one instance.
func (c *parserClient) runInstance(in *instance, limit int) ([]*Finding, unitStat) {
	t0 := time.Now()
	p := newProduct(c.e, c, in.key)
	p.limit = limit
	if c.budget > 0 {
		p.deadline = t0.Add(c.budget)
	}
	p.lockstep, p.forget = in.nt.pure, in.nt.pure
	p.stop, p.found = c.stop, c.found
	c.cur, c.inst = p, in
	s, err := c.startState(in)
	if err != nil {
		p.find(nil, "undecided", in.key, "", "%v", err)
	} else {
		p.start(s)
		p.solve()
		if p.cut && !c.bounded && !(c.stop != nil && c.stop()) {
			p.find(nil, "undecided", "?", "", "more than %d joint states or %v", p.limit, c.budget)
		}
	}
	var out []*Finding
	for _, k := range sortedFinds(p.finds) {
		out = append(out, p.finds[k])
	}
	st := unitStat{in.key, p.runs, len(p.pos), p.forks, p.rets, p.fails, len(p.finds), p.cut, time.Since(t0).Seconds()}
	if flagVerbose {
		fmt.Fprintf(os.Stderr, "%-40s runs %6d forks %7d states %6d rets %d fails %d finds %d %.1fs\n", in.key, p.runs, p.forks, len(p.pos), p.rets, p.fails, len(p.finds), st.secs)
	}
	return out, st
}

// parserRun analyses the instances that can be reached from the roots, on
// several processors.
type parserRun struct {
	p     *Prog
	limit func(key string) int // 0: do not analyse
	setup func(c *parserClient) error
	stop  func(fs []*Finding) bool // whether to end after these findings
	// When to end, once there are findings.
	stopAt int64
	// When to end at all.
	end time.Time
}

// stopAfter is the time that is left to the analysis once a violation is found.
const stopAfter = 15 * time.Second

func (r *parserRun) stopped() bool {
	t := atomic.LoadInt64(&r.stopAt)
	return t != 0 && time.Now().UnixNano() > t
}

// found ends the analysis soon if the finding counts.
func (r *parserRun) found(f *Finding) {
	if r.stop != nil && r.stop([]*Finding{f}) {
		atomic.CompareAndSwapInt64(&r.stopAt, 0, time.Now().Add(stopAfter).UnixNano())
	}
}

func (r *parserRun) run(roots []string) ([]*Finding, []unitStat, error) {
	type job struct {
		key  string
		args []Value
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var queue []job
	known := map[string]bool{}
	busy := 0
	var finds []*Finding
	var stats []unitStat
	var first error
	add := func(key string, args []Value) {
		if !known[key] {
			known[key] = true
			queue = append(queue, job{key, args})
			cond.Broadcast()
		}
	}
	for _, k := range roots {
		xs := strings.Split(k, ",")
		as := make([]Value, 1)
		for _, a := range xs[1:] {
			n, _ := strconv.Atoi(a)
			as = append(as, vint(int64(n)))
		}
		add(k, as)
	}
	worker := func() {
		e := newEngine(r.p)
		err := e.initPackages()
		var c *parserClient
		if err == nil {
			c, err = newParserClient(r.p, e)
		}
		if err == nil && r.setup != nil {
			err = r.setup(c)
		}
		if err == nil {
			e.cl = c
			c.stop, c.found = r.stopped, r.found
			err = c.anchors()
		}
		mu.Lock()
		defer mu.Unlock()
		if err != nil {
			first = err
			cond.Broadcast()
			return
		}
		for {
			for len(queue) == 0 && busy > 0 && first == nil {
				cond.Wait()
			}
			if len(queue) == 0 || first != nil {
				cond.Broadcast()
				return
			}
			// The expressions, which take longest, first.
			next := 0
			for i, q := range queue {
				if cost(q.key) > cost(queue[next].key) {
					next = i
				}
			}
			j := queue[next]
			queue = append(queue[:next:next], queue[next+1:]...)
			nt := c.nts[strings.Split(j.key, ",")[0]]
			lim := r.limit(j.key)
			if nt == nil {
				continue
			}
			if lim == 0 {
				stats = append(stats, unitStat{key: j.key})
				continue
			}
			if !r.end.IsZero() {
				c.budget = time.Until(r.end)
				if c.budget <= 0 {
					finds = append(finds, undecidedFinding("no time is left for %s", j.key))
					continue
				}
			}
			if r.stopped() {
				continue
			}
			busy++
			mu.Unlock()
			c.reached, c.todo = map[string]*instance{}, nil
			args := j.args
			for len(args) < nt.spec.Signature.Params().Len() {
				args = append(args, nil)
			}
			fs, st := c.guarded(&instance{key: j.key, nt: nt, args: args}, lim)
			mu.Lock()
			busy--
			finds = append(finds, fs...)
			for _, f := range fs {
				r.found(f)
			}
			stats = append(stats, st)
			for _, k := range c.todo {
				add(k, c.reached[k].args)
			}
			cond.Broadcast()
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < runtime.GOMAXPROCS(0); i++ {
		wg.Add(1)
		go func() { defer wg.Done(); worker() }()
	}
	wg.Wait()
	sort.Slice(stats, func(i, j int) bool { return stats[i].key < stats[j].key })
	sort.Slice(finds, func(i, j int) bool { return finds[i].key() < finds[j].key() })
	return finds, stats, first
}

// cost orders the instances by the time they take.
func cost(key string) int {
	xs := strings.Split(key, ",")
	if xs[0] != "parseExpression" || len(xs) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(xs[1])
	return 100 - n
}

// guarded turns a failure of the analysis into a finding.
func (c *parserClient) guarded(in *instance, limit int) (fs []*Finding, st unitStat) {
	defer func() {
		if r := recover(); r != nil {
			fs = []*Finding{{Kind: "undecided", Where: in.key, Pos: "?", Msg: fmt.Sprintf("the analysis failed: %v", r)}}
			st = unitStat{key: in.key}
		}
	}()
	return c.runInstance(in, limit)
}
