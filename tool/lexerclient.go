package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
	"time"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// lexerClient gives the meaning of the runes that the lexer reads.
type lexerClient struct {
	p     *Prog
	e     *Engine
	emit  map[*ssa.Function]*NT
	impl  *ssa.Function
	spec  *ssa.Function
	cur   *Product
	fails int // emitted tokens
}

var runeType types.Type = types.Typ[types.Int32]

func newLexerClient(p *Prog, e *Engine) (*lexerClient, error) {
	c := &lexerClient{p: p, e: e, emit: map[*ssa.Function]*NT{}}
	lx := p.pkg("ecmascript/lexer")
	if lx == nil {
		return nil, fmt.Errorf("package lexer not found")
	}
	for _, n := range []string{"vEmit", "vEmitRe"} {
		f := lx.Func(n)
		if f == nil {
			return nil, fmt.Errorf("%s not found", n)
		}
		c.emit[f] = &NT{name: n, impl: f, spec: f, pure: true}
	}
	c.impl, c.spec = lx.Func("vDriveImpl"), lx.Func("vDriveSpec")
	if c.impl == nil || c.spec == nil {
		return nil, fmt.Errorf("drivers of the lexer not found")
	}
	e.history = 0
	// All constants are known from the start, see differs.
	for _, m := range lx.Members {
		if f, ok := m.(*ssa.Function); ok {
			stringConstants(e, f)
		}
		if t, ok := m.(*ssa.Type); ok {
			for _, f := range methodsOf(p, t.Type()) {
				stringConstants(e, f)
			}
		}
	}
	e.nodeType = types.NewInterfaceType(nil, nil)
	return c, nil
}

func methodsOf(p *Prog, t types.Type) []*ssa.Function {
	var out []*ssa.Function
	for _, t := range []types.Type{t, types.NewPointer(t)} {
		ms := p.SSA.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if f := p.SSA.MethodValue(ms.At(i)); f != nil {
				out = append(out, f)
			}
		}
	}
	return out
}

func stringConstants(e *Engine, f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			for _, o := range i.Operands(nil) {
				if k, ok := (*o).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					e.strID(constant.StringVal(k.Value))
				}
			}
		}
	}
	for _, g := range f.AnonFuncs {
		stringConstants(e, g)
	}
}

// The scanner is represented by what can be unread.
const (
	scanFresh = iota // nothing
	scanRead         // the last rune
	scanEOF          // the end was seen: to unread has no effect
)

func (c *lexerClient) sym(x *Exec, pos int) *Term {
	s := x.s
	i := pos - s.strm.base
	if i < 0 {
		giveUp("rune %d before the window", -i)
	}
	for len(s.strm.syms) <= i {
		s.strm.syms = append(s.strm.syms, s.fresh("rune", runeType))
	}
	return s.strm.syms[i]
}

// at returns the rune at a position; there is nothing behind the end.
func (c *lexerClient) at(x *Exec, pos int) Value {
	for p := min(x.t.pos, pos); p < pos; p++ {
		if x.test(c.sym(x, p), setOf(-1)) {
			return vint(-1)
		}
	}
	return x.norm(VInt{T: c.sym(x, pos)})
}

func (c *lexerClient) domain(x *Exec, t *Term) IntSet {
	if t.Op == "rune" {
		return setRange(-1, unicode.MaxRune)
	}
	if t.Op == "tok" {
		return c.other()
	}
	return nil
}

func (c *lexerClient) flag(x *Exec, p Value) int64 {
	v, ok := x.load(p).(VInt)
	if !ok || !v.isConst() {
		giveUp("unknown scanner")
	}
	return v.K
}

func (c *lexerClient) call(x *Exec, fn *ssa.Function, name string, args []Value, site ssa.CallInstruction) (Value, bool) {
	if nt := c.emit[fn]; nt != nil {
		ev := &CallEvent{nt: nt}
		for _, a := range args {
			if v, ok := a.(VInt); ok {
				a = x.norm(v)
			}
			ev.args = append(ev.args, a)
		}
		// What was lexed can not be unread.
		if x.tid == 0 {
			for o, v := range x.s.heap {
				if st, ok := v.(VInt); ok && c.scanner(x.s) == o && st.K == scanRead {
					x.s.heap[o] = vint(scanFresh)
					x.s.moved = true
				}
			}
		}
		x.t.call = ev
		panic(pause{stCall})
	}
	switch name {
	case "(*" + lexerPkg + ".Scanner).Read":
		r := c.at(x, x.t.pos).(VInt)
		old := c.flag(x, args[0])
		if x.cmpEOF(r) {
			x.store(args[0], vint(scanEOF))
			if old == scanRead {
				x.s.moved = true
			}
			return vint(-1), true
		}
		if old == scanRead {
			x.s.moved = true
		}
		x.store(args[0], vint(scanRead))
		x.t.pos++
		c.ahead(x)
		x.yield, x.scanned = true, true
		return r, true
	case "(*" + lexerPkg + ".Scanner).Unread":
		switch c.flag(x, args[0]) {
		case scanFresh:
			panic(violated{"crash", "unreads more than one rune"})
		case scanRead:
			x.store(args[0], vint(scanFresh))
			x.t.pos--
			if x.t.pos < x.s.strm.base {
				giveUp("unreads a rune that has been forgotten")
			}
		}
		return VTuple{}, true
	case "(*" + lexerPkg + ".Scanner).Location":
		return x.s.fresh("loc", fn.Signature.Results().At(0).Type()), true
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == lexerPkg && isSpecFn(fn) {
		switch fn.Name() {
		case "vRune":
			return c.at(x, x.t.pos+int(args[0].(VInt).K)), true
		case "vNext":
			if x.cmpEOF(c.at(x, x.t.pos).(VInt)) {
				panic(violated{"undecided", "the reference reads past the end"})
			}
			x.t.pos++
			c.ahead(x)
			x.yield, x.scanned = true, true
			return VTuple{}, true
		case "vFail":
			panic(gopanic{&VIface{types.NewPointer(c.p.pkg("ecmascript/errs").Type("SyntaxError").Type()), VNil{}}})
		case "vFree":
			if x.s.mode != modeBoth {
				panic(pause{stDead})
			}
			x.s.mode = modeFree
			x.t.frames = nil
			panic(pause{stDone})
		}
	}
	return nil, false
}

// ahead ends the exploration when one of the programs goes on after the other one
// has the token.
func (c *lexerClient) ahead(x *Exec) {
	o := x.s.th[1-x.tid]
	if n := x.t.pos - o.pos; x.s.mode == modeBoth && o.status == stCall && n > 3 {
		panic(violated{"event", fmt.Sprintf("%s, %d runes behind the end of the token", map[bool]string{true: "still reads", false: "has ended the token"}[x.tid == 0], n)})
	}
}

func (x *Exec) cmpEOF(r VInt) bool {
	if r.isConst() {
		return r.K == -1
	}
	return x.test(r.T, setOf(-1))
}

// scanner is the object that stands for the scanner of the implementation.
func (c *lexerClient) scanner(s *State) int {
	if p, ok := s.extra["scanner"].(*VPtr); ok {
		return p.Obj
	}
	return 0
}

// history keeps the rune that can be unread.
func (c *lexerClient) history(s *State) int {
	if v, ok := s.heap[c.scanner(s)].(VInt); ok && v.K == scanRead && alive(s.th[0]) {
		return 1
	}
	return 0
}

func (c *lexerClient) invoke(x *Exec, recv *Term, m *types.Func, args []Value) (Value, bool) {
	return nil, false
}

func (c *lexerClient) strEq(x *Exec, s Value, k string) (bool, bool) { return false, false }

// other are the types of tokens that are no end and that start no regular expression.
func (c *lexerClient) other() IntSet {
	d := setRange(0, 1<<12)
	for _, n := range []string{"TokenNone", "TokenPunctuatorDiv", "TokenPunctuatorDivAssign"} {
		k := c.p.pkg("ecmascript/lexer").Const(n)
		if k == nil {
			giveUp("%s not found", n)
		}
		d = d.minus(setOf(k.Value.Int64()))
	}
	return d
}

// forget forgets all about the tokens that were lexed, as far as they start no
// regular expression.
func (c *lexerClient) forget(s *State) {
	other := c.other()
	var token types.Type = c.p.pkg("ecmascript/lexer").Type("Token").Type()
	s.mapState(func(v Value) Value {
		return mapValue(v, func(w Value) Value {
			t, ok := w.(*VStruct)
			if !ok || !types.Identical(t.Type, token) {
				return nil
			}
			st := structOf(t.Type)
			fs := append([]Value{}, t.F...)
			for i := range fs {
				if fs[i] == nil {
					return nil
				}
				switch f := st.Field(i); f.Name() {
				case "Type":
					k, ok := fs[i].(VInt)
					if !ok || !k.isConst() || !other.has(k.K) {
						return nil
					}
					y := s.fresh("tok", f.Type())
					fs[i] = VInt{T: y}
				case "Literal":
					fs[i] = s.fresh("str", f.Type())
				case "NewLine":
					fs[i] = VInt{T: s.fresh("again", f.Type())}
				}
			}
			return &VStruct{t.Type, fs}
		})
	})
}

func (c *lexerClient) grant(x *Exec, ev *CallEvent) Value {
	again := VInt{T: x.s.fresh("again", types.Typ[types.Bool])}
	if ev.nt.impl.Signature.Results().Len() == 1 {
		c.forget(x.s)
		return again
	}
	st := structOf(ev.args[0].(*VStruct).Type)
	k := ev.args[0].(*VStruct).F[fieldIndex(st, "Type")]
	if k, ok := k.(VInt); ok && k.isConst() && c.other().has(k.K) {
		c.forget(x.s)
		f := append([]Value{}, ev.args[0].(*VStruct).F...)
		f[fieldIndex(st, "Type")] = VInt{T: x.s.fresh("tok", st.Field(fieldIndex(st, "Type")).Type())}
		f[fieldIndex(st, "Literal")] = x.s.fresh("str", types.Typ[types.String])
		return VTuple{&VStruct{ev.args[0].(*VStruct).Type, f}, vint(0)}
	}
	return VTuple{ev.args[0], again}
}

// ends: what follows a token that is not specified is what follows any token.
func (c *lexerClient) ends() bool { return true }

// classes are the parts of the lexical grammar by functions of the reference.
var lexClasses = map[string]string{
	"vRegExp": "regexp", "vString": "string", "vNumber": "number", "vDigits": "number", "vName": "name",
	"vNameType": "name", "vPunctuator": "punctuator", "vSkip": "skip",
}

// class tells which part of the lexical grammar the reference is in.
func (c *lexerClient) class(s *State) string {
	t := s.th[1]
	if t.call != nil {
		if t.call.nt.name == "vEmitRe" {
			return "regexp"
		}
		lx := c.p.pkg("ecmascript/lexer")
		v := t.call.args[0].(*VStruct)
		k, _ := v.F[fieldIndex(structOf(v.Type), "Type")].(VInt)
		is := func(n string) bool {
			w := lx.Const(n)
			return w != nil && k.isConst() && w.Value.Int64() == k.K
		}
		switch {
		case is("TokenLiteralString"):
			return "string"
		case is("TokenLiteralNumber"):
			return "number"
		case is("TokenIdentifier"), is("TokenPrivateIdentifier"):
			return "name"
		case is("TokenNone"):
			return "end"
		}
		if _, ok := v.F[fieldIndex(structOf(v.Type), "Literal")].(VStr); ok && v.F[fieldIndex(structOf(v.Type), "Literal")].(VStr) == VStr("") {
			return "punctuator"
		}
		return "name"
	}
	for _, f := range t.frames {
		if k := lexClasses[f.fn.Name()]; k != "" {
			return k
		}
	}
	for n, k := range lexClasses {
		if strings.Contains(s.specAt, "("+n+")") {
			return k
		}
	}
	return ""
}

func (c *lexerClient) finish(x *Exec) {}
func (c *lexerClient) free(x *Exec)   {}

func (c *lexerClient) failure(x *Exec, v Value) (bool, string) {
	switch v := v.(type) {
	case VRuntime:
		return false, "run-time panic: " + v.Msg
	case *VIface:
		if p, ok := v.Type.(*types.Pointer); ok && typeName(p.Elem()) == "SyntaxError" {
			if nm, ok := p.Elem().(*types.Named); ok && nm.Obj().Pkg() != nil && nm.Obj().Pkg().Path() == errsPkg {
				return true, ""
			}
		}
		return false, "panics with a value of type " + typeName(v.Type)
	}
	return false, "panics with " + rawKey(v)
}

func (c *lexerClient) collapsible(t types.Type) bool           { return false }
func (c *lexerClient) forgotten(x *Exec, old Value, sym *Term) {}

func (c *lexerClient) symText(s *State, t *Term) string {
	d := setRange(-1, unicode.MaxRune)
	if k, ok := s.cons[t.raw]; ok {
		d = k.set
	}
	if d.size() > 8 {
		n := setRange(-1, unicode.MaxRune).minus(d)
		if n.empty() {
			return "any"
		}
		if n.size() < 8 {
			return "[^" + runeText(n) + "]"
		}
		return fmt.Sprintf("[%s... %d runes]", runeText(setOf(d[0].lo)), d.size())
	}
	if d.size() == 1 {
		return runeText(d)
	}
	return "[" + runeText(d) + "]"
}

func runeText(d IntSet) string {
	var b strings.Builder
	d.each(func(v int64) {
		switch {
		case v == -1:
			b.WriteString("EOF")
		case unicode.IsPrint(rune(v)):
			b.WriteRune(rune(v))
		default:
			fmt.Fprintf(&b, "\\u%04X", v)
		}
	})
	return b.String()
}

// startState is a scanner at the start of an input.
func (c *lexerClient) startState() *State {
	s := &State{heap: map[int]Value{}, cons: map[string]con{}}
	im, sp := &Thread{}, &Thread{}
	s.th[0], s.th[1] = im, sp
	a, b := s.alloc(vint(scanFresh)), s.alloc(vint(scanFresh))
	c.e.push(s, im, c.impl, []Value{&VPtr{Obj: a}}, nil)
	c.e.push(s, sp, c.spec, []Value{&VPtr{Obj: b}}, nil)
	s.extra = map[string]Value{"scanner": &VPtr{Obj: a}}
	return s
}

// runLexer compares the lexer with its reference.
func runLexer(p *Prog, end time.Time, keep lexerScope) ([]*Finding, *Product, error) {
	e := newEngine(p)
	if err := e.initPackages(); err != nil {
		return nil, nil, err
	}
	c, err := newLexerClient(p, e)
	if err != nil {
		return nil, nil, err
	}
	e.cl = c
	q := newProduct(e, c, "lexer")
	q.limit = 1 << 30
	q.deadline = end
	found := false
	q.found = func(f *Finding) {
		if !keep.relevant(f) {
			return
		}
		found = true
		if t := time.Now().Add(5 * time.Second); t.Before(q.deadline) {
			q.deadline = t
		}
	}
	c.cur = q
	func() {
		defer func() {
			if r := recover(); r != nil {
				q.find(nil, "undecided", "?", "", "the analysis failed: %v", r)
			}
		}()
		q.start(c.startState())
		q.solve()
		if q.cut && !found {
			q.find(nil, "undecided", "?", "", "not finished in time")
		}
	}()
	var out []*Finding
	for _, k := range sortedFinds(q.finds) {
		out = append(out, q.finds[k])
	}
	return out, q, nil
}
