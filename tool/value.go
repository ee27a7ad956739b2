package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value. Every value is immutable; objects that the
// program mutates live in the abstract heap and are referred to by *VPtr.
type Value interface{}

// Term is a symbol or an uninterpreted application: a value about which only
// the constraints of the state are known.
type Term struct {
	Op   string // "tok", "nt", "loc", ... for base symbols; "sel", "app", ... otherwise
	ID   int    // base symbols only
	Name string
	Args []Value
	Type types.Type
	raw  string
}

// VInt is k+t, or k-t if Neg; a constant if T is nil. Booleans are 0 and 1.
type VInt struct {
	T   *Term
	Neg bool
	K   int64
}

// VStr is a constant string.
type VStr string

// VNil is the nil pointer, interface, map or function.
type VNil struct{}

// VStruct is a struct or array by value.
type VStruct struct {
	Type types.Type
	F    []Value
}

// VPtr points into an object of the abstract heap.
type VPtr struct {
	Obj  int
	Path []int
}

// VTPtr points to a symbolic location.
type VTPtr struct{ T *Term }

// VList is a slice: the elements of the symbolic list Base, if any, followed by
// Elems.
type VList struct {
	Base  *Term
	Elems []Value
	Nil   bool
}

// VRef is a slice whose elements are stored in a heap object (made with make).
type VRef struct{ Obj int }

// VIface is an interface value with a known dynamic type.
type VIface struct {
	Type types.Type
	V    Value
}

// VFunc is a function or closure.
type VFunc struct {
	Fn   *ssa.Function
	Bind []Value
}

// VTuple is a multi-value result.
type VTuple []Value

// VMapData is the content of a map object.
type VMapData struct {
	Keys, Vals []Value
	Elem       types.Type
}

// VCat is a string made of parts: runes (VInt), constant strings and terms.
type VCat struct{ Parts []Value }

// VRuntime is the value of a runtime panic.
type VRuntime struct{ Msg string }

func mkBase(op string, id int, t types.Type) *Term {
	return &Term{Op: op, ID: id, Type: t, raw: op + "#" + strconv.Itoa(id)}
}

func mkSel(t *Term, field string, typ types.Type) *Term {
	return &Term{Op: "sel", Name: field, Args: []Value{t}, Type: typ, raw: t.raw + "." + field}
}

func mkApp(op string, typ types.Type, args ...Value) *Term {
	t := &Term{Op: "app", Name: op, Args: args, Type: typ}
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('(')
	for i, a := range args {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(rawKey(a))
	}
	b.WriteByte(')')
	t.raw = b.String()
	return t
}

func vint(k int64) VInt { return VInt{K: k} }

func vbool(b bool) VInt {
	if b {
		return VInt{K: 1}
	}
	return VInt{}
}

func (v VInt) isConst() bool { return v.T == nil }

// rawKey is a state-independent key of a value (without renaming symbols).
func rawKey(v Value) string {
	c := &canon{raw: true}
	c.val(v)
	return c.b.String()
}

// bases collects the base symbols of a term.
func (t *Term) bases(f func(*Term)) {
	if t.Op != "sel" && t.Op != "app" {
		f(t)
		return
	}
	for _, a := range t.Args {
		walkTerms(a, func(u *Term) { u.bases(f) })
	}
}

// walkTerms calls f for the outermost terms inside of a value (not through the
// heap).
func walkTerms(v Value, f func(*Term)) {
	switch v := v.(type) {
	case *Term:
		f(v)
	case VInt:
		if v.T != nil {
			f(v.T)
		}
	case *VStruct:
		for _, x := range v.F {
			walkTerms(x, f)
		}
	case *VTPtr:
		f(v.T)
	case *VList:
		if v.Base != nil {
			f(v.Base)
		}
		for _, x := range v.Elems {
			walkTerms(x, f)
		}
	case *VIface:
		walkTerms(v.V, f)
	case VTuple:
		for _, x := range v {
			walkTerms(x, f)
		}
	case *VCat:
		for _, x := range v.Parts {
			walkTerms(x, f)
		}
	}
}

// mapValue rewrites a value bottom-up; f returns nil to keep a value.
func mapValue(v Value, f func(Value) Value) Value {
	if r := f(v); r != nil {
		return r
	}
	mapSlice := func(xs []Value) ([]Value, bool) {
		var out []Value
		for i, x := range xs {
			y := mapValue(x, f)
			if out == nil && !sameValue(x, y) {
				out = append([]Value{}, xs[:i]...)
			}
			if out != nil {
				out = append(out, y)
			}
		}
		if out == nil {
			return xs, false
		}
		return out, true
	}
	switch v := v.(type) {
	case *VStruct:
		if fs, ok := mapSlice(v.F); ok {
			return &VStruct{v.Type, fs}
		}
	case *VList:
		if fs, ok := mapSlice(v.Elems); ok {
			return &VList{Base: v.Base, Elems: fs, Nil: v.Nil}
		}
	case *VIface:
		if w := mapValue(v.V, f); !sameValue(w, v.V) {
			return &VIface{v.Type, w}
		}
	case VTuple:
		if fs, ok := mapSlice(v); ok {
			return VTuple(fs)
		}
	case *VCat:
		if fs, ok := mapSlice(v.Parts); ok {
			return &VCat{fs}
		}
	case *VFunc:
		if fs, ok := mapSlice(v.Bind); ok {
			return &VFunc{v.Fn, fs}
		}
	case *VFill:
		fs, ok := mapSlice(v.Elems)
		st := mapValue(v.Start, f)
		ln := mapValue(v.Len, f)
		if ok || st != v.Start || ln != v.Len {
			w := *v
			w.Elems, w.Start, w.Len = fs, st.(VInt), ln.(VInt)
			return &w
		}
	case *VMapData:
		k, ok1 := mapSlice(v.Keys)
		w, ok2 := mapSlice(v.Vals)
		if ok1 || ok2 {
			return &VMapData{k, w, v.Elem}
		}
	}
	return v
}

// sameValue is identity, used only to avoid copying.
func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case VTuple:
		y, ok := b.(VTuple)
		return ok && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	}
	switch b.(type) {
	case VTuple:
		return false
	}
	return a == b
}

// canon writes a canonical key of a state: base symbols and heap objects are
// numbered in the order of the first visit.
type canon struct {
	b     strings.Builder
	raw   bool
	s     *State
	ids   map[int]int
	by    []*Term
	objs  map[int]int
	terms map[string]bool
	names map[string]string
}

func (c *canon) term(t *Term) {
	if c.raw {
		c.b.WriteString(t.raw)
		return
	}
	switch t.Op {
	case "sel":
		c.val(t.Args[0])
		c.b.WriteByte('.')
		c.b.WriteString(t.Name)
	case "app":
		c.b.WriteString(t.Name)
		c.b.WriteByte('(')
		for i, a := range t.Args {
			if i > 0 {
				c.b.WriteByte(',')
			}
			c.val(a)
		}
		c.b.WriteByte(')')
	default:
		n, ok := c.ids[t.ID]
		if !ok {
			n = len(c.ids) + 1
			c.ids[t.ID] = n
			c.by = append(c.by, t)
		}
		c.b.WriteString(t.Op)
		c.b.WriteByte('#')
		c.b.WriteString(strconv.Itoa(n))
		if !ok && len(t.Args) > 0 {
			c.val(VTuple(t.Args))
		}
	}
}

func (c *canon) val(v Value) {
	switch v := v.(type) {
	case nil:
		c.b.WriteByte('_')
	case *Term:
		c.term(v)
	case VInt:
		if v.T == nil {
			c.b.WriteString(strconv.FormatInt(v.K, 10))
			return
		}
		c.b.WriteByte('i')
		if v.Neg {
			c.b.WriteByte('-')
		}
		c.term(v.T)
		if v.K != 0 {
			c.b.WriteByte('+')
			c.b.WriteString(strconv.FormatInt(v.K, 10))
		}
	case VStr:
		c.b.WriteString(strconv.Quote(string(v)))
	case VNil:
		c.b.WriteString("nil")
	case *VStruct:
		c.b.WriteString(typeName(v.Type))
		c.b.WriteByte('{')
		for i, f := range v.F {
			if i > 0 {
				c.b.WriteByte(',')
			}
			c.val(f)
		}
		c.b.WriteByte('}')
	case *VPtr:
		c.obj(v.Obj)
		for _, i := range v.Path {
			c.b.WriteByte('/')
			c.b.WriteString(strconv.Itoa(i))
		}
	case *VTPtr:
		c.b.WriteByte('&')
		c.term(v.T)
	case *VList:
		c.b.WriteByte('[')
		if v.Base != nil {
			c.term(v.Base)
			c.b.WriteString("...")
		}
		for i, f := range v.Elems {
			if i > 0 || v.Base != nil {
				c.b.WriteByte(',')
			}
			c.val(f)
		}
		c.b.WriteByte(']')
	case *VRef:
		c.b.WriteString("ref ")
		c.obj(v.Obj)
	case *VIface:
		c.b.WriteByte('<')
		c.b.WriteString(typeName(v.Type))
		c.b.WriteByte('>')
		c.val(v.V)
	case *VFunc:
		c.b.WriteString(fnKey(v.Fn))
		if len(v.Bind) > 0 {
			c.val(VTuple(v.Bind))
		}
	case VTuple:
		c.b.WriteByte('(')
		for i, f := range v {
			if i > 0 {
				c.b.WriteByte(',')
			}
			c.val(f)
		}
		c.b.WriteByte(')')
	case *VMapData:
		c.b.WriteString("map{")
		for i := range v.Keys {
			c.val(v.Keys[i])
			c.b.WriteByte(':')
			c.val(v.Vals[i])
			c.b.WriteByte(',')
		}
		c.b.WriteByte('}')
	case *VCat:
		c.b.WriteString("cat(")
		for i, f := range v.Parts {
			if i > 0 {
				c.b.WriteByte(',')
			}
			c.val(f)
		}
		c.b.WriteByte(')')
	case *VFill:
		c.b.WriteString("fill(")
		if v.Base != nil {
			c.term(v.Base)
		}
		c.val(v.Start)
		c.val(VTuple(v.Elems))
		c.val(v.Len)
		c.b.WriteByte(')')
	case *VIterData:
		fmt.Fprintf(&c.b, "iter %d/%d", v.I, len(v.Keys))
	case VRuntime:
		c.b.WriteString("runtime error: " + v.Msg)
	default:
		panic(fmt.Sprintf("canon: %T", v))
	}
}

func (c *canon) obj(o int) {
	if c.raw || c.s == nil {
		fmt.Fprintf(&c.b, "@%d", o)
		return
	}
	if o < 0 {
		if _, ok := c.s.heap[o]; !ok {
			fmt.Fprintf(&c.b, "g%d", -o)
			return
		}
	}
	if n, ok := c.objs[o]; ok {
		c.b.WriteByte('p')
		c.b.WriteString(strconv.Itoa(n))
		return
	}
	n := len(c.objs) + 1
	c.objs[o] = n
	c.b.WriteByte('p')
	c.b.WriteString(strconv.Itoa(n))
	c.b.WriteByte('=')
	c.val(c.s.heap[o])
}

// constraints returns the constraints whose symbols have all been visited, by
// their canonical names.
func (c *canon) constraints(eng *Engine) map[string]con {
	x := &Exec{e: eng, s: c.s, t: c.s.th[0]}
	out := map[string]con{}
	for k, e := range c.s.cons {
		live := true
		e.t.bases(func(t *Term) {
			if _, ok := c.ids[t.ID]; !ok {
				live = false
			}
		})
		if !live {
			delete(c.s.cons, k)
			continue
		}
		if x.domain(e.t).subset(e.set) {
			delete(c.s.cons, k)
			continue
		}
		name := func(t *Term) string {
			d := &canon{s: c.s, ids: c.ids, objs: c.objs}
			d.term(t)
			return d.b.String()
		}
		e.cond, e.condID = "", 0
		if a := assertion(e.t); a != nil {
			y := x.typeofTerm(a.Args[0].(*Term))
			e.condID = eng.typeID(a.Type)
			if !x.dom(y).has(e.condID) {
				delete(c.s.cons, k)
				continue
			}
			e.cond = name(y)
		}
		out[name(e.t)] = e
	}
	return out
}

// assertion is the innermost type assertion that the term is a part of.
func assertion(t *Term) *Term {
	for t != nil {
		if t.Op == "sel" && t.Name[0] == '(' {
			if _, ok := t.Args[0].(*Term); ok {
				return t
			}
		}
		switch {
		case len(t.Args) == 0:
			return nil
		default:
			switch u := t.Args[0].(type) {
			case *Term:
				t = u
			case *VList:
				t = u.Base
			case VInt:
				t = u.T
			default:
				return nil
			}
		}
	}
	return nil
}

func fieldIndex(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func structOf(t types.Type) *types.Struct {
	st, _ := t.Underlying().(*types.Struct)
	return st
}

// substTerms replaces terms inside of a value; f returns nil to keep a term.
func substTerms(v Value, f func(*Term) Value) Value {
	return mapValue(v, func(v Value) Value {
		switch v := v.(type) {
		case *Term:
			if r := substTerm(v, f); r != nil {
				return r
			}
		case VInt:
			if v.T == nil {
				return nil
			}
			r := substTerm(v.T, f)
			if r == nil {
				return nil
			}
			switch r := r.(type) {
			case *Term:
				return VInt{r, v.Neg, v.K}
			case VInt:
				if v.Neg {
					return VInt{r.T, r.T != nil && !r.Neg, v.K - r.K}
				}
				return VInt{r.T, r.Neg, v.K + r.K}
			}
		case *VTPtr:
			if r, ok := substTerm(v.T, f).(*Term); ok {
				return &VTPtr{r}
			}
		case *VList:
			if v.Base == nil {
				return nil
			}
			r := substTerm(v.Base, f)
			if r == nil {
				return nil
			}
			var es []Value
			for _, e := range v.Elems {
				es = append(es, substTerms(e, f))
			}
			switch r := r.(type) {
			case *Term:
				return &VList{Base: r, Elems: es}
			case *VList:
				return &VList{Base: r.Base, Elems: append(append([]Value{}, r.Elems...), es...)}
			}
		}
		return nil
	})
}

// substTerm returns the replacement of a term, or nil if nothing changes.
func substTerm(t *Term, f func(*Term) Value) Value {
	if r := f(t); r != nil {
		return r
	}
	if t.Op != "sel" && t.Op != "app" {
		return nil
	}
	changed := false
	args := make([]Value, len(t.Args))
	for i, a := range t.Args {
		args[i] = substTerms(a, f)
		if rawKey(args[i]) != rawKey(a) {
			changed = true
		}
	}
	if !changed {
		return nil
	}
	if t.Op == "sel" {
		if u, ok := args[0].(*Term); ok {
			return mkSel(u, t.Name, t.Type)
		}
		return mkApp("sel."+t.Name, t.Type, args...)
	}
	return mkApp(t.Name, t.Type, args...)
}

var fnNames sync.Map

func fnKey(fn *ssa.Function) string {
	if n, ok := fnNames.Load(fn); ok {
		return n.(string)
	}
	n := fn.String()
	fnNames.Store(fn, n)
	return n
}
