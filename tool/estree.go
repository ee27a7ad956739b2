package main

import (
	_ "embed"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

//go:embed spec/ast.go.txt
var astSpec []byte

// astClient compares the methods of the node types with their reference. The
// children of a node are symbols; what their methods return is left open.
type astClient struct {
	parserClient
	spec map[string]*ssa.Function // by name of the reference function
	impl map[*ssa.Function]string // method ESTree of the type
	none bool                     // no child contains a placeholder
	unit *astUnit
	only string
}

type astUnit struct {
	name   string // type and method
	typ    *types.Named
	method string
	impl   *ssa.Function
	spec   *ssa.Function
}

var objType = types.NewNamed(types.NewTypeName(token.NoPos, nil, "object", nil), types.NewStruct(nil, nil), nil)

func newASTClient(p *Prog, e *Engine) (*astClient, error) {
	as := p.pkg("ecmascript/ast")
	if as == nil {
		return nil, fmt.Errorf("package ecmascript/ast not found")
	}
	c := &astClient{spec: map[string]*ssa.Function{}, impl: map[*ssa.Function]string{}}
	c.p, c.e = p, e
	nt := as.Type("Node")
	if nt == nil {
		return nil, fmt.Errorf("type ast.Node not found")
	}
	c.nodeN = nt.Type()
	c.node = c.nodeN.Underlying().(*types.Interface)
	e.nodeType = c.nodeN
	c.nilable = map[string]bool{}
	for _, n := range nilableFields {
		c.nilable[n] = true
	}
	for _, n := range sortedMembers(as) {
		if f, ok := as.Members[n].(*ssa.Function); ok && isSpecFn(f) {
			c.spec[n] = f
			if strings.HasPrefix(n, "vESTree") {
				t := f.Signature.Params().At(0).Type()
				// Nodes without children are always looked into.
				if m := p.method(as, typeName(t), "ESTree"); m != nil && !leaf(t) {
					c.impl[m] = typeName(t)
				}
			}
		}
		if t, ok := as.Members[n].(*ssa.Type); ok {
			if _, ok := t.Type().Underlying().(*types.Struct); ok && types.Implements(t.Type(), c.node) {
				e.nodeTypes = e.nodeTypes.union(setOf(e.typeID(t.Type())))
			}
		}
	}
	e.history = 1
	return c, nil
}

// leaf tells whether a node has no children.
func leaf(t types.Type) bool {
	if typeName(t) == "BaseNode" {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !leaf(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

func sortedMembers(p *ssa.Package) []string {
	var ns []string
	for n := range p.Members {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func (c *astClient) domain(x *Exec, t *Term) IntSet {
	if t.Op == "app" {
		switch t.Name {
		case "temporal":
			if c.none {
				return setOf(0)
			}
			return setBool
		case "typeof":
			if b, ok := t.Args[0].(*Term); ok && b.Op == "app" && strings.HasPrefix(b.Name, "ESTree") {
				return setRange(1, maxInt)
			}
		case "isnil":
			return setBool
		}
	}
	if s, ok := c.enum(t.Type); ok && t.Op == "sel" {
		return s
	}
	return c.parserClient.domain(x, t)
}

// enum has the values of an enumeration type of the tree, of which nodes contain
// no other ones.
func (c *astClient) enum(t types.Type) (IntSet, bool) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != astPkg {
		return nil, false
	}
	if b, ok := n.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return nil, false
	}
	s, k := setOf(0), 0
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		if o, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(o.Type(), n) {
			if v, ok := constant.Int64Val(o.Val()); ok {
				s, k = s.union(setOf(v)), k+1
			}
		}
	}
	return s, k > 1
}

func (c *astClient) strEq(x *Exec, s Value, k string) (bool, bool) { return false, false }

func (c *astClient) call(x *Exec, fn *ssa.Function, name string, args []Value, site ssa.CallInstruction) (Value, bool) {
	inter := types.NewInterfaceType(nil, nil)
	if c.unit != nil {
		if n, ok := c.impl[fn]; ok {
			v := args[0]
			if _, ok := fn.Signature.Recv().Type().(*types.Pointer); ok {
				v = x.load(v)
			}
			return c.encoding(x, n, v), true
		}
		if isSpecFn(fn) {
			switch fn.Name() {
			case "vObj":
				l := x.toList(args[0])
				var kv VTuple
				for i := 0; i+1 < len(l.Elems); i += 2 {
					k := l.Elems[i]
					if f, ok := k.(*VIface); ok {
						k = f.V
					}
					kv = append(kv, VTuple{k, plain(l.Elems[i+1])})
				}
				return object(kv), true
			case "vFree":
				panic(pause{stDead})
			}
			if strings.HasPrefix(fn.Name(), "vESTree") {
				for m, n := range c.impl {
					if "vESTree"+n == fn.Name() && m != nil {
						return c.encoding(x, n, args[0]), true
					}
				}
			}
		}
		if fn.Name() == "ContainsTemporalNodes" && fn.Signature.Recv() != nil && len(args) == 1 && c.unit.impl != fn {
			rt := fn.Signature.Recv().Type()
			if types.Implements(rt, c.node) && fn.Synthetic == "" && !strings.HasSuffix(fn.String(), "BaseNode).ContainsTemporalNodes") {
				return vbool(x.test(mkApp("temporal", types.Typ[types.Bool], args[0]), setOf(1))), true
			}
		}
	}
	_ = inter
	return nil, false
}

func (c *astClient) encoding(x *Exec, n string, v Value) Value {
	if s, ok := v.(*VStruct); ok && len(s.F) > 0 {
		// A symbol that was loaded field by field.
		_ = s
	}
	return mkApp("ESTree:"+n, types.NewInterfaceType(nil, nil), v)
}

func (c *astClient) invoke(x *Exec, recv *Term, m *types.Func, args []Value) (Value, bool) {
	switch m.Name() {
	case "ESTree":
		if x.test(x.typeofTerm(recv), setOf(0)) {
			x.runtime("method call on a nil node")
		}
		return mkApp("ESTree", types.NewInterfaceType(nil, nil), recv), true
	case "ContainsTemporalNodes":
		if x.test(x.typeofTerm(recv), setOf(0)) {
			x.runtime("method call on a nil node")
		}
		return vbool(x.test(mkApp("temporal", types.Typ[types.Bool], recv), setOf(1))), true
	case "Span":
		return x.termVal(mkApp("span", m.Type().(*types.Signature).Results().At(0).Type(), recv)), true
	}
	return nil, false
}

// box turns a struct that is put into an interface into what it encodes to.
func (c *astClient) box(x *Exec, t types.Type, v Value) Value {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || types.Implements(t, c.node) || c.unit == nil || c.unit.method != "ESTree" {
		return nil
	}
	if ms := types.NewMethodSet(t); ms.Lookup(nil, "MarshalJSON") != nil || ms.Lookup(nil, "MarshalText") != nil {
		giveUp("%s encodes itself", t)
	}
	var kv VTuple
	c.fields(x, st, v, &kv)
	return object(kv)
}

func (c *astClient) fields(x *Exec, st *types.Struct, v Value, kv *VTuple) {
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := jsonTag(st.Tag(i))
		parts := strings.Split(tag, ",")
		w := x.field(v, i)
		if f.Anonymous() && parts[0] == "" {
			if ft, ok := f.Type().Underlying().(*types.Struct); ok {
				c.fields(x, ft, w, kv)
				continue
			}
			giveUp("embedded %s", f.Type())
		}
		if !f.Exported() || tag == "-" {
			continue
		}
		n := f.Name()
		if parts[0] != "" {
			n = parts[0]
		}
		for _, o := range parts[1:] {
			switch o {
			case "omitempty", "omitzero":
				n = "~" + n
			case "string":
				giveUp("json option string")
			}
		}
		if ft, ok := f.Type().Underlying().(*types.Struct); ok && !types.Implements(f.Type(), c.node) {
			var sub VTuple
			c.fields(x, ft, w, &sub)
			w = object(sub)
		}
		*kv = append(*kv, VTuple{VStr(n), plain(w)})
	}
}

func jsonTag(tag string) string {
	const k = `json:"`
	if i := strings.Index(tag, k); i >= 0 {
		tag = tag[i+len(k):]
		if j := strings.Index(tag, `"`); j >= 0 {
			return tag[:j]
		}
	}
	return ""
}

// object is the canonical form of an encoded object.
func object(kv VTuple) Value {
	key := func(i int) string { s, _ := kv[i].(VTuple)[0].(VStr); return strings.TrimLeft(string(s), "~?") }
	sort.SliceStable(kv, func(i, j int) bool { return key(i) < key(j) })
	return &VIface{objType, kv}
}

// plain removes the interface around a scalar or a list.
func plain(v Value) Value {
	for {
		i, ok := v.(*VIface)
		if !ok || i.Type == objType {
			return v
		}
		v = i.V
	}
}

// ---- comparison of encodings ----

type jdiff struct {
	x   *Exec
	bad []mismatch
}

func (d *jdiff) fail(path string, a, b Value) {
	d.bad = append(d.bad, mismatch{path, d.show(a), d.show(b)})
}

func (d *jdiff) show(v Value) string {
	v = d.norm(v)
	switch v := v.(type) {
	case nil:
		return "absent"
	case VNil:
		return "null"
	case *VIface:
		if kv, ok := v.V.(VTuple); ok && v.Type == objType {
			var ks []string
			for _, e := range kv {
				t := e.(VTuple)
				k := string(t[0].(VStr))
				if s, ok := t[1].(VStr); ok && k == "type" {
					k += ":" + string(s)
				}
				ks = append(ks, k)
			}
			return "{" + strings.Join(ks, ", ") + "}"
		}
	case *VList:
		if v.Nil && v.Base == nil && len(v.Elems) == 0 {
			return "null"
		}
	case VStr:
		return fmt.Sprintf("%q", string(v))
	}
	return short(d.x, v)
}

func (d *jdiff) norm(v Value) Value {
	x := d.x
	for {
		switch w := v.(type) {
		case *VIface:
			if w.Type == objType {
				return w
			}
			v = w.V
		case *VPtr:
			u := x.load(w)
			if s, ok := u.(*VStruct); ok {
				if st := structOf(s.Type); st != nil {
					var kv VTuple
					x.e.cl.(*astClient).fields(x, st, u, &kv)
					return object(kv)
				}
				return &VList{Elems: s.F}
			}
			if m, ok := u.(*VMapData); ok {
				var kv VTuple
				for i := range m.Keys {
					kv = append(kv, VTuple{plain(m.Keys[i]), plain(m.Vals[i])})
				}
				return object(kv)
			}
			v = u
		case *VRef:
			v = x.toList(w)
		case VInt:
			return x.norm(w)
		case *VCat:
			return x.normStr(w)
		case *VStruct:
			if st := structOf(w.Type); st != nil {
				var kv VTuple
				x.e.cl.(*astClient).fields(x, st, w, &kv)
				return object(kv)
			}
			return w
		default:
			return v
		}
	}
}

func (d *jdiff) empty(v Value) bool {
	switch v := d.norm(v).(type) {
	case VNil:
		return true
	case VStr:
		return v == ""
	case VInt:
		return !d.x.truth(v)
	case *VList:
		return d.x.cmpInt(token.EQL, d.x.length(v).(VInt), vint(0))
	case *Term:
		if isString(v.Type) {
			return d.x.strEqual(v, VStr(""))
		}
		if types.IsInterface(v.Type) {
			return d.x.test(d.x.typeofTerm(v), setOf(0))
		}
	}
	giveUp("omitempty of %T", v)
	return false
}

func (d *jdiff) diff(path string, a, b Value) {
	a, b = d.norm(a), d.norm(b)
	ao, ok1 := a.(*VIface)
	bo, ok2 := b.(*VIface)
	if ok1 && ok2 {
		av, bv := map[string]Value{}, map[string]Value{}
		opt := map[string]bool{}
		for i, o := range []*VIface{ao, bo} {
			for _, e := range o.V.(VTuple) {
				t := e.(VTuple)
				ks, ok := t[0].(VStr)
				if !ok {
					giveUp("symbolic key")
				}
				k := string(ks)
				v := t[1]
				if strings.HasPrefix(k, "~") {
					k = k[1:]
					if d.empty(v) {
						continue
					}
				}
				if strings.HasPrefix(k, "?") {
					k = k[1:]
					opt[k] = true
				}
				if i == 0 {
					av[k] = v
				} else {
					bv[k] = v
				}
			}
		}
		ks := map[string]bool{}
		for k := range av {
			ks[k] = true
		}
		for k := range bv {
			ks[k] = true
		}
		var order []string
		for k := range ks {
			order = append(order, k)
		}
		sort.Strings(order)
		for _, k := range order {
			p := path + "." + k
			u, w := av[k], bv[k]
			switch {
			case u == nil && opt[k]:
				if !d.empty(w) {
					d.fail(p, nil, w)
				}
			case u == nil, w == nil:
				d.fail(p, u, w)
			default:
				d.diff(p, u, w)
			}
		}
		return
	}
	if ok1 || ok2 {
		d.fail(path, a, b)
		return
	}
	al, ok1 := a.(*VList)
	bl, ok2 := b.(*VList)
	if ok1 && ok2 {
		if al.Nil != bl.Nil && al.Base == nil && len(al.Elems) == 0 {
			d.fail(path, a, b)
			return
		}
		ab, bb := "", ""
		if al.Base != nil {
			ab = al.Base.raw
		}
		if bl.Base != nil {
			bb = bl.Base.raw
		}
		if ab != bb || len(al.Elems) != len(bl.Elems) {
			d.fail(path, a, b)
			return
		}
		for i := range al.Elems {
			d.diff(path+"[]", al.Elems[i], bl.Elems[i])
		}
		return
	}
	c := &comparer{x: d.x}
	c.diff(a, b)
	if len(c.bad) > 0 {
		d.fail(path, a, b)
	}
}

func (c *astClient) finish(x *Exec) {
	im, sp := x.s.th[0], x.s.th[1]
	if c.unit.method == "ESTree" {
		d := &jdiff{x: x}
		d.diff("", im.ret, sp.ret)
		for _, b := range d.bad {
			c.cur.find(x.s, "estree", c.unit.name, b.path, "%s of a %s encodes to %s, specified is %s", strings.TrimPrefix(b.path, "."), typeName(c.unit.typ), b.a, b.b)
		}
		return
	}
	cm := &comparer{x: x}
	cm.diff(im.ret, sp.ret)
	for _, b := range cm.bad {
		c.cur.find(x.s, "temporal", c.unit.name, "", "returns %s, specified is %s", b.a, b.b)
	}
}

func (c *astClient) free(x *Exec) {
	if c.unit.method == "ContainsTemporalNodes" {
		want := strings.HasPrefix(typeName(c.unit.typ), "Temporal")
		if v, ok := x.s.th[0].ret.(VInt); !ok || x.truth(v) != want {
			c.cur.find(x.s, "temporal", c.unit.name, "", "returns %v for a node %s", !want, map[bool]string{true: "that is a placeholder", false: "without placeholders"}[want])
		}
	}
}

func (c *astClient) failure(x *Exec, v Value) (bool, string) {
	if r, ok := v.(VRuntime); ok {
		return false, "run-time panic: " + r.Msg
	}
	return false, "panics with " + rawKey(v)
}

func (c *astClient) collapsible(t types.Type) bool           { return false }
func (c *astClient) forgotten(x *Exec, old Value, sym *Term) {}
func (c *astClient) grant(x *Exec, ev *CallEvent) Value      { return nil }
func (c *astClient) symText(s *State, t *Term) string        { return "" }

// run checks all node types. It returns the names of the units.
func (c *astClient) run(method string) ([]*Finding, []string, int) {
	as := c.p.pkg("ecmascript/ast")
	var us []*astUnit
	for _, n := range sortedMembers(as) {
		t, ok := as.Members[n].(*ssa.Type)
		if !ok {
			continue
		}
		nm, ok := t.Type().(*types.Named)
		if !ok {
			continue
		}
		m := c.p.method(as, n, method)
		if m == nil {
			continue
		}
		if method == "ContainsTemporalNodes" && types.Implements(nm, c.node) {
			// With the wrapper of an embedded method.
			m = c.p.SSA.MethodValue(c.p.SSA.MethodSets.MethodSet(nm).Lookup(as.Pkg, method))
		}
		if rt := m.Signature.Recv().Type(); !types.Identical(rt, nm) && !types.Identical(rt, types.NewPointer(nm)) {
			continue // promoted
		}
		u := &astUnit{name: n + "." + method, typ: nm, method: method, impl: m}
		switch method {
		case "ESTree":
			if u.spec = c.spec["vESTree"+n]; u.spec == nil {
				continue
			}
		case "ContainsTemporalNodes":
			if !types.Implements(nm, c.node) || n == "BaseNode" {
				continue
			}
			u.spec = c.spec["vContains"+n]
		}
		us = append(us, u)
	}
	var out []*Finding
	var names []string
	states := 0
	for _, u := range us {
		if c.only != "" && !strings.HasPrefix(u.name, c.only) {
			continue
		}
		p := newProduct(c.e, c, u.name)
		p.limit, p.lockstep, p.forget = 4000, true, true
		p.deadline = time.Now().Add(60 * time.Second)
		c.unit, c.cur = u, p
		c.none = u.method == "ContainsTemporalNodes" && u.spec == nil
		s := &State{heap: map[int]Value{}, cons: map[string]con{}}
		im, sp := &Thread{}, &Thread{}
		s.th[0], s.th[1] = im, sp
		x := &Exec{e: c.e, s: s, t: im}
		v := x.termVal(s.fresh("n", u.typ))
		arg := v
		if _, ok := u.impl.Signature.Recv().Type().(*types.Pointer); ok {
			arg = &VPtr{Obj: s.alloc(v)}
		}
		c.e.push(s, im, u.impl, []Value{arg}, nil)
		if u.spec != nil {
			c.e.push(s, sp, u.spec, []Value{v}, nil)
		} else {
			sp.status = stDone
			s.mode = modeFree
		}
		p.start(s)
		p.solve()
		states += len(p.pos)
		if flagVerbose {
			fmt.Fprintf(os.Stderr, "%-40s runs %5d states %5d rets %d finds %d\n", u.name, p.runs, len(p.pos), p.rets, len(p.finds))
		}
		names = append(names, u.name)
		if p.cut {
			p.find(nil, "undecided", u.name, "", "not finished within the limits")
		}
		for _, k := range sortedFinds(p.finds) {
			out = append(out, p.finds[k])
		}
	}
	c.unit = nil
	return out, names, states
}

func sortedFinds(m map[string]*Finding) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
