package main

import (
	"go/types"
	"sort"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// external gives the meaning of functions outside of the repository. They are
// assumed to be pure and to return normally; the result is an uninterpreted
// function of the arguments unless it is modelled here.
func (x *Exec) external(fn *ssa.Function, name string, args []Value) (Value, bool) {
	if fn.Pkg != nil && x.e.p.Pkgs[fn.Pkg.Pkg.Path()] != nil || fn.Pkg == nil && fn.Blocks != nil {
		return nil, false
	}
	if v, ok := x.builderCall(name, args); ok {
		return v, true
	}
	ct := func(i int) (string, bool) {
		s, ok := args[i].(VStr)
		return string(s), ok
	}
	switch name {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		// Only used for messages.
		return x.s.fresh("text", types.Typ[types.String]), true
	case "errors.New", "fmt.Errorf":
		return &VIface{errorString, x.s.fresh("error", errorString)}, true
	case "unicode.In", "unicode.Is":
		var tables []Value
		r := args[0]
		if name == "unicode.Is" {
			tables, r = []Value{args[0]}, args[1]
		} else {
			l := x.toList(args[1])
			if l.Base != nil {
				giveUp("unicode.In with symbolic tables")
			}
			tables = l.Elems
		}
		var set IntSet
		for _, t := range tables {
			tt, ok := t.(*Term)
			if !ok {
				giveUp("unicode table %T", t)
			}
			s := unicodeTable(strings.TrimPrefix(tt.Name, "global unicode."))
			if s == nil {
				giveUp("unicode table %s", tt.Name)
			}
			set = set.union(s)
		}
		return vbool(x.runeIn(r, set)), true
	case "unicode.IsLetter", "unicode.IsDigit", "unicode.IsSpace", "unicode.IsUpper", "unicode.IsLower", "unicode.IsNumber", "unicode.IsControl", "unicode.IsPrint", "unicode.IsPunct":
		f := map[string]func(rune) bool{"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper,
			"unicode.IsLower": unicode.IsLower, "unicode.IsNumber": unicode.IsNumber, "unicode.IsControl": unicode.IsControl, "unicode.IsPrint": unicode.IsPrint, "unicode.IsPunct": unicode.IsPunct}[name]
		return vbool(x.runeIn(args[0], predSet(name, f))), true
	case "strings.ContainsRune", "strings.IndexRune":
		if s, ok := ct(0); ok {
			var set IntSet
			for _, r := range s {
				set = set.union(setOf(int64(r)))
			}
			if name == "strings.ContainsRune" {
				return vbool(x.runeIn(args[1], set)), true
			}
			for i, r := range s {
				if x.runeIn(args[1], setOf(int64(r))) {
					return vint(int64(i)), true
				}
			}
			return vint(-1), true
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		a, ok1 := ct(0)
		b, ok2 := ct(1)
		if ok1 && ok2 {
			switch name {
			case "strings.HasPrefix":
				return vbool(strings.HasPrefix(a, b)), true
			case "strings.HasSuffix":
				return vbool(strings.HasSuffix(a, b)), true
			}
			return vbool(strings.Contains(a, b)), true
		}
		if ps := x.parts(args[0]); ok2 && len(ps) > 0 {
			if c, ok := ps[0].(VStr); ok && name == "strings.HasPrefix" && len(c) >= len(b) {
				return vbool(strings.HasPrefix(string(c), b)), true
			}
			if c, ok := ps[len(ps)-1].(VStr); ok && name == "strings.HasSuffix" && len(c) >= len(b) {
				return vbool(strings.HasSuffix(string(c), b)), true
			}
		}
	case "strings.TrimPrefix", "strings.TrimSuffix":
		if b, ok := ct(1); ok {
			// Decided if the constant at that end is long enough.
			ps := x.parts(args[0])
			at := 0
			if name == "strings.TrimSuffix" {
				at = len(ps) - 1
			}
			if len(ps) == 0 {
				return VStr(""), true
			}
			if c, ok := ps[at].(VStr); ok && (len(ps) == 1 || len(c) >= len(b)) {
				ps = append([]Value{}, ps...)
				if at == 0 && name == "strings.TrimPrefix" {
					ps[at] = VStr(strings.TrimPrefix(string(c), b))
				} else {
					ps[at] = VStr(strings.TrimSuffix(string(c), b))
				}
				return x.normStr(&VCat{nonEmpty(ps)}), true
			}
		}
	case "unicode/utf8.RuneLen":
		if n, ok := args[0].(VInt); ok && x.norm(n).isConst() {
			return vint(int64(utf8.RuneLen(rune(x.norm(n).K)))), true
		}
	case "strings.Join":
		l := x.toList(args[0])
		if sep, ok := ct(1); ok && l.Base == nil {
			var ps []Value
			for i, p := range l.Elems {
				if i > 0 {
					ps = append(ps, VStr(sep))
				}
				ps = append(ps, x.parts(p)...)
			}
			return x.normStr(&VCat{ps}), true
		}
	case "errors.Is":
		return x.boolTerm(mkApp("errors.Is", types.Typ[types.Bool], args...)), true
	}
	if fn.Blocks != nil {
		return nil, false
	}
	return x.pure(fn, name, args), true
}

// pure is the result of a function that is not interpreted.
func (x *Exec) pure(fn *ssa.Function, name string, args []Value) Value {
	// Slices passed by variadic calls must be values.
	for i, a := range args {
		if r, ok := a.(*VRef); ok {
			args[i] = x.toList(r)
		}
	}
	rt := fn.Signature.Results()
	switch rt.Len() {
	case 0:
		return VTuple{}
	case 1:
		return x.termVal(mkApp(name, rt.At(0).Type(), args...))
	}
	return x.termVal(mkApp(name, rt, args...))
}

// errorType makes a type of errors.
func errorType(name string) *types.Named {
	t := types.NewNamed(types.NewTypeName(0, nil, name, nil), types.NewStruct(nil, nil), nil)
	sig := types.NewSignatureType(types.NewVar(0, nil, "", t), nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false)
	t.AddMethod(types.NewFunc(0, nil, "Error", sig))
	return t
}

var errorString = errorType("errors.errorString")

func (x *Exec) runeIn(r Value, set IntSet) bool {
	i := x.norm(r.(VInt))
	if i.isConst() {
		return set.has(i.K)
	}
	if i.Neg {
		giveUp("negated rune")
	}
	return x.test(i.T, set.affine(false, -i.K))
}

var (
	predMu    sync.Mutex
	predCache = map[string]IntSet{}
)

func predSet(name string, f func(rune) bool) IntSet {
	predMu.Lock()
	defer predMu.Unlock()
	if s, ok := predCache[name]; ok {
		return s
	}
	var s IntSet
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if f(r) {
			if n := len(s); n > 0 && s[n-1].hi == int64(r)-1 {
				s[n-1].hi++
			} else {
				s = append(s, iv{int64(r), int64(r)})
			}
		}
	}
	predCache[name] = s
	return s
}

// unicodeTable returns the set of a table of package unicode.
func unicodeTable(name string) IntSet {
	if s, ok := predCache["table "+name]; ok {
		return s
	}
	t := unicode.Categories[name]
	if t == nil {
		t = unicode.Properties[name]
	}
	if t == nil {
		t = unicode.Scripts[name]
	}
	switch name {
	case "Letter":
		t = unicode.L
	case "Digit":
		t = unicode.Nd
	case "Upper":
		t = unicode.Lu
	case "Lower":
		t = unicode.Ll
	case "Title":
		t = unicode.Lt
	case "Space":
		t = unicode.Zs
	case "Mark":
		t = unicode.M
	case "Number":
		t = unicode.N
	case "Punct":
		t = unicode.P
	}
	if t == nil {
		return nil
	}
	var ivs []iv
	add := func(lo, hi, stride int64) {
		if stride == 1 {
			ivs = append(ivs, iv{lo, hi})
			return
		}
		for v := lo; v <= hi; v += stride {
			ivs = append(ivs, iv{v, v})
		}
	}
	for _, r := range t.R16 {
		add(int64(r.Lo), int64(r.Hi), int64(r.Stride))
	}
	for _, r := range t.R32 {
		add(int64(r.Lo), int64(r.Hi), int64(r.Stride))
	}
	sort.Slice(ivs, func(i, j int) bool { return ivs[i].lo < ivs[j].lo })
	var s IntSet
	for _, v := range ivs {
		if n := len(s); n > 0 && v.lo <= s[n-1].hi+1 {
			if v.hi > s[n-1].hi {
				s[n-1].hi = v.hi
			}
			continue
		}
		s = append(s, v)
	}
	predCache["table "+name] = s
	return s
}

// builderCall models strings.Builder and bytes.Buffer as strings.
func (x *Exec) builderCall(name string, args []Value) (Value, bool) {
	var m string
	for _, p := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		if strings.HasPrefix(name, p) {
			m = name[len(p):]
		}
	}
	if m == "" {
		return nil, false
	}
	if _, ok := args[0].(VNil); ok {
		x.runtime("nil pointer dereference")
	}
	cur, ok := x.load(args[0]).(*VCat)
	if !ok {
		giveUp("symbolic builder")
	}
	add := func(ps ...Value) {
		var out []Value
		out = append(out, cur.Parts...)
		x.store(args[0], &VCat{append(out, ps...)})
	}
	switch m {
	case "WriteRune":
		add(args[1])
		return VTuple{vint(1), VNil{}}, true
	case "WriteByte":
		add(args[1])
		return VNil{}, true
	case "WriteString":
		ps := x.parts(args[1])
		add(ps...)
		return VTuple{vint(1), VNil{}}, true
	case "String":
		return x.normStr(cur), true
	case "Len":
		return x.length(cur), true
	case "Grow":
		return VTuple{}, true
	case "Reset":
		x.store(args[0], &VCat{})
		return VTuple{}, true
	}
	return nil, false
}
