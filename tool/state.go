package main

import (
	"fmt"
	"go/types"
	"hash/maphash"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type con struct {
	t   *Term
	set IntSet

	// A constraint on a part of a node of type condID matters only while the
	// symbol whose type has the canonical name cond may be such a node.
	cond   string
	condID int64
}

// moot tells whether the constraint c says nothing under the constraints ls.
func moot(ls map[string]con, c con) bool {
	if c.cond == "" {
		return false
	}
	l, ok := ls[c.cond]
	return ok && !l.set.has(c.condID)
}

// names are the canonical numbers of the symbols of a state.
type names struct {
	ids map[int]int
	by  []*Term
}

// carry translates a term of one state to another one of the same skeleton.
func carry(t *Term, from, to *names) *Term {
	r := substTerm(t, func(u *Term) Value {
		if u.Op == "sel" || u.Op == "app" {
			return nil
		}
		if n, ok := from.ids[u.ID]; ok && n <= len(to.by) {
			return to.by[n-1]
		}
		return nil
	})
	if r, ok := r.(*Term); ok {
		return r
	}
	return t
}

// State is one abstract state: the control stacks of up to two programs (the
// implementation and the reference model) over one abstract heap and one set of
// constraints on the symbols they share.
type State struct {
	th    [2]*Thread
	heap  map[int]Value
	next  int
	cons  map[string]con
	strm  Stream
	mode  int // see product.go
	trace *Trace
	from  int // the preceding joint state
	seen  *seenState
	moved bool // the implementation consumed input since
	ran   bool // the implementation ran since
	turn  bool // the reference has to take a step
	ro    map[int]bool
	extra map[string]Value
	names *names
	order []int

	failedAt, specAt string
}

// Stream is the window of input symbols that matter.
type Stream struct {
	syms []*Term // symbols at the positions base, base+1, ...
	locs []*Term // locations before them; may be longer by one
	base int
	far  int // first position that the implementation has not looked at
	over bool

	start int // the position at which the analysed unit started
}

type Trace struct {
	prev *Trace
	text string
	n    int
}

func (s *State) log(format string, args ...interface{}) {
	n := 1
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &Trace{s.trace, fmt.Sprintf(format, args...), n}
}

func (t *Trace) String() string {
	var xs []string
	for ; t != nil && len(xs) < 40; t = t.prev {
		xs = append(xs, t.text)
	}
	for i, j := 0, len(xs)-1; i < j; i, j = i+1, j-1 {
		xs[i], xs[j] = xs[j], xs[i]
	}
	return strings.Join(xs, " ")
}

const (
	stRun = iota
	stLoop
	stScan
	stCall
	stDone
	stFailed
	stDead // the state cannot occur
)

// Thread is the control state of one of the two programs.
type Thread struct {
	frames []*Frame
	status int
	pos    int // position in the stream
	panicv Value
	ret    Value
	call   *CallEvent
}

// CallEvent is a call of an anchored function.
type CallEvent struct {
	nt   *NT
	args []Value
	key  string
}

type deferred struct {
	fn   Value
	args []Value
	m    *types.Func
}

type Frame struct {
	fn      *ssa.Function
	info    *FnInfo
	env     []Value
	bind    []Value
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	defers  []deferred
	unwind  int // 0 normal, 1 running defers on return, 2 running defers on panic
	isDefer bool
	recov   bool // the panic was recovered by a call deferred by this frame
	shared  bool
	visits  map[int]int
	last    map[int][]Value
}

func (s *State) clone() *State {
	c := *s
	c.order = nil
	c.heap = make(map[int]Value, len(s.heap)+4)
	for k, v := range s.heap {
		c.heap[k] = v
	}
	c.cons = make(map[string]con, len(s.cons)+4)
	for k, v := range s.cons {
		c.cons[k] = v
	}
	c.strm.syms = append([]*Term{}, s.strm.syms...)
	c.strm.locs = append([]*Term{}, s.strm.locs...)
	if len(s.ro) > 0 {
		c.ro = make(map[int]bool, len(s.ro))
		for k := range s.ro {
			c.ro[k] = true
		}
	}
	if s.extra != nil {
		c.extra = make(map[string]Value, len(s.extra))
		for k, v := range s.extra {
			c.extra[k] = v
		}
	}
	for i, t := range s.th {
		if t == nil {
			continue
		}
		u := *t
		u.frames = append([]*Frame{}, t.frames...)
		for _, f := range u.frames {
			f.shared = true
		}
		c.th[i] = &u
	}
	return &c
}

// top returns the innermost frame, private to this state.
func (t *Thread) top() *Frame {
	n := len(t.frames) - 1
	f := t.frames[n]
	if f.shared {
		g := *f
		g.shared = false
		g.env = append([]Value{}, f.env...)
		g.defers = append([]deferred{}, f.defers...)
		if f.visits != nil {
			g.visits = map[int]int{}
			g.last = map[int][]Value{}
			for k, v := range f.visits {
				g.visits[k] = v
			}
			for k, v := range f.last {
				g.last[k] = v
			}
		}
		t.frames[n] = &g
		f = &g
	}
	return f
}

func (t *Thread) parent() *Frame {
	n := len(t.frames) - 2
	f := t.frames[n]
	if f.shared {
		g := *f
		g.shared = false
		g.env = append([]Value{}, f.env...)
		g.defers = append([]deferred{}, f.defers...)
		t.frames[n] = &g
		f = &g
	}
	return f
}

func (s *State) fresh(op string, typ types.Type) *Term {
	s.next++
	return mkBase(op, s.next, typ)
}

func (s *State) alloc(v Value) int {
	s.next++
	s.heap[s.next] = v
	return s.next
}

func (s *State) set(t *Term, set IntSet) { s.cons[t.raw] = con{t: t, set: set} }

// FnInfo is per-function information.
type FnInfo struct {
	idx   map[ssa.Value]int
	n     int
	heads map[*ssa.BasicBlock]bool
	phis  map[*ssa.BasicBlock][]*ssa.Phi
	liveB map[*ssa.BasicBlock]map[int]bool // live at the end
	liveP map[[2]int][]int
	depth int
	name  string

	ord   []int
	cells []*ssa.Alloc // variables that closures share
	cellB map[*ssa.BasicBlock]map[*ssa.Alloc]bool
	cellP map[[2]int][]*ssa.Alloc // whose contents are not needed
}

// captured returns the variables of a function that only the function itself
// and closures which never leave it have access to.
func captured(fn *ssa.Function) []*ssa.Alloc {
	var calledOnly func(v ssa.Value) bool
	funcVar := func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef, *ssa.MakeClosure:
			case *ssa.Store:
				if r.Addr != v {
					return false
				}
			case *ssa.UnOp:
				if !calledOnly(r) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	calledOnly = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Call:
				if r.Call.Value != v {
					return false
				}
				for _, a := range r.Call.Args {
					if a == v {
						return false
					}
				}
			case *ssa.Store:
				a, ok := r.Addr.(*ssa.Alloc)
				if !ok || r.Val != v || !funcVar(a) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	var keeps func(f *ssa.Function) bool
	keeps = func(f *ssa.Function) bool {
		for _, v := range f.FreeVars {
			if p, ok := v.Type().Underlying().(*types.Pointer); ok {
				if _, ok := p.Elem().Underlying().(*types.Signature); !ok {
					continue
				}
				if !funcVar(v) {
					return false
				}
			} else if _, ok := v.Type().Underlying().(*types.Signature); ok && !calledOnly(v) {
				return false
			}
		}
		for _, g := range f.AnonFuncs {
			if !keeps(g) {
				return false
			}
		}
		return true
	}
	shared := true
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Defer, *ssa.Go:
				shared = false
			case *ssa.MakeClosure:
				if !calledOnly(i) || !keeps(i.Fn.(*ssa.Function)) {
					shared = false
				}
			}
		}
	}
	var cells []*ssa.Alloc
	for _, b := range fn.Blocks {
	next:
		for _, i := range b.Instrs {
			a, ok := i.(*ssa.Alloc)
			if !ok || a.Heap && !shared {
				continue
			}
			if !accessed(a) {
				continue next
			}
			cells = append(cells, a)
		}
	}
	return cells
}

// accessed tells whether the address of a variable is only used for access.
func accessed(a ssa.Value) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef, *ssa.MakeClosure, *ssa.UnOp:
		case *ssa.Store:
			if r.Val == a {
				return false
			}
		case *ssa.FieldAddr:
			if !accessed(r) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// cellOf is the variable that an address belongs to.
func cellOf(v ssa.Value) *ssa.Alloc {
	for {
		switch u := v.(type) {
		case *ssa.Alloc:
			return u
		case *ssa.FieldAddr:
			v = u.X
		default:
			return nil
		}
	}
}

// cellsBefore computes which variables are needed before an instruction.
func (in *FnInfo) cellsBefore(b *ssa.BasicBlock, pc int) map[*ssa.Alloc]bool {
	live := map[*ssa.Alloc]bool{}
	for a := range in.cellB[b] {
		live[a] = true
	}
	for i := len(b.Instrs) - 1; i >= pc; i-- {
		switch ins := b.Instrs[i].(type) {
		case *ssa.Store:
			if a, ok := ins.Addr.(*ssa.Alloc); ok {
				delete(live, a)
			}
		case *ssa.Alloc:
			delete(live, ins)
		case *ssa.UnOp:
			if a := cellOf(ins.X); a != nil {
				live[a] = true
			}
		case *ssa.Call:
			if ins.Call.IsInvoke() {
				continue
			}
			if g, ok := ins.Call.Value.(*ssa.Function); ok && len(g.FreeVars) == 0 {
				continue
			}
			if _, ok := ins.Call.Value.(*ssa.Builtin); ok {
				continue
			}
			for _, a := range in.cells {
				if a.Heap {
					live[a] = true
				}
			}
		}
	}
	return live
}

// deadCells returns the variables whose contents are overwritten before they
// are read.
func (in *FnInfo) deadCells(fn *ssa.Function, b *ssa.BasicBlock, pc int) []*ssa.Alloc {
	k := [2]int{b.Index, pc}
	if l, ok := in.cellP[k]; ok {
		return l
	}
	if in.cellB == nil {
		in.cellB = map[*ssa.BasicBlock]map[*ssa.Alloc]bool{}
		in.cellP = map[[2]int][]*ssa.Alloc{}
		in.cells = captured(fn)
		if len(in.cells) > 0 {
			for changed := true; changed; {
				changed = false
				for _, b := range fn.Blocks {
					m := map[*ssa.Alloc]bool{}
					for _, q := range b.Succs {
						for a := range in.cellsBefore(q, 0) {
							m[a] = true
						}
					}
					if len(m) != len(in.cellB[b]) {
						in.cellB[b] = m
						changed = true
					}
				}
			}
		}
	}
	var l []*ssa.Alloc
	if len(in.cells) > 0 {
		live := in.cellsBefore(b, pc)
		for _, a := range in.cells {
			if !live[a] {
				l = append(l, a)
			}
		}
	}
	in.cellP[k] = l
	return l
}

func newFnInfo(fn *ssa.Function) *FnInfo {
	in := &FnInfo{name: fn.String(), idx: map[ssa.Value]int{}, heads: map[*ssa.BasicBlock]bool{}, phis: map[*ssa.BasicBlock][]*ssa.Phi{},
		liveB: map[*ssa.BasicBlock]map[int]bool{}, liveP: map[[2]int][]int{}}
	add := func(v ssa.Value) {
		in.idx[v] = in.n
		in.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
			if p, ok := i.(*ssa.Phi); ok {
				in.phis[b] = append(in.phis[b], p)
			}
		}
		for _, q := range b.Preds {
			if b.Dominates(q) {
				in.heads[b] = true
			}
		}
	}
	// Liveness.
	out := in.liveB
	for _, b := range fn.Blocks {
		out[b] = map[int]bool{}
	}
	liveIn := map[*ssa.BasicBlock]map[int]bool{}
	for changed := true; changed; {
		changed = false
		for k := len(fn.Blocks) - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			for _, q := range b.Succs {
				pi := 0
				for i, p := range q.Preds {
					if p == b {
						pi = i
					}
				}
				for r := range liveIn[q] {
					if !out[b][r] {
						out[b][r] = true
						changed = true
					}
				}
				for _, p := range in.phis[q] {
					if r, ok := in.idx[p.Edges[pi]]; ok && !out[b][r] {
						out[b][r] = true
						changed = true
					}
				}
			}
			l := in.backwards(b, 0)
			if len(l) != len(liveIn[b]) {
				changed = true
			}
			liveIn[b] = l
		}
	}
	return in
}

// backwards computes the registers live before instruction pc of b (phis of b
// are not counted as uses).
func (in *FnInfo) backwards(b *ssa.BasicBlock, pc int) map[int]bool {
	live := map[int]bool{}
	for r := range in.liveB[b] {
		live[r] = true
	}
	for i := len(b.Instrs) - 1; i >= pc; i-- {
		ins := b.Instrs[i]
		if v, ok := ins.(ssa.Value); ok {
			delete(live, in.idx[v])
		}
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		if _, ok := ins.(*ssa.DebugRef); ok {
			continue
		}
		for _, o := range ins.Operands(nil) {
			if *o == nil {
				continue
			}
			if r, ok := in.idx[*o]; ok {
				live[r] = true
			}
		}
	}
	return live
}

// live returns the registers that are live before instruction pc of b, or
// after the call at pc (whose own register then does not count).
func (in *FnInfo) live(b *ssa.BasicBlock, pc int) []int {
	k := [2]int{b.Index, pc}
	if l, ok := in.liveP[k]; ok {
		return l
	}
	var l []int
	for r := range in.backwards(b, pc) {
		l = append(l, r)
	}
	sort.Ints(l)
	in.liveP[k] = l
	return l
}

var seed1, seed2 = maphash.MakeSeed(), maphash.MakeSeed()

func hashKey(k string) [2]uint64 {
	return [2]uint64{maphash.String(seed1, k), maphash.String(seed2, k)}
}

// prune drops the registers that are dead, and the objects that can not be
// reached.
func (s *State) prune(e *Engine) {
	for _, t := range s.th {
		if t == nil {
			continue
		}
		for fi, f := range t.frames {
			pc := f.pc
			if fi < len(t.frames)-1 || t.status == stCall {
				// In a call: its operands are no longer needed.
				pc++
			}
			cpc := f.pc
			if pc != cpc && cpc < len(f.block.Instrs) {
				// What is being called may be a closure.
				if c, ok := f.block.Instrs[cpc].(*ssa.Call); ok && (c.Call.IsInvoke() || c.Call.StaticCallee() != nil && len(c.Call.StaticCallee().FreeVars) == 0) {
					cpc++
				}
			}
			for _, a := range f.info.deadCells(f.fn, f.block, cpc) {
				if p, ok := f.env[f.info.idx[a]].(*VPtr); ok && len(p.Path) == 0 && !s.ro[p.Obj] {
					s.heap[p.Obj] = zero(a.Type().Underlying().(*types.Pointer).Elem())
				}
			}
			live := f.info.live(f.block, pc)
			j := 0
			for r := range f.env {
				if j < len(live) && live[j] == r {
					j++
					continue
				}
				if f.env[r] != nil {
					if f.shared {
						g := *f
						g.shared = false
						g.env = append([]Value{}, f.env...)
						g.defers = append([]deferred{}, f.defers...)
						t.frames[fi] = &g
						f = &g
					}
					f.env[r] = nil
				}
			}
		}
	}
	seen := map[int]bool{}
	for tid, t := range s.th {
		if t == nil {
			continue
		}
		s.reach(tid, seen)
	}
	for _, v := range s.extra {
		s.reachValue(v, seen)
	}
	for o := range s.heap {
		if o < 0 {
			s.reachValue(s.heap[o], seen)
		}
	}
	for o := range s.heap {
		if o > 0 && !seen[o] {
			delete(s.heap, o)
		}
	}
}

func (s *State) reachValue(v Value, seen map[int]bool) {
	if v == nil {
		return
	}
	mapValue(v, func(v Value) Value {
		o := 0
		switch v := v.(type) {
		case *VPtr:
			o = v.Obj
		case *VRef:
			o = v.Obj
		default:
			return nil
		}
		if !seen[o] {
			seen[o] = true
			if w, ok := s.heap[o]; ok {
				s.reachValue(w, seen)
			}
		}
		return nil
	})
}

func (s *State) reach(tid int, seen map[int]bool) {
	t := s.th[tid]
	for _, f := range t.frames {
		for _, v := range f.env {
			s.reachValue(v, seen)
		}
		for _, v := range f.bind {
			s.reachValue(v, seen)
		}
		for _, d := range f.defers {
			if _, ok := d.fn.(*VFunc); ok {
				s.reachValue(d.fn, seen)
			}
			for _, a := range d.args {
				s.reachValue(a, seen)
			}
		}
	}
	s.reachValue(t.ret, seen)
	s.reachValue(t.panicv, seen)
	if t.call != nil {
		for _, a := range t.call.args {
			s.reachValue(a, seen)
		}
	}
}

// historian tells how many of the symbols that both programs have passed matter.
type historian interface{ history(s *State) int }

// key returns the canonical key of the state, and drops registers, objects and
// constraints that can not matter any more.
func (s *State) key(e *Engine) (string, map[string]con) {
	s.prune(e)
	c := &canon{s: s, ids: map[int]int{}, objs: map[int]int{}}
	c.b.WriteByte(byte('0' + s.mode))
	if s.turn {
		c.b.WriteByte('t')
	}
	minpos := 1 << 60
	for _, t := range s.th {
		if t != nil && t.pos < minpos && t.status != stDone && t.status != stFailed {
			minpos = t.pos
		}
	}
	if minpos == 1<<60 {
		minpos = s.strm.base
	}
	for ti, t := range s.th {
		if t == nil {
			continue
		}
		at := t.pos - minpos
		if t.status == stFailed || s.mode == modeFree && ti == 1 {
			at = 0
		}
		fmt.Fprintf(&c.b, "\nT%d st%d pos%d", ti, t.status, at)
		for fi, f := range t.frames {
			c.b.WriteByte('\n')
			c.b.WriteString(f.info.name)
			c.b.WriteByte(':')
			c.b.WriteString(strconv.Itoa(f.block.Index))
			c.b.WriteByte(':')
			c.b.WriteString(strconv.Itoa(f.pc))
			c.b.WriteString(" u")
			c.b.WriteString(strconv.Itoa(int(f.unwind)))
			if f.isDefer {
				c.b.WriteByte('d')
			}
			pc := f.pc
			if fi < len(t.frames)-1 || t.status == stCall {
				// In a call: its operands are no longer needed.
				pc++
			}
			live := f.info.live(f.block, pc)
			for _, r := range live {
				c.b.WriteByte(' ')
				c.b.WriteString(strconv.Itoa(r))
				c.b.WriteByte('=')
				c.val(f.env[r])
			}
			if len(f.bind) > 0 {
				c.b.WriteString(" bind ")
				c.val(VTuple(f.bind))
			}
			for _, d := range f.defers {
				c.b.WriteString(" defer ")
				c.val(d.fn)
				c.val(VTuple(d.args))
			}
		}
		if t.panicv != nil {
			c.b.WriteString(" panic ")
			c.val(t.panicv)
		}
		if t.status == stDone {
			c.b.WriteString(" ret ")
			c.val(t.ret)
		}
		if t.call != nil {
			c.b.WriteString(" call " + t.call.nt.name)
			c.val(VTuple(t.call.args))
		}
	}
	c.b.WriteString("\nstream")
	// Drop the symbols that both programs have passed.
	hist := e.history
	if h, ok := e.cl.(historian); ok {
		hist = h.history(s)
	}
	keep := minpos - hist
	if keep > s.strm.base {
		d := keep - s.strm.base
		if d > len(s.strm.syms) {
			d = len(s.strm.syms)
		}
		for _, t := range s.strm.syms[:d] {
			if pc, ok := e.cl.(ProdClient); ok && t != nil {
				s.log("%s", pc.symText(s, t))
			}
		}
		s.strm.syms = append([]*Term{}, s.strm.syms[d:]...)
		l := min(d, len(s.strm.locs))
		s.strm.locs = append([]*Term{}, s.strm.locs[l:]...)
		s.strm.base += d
	}
	fmt.Fprintf(&c.b, "%d far%d", s.strm.base-minpos, max(s.strm.far-minpos, 0))
	for i, t := range s.strm.syms {
		if s.strm.base+i >= minpos || minpos-s.strm.base-i <= hist {
			c.b.WriteByte(' ')
			if t != nil {
				c.term(t)
			}
		}
	}
	c.b.WriteByte('|')
	for i, t := range s.strm.locs {
		if t != nil && s.strm.base+i >= minpos {
			fmt.Fprintf(&c.b, " %d:", s.strm.base+i-minpos)
			c.term(t)
		}
	}
	if s.extra != nil {
		var ks []string
		for k := range s.extra {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c.b.WriteString("\n" + k + "=")
			c.val(s.extra[k])
		}
	}
	c.globals()
	lines := c.constraints(e)
	s.names = &names{c.ids, c.by}
	// Collect garbage.
	if len(c.objs) < len(s.heap) {
		h := make(map[int]Value, len(c.objs))
		for o := range c.objs {
			if v, ok := s.heap[o]; ok {
				h[o] = v
			}
		}
		for o, v := range s.heap {
			if o < 0 {
				h[o] = v
			}
		}
		s.heap = h
		for o := range s.ro {
			if _, ok := h[o]; !ok {
				delete(s.ro, o)
			}
		}
	}
	return c.b.String(), lines
}

// globals writes the package-level variables that were assigned to.
func (c *canon) globals() {
	var gs []int
	for o := range c.s.heap {
		if o < 0 {
			gs = append(gs, o)
		}
	}
	sort.Ints(gs)
	for _, o := range gs {
		fmt.Fprintf(&c.b, "\nG%d=", -o)
		if _, ok := c.objs[o]; !ok {
			c.obj(o)
		}
	}
}
