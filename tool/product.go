package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The product analysis follows the implementation (thread 0) and the reference
// model (thread 1) over the same symbolic input to a fixpoint. Both programs
// are interpreted in the same abstract domain; a joint state is reached whenever
// both stand at a loop head, at a call of an anchored function or at their end.

const (
	modeBoth    = iota // in step
	modeObserve        // the implementation failed, the reference goes on
	modeDoomed         // the reference failed, the implementation has to
	modeFree           // the reference does not specify what happens
)

// NT is an anchored function: a function of the implementation with a
// counterpart in the reference model. Calls of it are matched instead of
// followed, and its body is checked on its own.
type NT struct {
	name string
	impl *ssa.Function
	spec *ssa.Function
	wrap *ssa.Function // reference code to run in place of a call, or nil
	pure bool          // consumes no input

	results *IntSet // types of the nodes it returns
}

// Finding is one thing that is wrong.
type Finding struct {
	Kind  string // see properties.go
	Where string // analysed unit
	Pos   string // construct of the implementation
	Msg   string
	Path  string // component of the result
	Class string // part of the grammar
	Trace string
}

func (f *Finding) key() string {
	return f.Kind + "|" + f.Where + "|" + f.Path + "|" + f.Pos + "|" + f.Msg
}

type edge struct {
	from, to   int
	moved, ran bool
}

// ProdClient adapts the product analysis to a kind of program.
type ProdClient interface {
	Client
	// grant returns the result of a matched call.
	grant(x *Exec, ev *CallEvent) Value
	// finish is called when both programs have ended normally.
	finish(x *Exec)
	// failure classifies the value that the implementation panics with.
	failure(x *Exec, v Value) (ok bool, what string)
	// free is called when the implementation ended and nothing is specified.
	free(x *Exec)
	// symText describes an input symbol.
	symText(s *State, t *Term) string
	// collapsible tells whether a value is nested in a way that its content can
	// be forgotten once both programs agree on it.
	collapsible(t types.Type) bool
	// forgotten carries over facts to the symbol that replaces a value.
	forgotten(x *Exec, old Value, sym *Term)
}

// ender is a client that is not interested in what follows a call that the two
// programs do not agree on.
type ender interface {
	ends() bool
	// class tells which part of the grammar the reference is in.
	class(s *State) string
}

type Product struct {
	// exact is set if nothing is to be forgotten, and if the programs may have
	// read different parts of the input at the same time.
	exact    bool
	e        *Engine
	cl       ProdClient
	unit     string
	seen     map[[2]uint64][]*seenState
	edges    map[edge]bool
	pos      []string // by joint state: where the implementation stands
	work     []*State
	finds    map[string]*Finding
	limit    int
	runs     int
	forks    int
	rets     int
	fails    int
	calls    map[string]int
	forget   bool                         // what has been passed in lists is forgotten
	lockstep bool                         // both take the same number of steps
	atHead   bool                         // the programs are at loop heads
	extra    func(x *Exec, ev *CallEvent) // called for every matched call
	deadline time.Time
	stop     func() bool // end early
	found    func(f *Finding)
	cut      bool // not explored completely
}

// late tells whether the time for the unit is over.
func (p *Product) late() bool {
	if !p.cut && (!p.deadline.IsZero() && time.Now().After(p.deadline) || p.stop != nil && p.stop()) {
		p.cut = true
	}
	return p.cut
}

func newProduct(e *Engine, cl ProdClient, unit string) *Product {
	return &Product{e: e, cl: cl, unit: unit, seen: map[[2]uint64][]*seenState{}, edges: map[edge]bool{}, finds: map[string]*Finding{}, limit: flagLimit, calls: map[string]int{}}
}

func (p *Product) find(s *State, kind, pos, path, format string, args ...interface{}) {
	f := &Finding{Kind: kind, Where: p.unit, Pos: pos, Path: path, Msg: fmt.Sprintf(format, args...)}
	if flagDump != "" && s != nil {
		skel, lines := s.key(p.e)
		fmt.Printf("FIND %v from %d\n%s\n", f, s.from, skel)
		for _, l := range sortedKeys(lines) {
			fmt.Println(l, lines[l].set)
		}
	}
	if p.finds[f.key()] == nil {
		f.Trace = p.traceText(s)
		if l, ok := p.cl.(ender); ok && s != nil {
			f.Class = l.class(s)
		}
		p.finds[f.key()] = f
		if p.found != nil {
			p.found(f)
		}
	}
}

func (p *Product) traceText(s *State) string {
	if s == nil {
		return ""
	}
	t := s.trace.String()
	for i, y := range s.strm.syms {
		if m := min(s.th[0].pos, s.th[1].pos); s.strm.base+i == m {
			t += " ‸"
		}
		t += " " + p.cl.symText(s, y)
	}
	return strings.TrimSpace(t)
}

func (p *Product) exec(s *State, tid int) *Exec {
	x := &Exec{e: p.e, s: s, t: s.th[tid], tid: tid, loop: true}
	return x
}

// withForks runs f on s, and again on the states that are split off.
func (p *Product) withForks(s *State, tid int, f func(x *Exec)) {
	work := []*State{s}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		x := p.exec(s, tid)
		func() {
			defer func() {
				r := recover()
				switch r := r.(type) {
				case nil:
				case fork:
					d := x.dom(r.t)
					a, b := d.inter(r.set), d.minus(r.set)
					o := s.clone()
					o.set(r.t, b)
					s.set(r.t, a)
					work = append(work, o, s)
				case undecided:
					p.find(s, "undecided", x.where(), "", "%s", r.msg)
				case violated:
					p.find(s, r.kind, x.where(), "", "%s", r.msg)
				case gopanic:
					p.find(s, "undecided", x.where(), "", "panic in the analysis: %v", rawKey(r.v))
				default:
					panic(r)
				}
			}()
			f(x)
		}()
	}
}

// start adds an initial state.
func (p *Product) start(s *State) {
	s.from = -1
	p.work = append(p.work, s)
}

// solve runs to the fixpoint.
func (p *Product) solve() {
	for len(p.work) > 0 {
		if p.runs > p.limit || len(p.finds) > 60 {
			p.cut = true
			return
		}
		if p.late() {
			return
		}
		// Inner loops first, and what precedes a loop before the loop.
		k := 0
		var best []int
		j := 0
		for _, s := range p.work {
			if s.seen != nil && !s.seen.pending {
				continue
			}
			p.work[j] = s
			if r := s.rank(); best == nil || before(r, best) {
				k, best = j, r
			}
			j++
		}
		p.work = p.work[:j]
		if j == 0 {
			break
		}
		s := p.work[k]
		p.work = append(p.work[:k], p.work[k+1:]...)
		if s.seen != nil {
			if !s.seen.pending {
				continue
			}
			s.seen.pending = false
		}
		p.runs++
		if flagDump != "" && strings.Contains(p.unit, flagDump) {
			fmt.Println("VISIT", s.from, s.rank(), len(p.work))
		}
		p.visit(s)
	}
	p.progress()
}

// rank orders the states to visit: by where the programs stand, the head of a
// loop behind its body.
func (s *State) rank() []int {
	if s.order == nil {
		s.order = []int{}
		for _, t := range s.th {
			if t == nil || !alive(t) {
				s.order = append(s.order, 1<<30)
				continue
			}
			for _, f := range t.frames {
				s.order = append(s.order, f.info.order(f.fn)[f.block.Index], f.pc)
			}
			s.order = append(s.order, 1<<30)
		}
	}
	return s.order
}

func before(a, b []int) bool {
	for i := range a {
		if i >= len(b) {
			return false
		}
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// order numbers the blocks of a function: what precedes a loop, its body, its
// head, what follows.
func (in *FnInfo) order(fn *ssa.Function) []int {
	if in.ord != nil {
		return in.ord
	}
	in.ord = make([]int, len(fn.Blocks))
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, q := range b.Succs {
			if !seen[q] {
				dfs(q)
			}
		}
		post = append(post, b)
	}
	for _, b := range fn.Blocks {
		if !seen[b] && (len(b.Preds) == 0 || b.Index == 0) {
			dfs(b)
		}
	}
	var rpo []*ssa.BasicBlock
	for i := len(post) - 1; i >= 0; i-- {
		rpo = append(rpo, post[i])
	}
	loop := func(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		l := map[*ssa.BasicBlock]bool{h: true}
		var up func(b *ssa.BasicBlock)
		up = func(b *ssa.BasicBlock) {
			if l[b] {
				return
			}
			l[b] = true
			for _, q := range b.Preds {
				up(q)
			}
		}
		for _, q := range h.Preds {
			if h.Dominates(q) {
				up(q)
			}
		}
		return l
	}
	n := 0
	done := map[*ssa.BasicBlock]bool{}
	var emit func(bs []*ssa.BasicBlock)
	emit = func(bs []*ssa.BasicBlock) {
		for _, b := range bs {
			if done[b] {
				continue
			}
			done[b] = true
			if in.heads[b] {
				l := loop(b)
				var body []*ssa.BasicBlock
				for _, q := range bs {
					if l[q] && q != b {
						body = append(body, q)
					}
				}
				emit(body)
			}
			n++
			in.ord[b.Index] = n
		}
	}
	emit(rpo)
	return in.ord
}

// arrive records a joint state and tells whether it is new.
func (p *Product) arrive(s *State) bool {
	s.order = nil
	if s.mode != modeFree && s.mode != modeDoomed && s.mode != modeObserve || true {
		p.collapse(s)
	}
	for {
		skel, lines := s.key(p.e)
		k := hashKey(skel)
		shrunk := false
		for _, q := range p.seen[k] {
			if linesSubset(p, s, lines, q.cons) {
				p.link(s, q.id)
				return false
			}
			// What is already covered is not looked at again.
			if v, ok := p.excess(s, lines, q); ok {
				if s.from >= 0 {
					p.edges[edge{s.from, q.id, s.moved, s.ran}] = true
				}
				d := q.cons[v]
				t := carry(d.t, q.names, s.names)
				s.set(t, p.exec(s, 0).dom(t).minus(d.set))
				shrunk = true
				break
			}
		}
		if shrunk {
			continue
		}
		q := &seenState{names: s.names, id: len(p.pos), cons: lines, s: s, pending: true}
		w0, w1 := "end", "end"
		if len(s.th[0].frames) > 0 {
			w0 = p.where(s, 0)
		}
		p.pos = append(p.pos, w0)
		if flagDump != "" && strings.Contains(p.unit, flagDump) {
			if s.th[1] != nil && len(s.th[1].frames) > 0 {
				w1 = p.where(s, 1)
			}
			fmt.Printf("STATE %d from %d mode %d at %s / %s [%s]\n%s\n", q.id, s.from, s.mode, w0, w1, s.trace.String(), skel)
			for _, l := range sortedKeys(lines) {
				fmt.Println(l, lines[l].set)
			}
			fmt.Println("----")
		}
		p.link(s, q.id)
		s.seen = q
		// Two waiting states that differ in the range of one symbol are one.
		merged := false
		for i, o := range p.seen[k] {
			if !o.pending {
				continue
			}
			if l, n := differ(lines, o.cons); n < 2 {
				o.pending = false
				p.edges[edge{o.id, q.id, false, false}] = true
				c, ok1 := lines[l]
				d, ok2 := o.cons[l]
				switch {
				case ok1 && ok2:
					s.set(c.t, c.set.union(d.set))
				case ok1:
					delete(s.cons, c.t.raw)
				}
				adopt(s, lines, o.cons, o.names)
				p.seen[k] = append(p.seen[k][:i:i], p.seen[k][i+1:]...)
				merged = true
				break
			}
		}
		if !merged && p.atHead && len(p.seen[k]) >= widenAfter && s.mode == modeBoth && alive(s.th[0]) && alive(s.th[1]) {
			// Widen: what holds in all of them is kept.
			var kept []*seenState
			for _, o := range p.seen[k] {
				for l, c := range lines {
					d, ok := o.cons[l]
					switch {
					case ok:
						c.set = c.set.union(d.set)
						s.set(c.t, c.set)
					case !moot(o.cons, c):
						delete(s.cons, c.t.raw)
					}
				}
				adopt(s, lines, o.cons, o.names)
				if _, l := s.key(p.e); len(l) != len(lines) || !sameLines(l, lines) {
					lines = l
					merged = true
				}
				if o.pending {
					o.pending = false
					p.edges[edge{o.id, q.id, false, false}] = true
					merged = true
					continue
				}
				kept = append(kept, o)
			}
			p.seen[k] = kept
		}
		if !merged {
			p.seen[k] = append(p.seen[k], q)
			return true
		}
	}
}

// excess returns the only symbol in which s exceeds the state q.
func (p *Product) excess(s *State, lines map[string]con, q *seenState) (string, bool) {
	diff, n := "", 0
	for k, c := range q.cons {
		d, ok := lines[k]
		if ok && d.set.subset(c.set) || moot(lines, c) {
			continue
		}
		if c.cond != "" && !ok {
			return "", false
		}
		diff = k
		if n++; n > 1 {
			return "", false
		}
	}
	if n != 1 {
		return "", false
	}
	c := q.cons[diff]
	if d, ok := lines[diff]; ok && d.set.inter(c.set).empty() {
		return "", false
	}
	return diff, true
}

// adopt adds the constraints that say nothing in the state.
func adopt(s *State, lines, other map[string]con, n *names) {
	for k, c := range other {
		if _, ok := lines[k]; !ok && moot(lines, c) {
			c.t = carry(c.t, n, s.names)
			s.set(c.t, c.set)
			lines[k] = c
		}
	}
}

type seenState struct {
	names   *names
	id      int
	cons    map[string]con
	s       *State
	pending bool
}

func (p *Product) link(s *State, id int) {
	if s.from >= 0 {
		p.edges[edge{s.from, id, s.moved, s.ran}] = true
	}
	s.from, s.moved, s.ran = id, false, false
}

// linesSubset tells whether the constraints a imply the constraints b.
func linesSubset(p *Product, s *State, a, b map[string]con) bool {
	for k, c := range b {
		d, ok := a[k]
		if (!ok || !d.set.subset(c.set)) && !moot(a, c) {
			return false
		}
	}
	return true
}

// differ counts the constraints in which two lists differ, up to 2.
func differ(a, b map[string]con) (string, int) {
	diff, n := "", 0
	for k, c := range a {
		d, ok := b[k]
		if ok && c.set.equal(d.set) || !ok && moot(b, c) {
			continue
		}
		diff = k
		if n++; n > 1 {
			return "", n
		}
	}
	for k, c := range b {
		if _, ok := a[k]; !ok && !moot(a, c) {
			diff = k
			if n++; n > 1 {
				return "", n
			}
		}
	}
	return diff, n
}

func sameLines(a, b map[string]con) bool {
	for k, c := range a {
		if d, ok := b[k]; !ok || !c.set.equal(d.set) {
			return false
		}
	}
	return len(a) == len(b)
}

// widenAfter is the number of states at a loop that are kept apart.
var widenAfter = 1 << 30

func sortedKeys(m map[string]con) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func alive(t *Thread) bool { return t.status != stDone && t.status != stFailed }

// visit decides what to do in a joint state.
func (p *Product) visit(s *State) {
	im, sp := s.th[0], s.th[1]
	for {
		switch s.mode {
		case modeFree:
			switch im.status {
			case stFailed:
				p.checkFailure(s)
				return
			case stDone:
				p.withForks(s, 0, func(x *Exec) { p.cl.free(x) })
				return
			case stCall:
				if l, ok := p.cl.(ender); ok && l.ends() {
					return
				}
				p.grantOne(s, 0)
				return
			}
			p.run(s, 0)
			return
		case modeDoomed:
			switch im.status {
			case stFailed:
				if p.checkFailure(s) {
					p.fails++
				}
				return
			case stDone:
				p.find(s, "accepts", p.specWhere(s), "", "accepts input that the grammar does not allow")
				return
			case stCall:
				if l, ok := p.cl.(ender); ok && l.ends() {
					p.find(s, "accepts", p.specWhere(s), "", "accepts input that the grammar does not allow")
					return
				}
				p.grantOne(s, 0)
				return
			}
			p.run(s, 0)
			return
		case modeObserve:
			switch sp.status {
			case stFailed:
				p.fails++
				return
			case stDone, stCall:
				p.find(s, "rejects", s.failedAt, "", "rejects input that the grammar allows")
				return
			}
			p.run(s, 1)
			return
		}
		// In step.
		switch {
		case im.status == stFailed:
			if !p.checkFailure(s) {
				return
			}
			s.mode = modeObserve
			s.settle(0)
			continue
		case sp.status == stFailed:
			s.mode = modeDoomed
			s.settle(1)
			continue
		case im.status == stDone && sp.status == stDone:
			p.rets++
			if im.pos != sp.pos {
				p.find(s, "consumed", p.unit, "", "ends %d tokens %s than specified", abs(im.pos-sp.pos), map[bool]string{true: "later", false: "earlier"}[im.pos > sp.pos])
				return
			}
			p.withForks(s, 0, func(x *Exec) { p.cl.finish(x) })
			return
		case im.status == stCall && sp.status == stCall:
			p.match(s)
			return
		case im.status == stCall && sp.status == stDone:
			p.find(s, "event", p.where(s, 0), im.call.nt.name, "parses a %s that the grammar does not have here", im.call.nt.name)
			return
		case sp.status == stCall && im.status == stDone:
			p.find(s, "event", p.unit, sp.call.nt.name, "ends without parsing the %s that the grammar has here", sp.call.nt.name)
			return
		}
		r0 := im.status == stLoop || im.status == stRun
		r1 := sp.status == stLoop || sp.status == stRun
		switch {
		case r0 && r1:
			if p.lockstep {
				// One step of each by turns.
				s.turn = !s.turn
				if s.turn {
					p.run(s, 0)
				} else {
					p.run(s, 1)
				}
				return
			}
			// Meet at loop heads.
			if im.pos < sp.pos || im.pos == sp.pos && im.status == stRun && sp.status == stLoop {
				p.run(s, 0)
			} else {
				p.run(s, 1)
			}
		case r0:
			p.run(s, 0)
		default:
			p.run(s, 1)
		}
		return
	}
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

// settle forgets what only matters while both programs run.
func (s *State) settle(tid int) {
	s.th[tid] = &Thread{status: stFailed}
	for k := range s.extra {
		if k != "scanner" {
			delete(s.extra, k)
		}
	}
}

func (p *Product) specWhere(s *State) string { return s.specAt }

func (p *Product) where(s *State, tid int) string { return p.exec(s, tid).where() }

// checkFailure tells whether the implementation failed in an allowed way.
func (p *Product) checkFailure(s *State) bool {
	x := p.exec(s, 0)
	ok, what := p.cl.failure(x, s.th[0].panicv)
	if !ok {
		p.find(s, "crash", s.failedAt, "", "%s", what)
	}
	return ok
}

// run runs one thread to its next joint state.
func (p *Product) run(s *State, tid int) {
	var out, gen []*State // arrived; waiting to be merged
	n := 0
	_, ends := p.cl.(ender)
	work := []*State{s}
	for len(work) > 0 || len(gen) > 0 {
		if len(work) == 0 {
			// Paths that have come to the same point are joined.
			work = p.mergeAll(gen, false)
			if flagVerbose && len(work) > 300 {
				fmt.Fprintf(os.Stderr, "   %d paths joined to %d\n", len(gen), len(work))
				if len(work) > 1000 {
					m := map[string]int{}
					for _, s := range work {
						w := ""
						for i := range s.th[tid].frames {
							f := s.th[tid].frames[i]
							w += fmt.Sprintf(" %s:%d.%d", f.fn.Name(), f.block.Index, f.pc)
						}
						m[w]++
					}
					for w, n := range m {
						fmt.Fprintln(os.Stderr, "      ", n, w)
					}
				}
			}
			gen = nil
		}
		s := work[len(work)-1]
		work = work[:len(work)-1]
		x := p.exec(s, tid)
		if tid == 0 {
			s.ran = true
		}
		x.merges = true
		x.mayYield = len(work) > 0 || len(gen) > 0
		x.run()
		if p.late() {
			return
		}
		work = append(work, x.fork...)
		p.forks += len(x.fork)
		if n++; n > 20000 {
			p.find(s, "undecided", x.where(), "", "more than 20000 paths to the next joint state")
			return
		}
		if x.err != "" {
			k := x.errKind
			if k == "" {
				k = "undecided"
			}
			if i := strings.LastIndex(x.err, ": "); i > 0 && k == "undecided" {
				p.find(s, k, x.err[:i], "", "%s", x.err)
			} else {
				p.find(s, k, x.where(), "", "%s", x.err)
			}
			continue
		}
		if x.t.status == stDead {
			continue
		}
		if x.yielded && !x.joint {
			gen = append(gen, s)
			continue
		}
		if s.mode != modeBoth && (!alive(s.th[0]) || s.mode == modeObserve && !alive(s.th[1])) && !(ends && s.mode == modeObserve && alive(s.th[1])) {
			p.visit(s)
			continue
		}
		out = append(out, s)
	}
	for _, s := range p.mergeAll(out, true) {
		if p.arrive(s) {
			p.work = append(p.work, s)
		}
	}
}

// place tells where both programs stand.
func (s *State) place() string {
	b := make([]byte, 0, 64)
	for _, t := range s.th {
		if t == nil {
			continue
		}
		b = append(b, byte(t.status), byte(len(t.frames)))
		b = strconv.AppendInt(b, int64(t.pos), 10)
		for _, f := range t.frames {
			b = append(b, ' ')
			b = strconv.AppendInt(b, int64(f.block.Index), 10)
			b = append(b, ':')
			b = strconv.AppendInt(b, int64(f.pc), 10)
		}
	}
	return string(b)
}

// mergeAll joins the states that differ in the range of a single symbol, which
// loses nothing.
func (p *Product) mergeAll(ss []*State, joint bool) []*State {
	if len(ss) < 2 {
		return ss
	}
	type ent struct {
		s     *State
		lines map[string]con
	}
	groups := map[string][]*ent{}
	var order []string
	var out []*State
	// States at different points can not be joined.
	places := map[string]int{}
	for _, s := range ss {
		places[s.place()]++
	}
	for _, s := range ss {
		if places[s.place()] == 1 {
			out = append(out, s)
			continue
		}
		if joint {
			p.collapse(s)
		}
		skel, lines := s.key(p.e)
		k := fmt.Sprintf("%s|%d %v %v", skel, s.from, s.moved, s.ran)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], &ent{s, lines})
	}
	for _, k := range order {
		g := groups[k]
		for changed := true; changed && len(g) > 1; {
			changed = false
			vars := map[string]bool{}
			for _, e := range g {
				for v := range e.lines {
					vars[v] = true
				}
			}
			var vs []string
			for v := range vars {
				vs = append(vs, v)
			}
			sort.Strings(vs)
			for _, v := range vs {
				by := map[string][]*ent{}
				var h []*ent
			next:
				for _, e := range g {
					var b strings.Builder
					for _, l := range sortedKeys(e.lines) {
						if l != v && e.lines[l].cond != v {
							b.WriteString(l)
							b.WriteString(e.lines[l].set.String())
							b.WriteByte('\n')
						}
					}
					var o *ent
					for _, f := range by[b.String()] {
						if d, n := differ(f.lines, e.lines); n == 0 || n == 1 && d == v {
							o = f
							break
						}
					}
					if o == nil {
						by[b.String()] = append(by[b.String()], e)
						h = append(h, e)
						continue next
					}
					changed = true
					adopt(o.s, o.lines, e.lines, e.s.names)
					c, ok1 := o.lines[v]
					d, ok2 := e.lines[v]
					if ok1 && ok2 {
						u := c.set.union(d.set)
						o.s.set(c.t, u)
						if (&Exec{e: p.e, s: o.s, t: o.s.th[0]}).domain(c.t).subset(u) {
							delete(o.s.cons, c.t.raw)
							delete(o.lines, v)
						} else {
							c.set = u
							o.lines[v] = c
						}
					} else if ok1 {
						delete(o.s.cons, c.t.raw)
						delete(o.lines, v)
					}
				}
				g = h
			}
		}
		for _, e := range g {
			out = append(out, e.s)
		}
	}
	return out
}

// grantOne lets a call of the implementation return without a counterpart.
func (p *Product) grantOne(s *State, tid int) {
	p.withForks(s, tid, func(x *Exec) {
		ev := x.t.call
		v := p.cl.grant(x, ev)
		p.advance(x.s, ev, []int{tid})
		setResult(x.t, v)
		p.runNow(x.s)
	})
}

func setResult(t *Thread, v Value) {
	t.call = nil
	t.status = stRun
	f := t.top()
	if r, ok := f.block.Instrs[f.pc].(ssa.Value); ok {
		f.env[f.info.idx[r]] = v
	}
	f.pc++
}

func (p *Product) runNow(s *State) {
	if p.arrive(s) {
		p.work = append(p.work, s)
	}
}

// advance moves the threads behind the input consumed by a matched call.
func (p *Product) advance(s *State, ev *CallEvent, tids []int) {
	if ev.nt.pure {
		return
	}
	pos := s.th[tids[0]].pos
	i := pos - s.strm.base
	for len(s.strm.syms) < i+1 {
		s.strm.syms = append(s.strm.syms, nil)
	}
	s.strm.syms = s.strm.syms[:i+1]
	s.strm.syms[i] = nil
	for _, tid := range tids {
		s.th[tid].pos = pos + 1
	}
	s.strm.far = pos + 1
	for j := 0; j < i; j++ {
		if s.strm.syms[j] != nil {
			s.log("%s", p.cl.symText(s, s.strm.syms[j]))
			s.strm.syms[j] = nil
		}
	}
	s.log("‹%s›", ev.nt.name)
	s.moved = true
}

// match compares two calls of anchored functions.
func (p *Product) match(s *State) {
	im, sp := s.th[0], s.th[1]
	a, b := im.call, sp.call
	if a.nt != b.nt || im.pos != sp.pos && !p.exact {
		d := ""
		if a.nt == b.nt {
			d = fmt.Sprintf(", %d tokens %s", abs(im.pos-sp.pos), map[bool]string{true: "later", false: "earlier"}[im.pos > sp.pos])
		}
		p.find(s, "event", p.where(s, 0), a.nt.name+"/"+b.nt.name, "parses a %s where the grammar has a %s%s", a.nt.name, b.nt.name, d)
		return
	}
	p.withForks(s, 0, func(x *Exec) {
		c := &comparer{x: x}
		for i := range a.args {
			c.path = []string{fmt.Sprintf("arg%d", i)}
			if i == 0 {
				c.path = []string{"context"}
			}
			c.diff(a.args[i], b.args[i])
		}
		if len(c.bad) > 0 {
			kind := "arg"
			if strings.HasPrefix(c.bad[0].path, "context") {
				kind = "context"
			}
			p.find(x.s, kind, p.where(x.s, 0), a.nt.name+" "+c.bad[0].path, "parses a %s with a different %s: %s, specified is %s", a.nt.name, c.bad[0].path, c.bad[0].a, c.bad[0].b)
			return
		}
		p.calls[a.nt.name]++
		if p.extra != nil {
			p.extra(x, a)
		}
		v := p.cl.grant(x, a)
		p.advance(x.s, a, []int{0, 1})
		setResult(x.s.th[0], v)
		setResult(x.s.th[1], v)
		p.runNow(x.s)
	})
}

// progress looks for cycles on which the implementation runs without consuming
// input.
func (p *Product) progress() {
	adj := map[int][]edge{}
	for e := range p.edges {
		if !e.moved {
			adj[e.from] = append(adj[e.from], e)
		}
	}
	// Tarjan.
	index := map[int]int{}
	low := map[int]int{}
	on := map[int]bool{}
	comp := map[int]int{}
	var stack []int
	n, nc := 0, 0
	type fr struct{ v, i int }
	for v := range p.pos {
		if _, ok := index[v]; ok {
			continue
		}
		var st []fr
		st = append(st, fr{v, 0})
		index[v], low[v] = n, n
		n++
		stack = append(stack, v)
		on[v] = true
		for len(st) > 0 {
			f := &st[len(st)-1]
			if f.i < len(adj[f.v]) {
				w := adj[f.v][f.i].to
				f.i++
				if _, ok := index[w]; !ok {
					index[w], low[w] = n, n
					n++
					stack = append(stack, w)
					on[w] = true
					st = append(st, fr{w, 0})
				} else if on[w] && index[w] < low[f.v] {
					low[f.v] = index[w]
				}
				continue
			}
			v := f.v
			st = st[:len(st)-1]
			if len(st) > 0 && low[v] < low[st[len(st)-1].v] {
				low[st[len(st)-1].v] = low[v]
			}
			if low[v] == index[v] {
				for {
					w := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[w] = false
					comp[w] = nc
					if w == v {
						break
					}
				}
				nc++
			}
		}
	}
	done := map[string]bool{}
	for e := range p.edges {
		if !e.moved && e.ran && comp[e.from] == comp[e.to] && !done[p.pos[e.to]] {
			done[p.pos[e.to]] = true
			p.find(nil, "loop", p.pos[e.to], "", "can repeat without consuming input")
		}
	}
}

// ---- comparison ----

type mismatch struct{ path, a, b string }

// comparer compares values of the implementation with values of the reference.
type comparer struct {
	x    *Exec
	path []string
	bad  []mismatch
	skip func(path []string, a, b Value) bool
	n    int
}

func (c *comparer) fail(a, b Value) {
	c.bad = append(c.bad, mismatch{strings.Join(c.path, ""), short(c.x, a), short(c.x, b)})
}

func short(x *Exec, v Value) string {
	k := x.show(v, 0)
	if len(k) > 160 {
		k = k[:160] + "..."
	}
	return k
}

// show describes a value.
func (x *Exec) show(v Value, depth int) string {
	if depth > 6 {
		return "..."
	}
	switch v := v.(type) {
	case *VPtr:
		w, ok := x.s.heap[v.Obj]
		if !ok {
			return "&?"
		}
		return "&" + x.show(w, depth+1)
	case *VStruct:
		var xs []string
		st := structOf(v.Type)
		for i, f := range v.F {
			n := ""
			if st != nil {
				n = st.Field(i).Name() + ":"
			}
			xs = append(xs, n+x.show(f, depth+1))
		}
		return typeName(v.Type) + "{" + strings.Join(xs, ", ") + "}"
	case *VIface:
		return x.show(v.V, depth+1)
	case *VList:
		var xs []string
		if v.Base != nil {
			xs = append(xs, v.Base.raw+"...")
		}
		for _, e := range v.Elems {
			xs = append(xs, x.show(e, depth+1))
		}
		return "[" + strings.Join(xs, ", ") + "]"
	case VTuple:
		var xs []string
		for _, e := range v {
			xs = append(xs, x.show(e, depth+1))
		}
		return "(" + strings.Join(xs, ", ") + ")"
	case VInt:
		if v.T != nil {
			return rawKey(v) + "∈{" + x.dom(v.T).String() + "}"
		}
	}
	return rawKey(v)
}

// simplify removes wrappings that do not matter.
func (c *comparer) simplify(v Value) Value {
	for {
		switch w := v.(type) {
		case *VPtr:
			v = c.x.load(w)
			if s, ok := v.(*VStruct); ok && structOf(s.Type) == nil {
				v = &VList{Elems: s.F}
			}
		case *VTPtr:
			v = c.x.termVal(w.T)
		case *VIface:
			if p, ok := w.V.(*VPtr); ok {
				v = &VIface{Type: w.Type.(*types.Pointer).Elem(), V: c.x.load(p)}
				continue
			}
			if t, ok := w.V.(*Term); ok && t.Op == "sel" && t.Name == "("+types.TypeString(w.Type, nil)+")" {
				v = t.Args[0]
				continue
			}
			return v
		case *VRef:
			v = c.x.toList(w)
		case VInt:
			return c.x.norm(w)
		case *VCat:
			return c.x.constStr(w)
		default:
			return v
		}
	}
}

func isNilV(v Value) bool {
	switch v := v.(type) {
	case VNil:
		return true
	case *VList:
		return v.Base == nil && len(v.Elems) == 0
	}
	return false
}

func (c *comparer) at(p string, a, b Value) {
	n := len(c.path)
	c.path = append(c.path, p)
	c.diff(a, b)
	c.path = c.path[:n]
}

func (c *comparer) diff(a, b Value) {
	c.n++
	if len(c.bad) > 8 {
		return
	}
	if c.skip != nil && c.skip(c.path, a, b) {
		return
	}
	a, b = c.simplify(a), c.simplify(b)
	if isNilV(a) && isNilV(b) {
		return
	}
	if rawKey(a) == rawKey(b) && !strings.Contains(rawKey(a), "@") {
		return
	}
	// A symbolic interface value against a known one.
	ai, ok1 := a.(*VIface)
	bi, ok2 := b.(*VIface)
	if ok1 && ok2 {
		if !types.Identical(ai.Type, bi.Type) {
			c.fail(a, b)
			return
		}
		c.diff(ai.V, bi.V)
		return
	}
	if t, ok := a.(*Term); ok && ok2 {
		if c.ifaceTerm(t, bi, false) {
			return
		}
		c.fail(a, b)
		return
	}
	if t, ok := b.(*Term); ok && ok1 {
		if c.ifaceTerm(t, ai, true) {
			return
		}
		c.fail(a, b)
		return
	}
	if t, ok := a.(*Term); ok && isNilV(b) && c.nilTerm(t) {
		return
	}
	if t, ok := b.(*Term); ok && isNilV(a) && c.nilTerm(t) {
		return
	}
	as, ok1 := a.(*VStruct)
	bs, ok2 := b.(*VStruct)
	if ok1 || ok2 {
		var st *types.Struct
		var typ types.Type
		if ok1 {
			typ = as.Type
		} else {
			typ = bs.Type
		}
		st = structOf(typ)
		if st == nil || ok1 && ok2 && len(as.F) != len(bs.F) {
			c.fail(a, b)
			return
		}
		for _, v := range []Value{a, b} {
			switch w := v.(type) {
			case *VStruct:
			case *Term:
				if structOf(w.Type) == nil || structOf(w.Type).NumFields() != st.NumFields() {
					c.fail(a, b)
					return
				}
			default:
				c.fail(a, b)
				return
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			c.at("."+st.Field(i).Name(), c.x.field(a, i), c.x.field(b, i))
		}
		return
	}
	at, ok1 := a.(VTuple)
	bt, ok2 := b.(VTuple)
	if ok1 && ok2 && len(at) == len(bt) {
		for i := range at {
			c.at(fmt.Sprintf("#%d", i), at[i], bt[i])
		}
		return
	}
	al, ok1 := a.(*VList)
	bl, ok2 := b.(*VList)
	if ok1 && ok2 {
		ab, bb := "", ""
		if al.Base != nil {
			ab = al.Base.raw
		}
		if bl.Base != nil {
			bb = bl.Base.raw
		}
		if ab == bb && len(al.Elems) == len(bl.Elems) {
			for i := range al.Elems {
				c.at("[]", al.Elems[i], bl.Elems[i])
			}
			return
		}
		// A symbolic list may be known to be empty.
		c.fail(a, b)
		return
	}
	ia, ok1 := a.(VInt)
	ib, ok2 := b.(VInt)
	if ok1 && ok2 {
		if c.x.cmpInt(token.EQL, ia, ib) {
			return
		}
		c.fail(a, b)
		return
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if ok1 && ok2 && types.IsInterface(ta.Type) && types.IsInterface(tb.Type) {
		// Both may be known to be nil.
		if c.nilTerm(ta) && c.nilTerm(tb) {
			return
		}
	}
	c.fail(a, b)
}

func (c *comparer) nilTerm(t *Term) bool {
	if types.IsInterface(t.Type) {
		return c.x.dom(c.x.typeofTerm(t)).subset(setOf(0))
	}
	return c.x.dom(mkApp("isnil", types.Typ[types.Bool], t)).subset(setOf(1))
}

func (c *comparer) ifaceTerm(t *Term, i *VIface, flip bool) bool {
	if !types.IsInterface(t.Type) {
		return false
	}
	if k, ok := c.x.dom(c.x.typeofTerm(t)).single(); !ok || k != c.x.e.typeID(i.Type) {
		// The pointer and the value form are the same node.
		if !ok || k != c.x.e.typeID(types.NewPointer(i.Type)) {
			return false
		}
		v := c.x.termVal(c.x.deref(mkSel(t, "("+types.TypeString(types.NewPointer(i.Type), nil)+")", types.NewPointer(i.Type))))
		if flip {
			c.diff(i.V, v)
		} else {
			c.diff(v, i.V)
		}
		return true
	}
	v := c.x.asserted(t, i.Type)
	if flip {
		c.diff(i.V, v)
	} else {
		c.diff(v, i.V)
	}
	return true
}

// ---- widening ----

// deepKey is a key of a value in which pointers are followed. Lists of runes and
// strings have the same key. It is empty if the value has a cycle.
func (s *State) deepKey(v Value, depth int) string {
	if depth > 12 {
		return "?"
	}
	switch v := v.(type) {
	case *VPtr:
		if v.Obj < 0 {
			return rawKey(v)
		}
		w, ok := s.heap[v.Obj]
		if !ok {
			return rawKey(v)
		}
		for _, i := range v.Path {
			st, ok := w.(*VStruct)
			if !ok || i < 0 || i >= len(st.F) {
				return rawKey(v)
			}
			w = st.F[i]
		}
		return "&" + s.deepKey(w, depth+1)
	case *VStruct:
		xs := make([]string, len(v.F))
		for i, f := range v.F {
			xs[i] = s.deepKey(f, depth+1)
		}
		return typeName(v.Type) + "{" + strings.Join(xs, ",") + "}"
	case *VIface:
		k := s.deepKey(v.V, depth+1)
		return "<" + strings.TrimPrefix(k, "&") + ">"
	case *VFill:
		return s.deepKey(&VList{Base: v.Base, Elems: v.Elems}, depth+1)
	case *VList:
		if isRuneList(v) {
			return s.deepKey(&VCat{append(runeBase(v), v.Elems...)}, depth+1)
		}
		xs := []string{}
		if v.Base != nil {
			xs = append(xs, v.Base.raw+"...")
		}
		for _, f := range v.Elems {
			xs = append(xs, s.deepKey(f, depth+1))
		}
		return "[" + strings.Join(xs, ",") + "]"
	case *VCat:
		xs := []string{}
		for _, f := range v.Parts {
			xs = append(xs, s.deepKey(f, depth+1))
		}
		return "cat(" + strings.Join(xs, ",") + ")"
	case VTuple:
		xs := []string{}
		for _, f := range v {
			xs = append(xs, s.deepKey(f, depth+1))
		}
		return "(" + strings.Join(xs, ",") + ")"
	}
	return rawKey(v)
}

func isRuneList(v *VList) bool {
	if v.Base != nil {
		if sl, ok := v.Base.Type.Underlying().(*types.Slice); ok {
			b, ok := sl.Elem().Underlying().(*types.Basic)
			return ok && b.Kind() == types.Int32
		}
		return false
	}
	if len(v.Elems) == 0 {
		return false
	}
	for _, e := range v.Elems {
		switch e.(type) {
		case VInt:
		default:
			return false
		}
	}
	return true
}

// runeBase is the string that the base of a list of runes consists of.
func runeBase(v *VList) []Value {
	if v.Base == nil {
		return nil
	}
	if v.Base.Op == "app" && v.Base.Name == "runes" {
		return []Value{v.Base.Args[0]}
	}
	return []Value{mkApp("string", types.Typ[types.String], &VList{Base: v.Base})}
}

// visitValues visits the values that a thread can reach.
func (s *State) visitValues(tid int, f func(v Value)) {
	t := s.th[tid]
	seen := map[int]bool{}
	var walk func(v Value)
	walk = func(v Value) {
		if v == nil {
			return
		}
		mapValue(v, func(v Value) Value {
			if p, ok := v.(*VPtr); ok && !seen[p.Obj] {
				seen[p.Obj] = true
				if w, ok := s.heap[p.Obj]; ok {
					f(w)
					walk(w)
				}
			}
			if p, ok := v.(*VRef); ok && !seen[p.Obj] {
				seen[p.Obj] = true
				if w, ok := s.heap[p.Obj]; ok {
					f(w)
					walk(w)
				}
			}
			return nil
		})
	}
	for _, fr := range t.frames {
		for _, v := range fr.env {
			if v != nil {
				f(v)
				walk(v)
			}
		}
		for _, v := range fr.bind {
			f(v)
			walk(v)
		}
		for _, d := range fr.defers {
			walk(d.fn)
			for _, a := range d.args {
				walk(a)
			}
		}
	}
	for _, v := range []Value{t.ret, t.panicv} {
		if v != nil {
			f(v)
			walk(v)
		}
	}
	if t.call != nil {
		for _, v := range t.call.args {
			f(v)
			walk(v)
		}
	}
}

// mapState rewrites all values of the state.
func (s *State) mapState(f func(Value) Value) {
	for _, t := range s.th {
		if t == nil {
			continue
		}
		for fi, fr := range t.frames {
			g := *fr
			g.shared = false
			g.env = make([]Value, len(fr.env))
			for i, v := range fr.env {
				if v != nil {
					g.env[i] = f(v)
				}
			}
			g.bind = make([]Value, len(fr.bind))
			for i, v := range fr.bind {
				g.bind[i] = f(v)
			}
			g.defers = make([]deferred, len(fr.defers))
			for i, d := range fr.defers {
				e := deferred{m: d.m}
				e.fn = d.fn
				if _, ok := d.fn.(*VFunc); ok {
					e.fn = f(d.fn)
				}
				for _, a := range d.args {
					e.args = append(e.args, f(a))
				}
				g.defers[i] = e
			}
			t.frames[fi] = &g
		}
		if t.ret != nil {
			t.ret = f(t.ret)
		}
		if t.panicv != nil {
			t.panicv = f(t.panicv)
		}
		if t.call != nil {
			c := *t.call
			c.args = make([]Value, len(t.call.args))
			for i, a := range t.call.args {
				c.args[i] = f(a)
			}
			t.call = &c
		}
	}
	for o, v := range s.heap {
		s.heap[o] = f(v)
	}
}

// aggregate tells whether v is a value that can be forgotten.
func (p *Product) aggregate(v Value, nested bool) bool {
	switch v := v.(type) {
	case *VFill:
		return len(v.Elems) > 0
	case *VList:
		return len(v.Elems) > 0 && !(v.Base == nil && allConst(v.Elems)) && !isRuneList(v)
	case *VIface:
		return nested && p.cl.collapsible(v.Type)
	case *Term:
		// A part of an element that has been passed.
		if p.forget && p.atHead && v.Type != nil {
			b, ok := v.Type.Underlying().(*types.Basic)
			past := false
			v.elems(func(u *Term) {
				if i, ok := u.Args[1].(VInt); ok && i.T != nil && i.T.Op == "idx" && i.K < 0 {
					past = true
				}
			})
			return past && ok && b.Info()&types.IsString != 0
		}
	}
	return false
}

func allConst(vs []Value) bool {
	for _, v := range vs {
		switch v.(type) {
		case VStr, VInt:
			if i, ok := v.(VInt); ok && i.T != nil {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// nodes calls f for the aggregates inside of v, outermost first.
func (p *Product) aggregates(v Value, f func(v Value, nested bool) Value) Value {
	depth := 0
	var walk func(v Value) Value
	walk = func(v Value) Value {
		return mapValue(v, func(w Value) Value {
			if sameValue(w, v) {
				return nil
			}
			if p.aggregate(w, true) {
				if r := f(w, depth > 0); r != nil {
					return r
				}
			}
			switch u := w.(type) {
			case *VIface:
				if p.cl.collapsible(u.Type) {
					depth++
					x := walk(u.V)
					depth--
					if !sameValue(x, u.V) {
						return &VIface{u.Type, x}
					}
					return w
				}
			case *VStruct:
				if p.cl.collapsible(u.Type) && depth == 0 {
					depth++
					x := walk(u)
					depth--
					return x
				}
			}
			return nil
		})
	}
	if p.aggregate(v, true) {
		if r := f(v, p.atHead); r != nil {
			return r
		}
	}
	switch u := v.(type) {
	case *VIface:
		if p.cl.collapsible(u.Type) {
			depth++
		}
	case *VStruct:
		if p.cl.collapsible(u.Type) {
			depth++
		}
	}
	return walk(v)
}

// collapse forgets the content of values on which both programs agree.
func (p *Product) collapse(s *State) {
	s.prune(p.e)
	if p.exact {
		return
	}
	p.atHead = true
	for tid, t := range s.th {
		if t != nil && alive(t) && t.status != stLoop && !(s.mode == modeObserve && tid == 0) {
			p.atHead = false
		}
	}
	im, sp := s.th[0], s.th[1]
	both := s.mode == modeBoth && sp != nil && alive(im) && alive(sp)
	if !both && s.mode == modeBoth || s.turn {
		return
	}
	p.collapseStrings(s, both)
	if both && !p.atHead {
		p.collapsePrefixes(s)
	}
	if both && im.pos != sp.pos && !p.atHead {
		return
	}
	p.collapseInts(s, both)
	if p.forget && p.atHead {
		s.dropElems()
	}
	keys := [2]map[string]Value{{}, {}}
	top := map[string]bool{}
	for tid, t := range s.th {
		if t == nil || !alive(t) {
			continue
		}
		s.visitValues(tid, func(v Value) {
			p.aggregates(v, func(w Value, nested bool) Value {
				_, iface := w.(*VIface)
				k := s.deepKey(w, 0)
				if nested || !iface {
					keys[tid][k] = w
				}
				if sameValue(v, w) {
					top[k] = true
				}
				return nil
			})
		})
	}
	use := map[string]Value{}
	switch {
	case both:
		for k, v := range keys[0] {
			if _, ok := keys[1][k]; ok {
				use[k] = v
			}
		}
	case s.mode == modeObserve:
		use = keys[1]
	default:
		use = keys[0]
	}
	if len(use) == 0 {
		return
	}
	var order []string
	for k := range use {
		order = append(order, k)
	}
	sort.Strings(order)
	syms := map[string]*Term{}
	p.withForksNow(s, func(x *Exec) {
		for _, k := range order {
			if syms[k] != nil {
				continue
			}
			var t *Term
			u := use[k]
			if f, ok := u.(*VFill); ok {
				u = &VList{Base: f.Base, Elems: f.Elems}
			}
			switch v := u.(type) {
			case *VList:
				t = s.fresh("list", p.listType(v))
				s.set(mkApp("len", types.Typ[types.Int], &VList{Base: t}), setRange(1, maxInt))
			case *Term:
				t = s.fresh("str", v.Type)
				s.set(x.strid(t), x.dom(x.strid(v)))
			case *VIface:
				t = s.fresh("acc", nodeIface(p.e))
				s.set(x.typeofTerm(t), p.e.nodeTypes)
				if top[k] {
					s.set(x.typeofTerm(t), setOf(p.e.typeID(v.Type)))
				}
			}
			syms[k] = t
			p.cl.forgotten(x, u, t)
		}
	})
	repl := func(w Value, _ bool) Value {
		t := syms[s.deepKey(w, 0)]
		if t == nil {
			return nil
		}
		switch w := w.(type) {
		case *VList:
			return &VList{Base: t}
		case *VFill:
			f := *w
			f.Base, f.Elems = t, nil
			f.Start.K += int64(len(w.Elems))
			return &f
		}
		return t
	}
	s.mapState(func(v Value) Value { return p.aggregates(v, repl) })
	s.prune(p.e)
	if p.forget && p.atHead {
		s.dropElems()
	}
}

// longList is the number of elements from which on lists are forgotten at
// points where the programs are not aligned.
const longList = 3

// collapsePrefixes forgets the first elements of long lists where the lists of
// both programs begin with the same ones.
func (p *Product) collapsePrefixes(s *State) {
	elems := func(v Value) (base *Term, es []Value, ok bool) {
		switch l := v.(type) {
		case *VList:
			if len(l.Elems) >= longList && !isRuneList(l) && !allConst(l.Elems) {
				return l.Base, l.Elems, true
			}
		case *VFill:
			if len(l.Elems) >= longList {
				return l.Base, l.Elems, true
			}
		}
		return nil, nil, false
	}
	keys := func(base *Term, es []Value) []string {
		ks := []string{"nil"}
		if base != nil {
			ks[0] = s.deepKey(base, 0)
		}
		for _, e := range es {
			ks = append(ks, s.deepKey(e, 0))
		}
		return ks
	}
	common := func(a, b []string) int {
		n := 0
		for n < len(a) && n < len(b) && a[n] == b[n] {
			n++
		}
		return n
	}
	type list struct {
		l  *VList
		ks []string
	}
	for {
		var all [2][]list
		for tid, t := range s.th {
			s.visitValues(tid, func(v Value) {
				mapValue(v, func(w Value) Value {
					if b, es, ok := elems(w); ok {
						all[tid] = append(all[tid], list{&VList{Base: b, Elems: es}, keys(b, es)})
					}
					return nil
				})
			})
			_ = t
			if len(all[tid]) == 0 {
				return
			}
		}
		var use *VList
		var uk []string
		for _, a := range all[0] {
			for _, b := range all[1] {
				n := common(a.ks, b.ks)
				if n > longList && (n > len(uk) || n == len(uk) && strings.Join(a.ks[:n], "|") < strings.Join(uk, "|")) {
					uk = a.ks[:n]
					use = &VList{Base: a.l.Base, Elems: a.l.Elems[:n-1]}
				}
			}
		}
		if use == nil {
			return
		}
		var sym *Term
		p.withForksNow(s, func(x *Exec) {
			sym = s.fresh("list", p.listType(use))
			s.set(mkApp("len", types.Typ[types.Int], &VList{Base: sym}), setRange(1, maxInt))
			p.cl.forgotten(x, use, sym)
		})
		n := len(use.Elems)
		s.mapState(func(v Value) Value {
			return mapValue(v, func(w Value) Value {
				b, es, ok := elems(w)
				if !ok || common(keys(b, es), uk) < len(uk) {
					return nil
				}
				rest := append([]Value{}, es[n:]...)
				switch w := w.(type) {
				case *VList:
					return &VList{Base: sym, Elems: rest}
				case *VFill:
					f := *w
					f.Base, f.Elems = sym, rest
					f.Start.K += int64(n)
					return &f
				}
				return nil
			})
		})
		s.prune(p.e)
	}
}

// atoms are the runes and symbols that a string consists of.
func atoms(ps []Value) []Value {
	var out []Value
	for _, p := range ps {
		if s, ok := p.(VStr); ok {
			for _, r := range string(s) {
				out = append(out, vint(int64(r)))
			}
			continue
		}
		out = append(out, p)
	}
	return out
}

// stringAtoms are the atoms of a string or list of runes, or nil.
func (x *Exec) stringAtoms(v Value) []Value {
	var ps []Value
	switch v := v.(type) {
	case *VCat:
		ps = v.Parts
	case *VList:
		if !isRuneList(v) {
			return nil
		}
		ps = append(runeBase(v), v.Elems...)
	default:
		return nil
	}
	return atoms(ps)
}

func hasPrefix(a, b []Value) bool {
	if len(b) > len(a) {
		return false
	}
	for i := range b {
		if !sameValue(a[i], b[i]) {
			return false
		}
	}
	return true
}

// collapseStrings forgets the strings that one program has, and the other one
// has too or has inside of a string.
func (p *Product) collapseStrings(s *State, both bool) {
	x := p.exec(s, 0)
	var all [2][][]Value
	alone := map[string]bool{} // strings that may become part of other ones
	for tid, t := range s.th {
		if t == nil || !alive(t) {
			continue
		}
		s.visitValues(tid, func(v Value) {
			mapValue(v, func(w Value) Value {
				if t, ok := w.(*Term); ok && t.Op == "str" {
					alone[rawKey(t)] = true
				}
				if a := x.stringAtoms(w); a != nil {
					all[tid] = append(all[tid], a)
				}
				return nil
			})
		})
	}
	var use [][]Value
	seen := map[string]bool{}
	norm := func(a []Value) []Value {
		b := append([]Value{}, a...)
		for i, p := range b {
			if n, ok := p.(VInt); ok {
				b[i] = x.norm(n)
			}
		}
		return b
	}
	_, ends := p.cl.(ender)
	prefixed := func(a []Value) bool {
		n := len(a) - 1
		t, ok := a[n].(*Term)
		return ok && t.Op == "str" && n > 0 && n <= 2 && allConst(a[:n]) && alone[rawKey(t)]
	}
	for tid := range all {
	next:
		for _, a := range all[tid] {
			if t, ok := a[0].(*Term); ok && len(a) == 1 && t.Op == "str" || allConst(a) {
				continue
			}
			a = norm(a)
			k := rawKey(VTuple(a))
			if seen[k] || prefixed(a) {
				continue
			}
			// A long string that the other one does not have will not be equal.
			ok := !both || ends && len(a) > 8
			for _, b := range all[1-tid] {
				b = norm(b)
				for i := 0; !ok && i+len(a) <= len(b); i++ {
					ok = hasPrefix(b[i:], a)
				}
			}
			if !ok {
				continue next
			}
			seen[k] = true
			use = append(use, a)
		}
	}
	if len(use) == 0 {
		return
	}
	sort.Slice(use, func(i, j int) bool {
		if len(use[i]) != len(use[j]) {
			return len(use[i]) > len(use[j])
		}
		return rawKey(VTuple(use[i])) < rawKey(VTuple(use[j]))
	})
	syms := make([]*Term, len(use))
	for i := range use {
		syms[i] = s.fresh("str", types.Typ[types.String])
	}
	// What is known about which constants the strings equal.
	var kept []con
	for _, c := range s.cons {
		if c.t.Op != "app" || c.t.Name != "strid" || c.cond != "" {
			continue
		}
		a := x.stringAtoms(c.t.Args[0])
		if a == nil {
			a = []Value{c.t.Args[0]}
		}
		a = norm(a)
		for i, u := range use {
			if len(u) == len(a) && hasPrefix(a, u) {
				kept = append(kept, con{t: x.strid(syms[i]), set: c.set})
			}
		}
	}
	for i, u := range use {
		if no := x.differs(u); ends && !no.empty() {
			t := x.strid(syms[i])
			kept = append(kept, con{t: t, set: x.domain(t).minus(no)})
		}
	}
	for _, c := range kept {
		if d, ok := s.cons[c.t.raw]; ok {
			c.set = c.set.inter(d.set)
		}
		s.set(c.t, c.set)
	}
	s.mapState(func(v Value) Value {
		return mapValue(v, func(w Value) Value {
			a := x.stringAtoms(w)
			if a == nil {
				return nil
			}
			raw := a
			a = norm(a)
			if l, ok := w.(*VList); ok {
				for i, u := range use {
					if hasPrefix(a, u) {
						return &VList{Base: mkApp("runes", types.NewSlice(types.Typ[types.Int32]), syms[i]), Elems: append([]Value{}, l.Elems[len(l.Elems)-len(a)+len(u):]...)}
					}
				}
				return nil
			}
			changed := false
			for n, u := range use {
				for i := 0; i+len(u) <= len(a); i++ {
					if hasPrefix(a[i:], u) {
						a = append(append(append([]Value{}, a[:i]...), syms[n]), a[i+len(u):]...)
						raw = append(append(append([]Value{}, raw[:i]...), syms[n]), raw[i+len(u):]...)
						changed = true
					}
				}
			}
			if !changed {
				return nil
			}
			return &VCat{raw}
		})
	})
}

// differs returns the constants that a string of known length is certainly not
// equal to.
func (x *Exec) differs(a []Value) IntSet {
	var ds []IntSet
	for _, v := range a {
		n, ok := v.(VInt)
		if !ok || n.T != nil && (n.K != 0 || n.Neg) {
			return nil
		}
		if n.T == nil {
			ds = append(ds, setOf(n.K))
		} else {
			ds = append(ds, x.dom(n.T))
		}
	}
	var no []int64
	for k, id := range x.e.strIDs {
		rs := []rune(k)
		ok := len(rs) == len(ds)
		for i := 0; ok && i < len(rs); i++ {
			ok = ds[i].has(int64(rs[i]))
		}
		if !ok {
			no = append(no, id)
		}
	}
	return setOf(no...)
}

func (p *Product) withForksNow(s *State, f func(x *Exec)) {
	x := p.exec(s, 0)
	f(x)
}

// elems calls f for the elements of lists that a term is part of.
func (t *Term) elems(f func(*Term)) {
	if t.Op == "app" && t.Name == "elem" {
		f(t)
	}
	for _, a := range t.Args {
		walkTerms(a, func(u *Term) { u.elems(f) })
	}
}

// dropElems forgets what is known about the elements of lists that have been
// passed.
func (s *State) dropElems() {
	live := map[string]bool{}
	for tid, t := range s.th {
		if t != nil && alive(t) {
			s.visitValues(tid, func(v Value) {
				walkTerms(v, func(t *Term) { t.elems(func(u *Term) { live[u.raw] = true }) })
			})
		}
	}
	for k, c := range s.cons {
		drop := false
		c.t.elems(func(u *Term) { drop = drop || !live[u.raw] })
		if c.t.Op == "app" && c.t.Name == "lt" {
			for _, a := range c.t.Args {
				if i, ok := a.(VInt); ok && i.T != nil && i.T.Op == "idx" && i.K < 0 {
					drop = true
				}
			}
		}
		if drop {
			delete(s.cons, k)
		}
	}
}

func (p *Product) listType(v *VList) types.Type {
	if v.Base != nil {
		return v.Base.Type
	}
	for _, e := range v.Elems {
		switch e := e.(type) {
		case *VStruct:
			return types.NewSlice(e.Type)
		case *VIface, VNil:
			return types.NewSlice(nodeIface(p.e))
		case *Term:
			return types.NewSlice(e.Type)
		case VStr, *VCat:
			return types.NewSlice(types.Typ[types.String])
		case VInt:
			return types.NewSlice(types.Typ[types.Int])
		}
	}
	return types.NewSlice(nodeIface(p.e))
}

func nodeIface(e *Engine) types.Type { return e.nodeType }

// collapseInts makes loop counters symbolic.
func (p *Product) collapseInts(s *State, both bool) {
	type ctr struct {
		tid int
		f   *Frame
		r   int
		v   VInt
	}
	var cs []ctr
	changed := true
	for tid, t := range s.th {
		if t == nil || t.status != stLoop || len(t.frames) == 0 {
			if both {
				changed = false
			}
			continue
		}
		if s.mode == modeObserve && tid == 0 || s.mode >= modeDoomed && tid == 1 {
			continue
		}
		f := t.top()
		phis := f.info.phis[f.block]
		if f.last == nil {
			f.last = map[int][]Value{}
		}
		var now []Value
		any := false
		for i, ph := range phis {
			r := f.info.idx[ph]
			v, ok := f.env[r].(VInt)
			b, isB := ph.Type().Underlying().(*types.Basic)
			if !ok || !isB || b.Info()&types.IsInteger == 0 || b.Kind() == types.Int32 || isNamed(ph.Type()) {
				now = append(now, nil)
				continue
			}
			now = append(now, v)
			if l := f.last[f.block.Index]; l != nil && l[i] != nil && l[i] != Value(v) {
				cs = append(cs, ctr{tid, f, r, v})
				any = true
			} else if v.T != nil && v.T.Op == "idx" && v.K != 0 {
				cs = append(cs, ctr{tid, f, r, v})
				any = true
			}
		}
		nl := map[int][]Value{}
		for k, v := range f.last {
			nl[k] = v
		}
		nl[f.block.Index] = now
		f.last = nl
		if !any {
			changed = false
		}
	}
	if len(cs) == 0 || both && !changed {
		return
	}
	// The last counter (of the reference if there is one) becomes the symbol.
	base := cs[len(cs)-1]
	if base.v.T == nil {
		sym := s.fresh("idx", types.Typ[types.Int])
		s.set(sym, setRange(0, maxInt))
		for _, c := range cs {
			if c.v.T == nil {
				c.f.env[c.r] = VInt{T: sym, K: c.v.K - base.v.K}
			}
		}
		for o, v := range s.heap {
			// What is being filled grows with the counter.
			if a, ok := v.(*VFill); ok && a.Start.T == nil && len(a.Elems) > 0 {
				b := *a
				b.Start = VInt{T: sym, K: a.Start.K - base.v.K}
				s.heap[o] = &b
			}
		}
		s.moved = true
		return
	}
	if base.v.T.Op != "idx" || base.v.Neg {
		return
	}
	old := base.v.T
	d := base.v.K
	sym := s.fresh("idx", types.Typ[types.Int])
	s.set(sym, setRange(0, maxInt))
	f := func(t *Term) Value {
		if t.raw == old.raw {
			return VInt{T: sym, K: -d}
		}
		return nil
	}
	s.mapState(func(v Value) Value { return substTerms(v, f) })
	nc := map[string]con{}
	for k, c := range s.cons {
		if c.t.raw == old.raw {
			continue
		}
		r := substTerm(c.t, f)
		if r == nil {
			nc[k] = c
			continue
		}
		switch r := r.(type) {
		case *Term:
			nc[r.raw] = con{t: r, set: c.set}
		}
	}
	nc[sym.raw] = s.cons[sym.raw]
	s.cons = nc
	s.moved = true
}

func isNamed(t types.Type) bool { _, ok := t.(*types.Named); return ok }
