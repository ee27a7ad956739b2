package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

// parserScope says what a property needs from the comparison of the parser with
// its reference.
type parserScope struct {
	// Units whose findings count. Without expressions the instances of
	// parseExpression are not analysed.
	expressions bool
	units       func(key string) bool
	kinds       []string
	keep        func(f *Finding) bool
	min         int // instances
}

var allUnits = func(string) bool { return true }

func expressionUnit(key string) bool { return strings.HasPrefix(key, "parseExpression") }

// What shows that another tree is built, or another language is accepted.
var structureKinds = []string{"accepts", "rejects", "event", "consumed", "result", "regex", "context"}

var parserScopes = map[string]*parserScope{}

func (sc *parserScope) relevant(f *Finding) bool {
	if f.Kind == "undecided" || f.Kind == "coverage" {
		return sc.units(f.Where) || f.Where == "analysis"
	}
	if !sc.units(f.Where) {
		return false
	}
	if sc.kinds == nil {
		return true
	}
	for _, k := range sc.kinds {
		if k == f.Kind {
			return sc.keep == nil || sc.keep(f)
		}
	}
	return false
}

func checkParser(c *checkCtx) *outcome {
	sc := parserScopes[c.id]
	p, err := load(c.root, false, overlays(c.root), "./ecmascript/...")
	if err != nil {
		return loadFail(err)
	}
	t0 := time.Now()
	var first func(string) bool
	if d := os.Getenv("VDROP"); d != "" {
		first = func(a string) bool { return !strings.Contains(","+d+",", ","+a+",") }
	}
	o := runParser(p, sc, first, t0.Add(400*time.Second))
	verbose := func(o *outcome) {
		if flagVerbose {
			fmt.Fprintf(os.Stderr, "%.1fs: %d findings\n", time.Since(t0).Seconds(), len(o.finds))
			for _, f := range o.all {
				fmt.Fprintln(os.Stderr, "   ", f.Kind, f.Where, f.Pos, f.Path, f.Msg)
			}
		}
	}
	verbose(o)
	// The parser may be divided into functions differently than its reference:
	// compare it again without the anchors that do not match.
	dropped := map[string]bool{}
	cur := o
	for end := time.Now().Add(250 * time.Second); len(cur.finds) > 0 && time.Until(end) > 60*time.Second; {
		n := len(dropped)
		implicate(cur.all, dropped)
		if len(dropped) == n || definite(cur.finds, dropped) {
			break
		}
		if flagVerbose {
			fmt.Fprintln(os.Stderr, "without", dropped)
		}
		o2 := runParser(p, sc, func(a string) bool { return !dropped[a] }, end)
		verbose(o2)
		if len(o2.finds) == 0 {
			o2.set("functions analysed within their callers", len(dropped))
			return o2
		}
		cur = o2
	}
	return o
}

// implicate adds the anchors that do not seem to be what their names say.
func implicate(fs []*Finding, dropped map[string]bool) {
	events := false
	add := func(a string) {
		if a, _, _ = strings.Cut(a, ","); a != "" && !mandatoryAnchors[a] {
			dropped[a] = true
		}
	}
	for _, f := range fs {
		if f.Kind == "event" {
			events = true
			for _, a := range strings.Split(f.Path, "/") {
				add(a)
			}
		}
	}
	if events {
		return
	}
	// What a function returns may have been left to its callers.
	for _, f := range fs {
		switch f.Kind {
		case "result", "span", "context", "consumed":
			add(f.Where)
		}
	}
}

// definite tells whether some finding has nothing to do with any of the anchors.
func definite(fs []*Finding, dropped map[string]bool) bool {
	for _, f := range fs {
		u, _, _ := strings.Cut(f.Where, ",")
		if dropped[u] || f.Kind != "accepts" && f.Kind != "rejects" || strings.Contains(f.Trace, "(...)") {
			continue
		}
		ok := true
		for a := range dropped {
			if strings.Contains(f.Trace, "‹"+a) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func runParser(p *Prog, sc *parserScope, anchors func(string) bool, end time.Time) *outcome {
	r := &parserRun{p: p, end: end,
		setup: func(c *parserClient) error { c.anchorsOf = anchors; return nil },
		limit: func(k string) int {
			if !sc.expressions && expressionUnit(k) {
				return 0
			}
			return 1 << 30
		},
		stop: func(fs []*Finding) bool {
			for _, f := range fs {
				if sc.relevant(f) {
					return true
				}
			}
			return false
		},
	}
	fs, stats, err := r.run([]string{"parseExpression,0,0", "parseScript", "parseModule"})
	if err != nil {
		return loadFail(err)
	}
	o := &outcome{all: fs}
	for _, f := range fs {
		if sc.relevant(f) {
			o.finds = append(o.finds, f)
		} else if flagVerbose {
			fmt.Fprintln(os.Stderr, "not relevant:", f.Kind, f.Where, f.Pos, f.Msg)
		}
	}
	states, runs, rets, fails := 0, 0, 0, 0
	for _, s := range stats {
		if s.runs == 0 {
			continue
		}
		o.obligations = append(o.obligations, s.key)
		states += s.states
		runs += s.runs
		rets += s.rets
		fails += s.fails
	}
	if len(o.finds) == 0 {
		min := 10
		if sc.expressions {
			min = 30
		}
		if anchors != nil {
			min /= 3
		}
		o.atLeast("grammar productions compared", len(o.obligations), min)
		o.atLeast("joint states", states, 10*min)
		o.atLeast("joint returns", rets, min)
	}
	o.set("joint steps", runs)
	o.set("joint failures", fails)
	o.set("exhaustive", true)
	return o
}

// named selects the instances of some productions.
func named(names ...string) func(string) bool {
	return func(key string) bool {
		k, _, _ := strings.Cut(key, ",")
		for _, n := range names {
			if n == k {
				return true
			}
		}
		return false
	}
}

func init() {
	full := func(id, rule string, kinds ...string) {
		registerParser(id, rule, &parserScope{expressions: true, units: allUnits, kinds: kinds})
	}
	with := func(k ...string) []string { return append(append([]string{}, structureKinds...), k...) }
	registerParser("C04", "counted are all differences in expressions", &parserScope{expressions: true, units: expressionUnit, kinds: with("arg")})
	registerParser("C05", "counted are all differences in expressions", &parserScope{expressions: true, units: expressionUnit, kinds: with("arg")})
	full("X00", "counted are all differences") // for tests of the analysis
	parserScopes["X00"].kinds = nil
	full("C10", "counted are all differences in the accepted language and in the tree", with()...)
	full("C11", "counted are all differences in the accepted language", with("arg", "temporal", "nilchild")...)
	full("C12", "counted are all differences in the tree", with("arg", "nilchild", "temporal")...)
	full("C15", "in addition, a mandatory child is never nil where the program returns; counted are these and all differences in the tree", with("nilchild", "temporal", "crash")...)
	full("C16", "in addition, no returned tree contains a placeholder node, where the placeholder test of every node type is compared with a reference in the same way; counted are these and all differences in the tree and the accepted language", with("arg", "temporal", "crash")...)
	checks[len(checks)-1].run = checkPlaceholders
	full("C17", "each production has to leave the context as it found it and to pass the specified context on; counted are all differences in contexts and in the accepted language", with("arg")...)
	full("C23", "counted are differences in spans and in the locations that are passed on", "span", "arg", "event", "consumed", "result")
	full("C27", "counted are all differences in the accepted language and in the tree", with("arg", "temporal", "crash", "nilchild")...)
	full("C32", "counted are all differences in the accepted language and in the tree", with("arg")...)
	top := []string{"parseScript", "parseModule", "parseModuleItem", "parseStatementItem", "parseStatement"}
	stmt := func(id string, names ...string) {
		registerParser(id, "counted are all differences in the named productions", &parserScope{units: named(append(names, top...)...)})
	}
	stmt("C30", "parseImportDecl")
	stmt("C31", "parseArrayBindingPatternTail", "parseObjectBindingPatternTail", "parseVariableDeclarations", "parseParametersTail", "parseTryStatement", "parseForStatement")
	stmt("C33", "parseForStatement", "parseSwitchStatement", "parseTryStatement", "parseBlock", "parseVariableDeclarations")
	full("C34", "counted are all differences in the accepted language and in the tree", with("nilchild", "temporal")...)
}

func registerParser(id, rule string, sc *parserScope) {
	parserScopes[id] = sc
	checks = append(checks, check{id: id, level: "proof", run: checkParser, assume: parserBase,
		rule: "Every production of the parser is compared with the same production of a reference parser: both are executed abstractly, in lockstep, over a symbolic token stream (every token type, newline flag and literal, any length) to a fixpoint; calls of productions on both sides must be the same call at the same position, and wherever both return, the trees, the positions and the contexts must be equal; " + rule + "."})
}

var parserBase = append([]string{
	"the tokens that PeekAt, Scan and ReScan of the parser's scanner return are those of the lexer (checked separately)",
}, engineBase...)
