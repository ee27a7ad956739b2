package main

import (
	"fmt"
	"sort"
	"strings"
)

var checks = []check{
	{id: "C13", level: "proof", run: checkESTree,
		rule:   "For every syntax tree node type, the encoding computed by its ESTree method is compared with a reference encoding: both are executed abstractly, in lockstep, over a symbolic node (every field unknown, lists of unknown length) to a fixpoint; wherever both return, the two encodings must have the same keys, constants, children and lists.",
		assume: engineBase},
	{id: "C14", level: "proof", run: checkESTree,
		rule:   "As C13, restricted to children and lists: wherever the ESTree method of a node type and its reference return, every child, every absent child and every list must appear under the same key, in the same order and number, and no list may be null.",
		assume: engineBase},
	{id: "C18", level: "other", run: checkIsolation,
		rule:   "Flow-insensitive, field-based may-alias analysis of all library functions (call graph over static callees, methods by name, function values by signature): no instruction outside package initialisation writes memory reachable from a package-level variable, and none depends on time, randomness, scheduling, synchronisation objects, addresses or map iteration order.",
		assume: []string{"functions of the standard library listed in readsOnly do not write to what they are given", "methods of the caller's reader belong to the caller"}},
	{id: "C19", level: "other", run: checkPurity,
		rule:   "Who-may-call analysis of all library functions: every call, function value and variable that lies outside the repository must belong to an enumerated set of standard library packages without access to files, the network, the clock, the process or standard streams; no goroutine, channel, unsafe conversion or print builtin is used.",
		assume: []string{"the standard library packages listed in purePkgs have no effect besides their arguments", "methods of the caller's reader belong to the caller"}},
}

var engineBase = []string{
	"go/types and golang.org/x/tools/go/ssa represent the source faithfully",
	"the abstract interpreter in /verif/tool (SSA semantics, heap, integer sets) is sound",
	"the reference in /verif/tool/spec says what is meant",
	"package-level tables are not modified after initialisation (checked by C18)",
}

func loadFail(err error) *outcome {
	return &outcome{finds: []*Finding{undecidedFinding("%v", err)}}
}

func astEngine(c *checkCtx) (*astClient, error) {
	p, err := load(c.root, false, map[string][]byte{c.root + "/ecmascript/ast/zz_verif_spec.go": astSpec}, "./ecmascript/ast")
	if err != nil {
		return nil, err
	}
	e := newEngine(p)
	if err := e.initPackages(); err != nil {
		return nil, err
	}
	a, err := newASTClient(p, e)
	if err != nil {
		return nil, err
	}
	e.cl = a
	return a, nil
}

func checkESTree(c *checkCtx) *outcome {
	a, err := astEngine(c)
	if err != nil {
		return loadFail(err)
	}
	fs, us, n := a.run("ESTree")
	if c.id == "C14" {
		fs = structural(fs)
	}
	o := &outcome{finds: fs, obligations: us}
	o.atLeast("node types", len(us), 49)
	o.atLeast("joint states", n, 49)
	o.set("exhaustive", true)
	return o
}

// checkPlaceholders combines the placeholder test of the nodes with the parser.
func checkPlaceholders(c *checkCtx) *outcome {
	o := checkTemporal(c)
	q := checkParser(c)
	o.finds = append(o.finds, q.finds...)
	o.obligations = append(o.obligations, q.obligations...)
	for k, v := range q.cov {
		o.set(k, v)
	}
	return o
}

func checkTemporal(c *checkCtx) *outcome {
	a, err := astEngine(c)
	if err != nil {
		return loadFail(err)
	}
	fs, us, n := a.run("ContainsTemporalNodes")
	o := &outcome{finds: fs, obligations: us}
	o.atLeast("node types", len(us), 50)
	o.set("joint states", n)
	return o
}

func effectsFor(c *checkCtx) (*effects, error) {
	p, err := load(c.root, false, map[string][]byte{c.root + "/ecmascript/ast/zz_verif_probe.go": []byte(probeSpec)}, "./ecmascript/...")
	if err != nil {
		return nil, err
	}
	for _, n := range libPkgs {
		if p.pkg(n) == nil {
			return nil, fmt.Errorf("package %s not found", n)
		}
	}
	return newEffects(p, allLib(p)), nil
}

// allLib is every package below ecmascript.
func allLib(p *Prog) []string {
	var out []string
	for k := range p.Pkgs {
		out = append(out, k[len(modPath)+1:])
	}
	sort.Strings(out)
	return out
}

func effectOutcome(a *effects, rule string, want []string) *outcome {
	finds, missed := a.split(want)
	o := &outcome{finds: finds}
	for _, m := range missed {
		o.finds = append(o.finds, undecidedFinding("rule %s no longer reports its positive example %s", rule, m))
	}
	o.atLeast("functions", len(a.funcs), 150)
	o.atLeast("call sites", a.sites, 900)
	o.set("positive examples reported", len(want)-len(missed))
	return o
}

func checkPurity(c *checkCtx) *outcome {
	a, err := effectsFor(c)
	if err != nil {
		return loadFail(err)
	}
	a.purity()
	return effectOutcome(a, "purity", probeWant["purity"])
}

func checkIsolation(c *checkCtx) *outcome {
	a, err := effectsFor(c)
	if err != nil {
		return loadFail(err)
	}
	a.isolation()
	o := effectOutcome(a, "isolation", probeWant["isolation"])
	o.atLeast("writes", a.stores, 300)
	o.set("values that may point into package-level variables", len(a.taint))
	return o
}

// structural keeps the differences that concern children and lists.
func structural(fs []*Finding) []*Finding {
	var out []*Finding
	for _, f := range fs {
		scalar := f.Kind == "estree"
		if scalar {
			for _, w := range []string{"null", "absent", "ESTree", "[", "{"} {
				if strings.Contains(f.Msg, w) {
					scalar = false
				}
			}
		}
		if !scalar {
			out = append(out, f)
		}
	}
	return out
}
