package main

import (
	"strings"
	"time"
)

// specified tells whether the reference is at an event when a difference shows.
func specified(f *Finding, ev string) bool {
	p := f.Path
	if i := strings.LastIndex(p, "/"); i >= 0 {
		return p[i+1:] == ev
	}
	return f.Kind != "event" && strings.HasPrefix(p, ev+" ")
}

// driverOutcome compares some pairs of drivers.
func driverOutcome(p *Prog, o *outcome, names []string, keep func(f *Finding) bool) {
	for _, n := range names {
		d := drivers[n]
		p := p
		if d.js {
			var err error
			p, err = load(p.Root, true, webOverlays(p.Root), "./web/...")
			if err != nil {
				o.finds = append(o.finds, undecidedFinding("%v", err))
				continue
			}
		}
		fs, q, err := runDriver(p, d, time.Now().Add(120*time.Second))
		if err != nil {
			o.finds = append(o.finds, undecidedFinding("%v", err))
			continue
		}
		o.all = append(o.all, fs...)
		o.obligations = append(o.obligations, n)
		bad := false
		for _, f := range fs {
			if f.Kind == "undecided" || keep == nil || keep(f) {
				o.finds = append(o.finds, f)
				bad = true
			}
		}
		if bad {
			continue
		}
		for _, e := range d.events {
			if q.calls[e] == 0 && len(fs) == 0 {
				o.atLeast(n+": "+e, 0, 1)
			}
		}
		o.set(n+" joint states", len(q.pos))
		for e, k := range q.calls {
			if strings.HasPrefix(e, "vOut") {
				o.set(n+" compared "+strings.TrimPrefix(e, "vOut"), k)
			}
		}
	}
	o.set("exhaustive", true)
}

func checkDrivers(names []string, keep func(f *Finding) bool) func(c *checkCtx) *outcome {
	return func(c *checkCtx) *outcome {
		p, err := load(c.root, false, overlays(c.root), "./ecmascript/...", "./cmd/...")
		if err != nil {
			return loadFail(err)
		}
		o := &outcome{}
		driverOutcome(p, o, names, keep)
		return o
	}
}

// checkAll combines the parser, the lexer and some drivers.
func checkAll(names ...string) func(c *checkCtx) *outcome {
	return func(c *checkCtx) *outcome {
		o := checkParser(c)
		if len(o.finds) > 0 {
			return o
		}
		q := checkLexer(c)
		o.finds = append(o.finds, q.finds...)
		o.all = append(o.all, q.all...)
		o.obligations = append(o.obligations, q.obligations...)
		for k, v := range q.cov {
			o.set("lexer "+k, v)
		}
		if len(names) == 0 {
			return o
		}
		p, err := load(c.root, false, overlays(c.root), "./ecmascript/...")
		if err != nil {
			return loadFail(err)
		}
		driverOutcome(p, o, names, nil)
		return o
	}
}

func init() {
	const how = "A program that uses the code in every possible way (the order and kind of operations, and the input, are symbolic) is compared with the same program using a reference: both are executed abstractly, in lockstep, to a fixpoint; whatever the code returns at any time has to be what the reference returns; "
	reg := func(id, rule string, names []string, keep func(f *Finding) bool) {
		checks = append(checks, check{id: id, level: "proof", run: checkDrivers(names, keep), assume: engineBase, rule: how + rule + "."})
	}
	reg("C03", "compared are the results of Parse in all modes, where each production may return any node, or panic with any error or value", []string{"Parse"}, nil)
	reg("C21", "compared are the runes and locations that the scanner returns for any order of Read, Unread and Location", []string{"Scanner"}, func(f *Finding) bool { return !specified(f, "vOutErr") })
	reg("C22", "compared are the tokens and locations that the token scanner returns for any order of PeekAt, Scan, ScanExpect, ReScan, PeekLen and Location, up to three tokens ahead", []string{"Tokens"}, nil)
	reg("C24", "compared are the errors that the scanner panics with when the reader fails at any point, and those that Parse returns", []string{"Scanner", "Parse"}, func(f *Finding) bool {
		return specified(f, "vOutErr") || f.Where == "Parse" && specified(f, "vOutNode")
	})
	reg("C20", "the reading, parsing and encoding that the command uses is replaced by models that record what they are given and return anything, and compared is what is opened, parsed and written, in what order, and whether the command fails", []string{"CLI"}, nil)
	reg("C26", "the parsing and encoding that the function uses is replaced by models that record what they are given and return anything, and compared is what is parsed and returned", []string{"Web"}, nil)
	reg("C28", "compared is the source text of all token types", []string{"Source"}, nil)

	registerParser("C01", "counted are run-time errors (nil dereferences, indices out of range, failed type assertions, division by zero) and panics with anything but the errors of the library, in the parser, the lexer and the evaluation of literals", &parserScope{expressions: true, units: allUnits, kinds: []string{"crash"}})
	checks[len(checks)-1].run = checkAll("Constants")
	lexerScopes["C01"] = func(f *Finding) bool { return f.Kind == "crash" }
	registerParser("C02", "counted are cycles on which the parser or the lexer can run without consuming input", &parserScope{expressions: true, units: allUnits, kinds: []string{"loop"}})
	checks[len(checks)-1].run = checkAll()
	lexerScopes["C02"] = func(f *Finding) bool { return f.Kind == "loop" }
}
