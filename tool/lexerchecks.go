package main

import (
	"strings"
	"time"
)

// lexerScope tells which differences from the lexical grammar concern a property.
type lexerScope func(f *Finding) bool

func (keep lexerScope) relevant(f *Finding) bool {
	return f.Kind == "undecided" || f.Kind == "coverage" || keep(f)
}

// language tells whether a difference is one in the accepted sources or in where
// tokens end.
func language(f *Finding) bool {
	return f.Kind == "accepts" || f.Kind == "rejects" || f.Kind == "event"
}

func component(f *Finding) string {
	if f.Kind != "context" && f.Kind != "arg" {
		return ""
	}
	return f.Path[strings.LastIndex(f.Path, ".")+1:]
}

var lexerScopes = map[string]lexerScope{
	"C06": func(f *Finding) bool { return language(f) || component(f) == "Type" },
	"C07": func(f *Finding) bool {
		return f.Class == "name" && (language(f) || component(f) == "Type" || component(f) == "Literal")
	},
	"C08": func(f *Finding) bool {
		return (f.Class == "string" || f.Class == "number") && (language(f) || component(f) == "Type") || component(f) == "Literal" && f.Class != "regexp"
	},
	"C09": func(f *Finding) bool { return component(f) == "NewLine" || f.Class == "skip" },
	"C25": func(f *Finding) bool { return f.Class == "regexp" },
}

func checkLexer(c *checkCtx) *outcome {
	p, err := load(c.root, false, overlays(c.root), "./ecmascript/...")
	if err != nil {
		return loadFail(err)
	}
	keep := lexerScopes[c.id]
	fs, q, err := runLexer(p, time.Now().Add(lexerTime), keep)
	if err != nil {
		return loadFail(err)
	}
	return lexerOutcome(fs, q, keep)
}

const lexerTime = 300 * time.Second

func lexerOutcome(fs []*Finding, q *Product, keep lexerScope) *outcome {
	o := &outcome{all: fs, obligations: []string{"lexer"}}
	for _, f := range fs {
		if keep.relevant(f) {
			o.finds = append(o.finds, f)
		}
	}
	if len(o.finds) == 0 {
		o.atLeast("joint states", len(q.pos), 1000)
		o.atLeast("pairs of tokens compared", q.calls["vEmit"], 50)
		o.atLeast("pairs of regular expressions compared", q.calls["vEmitRe"], 1)
	}
	o.set("joint steps", q.runs)
	o.set("exhaustive", true)
	return o
}

func init() {
	reg := func(id, rule string) {
		checks = append(checks, check{id: id, level: "proof", run: checkLexer, assume: lexerBase,
			rule: "The lexer is compared with a reference lexer: both are executed abstractly, in lockstep, over a symbolic stream of runes (every rune, any length; the parser asks for regular expressions arbitrarily) to a fixpoint; whenever either has lexed a token, the other has to have lexed the same one from the same runes, and whenever one fails so has the other; " + rule + "."})
	}
	reg("C06", "counted are all differences in where tokens end, in their types and in which sources are accepted")
	reg("C07", "counted are all differences in names and keywords")
	reg("C08", "counted are all differences in numbers and strings and in the literal text of tokens")
	reg("C09", "counted are all differences in the newline flags of tokens and in what white space and comments are")
	reg("C25", "counted are all differences in regular expressions")
}

var lexerBase = append([]string{
	"Scanner.Read returns the runes of the source one after another and -1 at its end, and Unread takes the last one back (checked separately, C21)",
}, engineBase...)
