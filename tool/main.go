package main

import (
	_ "embed"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"time"
)

//go:embed spec/parser.go.txt
var parserSpec []byte

//go:embed spec/lexer.go.txt
var lexerSpec []byte

//go:embed spec/parserdrv.go.txt
var parserDrivers []byte

//go:embed spec/lexerdrv.go.txt
var lexerDrivers []byte

//go:embed spec/maindrv.go.txt
var mainModels []byte

//go:embed spec/clidrv.go.txt
var cliDrivers []byte

//go:embed spec/webdrv.go.txt
var webDrivers []byte

func overlays(root string) map[string][]byte {
	return map[string][]byte{
		root + "/cmd/estree/zz_verif_models.go":      mainModels,
		root + "/cmd/estree/zz_verif_drv.go":         cliDrivers,
		root + "/ecmascript/parser/zz_verif_spec.go": parserSpec,
		root + "/ecmascript/ast/zz_verif_spec.go":    astSpec,
		root + "/ecmascript/lexer/zz_verif_spec.go":  lexerSpec,
		root + "/ecmascript/parser/zz_verif_drv.go":  parserDrivers,
		root + "/ecmascript/lexer/zz_verif_drv.go":   lexerDrivers,
	}
}

// webOverlays are those for web/parser, which only exists for js.
func webOverlays(root string) map[string][]byte {
	return map[string][]byte{
		root + "/web/parser/zz_verif_models.go": mainModels,
		root + "/web/parser/zz_verif_drv.go":    webDrivers,
	}
}

var (
	flagLimit   int
	flagDump    string
	flagVerbose bool
)

func main() {
	root := flag.String("root", "/repo", "")
	only := flag.String("only", "", "")
	what := flag.String("what", "parser", "")
	flag.IntVar(&flagLimit, "limit", 60000, "")
	flag.StringVar(&flagDump, "dump", "", "")
	flag.BoolVar(&flagVerbose, "v", false, "")
	flag.IntVar(&widenAfter, "widen", 1<<30, "")
	prop := flag.String("check", "", "property to decide")
	verif := flag.String("verif", "/verif", "")
	tier := flag.String("tier", "quick", "")
	few := flag.Bool("few", false, "mandatory anchors only")
	secs := flag.Int("secs", 0, "")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	if *prop != "" {
		os.Exit(runCheck(*root, *verif, *prop, *tier))
	}
	if os.Getenv("VPROF") != "" {
		defer startProf(os.Getenv("VPROF"))()
	}
	t0 := time.Now()
	p, err := load(*root, false, overlays(*root), "./ecmascript/...", "./cmd/...")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	switch *what {
	case "ast":
		e := newEngine(p)
		if err := e.initPackages(); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		c, err := newASTClient(p, e)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		e.cl = c
		for _, m := range []string{"ESTree", "ContainsTemporalNodes"} {
			c.only = *only
			fs, us, n := c.run(m)
			for _, f := range fs {
				fmt.Printf("%s [%s] at %s %s: %s\n", f.Kind, f.Where, f.Pos, f.Path, f.Msg)
			}
			fmt.Println(m, len(us), "units", n, "states", len(fs), "findings", us)
		}
	case "lexer":
		fs, q, err := runLexer(p, time.Now().Add(time.Duration(*secs)*time.Second), func(*Finding) bool { return true })
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, f := range fs {
			fmt.Printf("%s [%s] at %s %s: %s\n    %s\n", f.Kind, f.Where, f.Pos, f.Path, f.Msg, f.Trace)
		}
		fmt.Println(len(fs), "findings", len(q.pos), "states", q.runs, "runs", q.forks, "forks", q.rets, "returns", q.fails, "failures", q.calls, time.Since(t0))
	case "driver":
		for n, d := range drivers {
			if *only != "" && n != *only {
				continue
			}
			p := p
			if d.js {
				p, err = load(*root, true, webOverlays(*root), "./web/...")
				if err != nil {
					fmt.Println(err)
					os.Exit(1)
				}
			}
			fs, q, err := runDriver(p, d, time.Now().Add(time.Duration(*secs)*time.Second))
			if err != nil {
				fmt.Println(err)
				os.Exit(1)
			}
			for _, f := range fs {
				fmt.Printf("%s [%s] at %s %s: %s\n    %s\n", f.Kind, f.Where, f.Pos, f.Path, f.Msg, f.Trace)
			}
			fmt.Println(n, len(fs), "findings", len(q.pos), "states", q.runs, "runs", q.forks, "forks", q.rets, "returns", q.fails, "failures", q.calls, time.Since(t0))
		}
	case "parser":
		r := &parserRun{p: p, setup: func(c *parserClient) error {
			c.budget = time.Duration(*secs) * time.Second
			if *few {
				c.anchorsOf = func(string) bool { return false }
			}
			return nil
		}, limit: func(k string) int {
			if *only != "" && k != *only {
				return 0
			}
			return flagLimit
		}}
		roots := []string{"parseExpression,0,0", "parseScript", "parseModule"}
		if *only != "" {
			roots = []string{*only}
		}
		fs, stats, err := r.run(roots)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, s := range stats {
			if s.states > 0 {
				fmt.Printf("%-40s runs %6d states %6d rets %d fails %d %v %.1fs\n", s.key, s.runs, s.states, s.rets, s.fails, s.cut, s.secs)
			}
		}
		for _, f := range fs {
			fmt.Printf("%s [%s] at %s %s: %s\n    %s\n", f.Kind, f.Where, f.Pos, f.Path, f.Msg, f.Trace)
		}
		fmt.Println(len(fs), "findings", time.Since(t0))
	}
}
