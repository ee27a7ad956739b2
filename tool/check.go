package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// A check decides one property. It is an outcome of one or more analyses.
type check struct {
	id    string
	level string
	rule  string
	// run performs the analysis on the repository at root.
	run func(c *checkCtx) *outcome
	// assumptions and trusted base of the verdict
	assume []string
}

type checkCtx struct {
	root string
	tier string
	id   string
}

type outcome struct {
	finds       []*Finding
	all         []*Finding // with those that do not concern the property
	obligations []string   // names of what had to hold
	cov         map[string]interface{}
	min         map[string]int // minimum for counts in cov
}

func (o *outcome) set(k string, v interface{}) {
	if o.cov == nil {
		o.cov = map[string]interface{}{}
	}
	o.cov[k] = v
}

func (o *outcome) atLeast(k string, n, min int) {
	if n != len(o.obligations) {
		o.set(k, n)
	}
	if n < min {
		o.finds = append(o.finds, &Finding{Kind: "coverage", Where: k, Pos: "?", Msg: fmt.Sprintf("only %d %s were found, at least %d are expected: the analysis does not see the code it is about", n, k, min)})
	}
}

func undecidedFinding(format string, args ...interface{}) *Finding {
	return &Finding{Kind: "undecided", Where: "analysis", Pos: "?", Msg: fmt.Sprintf(format, args...)}
}

func runCheck(root, verif, id, tier string) int {
	t0 := time.Now()
	var ck *check
	for i := range checks {
		if checks[i].id == id {
			ck = &checks[i]
		}
	}
	if ck == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	o := func() (o *outcome) {
		defer func() {
			if r := recover(); r != nil {
				o = &outcome{finds: []*Finding{undecidedFinding("the analysis failed: %v", r)}}
			}
		}()
		return ck.run(&checkCtx{root: root, tier: tier, id: id})
	}()
	known := readKnown(filepath.Join(verif, "known-findings.txt"))
	var bad []*Finding
	seen := map[string]bool{}
	failed := map[string]bool{}
	for _, f := range o.finds {
		if seen[f.key()] {
			continue
		}
		seen[f.key()] = true
		if k := known.match(id, f); k != nil {
			if !k.shown {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
				k.shown = true
			}
			continue
		}
		bad = append(bad, f)
		failed[f.Where] = true
	}
	cov := map[string]interface{}{"rule": ck.rule, "explanation": ck.rule}
	for k, v := range o.cov {
		cov[k] = v
	}
	if len(o.obligations) > 0 {
		n := 0
		for _, w := range o.obligations {
			if !failed[w] {
				n++
			}
		}
		cov["obligations"] = len(o.obligations)
		cov["discharged"] = n
		s := append([]string{}, o.obligations...)
		sort.Strings(s)
		cov["samples"] = s
	}
	if ck.level == "proof" {
		cov["checker_cmd"] = "./check.sh " + id + " " + tier
		cov["trusted_base"] = ck.assume
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	replay := filepath.Join(dir, id+".violations.txt")
	os.Remove(replay)
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": ck.level, "coverage": cov,
		"assumptions": ck.assume, "wall_s": time.Since(t0).Seconds(), "violations": len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %s\n", id, summary(o.cov, len(o.obligations)))
	if len(bad) == 0 {
		fmt.Printf("%s holds (%.1fs)\n", id, time.Since(t0).Seconds())
		return 0
	}
	w, err := os.Create(replay)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	bw := bufio.NewWriter(w)
	for i, f := range bad {
		l := fmt.Sprintf("%s: [%s] %s: %s", f.Pos, f.Kind, f.Where, f.Msg)
		if f.Path != "" {
			l += " (" + f.Path + ")"
		}
		fmt.Fprintf(bw, "%s\n    %s\n", l, f.Trace)
		if i < 20 {
			fmt.Println(l)
			if f.Trace != "" {
				fmt.Println("   ", f.Trace)
			}
		}
	}
	bw.Flush()
	w.Close()
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}

func summary(cov map[string]interface{}, n int) string {
	var ks []string
	for k := range cov {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	if n > 0 {
		out = append(out, fmt.Sprintf("%d obligations", n))
	}
	for _, k := range ks {
		switch v := cov[k].(type) {
		case int, int64, float64:
			out = append(out, fmt.Sprintf("%v %s", v, k))
		}
	}
	return strings.Join(out, ", ")
}

// ---- known findings ----

type knownFinding struct {
	prop, kind, where, msg, text string
	shown                        bool
}

type knownList []*knownFinding

// readKnown reads lines "known: property=<id> kind=<k> where=<unit> msg=<part> :: <text>".
// Lines "fixed: ..." are a record only.
func readKnown(path string) knownList {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out knownList
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		head, text, ok := strings.Cut(l[len("known: "):], " :: ")
		if !ok {
			continue
		}
		k := &knownFinding{text: text}
		for _, f := range strings.Split(head, " | ") {
			n, v, _ := strings.Cut(f, "=")
			switch n {
			case "property":
				k.prop = v
			case "kind":
				k.kind = v
			case "where":
				k.where = v
			case "msg":
				k.msg = v
			}
		}
		out = append(out, k)
	}
	return out
}

func (l knownList) match(id string, f *Finding) *knownFinding {
	for _, k := range l {
		if k.prop == id && k.kind == f.Kind && k.where == f.Where && k.msg == f.Msg {
			return k
		}
	}
	return nil
}
