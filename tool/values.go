package main

import "strings"

// alsoDrivers adds some drivers to a check.
func alsoDrivers(id string, names ...string) {
	for i := range checks {
		if checks[i].id != id {
			continue
		}
		run := checks[i].run
		checks[i].rule = strings.TrimSuffix(checks[i].rule, ".") + "; in addition, the value of every string literal has to be the text between its quotes, which is decided by executing StringConstant abstractly."
		checks[i].run = func(c *checkCtx) *outcome {
			o := run(c)
			p, err := load(c.root, false, overlays(c.root), "./ecmascript/...")
			if err != nil {
				return loadFail(err)
			}
			driverOutcome(p, o, names, nil)
			return o
		}
	}
}

// After the init functions of the checks.
func init() {
	for _, id := range []string{"C08", "C12", "C30", "C32"} {
		alsoDrivers(id, "Strings")
	}
}
