package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// IntSet is a finite union of integer intervals, sorted and disjoint. It is the
// domain of every integer-valued symbol: token types, runes, enumerations,
// booleans (0 and 1) and dynamic types.
type IntSet []iv

type iv struct{ lo, hi int64 }

const (
	minInt = math.MinInt64 / 4
	maxInt = math.MaxInt64 / 4
)

var (
	setAll  = IntSet{{minInt, maxInt}}
	setBool = IntSet{{0, 1}}
)

func setOf(vs ...int64) IntSet {
	s := append([]int64{}, vs...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	var out IntSet
	for _, v := range s {
		if n := len(out); n > 0 && v <= out[n-1].hi+1 {
			if v > out[n-1].hi {
				out[n-1].hi = v
			}
			continue
		}
		out = append(out, iv{v, v})
	}
	return out
}

func setRange(lo, hi int64) IntSet {
	if lo > hi {
		return nil
	}
	return IntSet{{lo, hi}}
}

func (a IntSet) empty() bool { return len(a) == 0 }

func (a IntSet) has(v int64) bool {
	i := sort.Search(len(a), func(i int) bool { return a[i].hi >= v })
	return i < len(a) && a[i].lo <= v
}

func (a IntSet) single() (int64, bool) {
	if len(a) == 1 && a[0].lo == a[0].hi {
		return a[0].lo, true
	}
	return 0, false
}

func (a IntSet) inter(b IntSet) IntSet {
	var out IntSet
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		lo, hi := max(a[i].lo, b[j].lo), min(a[i].hi, b[j].hi)
		if lo <= hi {
			out = append(out, iv{lo, hi})
		}
		if a[i].hi < b[j].hi {
			i++
		} else {
			j++
		}
	}
	return out
}

func (a IntSet) minus(b IntSet) IntSet {
	var out IntSet
	j := 0
	for _, x := range a {
		lo := x.lo
		for j < len(b) && b[j].hi < lo {
			j++
		}
		k := j
		for k < len(b) && b[k].lo <= x.hi {
			if b[k].lo > lo {
				out = append(out, iv{lo, b[k].lo - 1})
			}
			lo = b[k].hi + 1
			k++
		}
		if lo <= x.hi {
			out = append(out, iv{lo, x.hi})
		}
	}
	return out
}

func (a IntSet) union(b IntSet) IntSet {
	all := append(append(IntSet{}, a...), b...)
	sort.Slice(all, func(i, j int) bool { return all[i].lo < all[j].lo })
	var out IntSet
	for _, x := range all {
		if n := len(out); n > 0 && x.lo <= out[n-1].hi+1 {
			if x.hi > out[n-1].hi {
				out[n-1].hi = x.hi
			}
			continue
		}
		out = append(out, x)
	}
	return out
}

func (a IntSet) equal(b IntSet) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (a IntSet) subset(b IntSet) bool { return a.minus(b).empty() }

func (a IntSet) size() int64 {
	var n int64
	for _, x := range a {
		n += x.hi - x.lo + 1
	}
	return n
}

func (a IntSet) each(f func(int64)) {
	for _, x := range a {
		for v := x.lo; v <= x.hi; v++ {
			f(v)
		}
	}
}

func (a IntSet) String() string {
	var b strings.Builder
	for i, x := range a {
		if i > 0 {
			b.WriteByte(',')
		}
		switch {
		case x.lo == x.hi:
			fmt.Fprintf(&b, "%d", x.lo)
		case x.lo <= minInt && x.hi >= maxInt:
			b.WriteString("*")
		case x.lo <= minInt:
			fmt.Fprintf(&b, "..%d", x.hi)
		case x.hi >= maxInt:
			fmt.Fprintf(&b, "%d..", x.lo)
		default:
			fmt.Fprintf(&b, "%d-%d", x.lo, x.hi)
		}
	}
	return b.String()
}

// affine maps x to k + x or k - x.
func (a IntSet) affine(neg bool, k int64) IntSet {
	out := make(IntSet, len(a))
	for i, x := range a {
		if neg {
			out[len(a)-1-i] = iv{sat(k, -x.hi), sat(k, -x.lo)}
		} else {
			out[i] = iv{sat(k, x.lo), sat(k, x.hi)}
		}
	}
	return out
}

func sat(k, x int64) int64 {
	if x <= minInt {
		return minInt
	}
	if x >= maxInt {
		return maxInt
	}
	return k + x
}

// cmpSet returns the values x with x op c.
func cmpSet(op string, c int64) IntSet {
	switch op {
	case "==":
		return IntSet{{c, c}}
	case "!=":
		return setAll.minus(IntSet{{c, c}})
	case "<":
		return setRange(minInt, c-1)
	case "<=":
		return setRange(minInt, c)
	case ">":
		return setRange(c+1, maxInt)
	case ">=":
		return setRange(c, maxInt)
	}
	panic("cmpSet " + op)
}
