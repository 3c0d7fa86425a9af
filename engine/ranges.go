package main

import "math"

// Interval reasoning over the declared domains of symbolic inputs: a front-end
// simplification that decides comparisons (of restart delays, mostly) whose
// floating-point terms would be expensive to bit-blast. The declared domains
// are always part of the path condition.

type irange struct{ lo, hi int64 }
type frange struct{ lo, hi float64 }

var floatDom = map[*Term]frange{}
var iMemo = map[*Term]*irange{}
var fMemo = map[*Term]*frange{}

func clearRanges() {
	if len(iMemo) > 0 {
		iMemo = map[*Term]*irange{}
	}
	if len(fMemo) > 0 {
		fMemo = map[*Term]*frange{}
	}
}

func noteFloatDomain(v *Term, lo, hi float64) {
	if b, ok := floatDom[v]; ok && b.lo <= lo && b.hi >= hi {
		return
	} else if ok {
		lo, hi = math.Min(lo, b.lo), math.Max(hi, b.hi)
	}
	floatDom[v] = frange{lo, hi}
	clearRanges()
}

func hasFloat(t *Term) bool {
	switch t.Op {
	case OFToS:
		return true
	case OSub, OAdd, OMul, OSRem, OSDiv, ONeg:
		for _, a := range t.Args {
			if hasFloat(a) {
				return true
			}
		}
	case OIte:
		return hasFloat(t.Args[1]) || hasFloat(t.Args[2])
	}
	return false
}

// rangeOf bounds a 64-bit term read as signed, nil if nothing is known.
func rangeOf(t *Term) *irange {
	if t.S != SBV || t.W != 64 {
		return nil
	}
	if t.IsConst() {
		return &irange{t.SInt(), t.SInt()}
	}
	if r, ok := iMemo[t]; ok {
		return r
	}
	r := rangeOf1(t)
	iMemo[t] = r
	return r
}

func rangeOf1(t *Term) *irange {
	switch t.Op {
	case OVar:
		if b, ok := boundDom[t]; ok {
			return &irange{b[0], b[1]}
		}
	case OIte:
		a, b := rangeOf(t.Args[1]), rangeOf(t.Args[2])
		if a != nil && b != nil {
			return &irange{min(a.lo, b.lo), max(a.hi, b.hi)}
		}
	case OAdd, OSub:
		a, b := rangeOf(t.Args[0]), rangeOf(t.Args[1])
		if a == nil || b == nil {
			return nil
		}
		const lim = int64(1) << 61
		for _, x := range []int64{a.lo, a.hi, b.lo, b.hi} {
			if x > lim || x < -lim {
				return nil
			}
		}
		if t.Op == OSub && t.Args[1].Op == OSRem && t.Args[1].Args[0] == t.Args[0] && a.lo >= 0 && t.Args[1].Args[1].IsConst() {
			// x - x%m
			if m := t.Args[1].Args[1].SInt(); m > 0 {
				return &irange{a.lo - a.lo%m, a.hi - a.hi%m}
			}
		}
		if t.Op == OAdd {
			return &irange{a.lo + b.lo, a.hi + b.hi}
		}
		return &irange{a.lo - b.hi, a.hi - b.lo}
	case OSRem:
		a, b := rangeOf(t.Args[0]), t.Args[1]
		if a == nil || !b.IsConst() || b.SInt() <= 0 || a.lo < 0 {
			return nil
		}
		m := b.SInt()
		if a.lo/m == a.hi/m {
			return &irange{a.lo % m, a.hi % m}
		}
		return &irange{0, min(a.hi, m-1)}
	case OFToS:
		f := frangeOf(t.Args[0])
		if f == nil || f.lo < -9e18 || f.hi > 9e18 {
			return nil
		}
		return &irange{int64(f.lo), int64(f.hi)}
	}
	return nil
}

// frangeOf bounds a float term that is never NaN, nil if nothing is known.
func frangeOf(t *Term) *frange {
	if t.S != SF64 {
		return nil
	}
	if t.IsConst() {
		if x := f64(t); x == x {
			return &frange{x, x}
		}
		return nil
	}
	if r, ok := fMemo[t]; ok {
		return r
	}
	r := frangeOf1(t)
	if r != nil && (math.IsNaN(r.lo) || math.IsNaN(r.hi) || math.IsInf(r.lo, 0) || math.IsInf(r.hi, 0)) {
		r = nil
	}
	fMemo[t] = r
	return r
}

func frangeOf1(t *Term) *frange {
	bin := func(op func(a, b float64) float64) *frange {
		a, b := frangeOf(t.Args[0]), frangeOf(t.Args[1])
		if a == nil || b == nil {
			return nil
		}
		// rounding to nearest is monotone, so the corners bound the result
		c := []float64{op(a.lo, b.lo), op(a.lo, b.hi), op(a.hi, b.lo), op(a.hi, b.hi)}
		r := &frange{c[0], c[0]}
		for _, x := range c {
			if x != x {
				return nil
			}
			r.lo, r.hi = math.Min(r.lo, x), math.Max(r.hi, x)
		}
		return r
	}
	switch t.Op {
	case OVar:
		if b, ok := floatDom[t]; ok {
			return &frange{b.lo, b.hi}
		}
	case OIte:
		a, b := frangeOf(t.Args[1]), frangeOf(t.Args[2])
		if a != nil && b != nil {
			return &frange{math.Min(a.lo, b.lo), math.Max(a.hi, b.hi)}
		}
	case OFAdd:
		return bin(func(a, b float64) float64 { return a + b })
	case OFSub:
		return bin(func(a, b float64) float64 { return a - b })
	case OFMul:
		return bin(func(a, b float64) float64 { return a * b })
	case OFDiv:
		if b := frangeOf(t.Args[1]); b == nil || b.lo <= 0 && b.hi >= 0 {
			return nil
		}
		return bin(func(a, b float64) float64 { return a / b })
	case OFNeg:
		if a := frangeOf(t.Args[0]); a != nil {
			return &frange{-a.hi, -a.lo}
		}
	case OFFromS:
		if a := rangeOf(t.Args[0]); a != nil {
			return &frange{float64(a.lo), float64(a.hi)}
		}
	}
	return nil
}

// decide simplifies a comparison by the ranges of its sides.
func decide(op Op, a, b *Term) *Term {
	switch op {
	case OSLt, OSLe, OEq:
		if a.S != SBV || !hasFloat(a) && !hasFloat(b) {
			return nil
		}
		x, y := rangeOf(a), rangeOf(b)
		if x == nil || y == nil {
			return nil
		}
		switch op {
		case OSLt:
			if x.hi < y.lo {
				return True
			}
			if x.lo >= y.hi {
				return False
			}
		case OSLe:
			if x.hi <= y.lo {
				return True
			}
			if x.lo > y.hi {
				return False
			}
		case OEq:
			if x.hi < y.lo || y.hi < x.lo {
				return False
			}
		}
	case OFLt, OFLe, OFEq:
		x, y := frangeOf(a), frangeOf(b)
		if x == nil || y == nil {
			return nil
		}
		switch op {
		case OFLt:
			if x.hi < y.lo {
				return True
			}
			if x.lo >= y.hi {
				return False
			}
		case OFLe:
			if x.hi <= y.lo {
				return True
			}
			if x.lo > y.hi {
				return False
			}
		case OFEq:
			if x.hi < y.lo || y.hi < x.lo {
				return False
			}
		}
	}
	return nil
}
