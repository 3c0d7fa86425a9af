package main

// Hash-consed SMT terms over Bool, BitVec(w) and Float64, with a local
// simplifier, an evaluator (for witness models) and an SMT-LIB printer.

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

type Sort uint8

const (
	SBool Sort = iota
	SBV
	SF64
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	// bit-vectors
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OXor
	OShl
	OLShr
	OAShr
	ONeg
	OBNot
	OULt
	OULe
	OSLt
	OSLe
	OTrunc // to W
	OZext
	OSext
	// floats
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFFromS
	OFFromU
	OFToS // to signed 64, Go/amd64 semantics
	OFIsNaN
	OFPow // uninterpreted
)

type Term struct {
	ID   int32
	Op   Op
	S    Sort
	W    uint8
	C    uint64
	Name string
	Args []*Term
}

type termKey struct {
	op   Op
	s    Sort
	w    uint8
	c    uint64
	name string
	a    string
}

type TermPool struct {
	tab   map[termKey]*Term
	terms int32
	vars  []*Term
}

var TP = &TermPool{tab: map[termKey]*Term{}}

var True, False *Term

func init() {
	True = mk(OConst, SBool, 1, 1, "")
	False = mk(OConst, SBool, 1, 0, "")
}

func mk(op Op, s Sort, w uint8, c uint64, name string, args ...*Term) *Term {
	var b [64]byte
	buf := b[:0]
	for _, a := range args {
		buf = append(buf, byte(a.ID), byte(a.ID>>8), byte(a.ID>>16), byte(a.ID>>24))
	}
	k := termKey{op, s, w, c, name, string(buf)}
	if t, ok := TP.tab[k]; ok {
		return t
	}
	TP.terms++
	t := &Term{ID: TP.terms, Op: op, S: s, W: w, C: c, Name: name, Args: args}
	TP.tab[k] = t
	if op == OVar {
		TP.vars = append(TP.vars, t)
	}
	return t
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func mkBool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func mkBV(v uint64, w uint8) *Term { return mk(OConst, SBV, w, v&maskW(w), "") }
func mkF64(f float64) *Term {
	if f != f {
		return mk(OConst, SF64, 64, 0x7ff8000000000001, "")
	}
	return mk(OConst, SF64, 64, math.Float64bits(f), "")
}
func mkVar(name string, s Sort, w uint8) *Term { return mk(OVar, s, w, 0, name) }

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) SInt() int64   { return sext(t.C, t.W) }
func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == ONot:
		return a.Args[0]
	}
	return mk(ONot, SBool, 1, 0, "", a)
}

func And(ts ...*Term) *Term { return nary(OAnd, True, False, ts) }
func Or(ts ...*Term) *Term  { return nary(OOr, False, True, ts) }

func nary(op Op, unit, zero *Term, ts []*Term) *Term {
	var l []*Term
	var add func(t *Term, depth int) bool
	add = func(t *Term, depth int) bool {
		if t == zero {
			return false
		}
		if t == unit {
			return true
		}
		// flatten small nested terms only, to keep sharing
		if t.Op == op && (len(t.Args) <= 6 || depth == 0 && len(ts) == 1) {
			for _, a := range t.Args {
				if !add(a, depth+1) {
					return false
				}
			}
			return true
		}
		l = append(l, t)
		return true
	}
	for _, t := range ts {
		if !add(t, 0) {
			return zero
		}
	}
	if len(l) == 0 {
		return unit
	}
	if len(l) == 1 {
		return l[0]
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	o := l[:1]
	for _, t := range l[1:] {
		if t != o[len(o)-1] {
			o = append(o, t)
		}
	}
	l = o
	if len(l) == 1 {
		return l[0]
	}
	set := make(map[*Term]bool, len(l))
	for _, t := range l {
		set[t] = true
	}
	for _, t := range l {
		if t.Op == ONot && set[t.Args[0]] {
			return zero
		}
	}
	// equality conflicts: and(x=c1, x=c2)
	if op == OAnd {
		var eqs map[*Term]*Term
		for _, t := range l {
			if t.Op == OEq && t.Args[1].IsConst() {
				if eqs == nil {
					eqs = map[*Term]*Term{}
				}
				if c, ok := eqs[t.Args[0]]; ok && c != t.Args[1] {
					return False
				}
				eqs[t.Args[0]] = t.Args[1]
			}
		}
		// absorb: and(a, or(a,..)) -> a ; and(a, or(!a, b)) -> and(a,b)
		if len(l) <= 16 {
			ch := false
			var nl []*Term
			for _, t := range l {
				if t.Op == OOr && len(t.Args) <= 8 {
					keep := make([]*Term, 0, len(t.Args))
					absorbed := false
					for _, a := range t.Args {
						if set[a] {
							absorbed = true
							break
						}
						if a.Op == ONot && set[a.Args[0]] || set[mkNotPeek(a)] {
							continue
						}
						keep = append(keep, a)
					}
					if absorbed {
						ch = true
						continue
					}
					if len(keep) != len(t.Args) {
						ch = true
						nl = append(nl, Or(keep...))
						continue
					}
				}
				nl = append(nl, t)
			}
			if ch {
				return And(nl...)
			}
		}
	} else if len(l) <= 16 {
		// or(a, and(a,..)) -> a ; or(and(a,b), and(a,!b)) -> a
		ch := false
		var nl []*Term
		for _, t := range l {
			if t.Op == OAnd && len(t.Args) <= 8 {
				keep := make([]*Term, 0, len(t.Args))
				absorbed := false
				for _, a := range t.Args {
					if set[a] {
						absorbed = true
						break
					}
					if a.Op == ONot && set[a.Args[0]] || set[mkNotPeek(a)] {
						continue
					}
					keep = append(keep, a)
				}
				if absorbed {
					ch = true
					continue
				}
				if len(keep) != len(t.Args) {
					ch = true
					nl = append(nl, And(keep...))
					continue
				}
			}
			nl = append(nl, t)
		}
		if ch {
			return Or(nl...)
		}
		if len(l) == 2 {
			if f := factor2(l[0], l[1]); f != nil {
				return f
			}
		}
	}
	return mk(op, SBool, 1, 0, "", l...)
}

func conj(t *Term) []*Term {
	if t.Op == OAnd {
		return t.Args
	}
	return []*Term{t}
}

// factor2 rewrites or(A&p, A&!p) to A and or(A&B, A&C) to A&(B|C).
func factor2(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	if len(ca) > 24 || len(cb) > 24 {
		return nil
	}
	sb := map[*Term]bool{}
	for _, t := range cb {
		sb[t] = true
	}
	var common, ra, rb []*Term
	sa := map[*Term]bool{}
	for _, t := range ca {
		if sb[t] {
			common = append(common, t)
			sa[t] = true
		} else {
			ra = append(ra, t)
		}
	}
	if len(common) == 0 {
		return nil
	}
	for _, t := range cb {
		if !sa[t] {
			rb = append(rb, t)
		}
	}
	r := Or(And(ra...), And(rb...))
	return And(append(common, r)...)
}

func mkNotPeek(a *Term) *Term {
	if a.Op == ONot {
		return a.Args[0]
	}
	k := termKey{ONot, SBool, 1, 0, "", string([]byte{byte(a.ID), byte(a.ID >> 8), byte(a.ID >> 16), byte(a.ID >> 24)})}
	if t, ok := TP.tab[k]; ok {
		return t
	}
	return nil
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.S == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if c.Op == ONot {
		return Ite(c.Args[0], b, a)
	}
	if a.Op == OIte && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == OIte && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if b.Op == OIte && b.Args[1] == a {
		return Ite(Or(c, b.Args[0]), a, b.Args[2])
	}
	return mk(OIte, a.S, a.W, 0, "", c, a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		if a.S == SF64 {
			panic("Eq on floats")
		}
		return True
	}
	if a.IsConst() && b.IsConst() {
		return mkBool(a.C == b.C)
	}
	if a.S == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() && a.Op == OIte && (a.Args[1].IsConst() || a.Args[2].IsConst()) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if r := decide(OEq, a, b); r != nil {
		return r
	}
	if !b.IsConst() && a.ID > b.ID {
		a, b = b, a
	}
	return mk(OEq, SBool, 1, 0, "", a, b)
}

func evalBV(op Op, w uint8, x, y uint64) uint64 {
	m := maskW(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic("evalBV")
}

func BV(op Op, a, b *Term) *Term {
	w := a.W
	if a.IsConst() && b.IsConst() {
		return mkBV(evalBV(op, w, a.C, b.C), w)
	}
	switch op {
	case OAdd, OBOr, OXor:
		if b.IsConst() && b.C == 0 {
			return a
		}
		if a.IsConst() && a.C == 0 {
			return b
		}
	case OSub, OShl, OLShr, OAShr:
		if b.IsConst() && b.C == 0 {
			return a
		}
	case OMul:
		if b.IsConst() && b.C == 1 {
			return a
		}
		if a.IsConst() && a.C == 1 {
			return b
		}
		if a.IsConst() && a.C == 0 {
			return a
		}
		if b.IsConst() && b.C == 0 {
			return b
		}
	case OSDiv, OUDiv:
		if b.IsConst() && b.C == 1 {
			return a
		}
	}
	// push constants through ite with constant leaves
	if b.IsConst() && a.Op == OIte && iteConstLeaves(a, 8) {
		return Ite(a.Args[0], BV(op, a.Args[1], b), BV(op, a.Args[2], b))
	}
	if a.IsConst() && b.Op == OIte && iteConstLeaves(b, 8) {
		return Ite(b.Args[0], BV(op, a, b.Args[1]), BV(op, a, b.Args[2]))
	}
	return mk(op, SBV, w, 0, "", a, b)
}

func iteConstLeaves(t *Term, n int) bool {
	if t.IsConst() {
		return true
	}
	if n == 0 || t.Op != OIte {
		return false
	}
	return iteConstLeaves(t.Args[1], n-1) && iteConstLeaves(t.Args[2], n-1)
}

func Cmp(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		switch op {
		case OULt:
			return mkBool(a.C < b.C)
		case OULe:
			return mkBool(a.C <= b.C)
		case OSLt:
			return mkBool(a.SInt() < b.SInt())
		case OSLe:
			return mkBool(a.SInt() <= b.SInt())
		}
	}
	if a == b {
		return mkBool(op == OULe || op == OSLe)
	}
	if b.IsConst() && a.Op == OIte && (a.Args[1].IsConst() || a.Args[2].IsConst()) {
		return Ite(a.Args[0], Cmp(op, a.Args[1], b), Cmp(op, a.Args[2], b))
	}
	if a.IsConst() && b.Op == OIte && (b.Args[1].IsConst() || b.Args[2].IsConst()) {
		return Ite(b.Args[0], Cmp(op, a, b.Args[1]), Cmp(op, a, b.Args[2]))
	}
	if r := decide(op, a, b); r != nil {
		return r
	}
	return mk(op, SBool, 1, 0, "", a, b)
}

func Neg(a *Term) *Term {
	if a.IsConst() {
		return mkBV(-a.C, a.W)
	}
	return mk(ONeg, SBV, a.W, 0, "", a)
}
func BNot(a *Term) *Term {
	if a.IsConst() {
		return mkBV(^a.C, a.W)
	}
	return mk(OBNot, SBV, a.W, 0, "", a)
}

// Resize converts a bit-vector to width w.
func Resize(a *Term, w uint8, signed bool) *Term {
	if a.W == w {
		return a
	}
	if a.IsConst() {
		if signed {
			return mkBV(uint64(a.SInt()), w)
		}
		return mkBV(a.C, w)
	}
	if a.Op == OIte && iteConstLeaves(a, 8) {
		return Ite(a.Args[0], Resize(a.Args[1], w, signed), Resize(a.Args[2], w, signed))
	}
	switch {
	case w < a.W:
		return mk(OTrunc, SBV, w, 0, "", a)
	case signed:
		return mk(OSext, SBV, w, 0, "", a)
	}
	return mk(OZext, SBV, w, 0, "", a)
}

func f64(t *Term) float64 { return math.Float64frombits(t.C) }

func FBin(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		x, y := f64(a), f64(b)
		switch op {
		case OFAdd:
			return mkF64(x + y)
		case OFSub:
			return mkF64(x - y)
		case OFMul:
			return mkF64(x * y)
		case OFDiv:
			return mkF64(x / y)
		case OFPow:
			return mkF64(math.Pow(x, y))
		}
	}
	if b.IsConst() && a.Op == OIte && iteConstLeaves(a, 8) {
		return Ite(a.Args[0], FBin(op, a.Args[1], b), FBin(op, a.Args[2], b))
	}
	if a.IsConst() && b.Op == OIte && iteConstLeaves(b, 8) {
		return Ite(b.Args[0], FBin(op, a, b.Args[1]), FBin(op, a, b.Args[2]))
	}
	return mk(op, SF64, 64, 0, "", a, b)
}
func FCmp(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		x, y := f64(a), f64(b)
		switch op {
		case OFLt:
			return mkBool(x < y)
		case OFLe:
			return mkBool(x <= y)
		case OFEq:
			return mkBool(x == y)
		}
	}
	if b.IsConst() && a.Op == OIte && iteConstLeaves(a, 8) {
		return Ite(a.Args[0], FCmp(op, a.Args[1], b), FCmp(op, a.Args[2], b))
	}
	if a.IsConst() && b.Op == OIte && iteConstLeaves(b, 8) {
		return Ite(b.Args[0], FCmp(op, a, b.Args[1]), FCmp(op, a, b.Args[2]))
	}
	if r := decide(op, a, b); r != nil {
		return r
	}
	return mk(op, SBool, 1, 0, "", a, b)
}

// rawCmp builds a comparison that stays: the domain of an input.
func rawCmp(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return Cmp(op, a, b)
	}
	return mk(op, SBool, 1, 0, "", a, b)
}

func FNeg(a *Term) *Term {
	if a.IsConst() {
		return mkF64(-f64(a))
	}
	return mk(OFNeg, SF64, 64, 0, "", a)
}
func FFromInt(a *Term, signed bool) *Term {
	if a.IsConst() {
		if signed {
			return mkF64(float64(a.SInt()))
		}
		return mkF64(float64(a.C))
	}
	if a.Op == OIte && iteConstLeaves(a, 8) {
		return Ite(a.Args[0], FFromInt(a.Args[1], signed), FFromInt(a.Args[2], signed))
	}
	if signed {
		return mk(OFFromS, SF64, 64, 0, "", a)
	}
	return mk(OFFromU, SF64, 64, 0, "", a)
}

func goF2I(x float64) int64 {
	if x != x || x >= 9223372036854775808.0 || x < -9223372036854775808.0 {
		return math.MinInt64
	}
	return int64(x)
}
func FToS(a *Term) *Term {
	if a.IsConst() {
		return mkBV(uint64(goF2I(f64(a))), 64)
	}
	if a.Op == OIte && iteConstLeaves(a, 8) {
		return Ite(a.Args[0], FToS(a.Args[1]), FToS(a.Args[2]))
	}
	return mk(OFToS, SBV, 64, 0, "", a)
}
func FIsNaN(a *Term) *Term {
	if a.IsConst() {
		return mkBool(f64(a) != f64(a))
	}
	return mk(OFIsNaN, SBool, 1, 0, "", a)
}

// Model is an assignment of variables (missing ones are 0).
type Model struct {
	m map[*Term]uint64
}

func (m *Model) with(v *Term, c uint64) *Model {
	n := &Model{m: make(map[*Term]uint64, len(m.m)+1)}
	for k, x := range m.m {
		n.m[k] = x
	}
	n.m[v] = c
	return n
}

type evaluator struct {
	m    *Model
	memo map[*Term]uint64
}

func newEval(m *Model) *evaluator { return &evaluator{m, map[*Term]uint64{}} }

func (m *Model) holds(t *Term) bool {
	if t.IsConst() {
		return t.C == 1
	}
	return newEval(m).eval(t) == 1
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) eval(t *Term) uint64 {
	switch t.Op {
	case OConst:
		return t.C
	case OVar:
		return e.m.m[t]
	case ONot:
		return 1 - e.eval(t.Args[0])
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r uint64
	a := t.Args
	switch t.Op {
	case OAnd:
		r = 1
		for _, x := range a {
			if e.eval(x) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for _, x := range a {
			if e.eval(x) == 1 {
				r = 1
				break
			}
		}
	case OIte:
		if e.eval(a[0]) == 1 {
			r = e.eval(a[1])
		} else {
			r = e.eval(a[2])
		}
	case OEq:
		r = b2u(e.eval(a[0]) == e.eval(a[1]))
	case OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OBAnd, OBOr, OXor, OShl, OLShr, OAShr:
		r = evalBV(t.Op, t.W, e.eval(a[0]), e.eval(a[1]))
	case ONeg:
		r = -e.eval(a[0]) & maskW(t.W)
	case OBNot:
		r = ^e.eval(a[0]) & maskW(t.W)
	case OULt:
		r = b2u(e.eval(a[0]) < e.eval(a[1]))
	case OULe:
		r = b2u(e.eval(a[0]) <= e.eval(a[1]))
	case OSLt:
		r = b2u(sext(e.eval(a[0]), a[0].W) < sext(e.eval(a[1]), a[0].W))
	case OSLe:
		r = b2u(sext(e.eval(a[0]), a[0].W) <= sext(e.eval(a[1]), a[0].W))
	case OTrunc, OZext:
		r = e.eval(a[0]) & maskW(t.W)
	case OSext:
		r = uint64(sext(e.eval(a[0]), a[0].W)) & maskW(t.W)
	default:
		f := func(i int) float64 { return math.Float64frombits(e.eval(a[i])) }
		switch t.Op {
		case OFAdd:
			r = math.Float64bits(f(0) + f(1))
		case OFSub:
			r = math.Float64bits(f(0) - f(1))
		case OFMul:
			r = math.Float64bits(f(0) * f(1))
		case OFDiv:
			r = math.Float64bits(f(0) / f(1))
		case OFPow:
			r = math.Float64bits(math.Pow(f(0), f(1)))
		case OFNeg:
			r = math.Float64bits(-f(0))
		case OFLt:
			r = b2u(f(0) < f(1))
		case OFLe:
			r = b2u(f(0) <= f(1))
		case OFEq:
			r = b2u(f(0) == f(1))
		case OFIsNaN:
			r = b2u(f(0) != f(0))
		case OFFromS:
			r = math.Float64bits(float64(sext(e.eval(a[0]), a[0].W)))
		case OFFromU:
			r = math.Float64bits(float64(e.eval(a[0])))
		case OFToS:
			r = uint64(goF2I(f(0)))
		default:
			panic("eval op")
		}
	}
	e.memo[t] = r
	return r
}

// ---- SMT-LIB printing ----

func (t *Term) sortStr() string {
	switch t.S {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", t.W)
	}
	return "(_ FloatingPoint 11 53)"
}

func quoteVar(n string) string { return "|" + strings.ReplaceAll(n, "|", "_") + "|" }

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", ONeg: "bvneg", OBNot: "bvnot",
	OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN",
	OFPow: "vp_pow"}

// body prints the term using ref for its arguments.
func (t *Term) body(ref func(*Term) string) string {
	switch t.Op {
	case OConst:
		return constStr(t)
	case OVar:
		return quoteVar(t.Name)
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.W-1, ref(t.Args[0]))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.W-t.Args[0].W, ref(t.Args[0]))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.Args[0].W, ref(t.Args[0]))
	case OFFromS:
		return fmt.Sprintf("((_ to_fp 11 53) RNE %s)", ref(t.Args[0]))
	case OFFromU:
		return fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", ref(t.Args[0]))
	case OFToS:
		x := ref(t.Args[0])
		lo := constStr(mkF64(-9223372036854775808.0))
		hi := constStr(mkF64(9223372036854775808.0))
		return fmt.Sprintf("(ite (and (fp.leq %s %s) (fp.lt %s %s)) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", lo, x, x, hi, x)
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.Op])
	for _, a := range t.Args {
		sb.WriteByte(' ')
		sb.WriteString(ref(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

func constStr(t *Term) string {
	switch t.S {
	case SBool:
		if t.C == 1 {
			return "true"
		}
		return "false"
	case SBV:
		if t.W%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.W/4), t.C)
		}
		s := strconv.FormatUint(t.C, 2)
		for len(s) < int(t.W) {
			s = "0" + s
		}
		return "#b" + s
	}
	if f := f64(t); f != f {
		return "(_ NaN 11 53)"
	}
	return fmt.Sprintf("(fp #b%01b #b%011b #x%013x)", t.C>>63, (t.C>>52)&0x7ff, t.C&0xfffffffffffff)
}

func (t *Term) String() string { return t.str(4) }
func (t *Term) str(d int) string {
	if d == 0 && len(t.Args) > 0 {
		return fmt.Sprintf("t%d", t.ID)
	}
	return t.body(func(a *Term) string { return a.str(d - 1) })
}

// reapply rebuilds an arithmetic term over new arguments, with simplification.
func reapply(t *Term, a []*Term) *Term {
	switch t.Op {
	case OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OBAnd, OBOr, OXor, OShl, OLShr, OAShr:
		return BV(t.Op, a[0], a[1])
	case ONeg:
		return Neg(a[0])
	case OBNot:
		return BNot(a[0])
	case OULt, OULe, OSLt, OSLe:
		return Cmp(t.Op, a[0], a[1])
	case OTrunc:
		return Resize(a[0], t.W, false)
	case OZext:
		return Resize(a[0], t.W, false)
	case OSext:
		return Resize(a[0], t.W, true)
	case OFAdd, OFSub, OFMul, OFDiv:
		return FBin(t.Op, a[0], a[1])
	case OFNeg:
		return FNeg(a[0])
	case OFLt, OFLe, OFEq:
		return FCmp(t.Op, a[0], a[1])
	case OFFromS:
		return FFromInt(a[0], true)
	case OFFromU:
		return FFromInt(a[0], false)
	case OFToS:
		return FToS(a[0])
	case OFIsNaN:
		return FIsNaN(a[0])
	}
	return mk(t.Op, t.S, t.W, t.C, t.Name, a...)
}
