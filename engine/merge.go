package main

// Provenance, projection and subsumption of symbolic states.
//
// A state is a set of concrete states { values(x) | guard(x) }.  Guards only
// mention variables that the state's values still depend on: constraints on
// variables no value depends on are projected out (they are satisfiable: every
// state carries a witness).  Merging two states introduces a fresh boolean that
// selects the incoming history.  Provenance records (Rec) keep what is needed
// to turn a model of the final query back into a full schedule with inputs.

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
)

type Rec struct {
	// leaf: one transition
	parent *Rec
	tr     string
	depth  int
	full   *Term // constraint before projection (nil while in flight)
	// merge
	m    *Term
	a, b *Rec
	ga   *Term
	// definition of a fresh variable
	def *Term
	// variables the state depends on after this record
	live map[*Term]bool
}

func liveVars(g *Term, terms []*Term) map[*Term]bool {
	m := map[*Term]bool{}
	for _, v := range varsOf(g) {
		m[v] = true
	}
	for _, t := range terms {
		for _, v := range varsOf(t) {
			m[v] = true
		}
	}
	return m
}

// backtrace turns a model of rec's state into schedule and inputs.
func (ex *Exec) backtrace(rec *Rec, m *Model) (map[int]string, *Model) {
	sched := map[int]string{}
	acc := map[*Term]uint64{}
	for k, v := range m.m {
		acc[k] = v
	}
	extend := func(t *Term, live map[*Term]bool) {
		c := []*Term{t}
		for _, v := range varsOf(t) {
			if x, ok := acc[v]; ok && live[v] {
				c = append(c, eqConst(v, x))
			}
		}
		r, n := ex.sol.Check(And(c...), true)
		if r != Sat {
			if debugGuards {
				fmt.Println("EXTEND", t.str(8), acc)
			}
			panic(Unsupported{"provenance: cannot extend a model (" + r.String() + ")"})
		}
		for k, v := range n.m {
			acc[k] = v
		}
	}
	for rec != nil {
		switch {
		case rec.def != nil:
			extend(rec.def, rec.live)
			rec = rec.a
		case rec.a != nil:
			mm := &Model{m: acc}
			left := false
			if rec.m != nil {
				left = acc[rec.m] == 1
			} else {
				left = mm.holds(rec.ga)
			}
			if left {
				rec = rec.a
			} else {
				rec = rec.b
			}
		default:
			if rec.full != nil {
				extend(rec.full, rec.live)
			}
			sched[rec.depth] = rec.tr
			rec = rec.parent
		}
	}
	return sched, &Model{m: acc}
}

func eqConst(v *Term, x uint64) *Term {
	switch v.S {
	case SBool:
		if x == 1 {
			return v
		}
		return Not(v)
	case SBV:
		return Eq(v, mkBV(x, v.W))
	}
	c := mk(OConst, SF64, 64, x, "")
	return mk(OEq, SBool, 1, 0, "", v, c)
}

var varMemo = map[*Term][]*Term{}

// varsOf returns the variables of t in a deterministic order.
func varsOf(t *Term) []*Term {
	if t.Op == OConst {
		return nil
	}
	if r, ok := varMemo[t]; ok {
		return r
	}
	var r []*Term
	if t.Op == OVar {
		r = []*Term{t}
	} else if len(t.Args) == 1 {
		r = varsOf(t.Args[0])
	} else {
		seen := map[*Term]bool{}
		for _, a := range t.Args {
			for _, v := range varsOf(a) {
				if !seen[v] {
					seen[v] = true
					r = append(r, v)
				}
			}
		}
	}
	varMemo[t] = r
	return r
}

// subst replaces variables in t.
type substituter struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
}

func (s *substituter) term(t *Term) *Term {
	if t.Op == OConst {
		return t
	}
	if t.Op == OVar {
		if r, ok := s.m[t]; ok {
			return r
		}
		if r, ok := s.memo[t]; ok {
			return r
		}
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	hit := false
	for _, v := range varsOf(t) {
		if _, ok := s.m[v]; ok {
			hit = true
			break
		}
	}
	r := t
	if hit {
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = s.term(a)
		}
		r = rebuild(t, args)
	}
	s.memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OEq:
		if a[0].S == SF64 {
			if a[0] == a[1] {
				return True
			}
			return mk(OEq, SBool, 1, 0, "", a[0], a[1])
		}
		return Eq(a[0], a[1])
	}
	return reapply(t, a)
}

// mapVal applies s to every term in v.
func (s *substituter) val(v Value) Value {
	list := func(l []Value) ([]Value, bool) {
		var out []Value
		for i, x := range l {
			y := s.val(x)
			if out == nil && !sameVal(x, y) {
				out = append([]Value(nil), l...)
			}
			if out != nil {
				out[i] = y
			}
		}
		if out == nil {
			return l, false
		}
		return out, true
	}
	switch v := v.(type) {
	case *Term:
		return s.term(v)
	case Iface:
		if v.T == nil {
			return v
		}
		return Iface{v.T, s.val(v.V)}
	case *Struct:
		if l, ch := list(v.f); ch {
			return &Struct{f: l}
		}
	case *FuncV:
		if v == nil {
			return v
		}
		if l, ch := list(v.binds); ch {
			return &FuncV{fn: v.fn, binds: l}
		}
	case *MapV:
		var out []MapEnt
		for i, e := range v.ents {
			y := s.val(e.v)
			if out == nil && !sameVal(y, e.v) {
				out = append([]MapEnt(nil), v.ents...)
			}
			if out != nil {
				out[i].v = y
			}
		}
		if out != nil {
			return &MapV{ents: out}
		}
	case *ChanV:
		if l, ch := list(v.buf); ch {
			n := *v
			n.buf = l
			return &n
		}
	case *Union:
		var o []Alt
		ch := false
		for _, a := range v.alts {
			g := s.term(a.g)
			if g != a.g {
				ch = true
			}
			if g == True {
				return a.v
			}
			if g != False {
				o = append(o, Alt{g, a.v})
			}
		}
		if !ch {
			return v
		}
		if len(o) == 1 {
			return o[0].v
		}
		return &Union{alts: o}
	}
	return v
}

func (ex *Exec) substState(st *State, m map[*Term]*Term) {
	s := &substituter{m, map[*Term]*Term{}}
	for o := 1; o < len(st.heap); o++ {
		if o < ex.perm && st.heap[o] == ex.initHeap[o] {
			continue
		}
		st.heap[o] = s.val(st.heap[o])
	}
	lst := func(l []Value) []Value {
		if l == nil {
			return nil
		}
		o := make([]Value, len(l))
		for i, v := range l {
			o[i] = s.val(v)
		}
		return o
	}
	for i, g := range st.gs {
		n := *g
		n.frames = make([]*Frame, len(g.frames))
		for j, f := range g.frames {
			nf := *f
			n.frames[j] = &nf
			nf.args = lst(f.args)
			nf.regs = lst(f.regs)
			nf.binds = lst(f.binds)
			if f.panic != nil {
				p := *f.panic
				p.val = s.val(p.val)
				nf.panic = &p
			}
			nf.defers = make([]DeferRec, len(f.defers))
			for d, r := range f.defers {
				nf.defers[d] = DeferRec{fn: s.val(r.fn), args: lst(r.args)}
			}
		}
		st.gs[i] = &n
	}
	st.guard = s.term(st.guard)
}

// units extracts variable bindings implied by the guard.
func units(g *Term) map[*Term]*Term {
	var m map[*Term]*Term
	put := func(v, c *Term) {
		if m == nil {
			m = map[*Term]*Term{}
		}
		if _, ok := m[v]; !ok {
			m[v] = c
		}
	}
	for _, c := range conj(g) {
		switch {
		case c.Op == OVar:
			put(c, True)
		case c.Op == ONot && c.Args[0].Op == OVar:
			put(c.Args[0], False)
		case c.Op == OEq && c.Args[0].Op == OVar && c.Args[1].IsConst() && c.Args[0].S == SBV:
			put(c.Args[0], c.Args[1])
		}
	}
	return m
}

// settle substitutes implied bindings and projects the guard; it fills in the
// leaf record.  It returns the state's merge key and keyer.
func (ex *Exec) settle(r *State) (string, *keyer) {
	if r.rec != nil {
		n := *r.rec
		n.full = r.guard
		r.rec = &n
	} else {
		r.rec = &Rec{full: r.guard}
	}
	for {
		u := units(r.guard)
		if u == nil {
			break
		}
		ex.substState(r, u)
	}
	k, kr := ex.key(r)
	ex.normalise(r, kr)
	r.guard = project(r.guard, kr.terms)
	r.rec.live = liveVars(r.guard, kr.terms)
	r.known = map[*Term]bool{}
	r.races = nil
	return k, kr
}

// project drops the conjuncts not connected to the variables of live terms.
func project(g *Term, live []*Term) *Term {
	if g == True {
		return g
	}
	lv := map[*Term]bool{}
	for _, t := range live {
		for _, v := range varsOf(t) {
			lv[v] = true
		}
	}
	cs := conj(g)
	keep := make([]bool, len(cs))
	for ch := true; ch; {
		ch = false
		for i, c := range cs {
			if keep[i] {
				continue
			}
			hit := false
			for _, v := range varsOf(c) {
				if lv[v] {
					hit = true
					break
				}
			}
			if hit {
				keep[i] = true
				ch = true
				for _, v := range varsOf(c) {
					lv[v] = true
				}
			}
		}
	}
	var o []*Term
	for i, c := range cs {
		if keep[i] {
			o = append(o, c)
		}
	}
	return And(o...)
}

// fullKey identifies a state up to renaming of its variables.
func (ex *Exec) fullKey(k string, st *State, terms []*Term, cells []byte) string {
	m := map[*Term]*Term{}
	num := func(t *Term) {
		for _, v := range varsOf(t) {
			if _, ok := m[v]; !ok {
				m[v] = mkVar(fmt.Sprintf("c%d_%d%d", len(m), v.S, v.W), v.S, v.W)
			}
		}
	}
	for _, t := range terms {
		num(t)
	}
	cs := conj(st.guard)
	for _, c := range cs {
		num(c)
	}
	s := &substituter{m, map[*Term]*Term{}}
	buf := append([]byte(k), cells...)
	buf = append(buf, '|')
	for _, t := range terms {
		buf = binary.AppendVarint(buf, int64(s.term(t).ID))
	}
	buf = append(buf, '|')
	if st.guard != True {
		buf = binary.AppendVarint(buf, int64(s.term(st.guard).ID))
	}
	h := fnv.New128a()
	h.Write(buf)
	return string(h.Sum(nil))
}

type group struct {
	st   *State
	key  string
	seen map[string]bool
}

type layerIdx struct {
	m     map[string]*group
	order []*group
}

func (ex *Exec) merge(idx *layerIdx, r *State) {
	if r.done {
		return // main has returned: nothing further is asserted
	}
	k, kr := ex.settle(r)
	fk := ex.fullKey(k, r, kr.terms, kr.cells)
	if ex.visited[fk] {
		ex.nRevisit++
		return
	}
	if g, ok := idx.m[k]; ok {
		ex.nMerged++
		if g.seen[fk] {
			return
		}
		g.seen[fk] = true
		ex.mergeInto(g.st, r)
		return
	}
	g := &group{st: r, key: k, seen: map[string]bool{fk: true}}
	idx.m[k] = g
	idx.order = append(idx.order, g)
}

// closeLayer finishes the merged states of a layer and drops those seen at an
// earlier depth.
func (ex *Exec) closeLayer(idx *layerIdx) []*State {
	var out []*State
	for _, g := range idx.order {
		st := g.st
		k2, kr := ex.key(st)
		ex.reencode(st, kr)
		k2, kr = ex.key(st)
		if st.rec.def != nil && st.rec.live == nil {
			st.rec.live = liveVars(st.guard, kr.terms)
		}
		fk := ex.fullKey(k2, st, kr.terms, kr.cells)
		if ex.visited[fk] {
			ex.nRevisit++
			continue
		}
		for x := range g.seen {
			ex.visited[x] = true
		}
		ex.visited[fk] = true
		st.wit = restrict(st.wit, st.guard, kr.terms)
		if debugGuards {
			vs := map[*Term]bool{}
			for _, t := range append(kr.terms, st.guard) {
				for _, v := range varsOf(t) {
					vs[v] = true
				}
			}
			fmt.Printf("  group in=%d terms=%d guard=%d vars=%d\n", len(g.seen), len(kr.terms), dagSize(st.guard), len(vs))
		}
		st.ev = nil
		if debugGuards && !st.wit.holds(st.guard) {
			fmt.Println("BAD WITNESS", st.guard, st.wit.m)
		}
		out = append(out, st)
	}
	return out
}

func restrict(m *Model, g *Term, terms []*Term) *Model {
	n := &Model{m: map[*Term]uint64{}}
	add := func(t *Term) {
		for _, v := range varsOf(t) {
			if x, ok := m.m[v]; ok {
				n.m[v] = x
			}
		}
	}
	add(g)
	for _, t := range terms {
		add(t)
	}
	return n
}

// reencode rewrites the symbolic cells of a state over a minimal set of fresh
// variables: for each independent group of cells whose variables have small
// domains, the set of value tuples is computed and re-expressed through one
// selector (independent cells get their own).  This keeps formulas small and
// makes equal state sets look equal.
func (ex *Exec) reencode(st *State, kr *keyer) {
	if len(kr.terms) == 0 {
		return
	}
	var terms []*Term
	seenT := map[*Term]bool{}
	for _, t := range kr.terms {
		if !seenT[t] {
			seenT[t] = true
			terms = append(terms, t)
		}
	}
	cs := conj(st.guard)
	// components over variables
	uf := map[*Term]*Term{}
	var find func(v *Term) *Term
	find = func(v *Term) *Term {
		if p, ok := uf[v]; ok && p != v {
			r := find(p)
			uf[v] = r
			return r
		}
		uf[v] = v
		return v
	}
	join := func(t *Term) {
		vs := varsOf(t)
		for _, v := range vs {
			if a, b := find(vs[0]), find(v); a != b {
				uf[b] = a
			}
		}
	}
	for _, t := range terms {
		join(t)
	}
	for _, c := range cs {
		join(c)
	}
	type comp struct {
		cells []*Term
		cons  []*Term
		vars  []*Term
		wide  bool
	}
	comps := map[*Term]*comp{}
	var order []*comp
	get := func(t *Term) *comp {
		r := find(varsOf(t)[0])
		c := comps[r]
		if c == nil {
			c = &comp{}
			comps[r] = c
			order = append(order, c)
		}
		return c
	}
	for _, t := range terms {
		c := get(t)
		c.cells = append(c.cells, t)
	}
	for _, t := range cs {
		if len(varsOf(t)) == 0 {
			continue
		}
		c := get(t)
		c.cons = append(c.cons, t)
	}
	rep := map[*Term]*Term{}
	var defs, guard []*Term
	changed := false
	for _, c := range order {
		seen := map[*Term]bool{}
		for _, t := range append(append([]*Term{}, c.cells...), c.cons...) {
			for _, v := range varsOf(t) {
				if !seen[v] {
					seen[v] = true
					c.vars = append(c.vars, v)
					if domain(v) == nil {
						c.wide = true
					}
				}
			}
		}
		if c.wide || len(c.vars) == 1 && len(c.cons) == 0 && len(c.cells) == 1 && c.cells[0].Op == OVar {
			guard = append(guard, c.cons...)
			continue
		}
		tuples, ok := enumTuples(And(c.cons...), c.cells, ex.opt.MaxTuples)
		if !ok {
			ex.nWide++
			guard = append(guard, c.cons...)
			continue
		}
		changed = true
		var eqs []*Term
		for _, grp := range factorTuples(len(c.cells), tuples) {
			cells, tup := grp.cells, grp.tuples
			if len(tup) == 1 {
				for i, ci := range cells {
					rep[c.cells[ci]] = constLike(c.cells[ci], tup[0][i])
				}
				continue
			}
			ex.nFresh++
			if len(cells) == 1 && c.cells[cells[0]].S == SBool {
				p := mkVar(fmt.Sprintf("p%d", ex.nFresh), SBool, 1)
				t := c.cells[cells[0]]
				rep[t] = p
				eqs = append(eqs, Eq(p, t))
				st.wit = st.wit.with(p, newEval(st.wit).eval(t))
				continue
			}
			if len(tup) > 250 {
				panic(Unsupported{"tuple set too large"})
			}
			p := mkVar(fmt.Sprintf("q%d", ex.nFresh), SBV, 8)
			smallDom[p] = len(tup)
			guard = append(guard, Cmp(OULt, p, mkBV(uint64(len(tup)), 8)))
			ev := newEval(st.wit)
			for j, row := range tup {
				match := true
				for i, ci := range cells {
					if ev.eval(c.cells[ci]) != row[i] {
						match = false
						break
					}
				}
				if match {
					st.wit = st.wit.with(p, uint64(j))
				}
			}
			for i, ci := range cells {
				t := c.cells[ci]
				var n *Term
				if t.S == SBool {
					var or []*Term
					for j, row := range tup {
						if row[i] == 1 {
							or = append(or, Eq(p, mkBV(uint64(j), 8)))
						}
					}
					n = Or(or...)
				} else {
					for j := len(tup) - 1; j >= 0; j-- {
						x := constLike(t, tup[j][i])
						if n == nil {
							n = x
						} else {
							n = Ite(Eq(p, mkBV(uint64(j), 8)), x, n)
						}
					}
				}
				rep[t] = n
				if t.S == SF64 {
					eqs = append(eqs, mk(OEq, SBool, 1, 0, "", n, t))
				} else {
					eqs = append(eqs, Eq(n, t))
				}
			}
		}
		defs = append(defs, And(c.cons...), And(eqs...))
	}
	if !changed {
		return
	}
	s := &substituter{map[*Term]*Term{}, rep}
	for o := 1; o < len(st.heap); o++ {
		if o < ex.perm && st.heap[o] == ex.initHeap[o] {
			continue
		}
		st.heap[o] = s.val(st.heap[o])
	}
	lst := func(l []Value) []Value {
		if l == nil {
			return nil
		}
		o := make([]Value, len(l))
		for i, v := range l {
			o[i] = s.val(v)
		}
		return o
	}
	for i, g := range st.gs {
		n := *g
		n.frames = make([]*Frame, len(g.frames))
		for j, f := range g.frames {
			nf := *f
			n.frames[j] = &nf
			nf.args = lst(f.args)
			nf.regs = lst(f.regs)
			if f.panic != nil {
				p := *f.panic
				p.val = s.val(p.val)
				nf.panic = &p
			}
			nf.defers = make([]DeferRec, len(f.defers))
			for d, r := range f.defers {
				nf.defers[d] = DeferRec{fn: s.val(r.fn), args: lst(r.args)}
			}
		}
		st.gs[i] = &n
	}
	st.guard = And(guard...)
	st.rec = &Rec{def: And(defs...), a: st.rec}
}

func constLike(t *Term, x uint64) *Term {
	if t.S == SBool {
		return mkBool(x == 1)
	}
	return mk(OConst, t.S, t.W, x, "")
}

// smallDom records variables with a known small domain 0..n-1 (selectors) or
// lo..hi (bounded inputs).
var smallDom = map[*Term]int{}
var boundDom = map[*Term][2]int64{}

func noteDomain(v *Term, lo, hi int64) {
	if b, ok := boundDom[v]; ok {
		lo, hi = min(lo, b[0]), max(hi, b[1])
	}
	if b, ok := boundDom[v]; !ok || b != [2]int64{lo, hi} {
		clearRanges()
	}
	boundDom[v] = [2]int64{lo, hi}
}

func domain(v *Term) []uint64 {
	if v.S == SBool {
		return []uint64{0, 1}
	}
	if n, ok := smallDom[v]; ok {
		r := make([]uint64, n)
		for i := range r {
			r[i] = uint64(i)
		}
		return r
	}
	if b, ok := boundDom[v]; ok && uint64(b[1])-uint64(b[0]) < 64 {
		var r []uint64
		for x := b[0]; x <= b[1]; x++ {
			r = append(r, uint64(x)&maskW(v.W))
		}
		return r
	}
	return nil
}

// enumTuples computes the values the cells take together under cons.
func enumTuples(cons *Term, cells []*Term, max int) ([][]uint64, bool) {
	set := map[string][]uint64{}
	budget := 20000
	var rec func(cons *Term, cells []*Term) bool
	rec = func(cons *Term, cells []*Term) bool {
		if cons == False {
			return true
		}
		budget--
		if budget < 0 {
			return false
		}
		// pick the variable that occurs first in the constraint, merge
		// selectors first
		var v *Term
		pick := func(t *Term) {
			for _, x := range varsOf(t) {
				if v == nil || x.Name[0] == 'm' && (v.Name[0] != 'm' || x.ID > v.ID) {
					v = x
				}
			}
		}
		pick(cons)
		for _, c := range cells {
			pick(c)
		}
		if v == nil {
			if cons != True {
				return true
			}
			row := make([]uint64, len(cells))
			var key []byte
			for i, c := range cells {
				row[i] = c.C
				key = binary.AppendUvarint(key, c.C)
			}
			set[string(key)] = row
			return len(set) <= max
		}
		for _, x := range domain(v) {
			var k *Term
			if v.S == SBool {
				k = mkBool(x == 1)
			} else {
				k = mkBV(x, v.W)
			}
			s := &substituter{map[*Term]*Term{v: k}, map[*Term]*Term{}}
			nc := s.term(cons)
			if nc == False {
				continue
			}
			cl := make([]*Term, len(cells))
			for i, c := range cells {
				cl[i] = s.term(c)
			}
			if !rec(nc, cl) {
				return false
			}
		}
		return true
	}
	if !rec(cons, cells) {
		return nil, false
	}
	var keys []string
	for k := range set {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := make([][]uint64, len(keys))
	for i, k := range keys {
		out[i] = set[k]
	}
	return out, true
}

type tupGroup struct {
	cells  []int
	tuples [][]uint64
}

func projTuples(cells []int, tuples [][]uint64) [][]uint64 {
	seen := map[string]bool{}
	var out [][]uint64
	for _, t := range tuples {
		row := make([]uint64, len(cells))
		var key []byte
		for i, c := range cells {
			row[i] = t[c]
			key = binary.AppendUvarint(key, t[c])
		}
		if !seen[string(key)] {
			seen[string(key)] = true
			out = append(out, row)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		for k := range out[i] {
			if out[i][k] != out[j][k] {
				return out[i][k] < out[j][k]
			}
		}
		return false
	})
	return out
}

// factorTuples splits the tuple set into a product of independent groups.
func factorTuples(n int, tuples [][]uint64) []tupGroup {
	par := make([]int, n)
	for i := range par {
		par[i] = i
	}
	find := func(i int) int {
		for par[i] != i {
			i = par[i]
		}
		return i
	}
	single := make([]int, n)
	for i := range single {
		single[i] = len(projTuples([]int{i}, tuples))
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if find(i) != find(j) && len(projTuples([]int{i, j}, tuples)) != single[i]*single[j] {
				par[find(j)] = find(i)
			}
		}
	}
	idx := map[int]int{}
	var gs []tupGroup
	for i := 0; i < n; i++ {
		r := find(i)
		k, ok := idx[r]
		if !ok {
			k = len(gs)
			idx[r] = k
			gs = append(gs, tupGroup{})
		}
		gs[k].cells = append(gs[k].cells, i)
	}
	prod := 1
	for i := range gs {
		gs[i].tuples = projTuples(gs[i].cells, tuples)
		prod *= len(gs[i].tuples)
	}
	if prod != len(tuples) {
		all := make([]int, n)
		for i := range all {
			all[i] = i
		}
		return []tupGroup{{all, projTuples(all, tuples)}}
	}
	return gs
}

var debugGuards = os.Getenv("VP_GUARDS") != ""

func dagSize(t *Term) int {
	seen := map[*Term]bool{}
	var f func(*Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			f(a)
		}
	}
	f(t)
	return len(seen)
}
