package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type PanicRec struct {
	val       Value
	goexit    bool
	recovered bool
}

type DeferRec struct {
	fn   Value // *FuncV or BuiltinV
	args []Value
}

type Frame struct {
	fi         *FnInfo
	regs       []Value
	binds      []Value
	block, pc  int
	defers     []DeferRec
	panic      *PanicRec
	deferCall  bool
	recovering bool
	// native frames
	nat   *NativeFn
	args  []Value
	phase int
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = append([]Value(nil), f.regs...)
	n.defers = append([]DeferRec(nil), f.defers...)
	return &n
}

type Gor struct {
	name   string
	uid    int // unique in concrete mode
	frames []*Frame
	nspawn int
	// with race checks: locks held; not yet started
	held  []Held
	fresh bool
}

func (g *Gor) top() *Frame { return g.frames[len(g.frames)-1] }
func (g *Gor) clone() *Gor {
	n := *g
	n.frames = make([]*Frame, len(g.frames))
	for i, f := range g.frames {
		n.frames[i] = f.clone()
	}
	return &n
}

type State struct {
	guard *Term
	wit   *Model
	ev    *evaluator
	known map[*Term]bool
	heap  []Value
	gs    []*Gor
	runq  []string
	grant string
	seq   int
	depth int
	steps int
	done  bool // main returned
	// accesses of the current transition, for the race check
	races    *raceLog
	raceHeap int
	lastTr   *Trans
	rec      *Rec
}

func (st *State) clone() *State {
	n := *st
	n.known = make(map[*Term]bool, len(st.known)+1)
	for k, v := range st.known {
		n.known[k] = v
	}
	n.heap = append(make([]Value, 0, len(st.heap)+16), st.heap...)
	n.gs = append([]*Gor(nil), st.gs...)
	n.runq = append([]string(nil), st.runq...)
	// goroutines being executed are mutable: copy them
	for i, g := range n.gs {
		for _, r := range n.runq {
			if r == g.name {
				n.gs[i] = g.clone()
				break
			}
		}
	}
	if st.races != nil {
		n.races = st.races.clone()
	}
	return &n
}

func (st *State) eval(t *Term) bool {
	if t.IsConst() {
		return t.C == 1
	}
	if st.ev == nil || st.ev.m != st.wit {
		st.ev = newEval(st.wit)
	}
	return st.ev.eval(t) == 1
}

func (st *State) gor(name string) *Gor {
	for _, g := range st.gs {
		if g.name == name {
			return g
		}
	}
	return nil
}

func (st *State) removeGor(name string) {
	for i, g := range st.gs {
		if g.name == name {
			st.gs = append(append([]*Gor(nil), st.gs[:i]...), st.gs[i+1:]...)
			return
		}
	}
}

func (st *State) addGor(g *Gor) {
	l := append(append([]*Gor(nil), st.gs...), g)
	sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
	st.gs = l
}

func (st *State) alloc(v Value) ObjID {
	st.heap = append(st.heap, v)
	return ObjID(len(st.heap) - 1)
}

func (st *State) load(p Ptr) Value {
	if p.O == 0 {
		panic(goPanic{"invalid memory address or nil pointer dereference"})
	}
	return getPath(st.heap[p.O], p.P)
}

func (st *State) store(p Ptr, v Value) {
	if p.O == 0 {
		panic(goPanic{"invalid memory address or nil pointer dereference"})
	}
	st.heap[p.O] = setPath(st.heap[p.O], p.P, v)
}

// ---- function info: register numbering and liveness ----

type FnInfo struct {
	fn     *ssa.Function
	id     int
	name   string
	idx    map[ssa.Value]int
	nregs  int
	live   map[int][]int // block<<16|pc -> live-in registers
	lout   [][]bool
	always []int
	redir  *ssa.Function
	intr   intrinsic
	nat    *NativeFn
	inline bool // visible operations directly in this function are not scheduling points
	vpm    bool
	sut    bool
	pkg    string
	instrs map[*ssa.BasicBlock]int
}

func (fi *FnInfo) prepare() {
	if fi.idx != nil {
		return
	}
	fi.idx = map[ssa.Value]int{}
	add := func(v ssa.Value) { fi.idx[v] = len(fi.idx) }
	for _, p := range fi.fn.Params {
		add(p)
	}
	for _, p := range fi.fn.FreeVars {
		add(p)
	}
	for _, b := range fi.fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = len(fi.idx)
	fi.live = map[int][]int{}
	fi.computeLive()
}

func (fi *FnInfo) uses(in ssa.Instruction, f func(int)) {
	var buf [8]*ssa.Value
	for _, op := range in.Operands(buf[:0]) {
		if *op == nil {
			continue
		}
		if i, ok := fi.idx[*op]; ok {
			f(i)
		}
	}
}

func (fi *FnInfo) computeLive() {
	n := len(fi.fn.Blocks)
	fi.lout = make([][]bool, n)
	lin := make([][]bool, n)
	for i := range lin {
		fi.lout[i] = make([]bool, fi.nregs)
		lin[i] = make([]bool, fi.nregs)
	}
	if fi.fn.Recover != nil {
		m := map[int]bool{}
		for _, in := range fi.fn.Recover.Instrs {
			fi.uses(in, func(i int) { m[i] = true })
		}
		for i := range m {
			fi.always = append(fi.always, i)
		}
		sort.Ints(fi.always)
	}
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fi.fn.Blocks[bi]
			out := fi.lout[bi]
			for _, s := range b.Succs {
				for i, v := range lin[s.Index] {
					if v && !out[i] {
						out[i] = true
						changed = true
					}
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b {
							if i, ok := fi.idx[phi.Edges[k]]; ok && !out[i] {
								out[i] = true
								changed = true
							}
						}
					}
				}
				_ = pi
			}
			cur := append([]bool(nil), out...)
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					cur[fi.idx[v]] = false
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				fi.uses(in, func(i int) { cur[i] = true })
			}
			for i, v := range cur {
				if v && !lin[bi][i] {
					lin[bi][i] = true
					changed = true
				}
			}
		}
	}
}

// liveAt: registers live before (block, pc); if after is set, live after the
// instruction, excluding its own result.
func (fi *FnInfo) liveAt(block, pc int, after bool) []int {
	k := block<<17 | pc<<1
	if after {
		k |= 1
	}
	if l, ok := fi.live[k]; ok {
		return l
	}
	b := fi.fn.Blocks[block]
	cur := append([]bool(nil), fi.lout[block]...)
	for i := len(b.Instrs) - 1; i >= pc; i-- {
		in := b.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			cur[fi.idx[v]] = false
		}
		if after && i == pc {
			break
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		fi.uses(in, func(i int) { cur[i] = true })
	}
	for _, i := range fi.always {
		cur[i] = true
	}
	l := []int{}
	for i, v := range cur {
		if v {
			l = append(l, i)
		}
	}
	fi.live[k] = l
	return l
}

// ---- canonical key ----

type keyer struct {
	st    *State
	ex    *Exec
	buf   []byte
	num   map[ObjID]int
	order []ObjID
	fns   []*FuncV
	terms []*Term // symbolic terms, in traversal order
	cells []byte  // contents of the positions that merging abstracts from
}

func (k *keyer) cell(v Value) {
	switch v := v.(type) {
	case *Term:
		if v.IsConst() {
			k.cells = append(k.cells, 1)
			k.cells = binary.AppendUvarint(k.cells, v.C)
			return
		}
		k.cells = append(k.cells, 2)
		k.terms = append(k.terms, v)
	case string:
		k.cells = append(k.cells, 3)
		k.cells = binary.AppendUvarint(k.cells, uint64(len(v)))
		k.cells = append(k.cells, v...)
	case Ptr:
		k.cells = append(k.cells, 4)
		k.cells = binary.AppendUvarint(k.cells, uint64(v.O))
		if v.P != nil {
			k.cells = binary.AppendUvarint(k.cells, uint64(v.P.id))
		} else {
			k.cells = append(k.cells, 0)
		}
	case Iface:
		if v.T == nil {
			k.cells = append(k.cells, 5)
			return
		}
		k.cells = append(k.cells, 6)
		k.cells = binary.AppendUvarint(k.cells, uint64(v.T.id))
		k.cell(v.V)
	case *Union:
		k.cells = append(k.cells, 7, byte(len(v.alts)))
		for _, a := range v.alts {
			k.cell(a.v)
			k.cell(a.g)
		}
	default:
		panic(fmt.Sprintf("cell %T", v))
	}
}

const (
	kT = iota + 1
	kInt
	kStr
	kPtr
	kNil
	kE
	kIface
	kStruct
	kSlice
	kFunc
	kMap
	kChan
	kMapV
	kChanV
	kMisc
	kUnion
	kIter
	kFrame
	kNative
	kGor
)

func (k *keyer) i(n int) { k.buf = binary.AppendVarint(k.buf, int64(n)) }
func (k *keyer) s(s string) {
	k.i(len(s))
	k.buf = append(k.buf, s...)
}

func (k *keyer) obj(o ObjID) {
	if int(o) < k.ex.perm {
		k.i(-int(o))
		return
	}
	n, ok := k.num[o]
	if !ok {
		k.order = append(k.order, o)
		n = len(k.order)
		k.num[o] = n
	}
	k.i(n)
}

func mergeableIface(ex *Exec, v Iface) bool {
	if v.T == nil {
		return true
	}
	if !v.T.err {
		return false
	}
	switch x := v.V.(type) {
	case string:
		return true
	case Ptr:
		return int(x.O) < ex.perm
	}
	return false
}

func (k *keyer) val(v Value, reg bool) {
	switch v := v.(type) {
	case nil:
		k.i(0)
	case *Term:
		k.cell(v)
		if (reg || k.ex.opt.StrictInts) && v.IsConst() && (v.S == SBV || v.S == SF64) {
			k.i(kInt)
			k.i(int(v.C))
		} else if k.ex.opt.StrictBools && v.IsConst() && v.S == SBool {
			k.i(kInt)
			k.i(int(v.C))
		} else {
			k.i(kT)
		}
	case string:
		k.i(kStr)
		k.s(v)
	case Ptr:
		if v.O == 0 {
			k.i(kNil)
			return
		}
		k.i(kPtr)
		if v.P != nil {
			k.i(v.P.id)
		} else {
			k.i(0)
		}
		k.obj(v.O)
	case MapRef:
		k.i(kMap)
		if v.O == 0 {
			k.i(0)
		} else {
			k.obj(v.O)
		}
	case ChanRef:
		k.i(kChan)
		if v.O == 0 {
			k.i(0)
		} else {
			k.obj(v.O)
		}
	case Slice:
		k.i(kSlice)
		if v.O == 0 {
			k.i(0)
			return
		}
		if v.P != nil {
			k.i(v.P.id)
		} else {
			k.i(0)
		}
		k.i(v.Off)
		k.i(v.Len)
		k.i(v.Cap)
		k.obj(v.O)
	case Iface:
		if mergeableIface(k.ex, v) {
			k.i(kE)
			k.cell(v)
			if !k.ex.opt.MergeErrs {
				if v.T == nil {
					k.i(0)
				} else {
					k.i(v.T.id)
					k.val(v.V, false)
				}
			}
			return
		}
		k.i(kIface)
		k.i(v.T.id)
		k.val(v.V, false)
	case *Union:
		// unions only ever hold mergeable interfaces
		k.i(kE)
		k.cell(v)
	case *Struct:
		k.i(kStruct)
		k.i(len(v.f))
		for _, x := range v.f {
			k.val(x, false)
		}
	case *FuncV:
		k.i(kFunc)
		if v == nil {
			k.i(0)
			return
		}
		k.i(k.ex.info(v.fn).id)
		for _, b := range v.binds {
			k.val(b, false)
		}
	case BuiltinV:
		k.s(v.name)
	case *MapV:
		k.i(kMapV)
		k.i(len(v.ents))
		for _, e := range v.ents {
			k.val(e.k, true)
			k.val(e.v, false)
		}
	case *ChanV:
		k.i(kChanV)
		k.i(v.cap)
		if v.closed {
			k.i(1)
		} else {
			k.i(0)
		}
		k.i(len(v.buf))
		for _, e := range v.buf {
			k.val(e, false)
		}
	case *RangeIter:
		k.i(kIter)
		k.i(v.pos)
		k.s(v.str)
		k.i(len(v.keys))
		for _, e := range v.keys {
			k.val(e, true)
		}
		if v.m != 0 {
			k.obj(v.m)
		}
	case MutexV, RWMutexV, WGV, OnceV, CondV:
		k.i(kMisc)
		k.s(fmt.Sprintf("%T%v", v, v))
	default:
		panic(fmt.Sprintf("key of %T", v))
	}
}

func (k *keyer) panicRec(p *PanicRec) {
	if p == nil {
		k.i(0)
		return
	}
	k.i(1)
	k.s(fmt.Sprint(p.goexit, p.recovered))
	k.val(p.val, false)
}

func (k *keyer) gor(g *Gor) {
	k.i(kGor)
	k.s(g.name)
	if g.fresh {
		k.i(-2)
	}
	for _, h := range g.held {
		k.i(-3)
		k.obj(h.O)
		k.i(h.P.id)
		if h.R {
			k.i(-4)
		}
	}
	for fi, f := range g.frames {
		if f.nat != nil {
			k.i(kNative)
			k.s(f.nat.name)
			k.i(f.phase)
			if f.deferCall {
				k.i(1)
			}
			for _, a := range f.args {
				k.val(a, true)
			}
			k.panicRec(f.panic)
			continue
		}
		k.i(kFrame)
		k.i(f.fi.id)
		k.i(f.block)
		k.i(f.pc)
		fl := 0
		if f.deferCall {
			fl |= 1
		}
		if f.recovering {
			fl |= 2
		}
		k.i(fl)
		k.panicRec(f.panic)
		live := f.fi.liveAt(f.block, f.pc, fi < len(g.frames)-1 && !runDefersAt(f))
		for _, r := range live {
			k.i(r)
			k.val(f.regs[r], true)
		}
		for _, d := range f.defers {
			k.val(d.fn, false)
			for _, a := range d.args {
				k.val(a, false)
			}
		}
	}
}

func runDefersAt(f *Frame) bool {
	_, ok := f.fi.fn.Blocks[f.block].Instrs[f.pc].(*ssa.RunDefers)
	return ok || f.panic != nil || f.recovering
}

// key computes the canonical key of a finished transition's state; as a side
// effect it drops dead registers and unreachable objects.
func (ex *Exec) key(st *State) (string, *keyer) {
	k := &keyer{st: st, ex: ex, num: map[ObjID]int{}}
	if st.done {
		k.i(1)
	} else {
		k.i(0)
	}
	// changed permanent objects
	for o := 1; o < ex.perm; o++ {
		if st.heap[o] != ex.initHeap[o] {
			k.i(o)
			k.val(st.heap[o], false)
		}
	}
	k.i(-1)
	for _, g := range st.gs {
		k.gor(g)
	}
	for i := 0; i < len(k.order); i++ {
		k.val(st.heap[k.order[i]], false)
	}
	h := fnv.New128a()
	h.Write(k.buf)
	return string(h.Sum(nil)), k
}

// normalise compacts the heap into canonical numbering and clears dead
// registers.  All values are rewritten only when numbering changes.
func (ex *Exec) normalise(st *State, k *keyer) {
	ren := map[ObjID]ObjID{}
	same := true
	for i, o := range k.order {
		n := ObjID(ex.perm + i)
		ren[o] = n
		if n != o {
			same = false
		}
	}
	if same {
		st.heap = st.heap[:ex.perm+len(k.order)]
		for i, g := range st.gs {
			st.gs[i] = ex.cleanGor(g, nil)
		}
		return
	}
	heap := make([]Value, ex.perm+len(k.order), ex.perm+len(k.order)+32)
	for o := 0; o < ex.perm; o++ {
		if st.heap[o] == ex.initHeap[o] {
			heap[o] = st.heap[o]
		} else {
			heap[o] = rename(st.heap[o], ren, ex.perm)
		}
	}
	for i, o := range k.order {
		heap[ex.perm+i] = rename(st.heap[o], ren, ex.perm)
	}
	st.heap = heap
	gs := make([]*Gor, len(st.gs))
	for i, g := range st.gs {
		gs[i] = ex.cleanGor(g, ren)
	}
	st.gs = gs
}

func (ex *Exec) cleanGor(g *Gor, ren map[ObjID]ObjID) *Gor {
	n := *g
	n.frames = make([]*Frame, len(g.frames))
	if ren != nil && len(g.held) > 0 {
		n.held = make([]Held, len(g.held))
		for i, h := range g.held {
			n.held[i] = Held{rename(Ptr{h.O, h.P}, ren, ex.perm).(Ptr).O, h.P, h.R}
		}
	}
	rn := func(v Value) Value {
		if ren == nil {
			return v
		}
		return rename(v, ren, ex.perm)
	}
	rl := func(l []Value) []Value {
		if l == nil {
			return nil
		}
		o := make([]Value, len(l))
		for i, v := range l {
			o[i] = rn(v)
		}
		return o
	}
	for fi, f := range g.frames {
		nf := *f
		n.frames[fi] = &nf
		nf.args = rl(f.args)
		nf.binds = nil
		if f.panic != nil {
			p := *f.panic
			p.val = rn(p.val)
			nf.panic = &p
		}
		if f.nat != nil {
			continue
		}
		nf.regs = make([]Value, len(f.regs))
		for _, r := range f.fi.liveAt(f.block, f.pc, fi < len(g.frames)-1 && !runDefersAt(f)) {
			nf.regs[r] = rn(f.regs[r])
		}
		nf.defers = make([]DeferRec, len(f.defers))
		for i, d := range f.defers {
			nf.defers[i] = DeferRec{fn: rn(d.fn), args: rl(d.args)}
		}
	}
	return &n
}

func rename(v Value, ren map[ObjID]ObjID, perm int) Value {
	ro := func(o ObjID) ObjID {
		if int(o) < perm {
			return o
		}
		n, ok := ren[o]
		if !ok {
			panic(fmt.Sprintf("rename: unreachable object %d", o))
		}
		return n
	}
	rl := func(l []Value) ([]Value, bool) {
		var out []Value
		for i, x := range l {
			y := rename(x, ren, perm)
			if out == nil && !sameVal(x, y) {
				out = append([]Value(nil), l...)
			}
			if out != nil {
				out[i] = y
			}
		}
		if out == nil {
			return l, false
		}
		return out, true
	}
	switch v := v.(type) {
	case Ptr:
		if v.O != 0 {
			v.O = ro(v.O)
		}
		return v
	case MapRef:
		v.O = ro(v.O)
		return v
	case ChanRef:
		v.O = ro(v.O)
		return v
	case Slice:
		v.O = ro(v.O)
		return v
	case Iface:
		if v.T == nil {
			return v
		}
		return Iface{v.T, rename(v.V, ren, perm)}
	case *Struct:
		if l, ch := rl(v.f); ch {
			return &Struct{f: l}
		}
		return v
	case *FuncV:
		if v == nil {
			return v
		}
		if l, ch := rl(v.binds); ch {
			return &FuncV{fn: v.fn, binds: l}
		}
		return v
	case *MapV:
		n := &MapV{ents: make([]MapEnt, len(v.ents))}
		for i, e := range v.ents {
			n.ents[i] = MapEnt{rename(e.k, ren, perm), rename(e.v, ren, perm)}
		}
		return n
	case *ChanV:
		if l, ch := rl(v.buf); ch {
			n := *v
			n.buf = l
			return &n
		}
		return v
	case *RangeIter:
		n := *v
		n.keys, _ = rl(v.keys)
		if n.m != 0 {
			n.m = ro(n.m)
		}
		return &n
	case *Union:
		return v // permanent objects only
	}
	return v
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		return ok && x.T == y.T && sameVal(x.V, y.V)
	case *Term, string, Ptr, MapRef, ChanRef, Slice, *Struct, *FuncV, *MapV, *ChanV, *RangeIter, *Union, MutexV, RWMutexV, WGV, OnceV, CondV, BuiltinV, nil:
		return a == b
	}
	return false
}

// ---- merging ----

func mergeVal(c *Term, a, b Value) Value {
	if a == nil || b == nil {
		if a == nil && b == nil {
			return nil
		}
		panic("merge nil")
	}
	switch x := a.(type) {
	case *Term:
		return Ite(c, x, b.(*Term))
	case Iface:
		if y, ok := b.(Iface); ok {
			if x.T == y.T {
				if x.T == nil || sameVal(x.V, y.V) {
					return x
				}
				// same dynamic type: merge inside unless these are union alternatives
				switch x.V.(type) {
				case string, Ptr:
				default:
					return Iface{x.T, mergeVal(c, x.V, y.V)}
				}
			}
		}
		return mkUnion(c, a, b)
	case *Union:
		return mkUnion(c, a, b)
	case *Struct:
		y := b.(*Struct)
		if x == y {
			return x
		}
		var out []Value
		for i := range x.f {
			m := mergeVal(c, x.f[i], y.f[i])
			if out == nil && !sameVal(m, x.f[i]) {
				out = append([]Value(nil), x.f...)
			}
			if out != nil {
				out[i] = m
			}
		}
		if out == nil {
			return x
		}
		return &Struct{f: out}
	case *FuncV:
		y := b.(*FuncV)
		if x == nil || x == y {
			return x
		}
		n := &FuncV{fn: x.fn, binds: make([]Value, len(x.binds))}
		for i := range x.binds {
			n.binds[i] = mergeVal(c, x.binds[i], y.binds[i])
		}
		return n
	case *MapV:
		y := b.(*MapV)
		if x == y {
			return x
		}
		n := &MapV{ents: make([]MapEnt, len(x.ents))}
		for i := range x.ents {
			n.ents[i] = MapEnt{x.ents[i].k, mergeVal(c, x.ents[i].v, y.ents[i].v)}
		}
		return n
	case *ChanV:
		y := b.(*ChanV)
		if x == y {
			return x
		}
		n := *x
		n.buf = make([]Value, len(x.buf))
		for i := range x.buf {
			n.buf[i] = mergeVal(c, x.buf[i], y.buf[i])
		}
		return &n
	case *RangeIter:
		return x
	}
	if a != b {
		panic(fmt.Sprintf("merge mismatch %s / %s", showVal(a), showVal(b)))
	}
	return a
}

func mkUnion(c *Term, a, b Value) Value {
	var alts []Alt
	add := func(g *Term, v Value) {
		for i := range alts {
			if sameVal(alts[i].v, v) {
				alts[i].g = Or(alts[i].g, g)
				return
			}
		}
		alts = append(alts, Alt{g, v})
	}
	put := func(g *Term, v Value) {
		if u, ok := v.(*Union); ok {
			for _, al := range u.alts {
				add(And(g, al.g), al.v)
			}
		} else {
			add(g, v)
		}
	}
	put(c, a)
	put(Not(c), b)
	var o []Alt
	for _, x := range alts {
		if x.g != False {
			o = append(o, x)
		}
	}
	if len(o) == 1 {
		return o[0].v
	}
	return &Union{alts: o}
}

// mergeInto merges b into a (both normalised with equal keys).
func (ex *Exec) mergeInto(a, b *State) {
	ex.nFresh++
	c := mkVar(fmt.Sprintf("m%d", ex.nFresh), SBool, 1)
	diff := false
	for o := range a.heap {
		if o == 0 {
			continue
		}
		if !sameVal(a.heap[o], b.heap[o]) {
			v := mergeVal(c, a.heap[o], b.heap[o])
			if !sameVal(v, a.heap[o]) {
				diff = true
			}
			a.heap[o] = v
		}
	}
	mergeVal := func(c *Term, x, y Value) Value {
		v := mergeVal(c, x, y)
		if !sameVal(v, x) {
			diff = true
		}
		return v
	}
	for i, g := range a.gs {
		h := b.gs[i]
		for j, f := range g.frames {
			f2 := h.frames[j]
			for r, v := range f.regs {
				if v == nil {
					continue
				}
				f.regs[r] = mergeVal(c, v, f2.regs[r])
			}
			for r, v := range f.args {
				f.args[r] = mergeVal(c, v, f2.args[r])
			}
			for d := range f.defers {
				f.defers[d].fn = mergeVal(c, f.defers[d].fn, f2.defers[d].fn)
				for r, v := range f.defers[d].args {
					f.defers[d].args[r] = mergeVal(c, v, f2.defers[d].args[r])
				}
			}
			if f.panic != nil {
				p := *f.panic
				p.val = mergeVal(c, p.val, f2.panic.val)
				f.panic = &p
			}
		}
	}
	if !diff {
		a.rec = &Rec{a: a.rec, b: b.rec, ga: a.guard}
		a.guard = Or(a.guard, b.guard)
		return
	}
	a.rec = &Rec{a: a.rec, b: b.rec, m: c}
	if a.guard == b.guard {
		// the selector is unconstrained
	} else {
		a.guard = And(Or(Not(c), a.guard), Or(c, b.guard))
	}
	a.wit = a.wit.with(c, 1)
	a.ev = nil
}

func (st *State) dump() string {
	var sb strings.Builder
	for _, g := range st.gs {
		f := g.top()
		if f.nat != nil {
			fmt.Fprintf(&sb, "  %s: %s/%d", g.name, f.nat.name, f.phase)
			for i := len(g.frames) - 2; i >= 0; i-- {
				if g.frames[i].nat == nil {
					f = g.frames[i]
					break
				}
			}
		} else {
			fmt.Fprintf(&sb, "  %s:", g.name)
		}
		if f.nat == nil {
			in := f.fi.fn.Blocks[f.block].Instrs[f.pc]
			fmt.Fprintf(&sb, " %s %s @%s", f.fi.name, in, theProg.Fset.Position(in.Pos()))
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}
