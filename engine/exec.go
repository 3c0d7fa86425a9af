package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type ctl int

const (
	cCont ctl = iota
	cPend     // goroutine reached a scheduling point
	cExit     // goroutine finished
	cDead     // path abandoned
)

type intrinsic func(ex *Exec, st *State, g *Gor, fi *FnInfo, args []Value) Value

type NativeFn struct {
	name string
	// enabled returns the condition under which the operation can proceed.
	enabled func(ex *Exec, st *State, g *Gor, f *Frame) *Term
	// perform executes it; done=false keeps the native frame (next phase).
	perform func(ex *Exec, st *State, g *Gor, f *Frame) (v Value, done bool)
	// inlinable: not a scheduling point when called from an inline function
	inlinable bool
}

type Options struct {
	MaxTuples   int
	StrictInts  bool
	StrictBools bool
	MergeErrs   bool
	MapOrders   bool
	MaxDepth    int
	MaxStates   int
	MaxSeconds  float64
	AfterViol   float64
	Prop        string
	Race        bool
	NoPOR       bool
}

type Exec struct {
	prog     *ssa.Program
	sol      *Solver
	opt      Options
	perm     int
	initHeap []Value
	globals  map[*ssa.Global]ObjID
	fns      map[*ssa.Function]*FnInfo
	work     []*State
	out      []*State
	conc     *Model
	tr       *Trace
	initing  bool
	inited   map[*ssa.Package]bool
	redirect map[string]string

	// results
	viol                    []*Violation
	visited                 map[string]bool
	nRevisit, nFresh, nWide int
	reach                   map[string]*Violation
	reachAll                map[string]bool
	asserts                 map[string]*AssertStat
	incon                   []string
	inconSet                map[string]bool
	fnSeen                  map[*FnInfo]bool
	nTrans                  int
	nStates                 int
	violAt                  time.Time // when the first violation was found
	nMerged                 int
	nForks                  int
	maxLayer                int
	deepest                 int
	violSet                 map[string]bool
	crashProp               string
	deadProp                string
	instrN                  int64
	races                   map[string]bool
	nRacePairs              int
	curTrans                *Trans
	sites                   map[ssa.Instruction]string
}

type AssertStat struct {
	Msg     string `json:"msg"`
	Checked int    `json:"checked"`
	Queries int    `json:"solver"`
}

type Violation struct {
	Msg   string
	Depth int
	Model *Model
	Rec   *Rec
	Kind  string
	Extra string
}

var theProg *ssa.Program

func (ex *Exec) inconclusive(msg string) {
	if ex.conc != nil {
		return
	}
	if !ex.inconSet[msg] {
		ex.inconSet[msg] = true
		ex.incon = append(ex.incon, msg)
	}
}

func (ex *Exec) info(fn *ssa.Function) *FnInfo {
	fi, ok := ex.fns[fn]
	if ok {
		return fi
	}
	fi = &FnInfo{fn: fn, id: len(ex.fns) + 1, name: fn.String()}
	ex.fns[fn] = fi
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		for f := fn; f != nil && p == nil; f = f.Parent() {
			p = f.Pkg
		}
	}
	if p == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		fi.pkg = fn.Object().Pkg().Path()
	}
	if p != nil {
		fi.pkg = p.Pkg.Path()
		if fn.Blocks == nil {
			p.Build()
		}
	}
	name := fi.name
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if name == "slices.Sort" && len(fn.TypeArgs()) == 2 && !isString(fn.TypeArgs()[1]) {
		name = ""
	}
	if strings.HasPrefix(name, "(*sync/atomic.Pointer[") {
		name = "(*sync/atomic.Pointer)" + name[strings.LastIndex(name, "."):]
	}
	if in, ok := intrinsics[name]; ok {
		fi.intr = in
	} else if n, ok := natives[name]; ok {
		fi.nat = n
	} else if p, r := ex.prog.ImportedPackage(vpcPkg), vpcRedirects[name]; p != nil && r != "" {
		p.Build()
		fi.redir = p.Func(r)
	} else if r, ok := ex.redirect[name]; ok {
		fi.redir = ex.modelFn(r)
	}
	fi.vpm = fi.pkg == modelPkg
	fi.inline = fi.vpm || inlineFn(fi)
	fi.sut = strings.HasPrefix(fi.pkg, sutPkg) && !strings.HasPrefix(fi.pkg, sutPkg+"/zzverif")
	return fi
}

const sutPkg = "github.com/juju/worker/v4"
const modelPkg = sutPkg + "/zzverif/vpm"
const vpcPkg = sutPkg + "/zzverif/vpc"
const vpPkg = sutPkg + "/zzverif/vp"

// inlineFn: library code whose internal synchronisation is not a scheduling
// point (see DESIGN.md).
func inlineFn(fi *FnInfo) bool {
	if fi.pkg == "gopkg.in/tomb.v2" {
		switch fi.name {
		case "(*gopkg.in/tomb.v2.Tomb).Kill", "(*gopkg.in/tomb.v2.Tomb).run", "(*gopkg.in/tomb.v2.Tomb).Err":
			return false
		case "(*gopkg.in/tomb.v2.Tomb).Wait":
			return false // its receive is a point; its Lock is not (see isPoint)
		}
		return true
	}
	switch fi.pkg {
	case "sync", "context", "time", "errors", "runtime/pprof", "github.com/juju/errors":
		return true
	}
	return false
}

func (ex *Exec) modelFn(name string) *ssa.Function {
	p := ex.prog.ImportedPackage(modelPkg)
	if p == nil {
		panic(Unsupported{"model package missing"})
	}
	p.Build()
	f := p.Func(name)
	if f == nil {
		panic(Unsupported{"model function " + name})
	}
	return f
}

// ---- forking ----

func (ex *Exec) fork(st *State, c *Term) bool {
	if c.IsConst() {
		return c.C == 1
	}
	if v, ok := st.known[c]; ok {
		return v
	}
	if c.Op == ONot {
		return !ex.fork(st, c.Args[0])
	}
	if ex.conc != nil {
		return st.eval(c)
	}
	if ex.initing {
		panic(Unsupported{"symbolic branch during init"})
	}
	b := st.eval(c)
	other := c
	if b {
		other = Not(c)
	}
	g2 := And(st.guard, other)
	res, m := ex.sol.Check(g2, true)
	switch res {
	case Sat:
		ex.nForks++
		n := st.clone()
		n.guard = g2
		n.wit = m
		n.ev = nil
		n.known[c] = !b
		ex.work = append(ex.work, n)
		if b {
			st.guard = And(st.guard, c)
		} else {
			st.guard = And(st.guard, Not(c))
		}
	case Unknown:
		ex.inconclusive("solver returned unknown on a branch condition")
	}
	st.known[c] = b
	return b
}

// conc resolves a union to one alternative, forking as needed.
func (ex *Exec) resolve(st *State, v Value) Value {
	u, ok := v.(*Union)
	if !ok {
		return v
	}
	for i, a := range u.alts {
		if i == len(u.alts)-1 {
			return a.v
		}
		if ex.fork(st, a.g) {
			return a.v
		}
	}
	panic("unreachable")
}

// intOf forces an integer term to a concrete value, forking over values.
func (ex *Exec) intOf(st *State, v Value) int {
	t := v.(*Term)
	for n := 0; ; n++ {
		if t.IsConst() {
			return int(t.SInt())
		}
		if n > 64 {
			panic(Unsupported{"concretisation of an integer with too many values"})
		}
		if st.ev == nil || st.ev.m != st.wit {
			st.ev = newEval(st.wit)
		}
		c := mkBV(st.ev.eval(t), t.W)
		if ex.fork(st, Eq(t, c)) {
			return int(c.SInt())
		}
	}
}

// ---- operands ----

func (ex *Exec) global(g *ssa.Global) ObjID {
	if o, ok := ex.globals[g]; ok {
		return o
	}
	panic(Unsupported{"global of a package whose init was not encoded: " + g.String()})
}

var constCache = map[*ssa.Const]Value{}

func constVal(c *ssa.Const) Value {
	if v, ok := constCache[c]; ok {
		return v
	}
	v := constVal1(c)
	constCache[c] = v
	return v
}

func constVal1(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := c.Type().(*types.TypeParam); ok {
		panic(Unsupported{"type parameter const " + tp.String()})
	}
	b := t.(*types.Basic)
	switch {
	case b.Info()&types.IsBoolean != 0:
		return mkBool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		w, _ := bvWidth(b)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return mkBV(uint64(i), w)
		}
		u, _ := constant.Uint64Val(v)
		return mkBV(u, w)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return mkF64(f)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(c.Value)
			return string(rune(i))
		}
		return constant.StringVal(c.Value)
	}
	panic(Unsupported{"const " + c.String()})
}

func (ex *Exec) get(f *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Global:
		return Ptr{ex.global(v), rootPath}
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Builtin:
		return BuiltinV{v.Name()}
	}
	r := f.regs[f.fi.idx[v]]
	if r == nil {
		panic(fmt.Sprintf("undefined register %s in %s", v.Name(), f.fi.name))
	}
	return r
}

func (ex *Exec) set(f *Frame, v ssa.Value, x Value) { f.regs[f.fi.idx[v]] = x }

// getR resolves unions, writing the choice back to the register.
func (ex *Exec) getR(st *State, f *Frame, v ssa.Value) Value {
	x := ex.get(f, v)
	if u, ok := x.(*Union); ok {
		y := ex.resolve(st, u)
		if i, ok := f.fi.idx[v]; ok {
			f.regs[i] = y
		}
		return y
	}
	return x
}

// ---- path execution ----

func (ex *Exec) runPath(st *State) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if u, isU := r.(Unsupported); isU {
				ex.inconclusive("unsupported: " + u.Msg + " [" + ex.where(st) + "]")
				ok = false
				return
			}
			if _, isG := r.(goPanic); isG {
				panic(r)
			}
			fmt.Printf("internal error at %s\n%s", ex.where(st), st.dump())
			panic(r)
		}
	}()
	for len(st.runq) > 0 {
		g := st.gor(st.runq[0])
		c := ex.runGor(st, g)
		switch c {
		case cDead:
			return false
		case cExit:
			ex.gorExit(st, g)
		}
		if len(st.runq) > 0 {
			st.runq = st.runq[1:]
		}
	}
	return true
}

func (ex *Exec) gorExit(st *State, g *Gor) {
	st.removeGor(g.name)
	if ex.tr != nil {
		ex.tr.exit(g)
	}
	if g.name == "main" {
		st.done = true
	}
}

func (ex *Exec) where(st *State) string {
	if len(st.runq) == 0 {
		return "?"
	}
	g := st.gor(st.runq[0])
	if g == nil || len(g.frames) == 0 {
		return "?"
	}
	var l []string
	for i := len(g.frames) - 1; i >= 0 && len(l) < 6; i-- {
		f := g.frames[i]
		if f.nat != nil {
			l = append(l, f.nat.name)
			continue
		}
		in := f.fi.fn.Blocks[f.block].Instrs[f.pc]
		l = append(l, fmt.Sprintf("%s:%s (%s)", f.fi.name, ex.prog.Fset.Position(in.Pos()), in))
	}
	return strings.Join(l, " < ")
}

// runGor runs g until it reaches a scheduling point or exits.
func (ex *Exec) runGor(st *State, g *Gor) (c ctl) {
	for {
		c = ex.runGor1(st, g)
		if c != cCont {
			return c
		}
	}
}

func (ex *Exec) runGor1(st *State, g *Gor) (c ctl) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(goPanic); ok {
				c = ex.raise(st, g, ex.runtimeError(p.msg), false)
				return
			}
			panic(r)
		}
	}()
	for {
		if len(g.frames) == 0 {
			return cExit
		}
		st.steps++
		ex.instrN++
		if st.steps > 5000000 {
			panic(Unsupported{"instruction budget of one transition exceeded"})
		}
		f := g.top()
		if f.nat != nil {
			if ex.nativePoint(st, g, f) {
				return cPend
			}
			if c := ex.performNative(st, g, f); c != cCont {
				return c
			}
			continue
		}
		in := f.fi.fn.Blocks[f.block].Instrs[f.pc]
		if c := ex.step(st, g, f, in); c != cCont {
			return c
		}
	}
}

func (ex *Exec) runtimeError(msg string) Value {
	p := ex.prog.ImportedPackage(modelPkg)
	t := p.Type("RuntimeError").Type()
	return Iface{tinfo(t), "runtime error: " + msg}
}

// performNative executes a native frame's operation now.
func (ex *Exec) performNative(st *State, g *Gor, f *Frame) ctl {
	v, done := f.nat.perform(ex, st, g, f)
	if st.grant == g.name {
		st.grant = ""
	}
	if !done {
		return cCont
	}
	if g.top() != f {
		panic("native frame is not on top")
	}
	g.frames = g.frames[:len(g.frames)-1]
	return ex.deliver(st, g, f.deferCall, v)
}

// deliver hands a call's result to the frame now on top.
func (ex *Exec) deliver(st *State, g *Gor, deferCall bool, v Value) ctl {
	if len(g.frames) == 0 {
		return cExit
	}
	p := g.top()
	if deferCall {
		if p.panic != nil {
			if p.panic.recovered {
				p.panic = nil
				p.recovering = true
				return ex.continueRecover(st, g, p)
			}
			return ex.unwind(st, g)
		}
		if p.recovering {
			return ex.continueRecover(st, g, p)
		}
		return cCont // RunDefers executes again
	}
	if p.nat != nil {
		return cCont // native frame resumes (Once.Do)
	}
	in := p.fi.fn.Blocks[p.block].Instrs[p.pc]
	if cv, ok := in.(*ssa.Call); ok {
		if v == nil {
			v = &Struct{}
		}
		ex.set(p, cv, v)
	}
	p.pc++
	return cCont
}

func (ex *Exec) continueRecover(st *State, g *Gor, p *Frame) ctl {
	if n := len(p.defers); n > 0 {
		d := p.defers[n-1]
		p.defers = p.defers[:n-1]
		return ex.callValue(st, g, d.fn, d.args, true)
	}
	p.recovering = false
	if p.fi.fn.Recover != nil {
		p.block, p.pc = p.fi.fn.Recover.Index, 0
		return cCont
	}
	g.frames = g.frames[:len(g.frames)-1]
	return ex.deliver(st, g, p.deferCall, zeroResult(p.fi.fn))
}

func zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return &Struct{}
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (ex *Exec) raise(st *State, g *Gor, v Value, goexit bool) ctl {
	g.top().panic = &PanicRec{val: v, goexit: goexit}
	return ex.unwind(st, g)
}

func (ex *Exec) unwind(st *State, g *Gor) ctl {
	for {
		f := g.top()
		if f.nat == nil {
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				return ex.callValue(st, g, d.fn, d.args, true)
			}
		} else if f.nat.name == "(*sync.Once).Do" && f.phase == 1 {
			st.store(f.args[0].(Ptr), OnceV{2})
		}
		g.frames = g.frames[:len(g.frames)-1]
		if len(g.frames) == 0 {
			if f.panic.goexit {
				return cExit
			}
			ex.crash(st, g, f.panic.val)
			return cDead
		}
		g.top().panic = f.panic
	}
}

func (ex *Exec) crash(st *State, g *Gor, v Value) {
	if ex.conc != nil {
		ex.tr.note("crash", g, ex.panicText(st, v))
		return
	}
	if ex.crashProp == "" {
		ex.inconclusive("a path ends in an uncaught panic (not this property's concern): " + ex.panicText(st, v))
		return
	}
	ex.violate(st, ex.crashProp+": process crash: uncaught panic", st.guard, "crash", ex.panicText(st, v))
}

func (ex *Exec) panicText(st *State, v Value) string {
	if i, ok := v.(Iface); ok && i.T != nil {
		if s, ok := i.V.(string); ok {
			return s
		}
		return i.T.name
	}
	return showVal(v)
}

// ---- calls ----

func (ex *Exec) callValue(st *State, g *Gor, fv Value, args []Value, deferCall bool) ctl {
	switch fv := fv.(type) {
	case *FuncV:
		if fv == nil {
			panic(goPanic{"invalid memory address or nil pointer dereference"})
		}
		return ex.callFn(st, g, fv.fn, fv.binds, args, deferCall)
	case BuiltinV:
		if fv.name == "close" {
			g.frames = append(g.frames, &Frame{nat: natClose, args: args, deferCall: deferCall})
			return cCont
		}
		if fv.name == "recover" {
			return ex.deliver(st, g, deferCall, NilIface)
		}
		v := ex.builtin(st, g, fv.name, args, nil)
		return ex.deliver(st, g, deferCall, v)
	}
	panic(Unsupported{fmt.Sprintf("call of %T", fv)})
}

func (ex *Exec) callFn(st *State, g *Gor, fn *ssa.Function, binds, args []Value, deferCall bool) ctl {
	fi := ex.info(fn)
	if fi.redir != nil {
		fi = ex.info(fi.redir)
	}
	if fi.nat != nil {
		g.frames = append(g.frames, &Frame{nat: fi.nat, args: args, deferCall: deferCall})
		return cCont
	}
	if fi.intr != nil {
		v := fi.intr(ex, st, g, fi, args)
		switch x := v.(type) {
		case ctlVal:
			switch x.c {
			case cCont:
				return cCont
			default:
				return x.c
			}
		}
		return ex.deliver(st, g, deferCall, v)
	}
	if fi.fn.Blocks == nil {
		panic(Unsupported{"external function " + fi.name})
	}
	if denyFn(fi) {
		panic(Unsupported{"library function not modelled: " + fi.name})
	}
	if len(g.frames) > 400 {
		panic(Unsupported{"call depth"})
	}
	fi.prepare()
	if !ex.fnSeen[fi] {
		ex.fnSeen[fi] = true
	}
	f := &Frame{fi: fi, regs: make([]Value, fi.nregs), deferCall: deferCall}
	n := copy(f.regs, args)
	if n != len(fi.fn.Params) {
		panic(fmt.Sprintf("arity %s: %d args", fi.name, len(args)))
	}
	copy(f.regs[n:], binds)
	g.frames = append(g.frames, f)
	return cCont
}

// ctlVal lets an intrinsic return control information.
type ctlVal struct{ c ctl }

var denyPkgs = map[string]bool{"fmt": true, "reflect": true, "internal/reflectlite": true, "os": true, "runtime": true, "internal/poll": true, "syscall": true, "sync": true, "internal/sync": true, "log": true, "io": true, "testing": true, "math/rand": true, "internal/runtime/sys": true}
var allowFns = map[string]bool{
	"sync.NewCond":         true,
	"(*sync.WaitGroup).Go": true, "(*sync.WaitGroup).Go$1": true,
	"(*sync.WaitGroup).Go$1$1": true,
	"sync.OnceFunc":            true, "sync.OnceFunc$1": true, "sync.OnceFunc$2": true,
	"sync.OnceFunc$1$1": true, "sync.OnceFunc$2$1": true,
}

func denyFn(fi *FnInfo) bool {
	return denyPkgs[fi.pkg] && !allowFns[fi.name] && fi.fn.Name() != "init" && !strings.HasPrefix(fi.name, "sync.OnceValue")
}

// prepCall evaluates the callee and arguments of a call.
func (ex *Exec) prepCall(st *State, f *Frame, c *ssa.CallCommon) (Value, []Value) {
	if c.IsInvoke() {
		r := ex.getR(st, f, c.Value).(Iface)
		if r.T == nil {
			panic(goPanic{"invalid memory address or nil pointer dereference"})
		}
		fn := ex.method(r.T, c.Method)
		args := make([]Value, 0, len(c.Args)+1)
		args = append(args, r.V)
		for _, a := range c.Args {
			args = append(args, ex.get(f, a))
		}
		return &FuncV{fn: fn}, args
	}
	fv := ex.get(f, c.Value)
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = ex.get(f, a)
	}
	return fv, args
}

type methKey struct {
	t *TypeInfo
	m string
}

var methCache = map[methKey]*ssa.Function{}

func (ex *Exec) method(t *TypeInfo, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if f, ok := methCache[k]; ok {
		return f
	}
	f := ex.prog.LookupMethod(t.T, m.Pkg(), m.Name())
	if f == nil {
		panic(Unsupported{"no method " + m.String() + " on " + t.name})
	}
	methCache[k] = f
	return f
}

func (ex *Exec) jump(f *Frame, to *ssa.BasicBlock) {
	from := f.fi.fn.Blocks[f.block]
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	n := 0
	var vals []Value
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, ex.getPhi(f, phi.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		ex.set(f, to.Instrs[i].(*ssa.Phi), vals[i])
	}
	f.block, f.pc = to.Index, n
}

func (ex *Exec) getPhi(f *Frame, v ssa.Value) Value {
	if i, ok := f.fi.idx[v]; ok {
		return f.regs[i] // may be nil if dead
	}
	return ex.get(f, v)
}

func (ex *Exec) step(st *State, g *Gor, f *Frame, in ssa.Instruction) ctl {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := st.alloc(zero(in.Type().Underlying().(*types.Pointer).Elem()))
		ex.set(f, in, Ptr{o, rootPath})
	case *ssa.UnOp:
		if in.Op == token.ARROW {
			return ex.chanOp(st, g, f, in)
		}
		ex.set(f, in, ex.unop(st, g, f, in))
	case *ssa.BinOp:
		ex.set(f, in, ex.binop(st, in.Op, in.X.Type(), ex.get(f, in.X), ex.get(f, in.Y), in.Y.Type()))
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			return ex.callBuiltin(st, g, f, in, b)
		}
		fv, args := ex.prepCall(st, f, &in.Call)
		return ex.callValue(st, g, fv, args, false)
	case *ssa.Go:
		fv, args := ex.prepCall(st, f, &in.Call)
		ex.spawn(st, g, f, in, fv, args)
	case *ssa.Defer:
		fv, args := ex.prepCall(st, f, &in.Call)
		if in.DeferStack != nil {
			panic(Unsupported{"defer stack"})
		}
		f.defers = append(f.defers, DeferRec{fv, args})
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return ex.callValue(st, g, d.fn, d.args, true)
		}
	case *ssa.Return:
		var v Value
		switch len(in.Results) {
		case 0:
			v = &Struct{}
		case 1:
			v = ex.get(f, in.Results[0])
		default:
			s := &Struct{}
			for _, r := range in.Results {
				s.f = append(s.f, ex.get(f, r))
			}
			v = s
		}
		g.frames = g.frames[:len(g.frames)-1]
		return ex.deliver(st, g, f.deferCall, v)
	case *ssa.Panic:
		v := ex.get(f, in.X)
		return ex.raise(st, g, v, false)
	case *ssa.Jump:
		ex.jump(f, f.fi.fn.Blocks[f.block].Succs[0])
		return cCont
	case *ssa.If:
		b := f.fi.fn.Blocks[f.block]
		if ex.fork(st, ex.get(f, in.Cond).(*Term)) {
			ex.jump(f, b.Succs[0])
		} else {
			ex.jump(f, b.Succs[1])
		}
		return cCont
	case *ssa.Store:
		p := ex.get(f, in.Addr).(Ptr)
		v := ex.get(f, in.Val)
		ex.access(st, g, f, p, true)
		st.store(p, v)
	case *ssa.FieldAddr:
		p := ex.get(f, in.X).(Ptr)
		if p.O == 0 {
			panic(goPanic{"invalid memory address or nil pointer dereference"})
		}
		ex.set(f, in, Ptr{p.O, p.P.child(in.Field)})
	case *ssa.Field:
		ex.set(f, in, ex.get(f, in.X).(*Struct).f[in.Field])
	case *ssa.IndexAddr:
		i := ex.intOf(st, ex.get(f, in.Index))
		switch x := ex.get(f, in.X).(type) {
		case Slice:
			if i < 0 || i >= x.Len {
				panic(goPanic{fmt.Sprintf("index out of range [%d] with length %d", i, x.Len)})
			}
			ex.set(f, in, Ptr{x.O, x.P.child(x.Off + i)})
		case Ptr:
			n := int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			if i < 0 || i >= n {
				panic(goPanic{"index out of range"})
			}
			ex.set(f, in, Ptr{x.O, x.P.child(i)})
		default:
			panic(Unsupported{fmt.Sprintf("IndexAddr %T", x)})
		}
	case *ssa.Index:
		i := ex.intOf(st, ex.get(f, in.Index))
		switch x := ex.get(f, in.X).(type) {
		case string:
			if i < 0 || i >= len(x) {
				panic(goPanic{"index out of range"})
			}
			ex.set(f, in, mkBV(uint64(x[i]), 8))
		case *Struct:
			if i < 0 || i >= len(x.f) {
				panic(goPanic{"index out of range"})
			}
			ex.set(f, in, x.f[i])
		}
	case *ssa.Lookup:
		ex.set(f, in, ex.lookup(st, g, f, in))
	case *ssa.MapUpdate:
		m := ex.get(f, in.Map).(MapRef)
		if m.O == 0 {
			panic(goPanic{"assignment to entry in nil map"})
		}
		k := ex.mapKey(st, ex.getR(st, f, in.Key))
		ex.access(st, g, f, Ptr{m.O, rootPath}, true)
		st.heap[m.O] = mapSet(st.heap[m.O].(*MapV), k, ex.get(f, in.Value))
	case *ssa.MakeMap:
		ex.set(f, in, MapRef{st.alloc(&MapV{})})
	case *ssa.MakeChan:
		n := ex.intOf(st, ex.get(f, in.Size))
		ex.set(f, in, ChanRef{st.alloc(&ChanV{cap: n})})
	case *ssa.MakeSlice:
		n := ex.intOf(st, ex.get(f, in.Len))
		c := ex.intOf(st, ex.get(f, in.Cap))
		if n < 0 || c < n || c > 1<<16 {
			panic(goPanic{"makeslice: len out of range"})
		}
		z := zero(in.Type().Underlying().(*types.Slice).Elem())
		a := &Struct{f: make([]Value, c)}
		for i := range a.f {
			a.f[i] = z
		}
		ex.set(f, in, Slice{st.alloc(a), rootPath, 0, n, c})
	case *ssa.MakeClosure:
		fv := &FuncV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			fv.binds = append(fv.binds, ex.get(f, b))
		}
		ex.set(f, in, fv)
	case *ssa.MakeInterface:
		v := ex.get(f, in.X)
		ex.set(f, in, Iface{tinfo(in.X.Type()), v})
	case *ssa.ChangeInterface:
		ex.set(f, in, ex.get(f, in.X))
	case *ssa.ChangeType:
		ex.set(f, in, ex.get(f, in.X))
	case *ssa.Convert:
		ex.set(f, in, ex.convert(st, in.X.Type(), in.Type(), ex.get(f, in.X)))
	case *ssa.MultiConvert:
		ex.set(f, in, ex.convert(st, in.X.Type(), in.Type(), ex.get(f, in.X)))
	case *ssa.TypeAssert:
		return ex.typeAssert(st, g, f, in)
	case *ssa.Extract:
		ex.set(f, in, ex.get(f, in.Tuple).(*Struct).f[in.Index])
	case *ssa.Slice:
		ex.set(f, in, ex.slice(st, f, in))
	case *ssa.Range:
		ex.set(f, in, ex.rangeStart(st, g, f, in))
	case *ssa.Next:
		ex.rangeNext(st, g, f, in)
	case *ssa.Send, *ssa.Select:
		return ex.chanOp(st, g, f, in)
	default:
		panic(Unsupported{fmt.Sprintf("instruction %T", in)})
	}
	f.pc++
	return cCont
}

func (ex *Exec) spawn(st *State, g *Gor, f *Frame, in *ssa.Go, fv Value, args []Value) {
	site := ""
	switch x := fv.(type) {
	case *FuncV:
		if x == nil {
			panic(goPanic{"go of nil func value"})
		}
		site = x.fn.Name()
		if p := x.fn.Parent(); p != nil {
			site = p.Name() + "." + site
		}
	case BuiltinV:
		site = x.name
	}
	name := ""
	for i := 0; ; i++ {
		name = fmt.Sprintf("%s#%d", site, i)
		if st.gor(name) == nil {
			break
		}
	}
	n := &Gor{name: name}
	if ex.tr != nil {
		ex.tr.spawn(g, n)
	}
	// start with a native trampoline so that callValue has a frame to deliver to
	ex.callValueOn(st, n, fv, args)
	st.addGor(n)
	if ex.opt.Race && !f.fi.vpm {
		n.fresh = true
		return
	}
	st.runq = append(st.runq, name)
}

func (ex *Exec) callValueOn(st *State, n *Gor, fv Value, args []Value) {
	switch x := fv.(type) {
	case *FuncV:
		fi := ex.info(x.fn)
		if fi.redir != nil {
			fi = ex.info(fi.redir)
		}
		if fi.intr != nil {
			fi.intr(ex, st, n, fi, args)
			return
		}
		ex.callFn(st, n, x.fn, x.binds, args, false)
	case BuiltinV:
		if x.name == "close" {
			n.frames = append(n.frames, &Frame{nat: natClose, args: args})
			return
		}
		ex.builtin(st, n, x.name, args, nil)
	}
}

func (ex *Exec) typeAssert(st *State, g *Gor, f *Frame, in *ssa.TypeAssert) ctl {
	v := ex.getR(st, f, in.X).(Iface)
	ok := false
	var res Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if v.T != nil && ex.implements(v.T, it) {
			ok = true
			res = v
		} else {
			res = NilIface
		}
	} else {
		if v.T != nil && v.T == tinfo(in.AssertedType) {
			ok = true
			res = v.V
		} else {
			res = zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		ex.set(f, in, &Struct{f: []Value{res, mkBool(ok)}})
	} else {
		if !ok {
			panic(goPanic{"interface conversion: type assertion failed to " + in.AssertedType.String()})
		}
		ex.set(f, in, res)
	}
	f.pc++
	return cCont
}

type implKey struct {
	t *TypeInfo
	i *types.Interface
}

var implCache = map[implKey]bool{}

func (ex *Exec) implements(t *TypeInfo, i *types.Interface) bool {
	k := implKey{t, i}
	if v, ok := implCache[k]; ok {
		return v
	}
	v := types.Implements(t.T, i)
	implCache[k] = v
	return v
}

func (ex *Exec) unop(st *State, g *Gor, f *Frame, in *ssa.UnOp) Value {
	x := ex.get(f, in.X)
	switch in.Op {
	case token.MUL:
		p := x.(Ptr)
		ex.access(st, g, f, p, false)
		return st.load(p)
	case token.NOT:
		return Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if t.S == SF64 {
			return FNeg(t)
		}
		return Neg(t)
	case token.XOR:
		return BNot(x.(*Term))
	}
	panic(Unsupported{"unop " + in.Op.String()})
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func (ex *Exec) binop(st *State, op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL:
		return ex.eq(st, x, y)
	case token.NEQ:
		return Not(ex.eq(st, x, y))
	}
	if a, ok := x.(string); ok {
		b := y.(string)
		switch op {
		case token.ADD:
			return a + b
		case token.LSS:
			return mkBool(a < b)
		case token.LEQ:
			return mkBool(a <= b)
		case token.GTR:
			return mkBool(a > b)
		case token.GEQ:
			return mkBool(a >= b)
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		panic(Unsupported{fmt.Sprintf("binop %s on %T,%T", op, x, y)})
	}
	if a.S == SF64 {
		switch op {
		case token.ADD:
			return FBin(OFAdd, a, b)
		case token.SUB:
			return FBin(OFSub, a, b)
		case token.MUL:
			return FBin(OFMul, a, b)
		case token.QUO:
			return FBin(OFDiv, a, b)
		case token.LSS:
			return FCmp(OFLt, a, b)
		case token.LEQ:
			return FCmp(OFLe, a, b)
		case token.GTR:
			return FCmp(OFLt, b, a)
		case token.GEQ:
			return FCmp(OFLe, b, a)
		}
	}
	if a.S == SBool {
		switch op {
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		case token.XOR:
			return Not(Eq(a, b))
		}
	}
	s := isSigned(t)
	switch op {
	case token.ADD:
		return BV(OAdd, a, b)
	case token.SUB:
		return BV(OSub, a, b)
	case token.MUL:
		return BV(OMul, a, b)
	case token.QUO, token.REM:
		if ex.fork(st, Eq(b, mkBV(0, b.W))) {
			panic(goPanic{"integer divide by zero"})
		}
		o := OUDiv
		switch {
		case op == token.QUO && s:
			o = OSDiv
		case op == token.REM && s:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return BV(o, a, b)
	case token.AND:
		return BV(OBAnd, a, b)
	case token.OR:
		return BV(OBOr, a, b)
	case token.XOR:
		return BV(OXor, a, b)
	case token.AND_NOT:
		return BV(OBAnd, a, BNot(b))
	case token.SHL, token.SHR:
		bs := b
		if b.W > a.W {
			// large shift counts
			big := Cmp(OULe, mkBV(uint64(a.W), b.W), b)
			bs = Resize(b, a.W, false)
			bs = Ite(big, mkBV(uint64(a.W), a.W), bs)
		} else {
			bs = Resize(b, a.W, false)
		}
		o := OShl
		if op == token.SHR {
			o = OLShr
			if s {
				o = OAShr
			}
		}
		return BV(o, a, bs)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
		}
		o := OULt
		if s {
			o = OSLt
		}
		if op == token.LEQ || op == token.GEQ {
			o = OULe
			if s {
				o = OSLe
			}
		}
		return Cmp(o, a, b)
	}
	panic(Unsupported{"binop " + op.String()})
}

func (ex *Exec) eq(st *State, x, y Value) *Term {
	if u, ok := x.(*Union); ok {
		var l []*Term
		for _, a := range u.alts {
			l = append(l, And(a.g, ex.eq(st, a.v, y)))
		}
		return Or(l...)
	}
	if _, ok := y.(*Union); ok {
		return ex.eq(st, y, x)
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if a.S == SF64 {
			return FCmp(OFEq, a, b)
		}
		return Eq(a, b)
	case Iface:
		b := y.(Iface)
		if a.T != b.T {
			return False
		}
		if a.T == nil {
			return True
		}
		if !types.Comparable(a.T.T) {
			panic(goPanic{"comparing uncomparable type " + a.T.name})
		}
		return ex.eq(st, a.V, b.V)
	case *Struct:
		b := y.(*Struct)
		var l []*Term
		for i := range a.f {
			l = append(l, ex.eq(st, a.f[i], b.f[i]))
		}
		return And(l...)
	case Ptr:
		b, ok := y.(Ptr)
		if !ok {
			return False
		}
		return mkBool(a.O == b.O && (a.O == 0 || pathEq(a.P, b.P)))
	case *FuncV:
		b := y.(*FuncV)
		return mkBool(a == nil && b == nil)
	case Slice:
		return mkBool(a.O == 0 && y.(Slice).O == 0)
	case BuiltinV:
		return False
	case string, MapRef, ChanRef:
		return mkBool(x == y)
	}
	panic(Unsupported{fmt.Sprintf("eq %T %T", x, y)})
}

func pathEq(a, b *Path) bool {
	if a == nil {
		a = rootPath
	}
	if b == nil {
		b = rootPath
	}
	return a == b
}

func (ex *Exec) convert(st *State, from, to types.Type, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if fb, ok := fu.(*types.Basic); ok {
			ti, fi := tb.Info(), fb.Info()
			switch {
			case ti&types.IsInteger != 0 && fi&types.IsInteger != 0:
				w, _ := bvWidth(tb)
				return Resize(v.(*Term), w, fi&types.IsUnsigned == 0)
			case ti&types.IsFloat != 0 && fi&types.IsInteger != 0:
				return FFromInt(v.(*Term), fi&types.IsUnsigned == 0)
			case ti&types.IsInteger != 0 && fi&types.IsFloat != 0:
				w, _ := bvWidth(tb)
				return Resize(FToS(v.(*Term)), w, true)
			case ti&types.IsFloat != 0 && fi&types.IsFloat != 0:
				if tb.Kind() == types.Float32 {
					panic(Unsupported{"float32"})
				}
				return v
			case ti&types.IsString != 0 && fi&types.IsString != 0:
				return v
			case ti&types.IsString != 0 && fi&types.IsInteger != 0:
				return string(rune(ex.intOf(st, v)))
			case ti&types.IsBoolean != 0:
				return v
			}
		}
		if tb.Info()&types.IsString != 0 {
			if sl, ok := fu.(*types.Slice); ok {
				s := v.(Slice)
				if b := sl.Elem().Underlying().(*types.Basic); b.Kind() == types.Uint8 {
					bs := make([]byte, s.Len)
					for i := range bs {
						bs[i] = byte(ex.intOf(st, st.load(Ptr{s.O, s.P.child(s.Off + i)})))
					}
					return string(bs)
				}
				var rs []rune
				for i := 0; i < s.Len; i++ {
					rs = append(rs, rune(ex.intOf(st, st.load(Ptr{s.O, s.P.child(s.Off + i)}))))
				}
				return string(rs)
			}
		}
	}
	if sl, ok := tu.(*types.Slice); ok {
		if s, ok := v.(string); ok {
			a := &Struct{}
			if b := sl.Elem().Underlying().(*types.Basic); b.Kind() == types.Uint8 {
				for i := 0; i < len(s); i++ {
					a.f = append(a.f, mkBV(uint64(s[i]), 8))
				}
			} else {
				for _, r := range s {
					a.f = append(a.f, mkBV(uint64(r), 32))
				}
			}
			return Slice{st.alloc(a), rootPath, 0, len(a.f), len(a.f)}
		}
		return v
	}
	switch v.(type) {
	case Ptr, Iface, *FuncV, ChanRef, MapRef, Slice, *Struct:
		if _, ok := tu.(*types.Basic); !ok {
			return v
		}
	}
	panic(Unsupported{fmt.Sprintf("convert %s to %s", from, to)})
}

// mapKey concretises a map key.
func (ex *Exec) mapKey(st *State, k Value) Value {
	switch x := k.(type) {
	case *Term:
		if x.IsConst() {
			return x
		}
		if x.S == SBool {
			return mkBool(ex.fork(st, x))
		}
		return mkBV(uint64(ex.intOf(st, x)), x.W)
	case Iface:
		if x.T == nil {
			return x
		}
		return Iface{x.T, ex.mapKey(st, x.V)}
	case *Struct:
		n := &Struct{}
		for _, y := range x.f {
			n.f = append(n.f, ex.mapKey(st, ex.resolve(st, y)))
		}
		return n
	}
	return k
}

func keyEq(a, b Value) bool {
	switch x := a.(type) {
	case *Struct:
		y, ok := b.(*Struct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !keyEq(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		return ok && x.T == y.T && (x.T == nil || keyEq(x.V, y.V))
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.O == y.O && pathEq(x.P, y.P)
	}
	return a == b
}

func mapGet(m *MapV, k Value) (Value, bool) {
	for _, e := range m.ents {
		if keyEq(e.k, k) {
			return e.v, true
		}
	}
	return nil, false
}

func mapSet(m *MapV, k, v Value) *MapV {
	n := &MapV{ents: append([]MapEnt(nil), m.ents...)}
	for i, e := range n.ents {
		if keyEq(e.k, k) {
			n.ents[i].v = v
			return n
		}
	}
	// keep string/int keys sorted, so that insertion order does not matter
	pos := len(n.ents)
	for i, e := range n.ents {
		if keyLess(k, e.k) {
			pos = i
			break
		}
	}
	n.ents = append(n.ents, MapEnt{})
	copy(n.ents[pos+1:], n.ents[pos:])
	n.ents[pos] = MapEnt{k, v}
	return n
}

func keyLess(a, b Value) bool {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return ok && x < y
	case *Term:
		y, ok := b.(*Term)
		return ok && x.S == SBV && y.S == SBV && x.SInt() < y.SInt()
	case Iface:
		y, ok := b.(Iface)
		return ok && x.T != nil && x.T == y.T && keyLess(x.V, y.V)
	}
	return false
}

func mapDel(m *MapV, k Value) *MapV {
	for i, e := range m.ents {
		if keyEq(e.k, k) {
			n := &MapV{ents: append([]MapEnt(nil), m.ents[:i]...)}
			n.ents = append(n.ents, m.ents[i+1:]...)
			return n
		}
	}
	return m
}

func (ex *Exec) lookup(st *State, g *Gor, f *Frame, in *ssa.Lookup) Value {
	x := ex.get(f, in.X)
	if s, ok := x.(string); ok {
		i := ex.intOf(st, ex.get(f, in.Index))
		if i < 0 || i >= len(s) {
			panic(goPanic{"index out of range"})
		}
		return mkBV(uint64(s[i]), 8)
	}
	m := x.(MapRef)
	k := ex.mapKey(st, ex.getR(st, f, in.Index))
	if i, ok := k.(Iface); ok && i.T != nil && !types.Comparable(i.T.T) {
		panic(goPanic{"hash of unhashable type " + i.T.name})
	}
	var v Value
	found := false
	if m.O != 0 {
		ex.access(st, g, f, Ptr{m.O, rootPath}, false)
		v, found = mapGet(st.heap[m.O].(*MapV), k)
	}
	if !found {
		v = zero(in.X.Type().Underlying().(*types.Map).Elem())
	}
	if in.CommaOk {
		return &Struct{f: []Value{v, mkBool(found)}}
	}
	return v
}

func (ex *Exec) slice(st *State, f *Frame, in *ssa.Slice) Value {
	x := ex.get(f, in.X)
	geti := func(v ssa.Value, d int) int {
		if v == nil {
			return d
		}
		return ex.intOf(st, ex.get(f, v))
	}
	switch x := x.(type) {
	case string:
		lo := geti(in.Low, 0)
		hi := geti(in.High, len(x))
		if lo < 0 || hi < lo || hi > len(x) {
			panic(goPanic{"slice bounds out of range"})
		}
		return x[lo:hi]
	case Slice:
		lo := geti(in.Low, 0)
		hi := geti(in.High, x.Len)
		mx := geti(in.Max, x.Cap)
		if lo < 0 || hi < lo || mx < hi || mx > x.Cap {
			panic(goPanic{"slice bounds out of range"})
		}
		if x.O == 0 {
			return x
		}
		return Slice{x.O, x.P, x.Off + lo, hi - lo, mx - lo}
	case Ptr:
		if x.O == 0 {
			panic(goPanic{"nil pointer dereference"})
		}
		n := int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		lo := geti(in.Low, 0)
		hi := geti(in.High, n)
		mx := geti(in.Max, n)
		if lo < 0 || hi < lo || mx < hi || mx > n {
			panic(goPanic{"slice bounds out of range"})
		}
		return Slice{x.O, x.P, lo, hi - lo, mx - lo}
	}
	panic(Unsupported{fmt.Sprintf("slice of %T", x)})
}

func (ex *Exec) rangeStart(st *State, g *Gor, f *Frame, in *ssa.Range) Value {
	switch x := ex.get(f, in.X).(type) {
	case string:
		return &RangeIter{str: x}
	case MapRef:
		it := &RangeIter{ismap: true, m: x.O}
		if x.O != 0 {
			ex.access(st, g, f, Ptr{x.O, rootPath}, false)
			for _, e := range st.heap[x.O].(*MapV).ents {
				it.keys = append(it.keys, e.k)
			}
		}
		if f.fi.sut && len(it.keys) > 1 && ex.opt.MapOrders {
			it.keys = ex.chooseOrder(st, it.keys)
		}
		if ex.tr != nil && f.fi.sut {
			ex.tr.maporder(g, f, in, it.keys)
		}
		return it
	}
	panic(Unsupported{"range"})
}

func (ex *Exec) rangeNext(st *State, g *Gor, f *Frame, in *ssa.Next) {
	it := ex.get(f, in.Iter).(*RangeIter)
	n := *it
	tup := in.Type().(*types.Tuple)
	res := &Struct{f: []Value{False, nil, nil}}
	for i := 1; i < 3; i++ {
		if b, ok := tup.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			res.f[i] = False
		} else {
			res.f[i] = zero(tup.At(i).Type())
		}
	}
	if !it.ismap {
		if it.pos < len(it.str) {
			for i, r := range it.str[it.pos:] {
				_ = i
				sz := len(string(r))
				if r == 0xfffd {
					sz = 1
				}
				res.f[0] = True
				res.f[1] = mkBV(uint64(it.pos), 64)
				res.f[2] = mkBV(uint64(r), 32)
				n.pos += sz
				break
			}
		}
	} else {
		if it.m != 0 {
			ex.access(st, g, f, Ptr{it.m, rootPath}, false)
		}
		for n.pos < len(n.keys) {
			k := n.keys[n.pos]
			n.pos++
			if v, ok := mapGet(st.heap[it.m].(*MapV), k); ok {
				res.f[0] = True
				res.f[1] = k
				res.f[2] = v
				break
			}
		}
	}
	ex.set(f, in.Iter, &n)
	ex.set(f, in, res)
}

func (ex *Exec) chooseOrder(st *State, keys []Value) []Value {
	if len(keys) > 4 {
		panic(Unsupported{"map order exploration beyond 4 keys"})
	}
	out := []Value{}
	rest := append([]Value(nil), keys...)
	for k := 0; len(rest) > 1; k++ {
		i := ex.freshPick(st, len(rest), k)
		out = append(out, rest[i])
		rest = append(append([]Value(nil), rest[:i]...), rest[i+1:]...)
	}
	st.seq += len(keys) - 1
	return append(out, rest...)
}

func (ex *Exec) nondet(st *State, what string, s Sort, w uint8) *Term {
	if ex.initing {
		panic(Unsupported{"nondet during init"})
	}
	name := fmt.Sprintf("n%d_%d_%s%d", st.depth, st.seq, map[Sort]string{SBool: "b", SBV: "v", SF64: "f"}[s], w)
	st.seq++
	return mkVar(name, s, w)
}

func (ex *Exec) nondetInt(st *State, lo, hi int64, what string) *Term {
	v := ex.nondet(st, what, SBV, 64)
	noteDomain(v, lo, hi)
	if ex.conc != nil {
		if st.ev == nil {
			st.ev = newEval(st.wit)
		}
		x := int64(st.ev.eval(v))
		if x < lo || x > hi {
			x = lo
		}
		return mkBV(uint64(x), 64)
	}
	st.wit = st.wit.with(v, uint64(lo))
	st.ev = nil
	st.guard = And(st.guard, rawCmp(OSLe, mkBV(uint64(lo), 64), v), rawCmp(OSLe, v, mkBV(uint64(hi), 64)))
	return v
}

// ---- builtins ----

func (ex *Exec) callBuiltin(st *State, g *Gor, f *Frame, in *ssa.Call, b *ssa.Builtin) ctl {
	args := make([]Value, len(in.Call.Args))
	for i, a := range in.Call.Args {
		args[i] = ex.get(f, a)
	}
	switch b.Name() {
	case "close":
		g.frames = append(g.frames, &Frame{nat: natClose, args: args})
		return cCont
	case "recover":
		v := Value(NilIface)
		if f.deferCall && len(g.frames) >= 2 {
			p := g.frames[len(g.frames)-2]
			if p.panic != nil && !p.panic.recovered && !p.panic.goexit {
				np := *p.panic
				np.recovered = true
				p.panic = &np
				v = p.panic.val
			}
		}
		ex.set(f, in, v)
		f.pc++
		return cCont
	}
	v := ex.builtin(st, g, b.Name(), args, in)
	if v == nil {
		v = &Struct{}
	}
	ex.set(f, in, v)
	f.pc++
	return cCont
}

func (ex *Exec) builtin(st *State, g *Gor, name string, args []Value, in *ssa.Call) Value {
	ival := func(n int) Value { return mkBV(uint64(n), 64) }
	touch := func(p Ptr, write bool) {
		if st.races != nil && len(g.frames) > 0 {
			ex.access(st, g, g.top(), p, write)
		}
	}
	switch name {
	case "len":
		switch x := args[0].(type) {
		case string:
			return ival(len(x))
		case Slice:
			return ival(x.Len)
		case MapRef:
			if x.O == 0 {
				return ival(0)
			}
			touch(Ptr{x.O, rootPath}, false)
			return ival(len(st.heap[x.O].(*MapV).ents))
		case ChanRef:
			if x.O == 0 {
				return ival(0)
			}
			return ival(len(st.heap[x.O].(*ChanV).buf))
		case *Struct:
			return ival(len(x.f))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return ival(x.Cap)
		case ChanRef:
			if x.O == 0 {
				return ival(0)
			}
			return ival(st.heap[x.O].(*ChanV).cap)
		}
	case "append":
		s := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			for i := 0; i < y.Len; i++ {
				touch(Ptr{y.O, y.P.child(y.Off + i)}, false)
				add = append(add, st.load(Ptr{y.O, y.P.child(y.Off + i)}))
			}
		case string:
			for i := 0; i < len(y); i++ {
				add = append(add, mkBV(uint64(y[i]), 8))
			}
		}
		if len(add) == 0 {
			return s
		}
		if s.Len+len(add) <= s.Cap {
			for i, v := range add {
				touch(Ptr{s.O, s.P.child(s.Off + s.Len + i)}, true)
				st.store(Ptr{s.O, s.P.child(s.Off + s.Len + i)}, v)
			}
			return Slice{s.O, s.P, s.Off, s.Len + len(add), s.Cap}
		}
		n := s.Len + len(add)
		c := n
		if 2*s.Cap > c {
			c = 2 * s.Cap
		}
		a := &Struct{f: make([]Value, 0, c)}
		for i := 0; i < s.Len; i++ {
			touch(Ptr{s.O, s.P.child(s.Off + i)}, false)
			a.f = append(a.f, st.load(Ptr{s.O, s.P.child(s.Off + i)}))
		}
		a.f = append(a.f, add...)
		for len(a.f) < c {
			a.f = append(a.f, zeroLike(add[0], in))
		}
		return Slice{st.alloc(a), rootPath, 0, n, c}
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			for i := 0; i < y.Len; i++ {
				touch(Ptr{y.O, y.P.child(y.Off + i)}, false)
				src = append(src, st.load(Ptr{y.O, y.P.child(y.Off + i)}))
			}
		case string:
			for i := 0; i < len(y); i++ {
				src = append(src, mkBV(uint64(y[i]), 8))
			}
		}
		n := len(src)
		if d.Len < n {
			n = d.Len
		}
		for i := 0; i < n; i++ {
			touch(Ptr{d.O, d.P.child(d.Off + i)}, true)
			st.store(Ptr{d.O, d.P.child(d.Off + i)}, src[i])
		}
		return ival(n)
	case "delete":
		m := args[0].(MapRef)
		if m.O == 0 {
			return nil
		}
		k := ex.mapKey(st, ex.resolve(st, args[1]))
		touch(Ptr{m.O, rootPath}, true)
		st.heap[m.O] = mapDel(st.heap[m.O].(*MapV), k)
		return nil
	case "clear":
		switch x := args[0].(type) {
		case MapRef:
			if x.O != 0 {
				touch(Ptr{x.O, rootPath}, true)
				st.heap[x.O] = &MapV{}
			}
			return nil
		case Slice:
			et := in.Common().Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := 0; i < x.Len; i++ {
				touch(Ptr{x.O, x.P.child(x.Off + i)}, true)
				st.store(Ptr{x.O, x.P.child(x.Off + i)}, zero(et))
			}
			return nil
		}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := r.(type) {
			case string:
				y := a.(string)
				if (name == "min") == (y < x) {
					r = y
				}
			case *Term:
				y := a.(*Term)
				var lt *Term
				if x.S == SF64 {
					lt = FCmp(OFLt, y, x)
				} else if in != nil && !isSigned(in.Type()) {
					lt = Cmp(OULt, y, x)
				} else {
					lt = Cmp(OSLt, y, x)
				}
				if name == "min" {
					r = Ite(lt, y, x)
				} else {
					r = Ite(lt, x, y)
				}
			}
		}
		return r
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.O == 0 {
			panic(goPanic{"value method called using nil pointer"})
		}
		return args[0]
	}
	panic(Unsupported{"builtin " + name})
}

func zeroLike(v Value, in *ssa.Call) Value {
	if in != nil {
		if s, ok := in.Type().Underlying().(*types.Slice); ok {
			return zero(s.Elem())
		}
	}
	return v
}
