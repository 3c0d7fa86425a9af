package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"time"
)

var intrinsics map[string]intrinsic
var natives map[string]*NativeFn
var natClose, natQuiesce *NativeFn

func always(ex *Exec, st *State, g *Gor, f *Frame) *Term { return True }

func unit() Value { return &Struct{} }

func loadLock(st *State, v Value) (Ptr, MutexV) {
	p := v.(Ptr)
	return p, st.load(p).(MutexV)
}

func (ex *Exec) lockG(st *State, g *Gor, v Value) {
	doLock(st, v)
	ex.noteLock(st, g, v.(Ptr), false, true)
}

func doLock(st *State, v Value) {
	p, m := loadLock(st, v)
	m.locked = true
	st.store(p, m)
}
func doUnlock(st *State, v Value) {
	p, m := loadLock(st, v)
	if !m.locked {
		panic(goPanic{"fatal error: sync: unlock of unlocked mutex"})
	}
	m.locked = false
	st.store(p, m)
}

func condMutex(st *State, c Ptr) Ptr {
	s := st.load(c).(*Struct)
	for _, x := range s.f {
		if i, ok := x.(Iface); ok {
			if p, ok := i.V.(Ptr); ok {
				return p
			}
		}
	}
	panic(Unsupported{"sync.Cond without a mutex locker"})
}

func condQueue(st *State, c Ptr) (Ptr, CondV) {
	s := st.load(c).(*Struct)
	for i, x := range s.f {
		if q, ok := x.(CondV); ok {
			return Ptr{c.O, c.P.child(i)}, q
		}
	}
	panic(Unsupported{"sync.Cond layout"})
}

func initModels() {
	defer initReflect()
	natClose = &NativeFn{name: "close", inlinable: true, enabled: always,
		perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) {
			c := f.args[0].(ChanRef)
			if c.O == 0 {
				panic(goPanic{"close of nil channel"})
			}
			ch := st.heap[c.O].(*ChanV)
			if ch.closed {
				g.frames = g.frames[:len(g.frames)-1]
				st.grant = ""
				panic(goPanic{"close of closed channel"})
			}
			n := *ch
			n.closed = true
			st.heap[c.O] = &n
			return unit(), true
		}}
	natQuiesce = &NativeFn{name: "vp.Quiesce", enabled: always,
		perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) { return unit(), true }}

	lock := &NativeFn{name: "Lock", inlinable: true,
		enabled: func(ex *Exec, st *State, g *Gor, f *Frame) *Term {
			_, m := loadLock(st, f.args[0])
			return mkBool(!m.locked)
		},
		perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) {
			ex.lockG(st, g, f.args[0])
			return unit(), true
		}}
	natives = map[string]*NativeFn{
		"(*sync.Mutex).Lock": lock,
		"(*sync.RWMutex).Lock": {name: "RWLock", inlinable: true,
			enabled: func(ex *Exec, st *State, g *Gor, f *Frame) *Term {
				m := st.load(f.args[0].(Ptr)).(RWMutexV)
				return mkBool(!m.w && m.r == 0)
			},
			perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) {
				st.store(f.args[0].(Ptr), RWMutexV{w: true})
				ex.noteLock(st, g, f.args[0].(Ptr), false, true)
				return unit(), true
			}},
		"(*sync.RWMutex).RLock": {name: "RLock", inlinable: true,
			enabled: func(ex *Exec, st *State, g *Gor, f *Frame) *Term {
				m := st.load(f.args[0].(Ptr)).(RWMutexV)
				return mkBool(!m.w)
			},
			perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) {
				m := st.load(f.args[0].(Ptr)).(RWMutexV)
				m.r++
				st.store(f.args[0].(Ptr), m)
				ex.noteLock(st, g, f.args[0].(Ptr), true, true)
				return unit(), true
			}},
		"(*sync.Mutex).TryLock": {name: "TryLock", inlinable: true, enabled: always,
			perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) {
				_, m := loadLock(st, f.args[0])
				if m.locked {
					return False, true
				}
				ex.lockG(st, g, f.args[0])
				return True, true
			}},
		"(*sync.WaitGroup).Wait": {name: "WgWait", inlinable: true,
			enabled: func(ex *Exec, st *State, g *Gor, f *Frame) *Term {
				return mkBool(st.load(f.args[0].(Ptr)).(WGV).n == 0)
			},
			perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) { return unit(), true }},
		"(*sync.Cond).Wait": {name: "CondWait",
			enabled: func(ex *Exec, st *State, g *Gor, f *Frame) *Term {
				if f.phase == 0 {
					return True
				}
				_, q := condQueue(st, f.args[0].(Ptr))
				if strings.Contains(","+q.waiters, ","+g.name+",") {
					return False
				}
				_, m := loadLock(st, condMutex(st, f.args[0].(Ptr)))
				return mkBool(!m.locked)
			},
			perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) {
				c := f.args[0].(Ptr)
				if f.phase == 0 {
					p, q := condQueue(st, c)
					doUnlock(st, condMutex(st, c))
					ex.noteLock(st, g, condMutex(st, c), false, false)
					st.store(p, CondV{q.waiters + g.name + ","})
					f.phase = 1
					return nil, false
				}
				ex.lockG(st, g, condMutex(st, c))
				return unit(), true
			}},
		"(*sync.Cond).Broadcast": {name: "CondBroadcast", enabled: always,
			perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) {
				p, _ := condQueue(st, f.args[0].(Ptr))
				st.store(p, CondV{})
				return unit(), true
			}},
		"(*sync.Cond).Signal": {name: "CondSignal", enabled: always,
			perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) {
				p, q := condQueue(st, f.args[0].(Ptr))
				if i := strings.IndexByte(q.waiters, ','); i >= 0 {
					st.store(p, CondV{q.waiters[i+1:]})
				}
				return unit(), true
			}},
		"(*sync.Once).Do": {name: "(*sync.Once).Do", inlinable: true,
			enabled: func(ex *Exec, st *State, g *Gor, f *Frame) *Term {
				if f.phase == 1 {
					return True
				}
				return mkBool(st.load(f.args[0].(Ptr)).(OnceV).st != 1)
			},
			perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) {
				p := f.args[0].(Ptr)
				o := st.load(p).(OnceV)
				if o.st == 2 {
					return unit(), true
				}
				st.store(p, OnceV{1})
				f.nat = natOnceEnd
				f.phase = 1
				ex.callValue(st, g, f.args[1], nil, false)
				return nil, false
			}},
		vpPkg + ".Gate": {name: "vp.Gate", enabled: always,
			perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) { return unit(), true }},
		vpcPkg + ".point": {name: "atomic.timer", enabled: always,
			perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) { return unit(), true }},
		modelPkg + ".point": {name: "cancel", inlinable: true, enabled: always,
			perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) { return unit(), true }},
		vpPkg + ".Await": {name: "vp.Await",
			enabled: func(ex *Exec, st *State, g *Gor, f *Frame) *Term {
				s := f.args[0].(Slice)
				var l []*Term
				for i := 0; i < s.Len; i++ {
					p := st.load(Ptr{s.O, s.P.child(s.Off + i)}).(Ptr)
					l = append(l, st.load(p).(*Term))
				}
				return Or(l...)
			},
			perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) { return unit(), true }},
		vpPkg + ".Quiesce": natQuiesce,
	}
	atom := func(name string, perform func(ex *Exec, st *State, args []Value) Value) {
		natives["sync/atomic."+name] = &NativeFn{name: "atomic." + name, inlinable: true, enabled: always,
			perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) { return perform(ex, st, f.args), true }}
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		atom("Load"+ty, func(ex *Exec, st *State, a []Value) Value { return st.load(a[0].(Ptr)) })
		atom("Store"+ty, func(ex *Exec, st *State, a []Value) Value { st.store(a[0].(Ptr), a[1]); return unit() })
		atom("Add"+ty, func(ex *Exec, st *State, a []Value) Value {
			v := BV(OAdd, st.load(a[0].(Ptr)).(*Term), a[1].(*Term))
			st.store(a[0].(Ptr), v)
			return v
		})
		atom("Swap"+ty, func(ex *Exec, st *State, a []Value) Value {
			v := st.load(a[0].(Ptr))
			st.store(a[0].(Ptr), a[1])
			return v
		})
		atom("CompareAndSwap"+ty, func(ex *Exec, st *State, a []Value) Value {
			old := st.load(a[0].(Ptr)).(*Term)
			c := Eq(old, a[1].(*Term))
			st.store(a[0].(Ptr), Ite(c, a[2].(*Term), old))
			return c
		})
	}
	// atomic.Pointer[T] and atomic.Value are struct types whose methods are
	// not expressible through the functions above: see intrinsics.

	intrinsics = map[string]intrinsic{}
	reg := func(name string, f intrinsic) { intrinsics[name] = f }

	reg("(*sync.Mutex).Unlock", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		doUnlock(st, a[0])
		ex.noteLock(st, g, a[0].(Ptr), false, false)
		return unit()
	})
	reg("(*sync.RWMutex).Unlock", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		if !st.load(a[0].(Ptr)).(RWMutexV).w {
			panic(goPanic{"sync: Unlock of unlocked RWMutex"})
		}
		st.store(a[0].(Ptr), RWMutexV{})
		ex.noteLock(st, g, a[0].(Ptr), false, false)
		return unit()
	})
	reg("(*sync.RWMutex).RUnlock", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		m := st.load(a[0].(Ptr)).(RWMutexV)
		m.r--
		if m.r < 0 {
			panic(goPanic{"sync: RUnlock of unlocked RWMutex"})
		}
		st.store(a[0].(Ptr), m)
		ex.noteLock(st, g, a[0].(Ptr), true, false)
		return unit()
	})
	wgAdd := func(ex *Exec, st *State, a Value, d int) Value {
		m := st.load(a.(Ptr)).(WGV)
		m.n += d
		if m.n < 0 {
			panic(goPanic{"sync: negative WaitGroup counter"})
		}
		st.store(a.(Ptr), m)
		return unit()
	}
	reg("(*sync.WaitGroup).Add", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		return wgAdd(ex, st, a[0], ex.intOf(st, a[1]))
	})
	reg("(*sync.WaitGroup).Done", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return wgAdd(ex, st, a[0], -1) })

	// --- vp ---
	reg(vpPkg+".Bool", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		v := ex.nondet(st, a[0].(string), SBool, 1)
		if ex.conc != nil {
			r := ex.concVal(st, v)
			ex.tr.nondet(g, a[0].(string), r.C)
			return r
		}
		return v
	})
	reg(vpPkg+".Int", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		lo, hi := a[1].(*Term), a[2].(*Term)
		v := ex.nondetInt(st, lo.SInt(), hi.SInt(), a[0].(string))
		if ex.conc != nil {
			ex.tr.nondet(g, a[0].(string), v.C)
		}
		return v
	})
	reg(vpPkg+".Float", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		v := ex.nondet(st, a[0].(string), SF64, 64)
		if ex.conc != nil {
			r := ex.concVal(st, v)
			ex.tr.nondet(g, a[0].(string), r.C)
			return r
		}
		return v
	})
	reg(vpPkg+".Pick", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		// concrete result: one path per value
		n := ex.intOf(st, a[1])
		i := ex.freshPick(st, n, 0)
		st.seq++
		if ex.conc != nil {
			ex.tr.nondet(g, a[0].(string), uint64(i))
		}
		return mkBV(uint64(i), 64)
	})
	reg(vpPkg+".Assume", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		c := a[0].(*Term)
		if c == True {
			return unit()
		}
		if c == False || (ex.conc != nil && !st.eval(c)) {
			return ctlVal{cDead}
		}
		if ex.conc != nil {
			return unit()
		}
		if !st.eval(c) {
			r, m := ex.sol.Check(And(st.guard, c), true)
			if r != Sat {
				if r == Unknown {
					ex.inconclusive("solver returned unknown on an assumption")
				}
				return ctlVal{cDead}
			}
			st.wit, st.ev = m, nil
		}
		st.guard = And(st.guard, c)
		return unit()
	})
	reg(vpPkg+".Goroutines", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		n := 0
		for _, h := range st.gs {
			if len(h.frames) > 0 && h.name != g.name {
				n++
			}
		}
		return mkBV(uint64(n), 64)
	})
	reg(vpPkg+".Assert", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		ex.assert(st, g, a[0].(*Term), a[1].(string))
		return unit()
	})
	reg(vpPkg+".Reach", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		l := a[0].(string)
		if ex.conc != nil {
			ex.tr.note("reach", g, l)
			return unit()
		}
		if ex.reach[l] == nil {
			ex.reach[l] = &Violation{Model: st.wit, Rec: st.rec, Depth: st.depth}
		}
		return unit()
	})
	reg(vpPkg+".Goal", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		ex.reachAll[a[0].(string)] = true
		return unit()
	})
	reg(vpPkg+".CrashIs", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		if ex.opt.Prop == "" || strings.HasPrefix(a[0].(string), ex.opt.Prop) {
			ex.crashProp = a[0].(string)
		}
		return unit()
	})
	reg(vpPkg+".DeadlockIs", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		if ex.opt.Prop == "" || strings.HasPrefix(a[0].(string), ex.opt.Prop) {
			ex.deadProp = a[0].(string)
		}
		return unit()
	})
	reg(vpPkg+".Lock", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return unit() })
	reg(vpPkg+".Unlock", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return unit() })
	reg(vpPkg+".Symbolic", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return True })
	reg(vpPkg+".Replaying", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return False })
	reg(vpPkg+".Time", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		return &Struct{f: []Value{mkBV(0, 64), a[0], NilPtr}}
	})
	reg(vpPkg+".Fork", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		return mkBool(ex.fork(st, a[0].(*Term)))
	})

	// --- time.Time: {wall, ext, loc}; the model keeps nanoseconds in ext ---
	ext := func(v Value) *Term { return v.(*Struct).f[1].(*Term) }
	tm := func(e *Term) Value { return &Struct{f: []Value{mkBV(0, 64), e, NilPtr}} }
	same := func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return a[0] }
	for _, n := range []string{"UTC", "Local"} {
		reg("(time.Time)."+n, same)
	}
	reg("(time.Time).Round", same)
	reg("(time.Time).Truncate", same)
	reg("(time.Time).Sub", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return BV(OSub, ext(a[0]), ext(a[1])) })
	reg("(time.Time).Add", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		return tm(BV(OAdd, ext(a[0]), a[1].(*Term)))
	})
	reg("(time.Time).Before", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return Cmp(OSLt, ext(a[0]), ext(a[1])) })
	reg("(time.Time).After", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return Cmp(OSLt, ext(a[1]), ext(a[0])) })
	reg("(time.Time).Equal", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return Eq(ext(a[0]), ext(a[1])) })
	reg("(time.Time).Compare", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		return Ite(Cmp(OSLt, ext(a[0]), ext(a[1])), mkBV(^uint64(0), 64), Ite(Eq(ext(a[0]), ext(a[1])), mkBV(0, 64), mkBV(1, 64)))
	})
	reg("(time.Time).IsZero", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return Eq(ext(a[0]), mkBV(0, 64)) })
	reg("(time.Time).UnixNano", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return ext(a[0]) })
	reg("(time.Time).Format", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		if e := ext(a[0]); e.IsConst() {
			if layout, ok := a[1].(string); ok {
				return time.Unix(0, e.SInt()).UTC().Format(layout)
			}
		}
		return "time(?)"
	})
	reg("(time.Time).String", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return "time" })
	reg("(time.Duration).String", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return "duration" })
	// Duration.Round without the forks of its branches
	reg("(time.Duration).Round", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		d, m := a[0].(*Term), a[1].(*Term)
		zero := mkBV(0, 64)
		r := BV(OSRem, d, m)
		nr := Neg(r)
		up := BV(OSub, BV(OAdd, d, m), r)
		down := BV(OAdd, BV(OSub, d, m), nr)
		half := func(x *Term) *Term { return Cmp(OULt, BV(OAdd, x, x), m) }
		if x := rangeOf(d); x != nil && m.IsConst() && m.SInt() > 0 && m.SInt() < 1<<40 && x.lo > -(1<<62) && x.hi < 1<<62 {
			// no overflow
			return Ite(Cmp(OSLt, d, zero), Ite(half(nr), BV(OAdd, d, nr), down), Ite(half(r), BV(OSub, d, r), up))
		}
		pos := Ite(half(r), BV(OSub, d, r), Ite(Cmp(OSLt, d, up), up, mkBV(uint64(math.MaxInt64), 64)))
		neg := Ite(half(nr), BV(OAdd, d, nr), Ite(Cmp(OSLt, down, d), down, mkBV(uint64(1)<<63, 64)))
		return Ite(Cmp(OSLe, m, zero), d, Ite(Cmp(OSLt, d, zero), neg, pos))
	})
	reg("time.Now", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return tm(mkBV(1, 64)) })

	// --- pure string helpers on concrete strings ---
	str2b := func(name string, f func(a, b string) bool) {
		reg("strings."+name, func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
			return mkBool(f(a[0].(string), a[1].(string)))
		})
	}
	str2b("Contains", strings.Contains)
	str2b("HasPrefix", strings.HasPrefix)
	str2b("HasSuffix", strings.HasSuffix)
	str2b("EqualFold", strings.EqualFold)
	reg("strings.Index", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		return mkBV(uint64(int64(strings.Index(a[0].(string), a[1].(string)))), 64)
	})
	reg("strings.ToLower", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return strings.ToLower(a[0].(string)) })
	reg("strings.TrimSpace", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		return strings.TrimSpace(a[0].(string))
	})
	reg("strings.Join", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		return strings.Join(strSlice(st, a[0].(Slice)), a[1].(string))
	})
	reg("strings.Split", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		n := &Struct{}
		for _, s := range strings.Split(a[0].(string), a[1].(string)) {
			n.f = append(n.f, s)
		}
		return Slice{st.alloc(n), rootPath, 0, len(n.f), len(n.f)}
	})
	reg("sort.Strings", sortStrings)
	reg("slices.Sort", sortStrings)
	reg("strconv.Itoa", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return fmt.Sprint(ex.intOf(st, a[0])) })
	reg("strconv.Quote", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		return fmt.Sprintf("%q", a[0].(string))
	})

	reg(vpcPkg+".unsupported", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		panic(Unsupported{a[0].(string)})
	})
	reg(vpcPkg+".isNil", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		i := ex.resolve(st, a[0]).(Iface)
		if i.T == nil {
			return True
		}
		switch i.T.T.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Slice, *types.Signature:
			switch v := ex.resolve(st, i.V).(type) {
			case Ptr:
				return mkBool(v.O == 0)
			case Slice:
				return mkBool(v.O == 0)
			case nil:
				return True
			}
		}
		return False
	})

	// --- model helpers (package vpm) ---
	reg(modelPkg+".typeName", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		i := ex.resolve(st, a[0]).(Iface)
		if i.T == nil {
			return "<nil>"
		}
		return types.TypeString(i.T.T, func(p *types.Package) string { return p.Name() })
	})
	reg(modelPkg+".scalar", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		// (kind, text) of a basic dynamic value: ("", "") if it is not one
		i := ex.resolve(st, a[0]).(Iface)
		if i.T == nil {
			return &Struct{f: []Value{"n", "<nil>"}}
		}
		switch v := i.V.(type) {
		case string:
			return &Struct{f: []Value{"s", v}}
		case *Term:
			if v.IsConst() {
				return &Struct{f: []Value{"d", showVal(v)}}
			}
			return &Struct{f: []Value{"d", "?"}}
		case Ptr:
			return &Struct{f: []Value{"p", "0xptr"}}
		}
		return &Struct{f: []Value{"", ""}}
	})
	reg(modelPkg+".sliceStrings", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		i := ex.resolve(st, a[0]).(Iface)
		if s, ok := i.V.(Slice); ok {
			all := true
			for j := 0; j < s.Len; j++ {
				if _, ok := st.load(Ptr{s.O, s.P.child(s.Off + j)}).(string); !ok {
					all = false
				}
			}
			if all {
				return &Struct{f: []Value{"[" + strings.Join(strSlice(st, s), " ") + "]", True}}
			}
		}
		return &Struct{f: []Value{"", False}}
	})
	// assignTo implements the type-directed step of errors.As.
	reg(modelPkg+".assignTo", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		e := ex.resolve(st, a[0]).(Iface)
		t := ex.resolve(st, a[1]).(Iface)
		if t.T == nil || e.T == nil {
			return False
		}
		pt, ok := t.T.T.Underlying().(*types.Pointer)
		if !ok {
			panic(goPanic{"errors: target must be a non-nil pointer"})
		}
		el := pt.Elem()
		if it, ok := el.Underlying().(*types.Interface); ok {
			if ex.implements(e.T, it) {
				st.store(t.V.(Ptr), e)
				return True
			}
			return False
		}
		if tinfo(el) == e.T {
			st.store(t.V.(Ptr), e.V)
			return True
		}
		return False
	})
	reg(modelPkg+".comparable_", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		e := ex.resolve(st, a[0]).(Iface)
		return mkBool(e.T == nil || types.Comparable(e.T.T))
	})

	reg("github.com/juju/errors.getLocation", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		return &Struct{f: []Value{"", mkBV(0, 64)}}
	})
	reg("runtime.Caller", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		return &Struct{f: []Value{mkBV(0, 64), "", mkBV(0, 64), False}}
	})
	reg("runtime.Goexit", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		return ctlVal{ex.raise(st, g, NilIface, true)}
	})
	reg("runtime.Gosched", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return unit() })
	reg("runtime.KeepAlive", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return unit() })
	reg("runtime/debug.Stack", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		return ex.convertBytes(st, "stack")
	})
	frand := func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		v := ex.nondet(st, "rand", SF64, 64)
		if ex.conc != nil {
			r := ex.concVal(st, v)
			ex.tr.nondet(g, "rand.Float64", r.C)
			return r
		}
		noteFloatDomain(v, 0, 1)
		st.guard = And(st.guard, mk(OFLe, SBool, 1, 0, "", mkF64(0), v), mk(OFLt, SBool, 1, 0, "", v, mkF64(1)))
		st.wit = st.wit.with(v, 0)
		st.ev = nil
		return v
	}
	reg("math/rand.Float64", frand)
	reg("math/rand/v2.Float64", frand)
	reg("math.Pow", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		if y.IsConst() && !x.IsConst() {
			// pow with a small constant integer exponent is exact enough to expand
			switch f64(y) {
			case 0:
				return mkF64(1)
			case 1:
				return x
			}
		}
		return FBin(OFPow, x, y)
	})
	reg("math.IsNaN", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return FIsNaN(a[0].(*Term)) })
	reg("math.Max", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		return Ite(FCmp(OFLt, x, y), y, x)
	})
	reg("math.Min", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		return Ite(FCmp(OFLt, y, x), y, x)
	})
	reg("reflect.DeepEqual", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		return ex.deepEq(st, ex.resolve(st, a[0]), ex.resolve(st, a[1]), 0)
	})
	reg(modelPkg+".length", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		return mkBV(uint64(ex.resolve(st, ex.resolve(st, a[0]).(Iface).V).(Slice).Len), 64)
	})
	reg(modelPkg+".swap", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		s := ex.resolve(st, ex.resolve(st, a[0]).(Iface).V).(Slice)
		p := Ptr{s.O, s.P.child(s.Off + ex.intOf(st, a[1]))}
		q := Ptr{s.O, s.P.child(s.Off + ex.intOf(st, a[2]))}
		x, y := st.load(p), st.load(q)
		st.store(p, y)
		st.store(q, x)
		return unit()
	})
	reg(modelPkg+".poolNew", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		for _, x := range st.load(a[0].(Ptr)).(*Struct).f {
			if f, ok := x.(*FuncV); ok {
				return f
			}
		}
		return (*FuncV)(nil)
	})
	reg("maps.clone", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		i := ex.resolve(st, a[0]).(Iface)
		m := ex.resolve(st, i.V).(MapRef)
		if m.O == 0 {
			return i
		}
		return Iface{i.T, MapRef{st.alloc(st.heap[m.O].(*MapV))}}
	})
	reg("(*strings.Builder).copyCheck", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return unit() })
	reg("(*strings.Builder).String", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		s := st.load(a[0].(Ptr)).(*Struct).f[1].(Slice)
		var b []byte
		for i := 0; i < s.Len; i++ {
			b = append(b, byte(ex.intOf(st, st.load(Ptr{s.O, s.P.child(s.Off + i)}))))
		}
		return string(b)
	})
	clone := func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return a[0] }
	reg("strings.Clone", clone)
	reg("internal/stringslite.Clone", clone)
	ints := func(n int) Value { return mkBV(uint64(int64(n)), 64) }
	for _, pk := range []string{"internal/bytealg", "internal/stringslite"} {
		reg(pk+".IndexByteString", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
			return ints(strings.IndexByte(a[0].(string), byte(ex.intOf(st, a[1]))))
		})
		reg(pk+".LastIndexByteString", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
			return ints(strings.LastIndexByte(a[0].(string), byte(ex.intOf(st, a[1]))))
		})
		reg(pk+".CountString", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
			return ints(strings.Count(a[0].(string), string([]byte{byte(ex.intOf(st, a[1]))})))
		})
		reg(pk+".IndexString", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
			return ints(strings.Index(a[0].(string), a[1].(string)))
		})
		reg(pk+".CompareString", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
			return ints(strings.Compare(a[0].(string), a[1].(string)))
		})
	}
	str := func(name string, f func(ex *Exec, st *State, a []Value) Value) {
		reg("strings."+name, func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return f(ex, st, a) })
	}
	strs := func(st *State, l []string) Value {
		n := &Struct{}
		for _, s := range l {
			n.f = append(n.f, s)
		}
		return Slice{st.alloc(n), rootPath, 0, len(n.f), len(n.f)}
	}
	str("ToUpper", func(ex *Exec, st *State, a []Value) Value { return strings.ToUpper(a[0].(string)) })
	str("Title", func(ex *Exec, st *State, a []Value) Value { return strings.Title(a[0].(string)) })
	str("Fields", func(ex *Exec, st *State, a []Value) Value { return strs(st, strings.Fields(a[0].(string))) })
	str("Trim", func(ex *Exec, st *State, a []Value) Value { return strings.Trim(a[0].(string), a[1].(string)) })
	str("TrimLeft", func(ex *Exec, st *State, a []Value) Value { return strings.TrimLeft(a[0].(string), a[1].(string)) })
	str("TrimRight", func(ex *Exec, st *State, a []Value) Value { return strings.TrimRight(a[0].(string), a[1].(string)) })
	str("ReplaceAll", func(ex *Exec, st *State, a []Value) Value {
		return strings.ReplaceAll(a[0].(string), a[1].(string), a[2].(string))
	})
	str("Replace", func(ex *Exec, st *State, a []Value) Value {
		return strings.Replace(a[0].(string), a[1].(string), a[2].(string), ex.intOf(st, a[3]))
	})
	str("Repeat", func(ex *Exec, st *State, a []Value) Value {
		return strings.Repeat(a[0].(string), ex.intOf(st, a[1]))
	})
	str("LastIndex", func(ex *Exec, st *State, a []Value) Value {
		return ints(strings.LastIndex(a[0].(string), a[1].(string)))
	})
	str("Count", func(ex *Exec, st *State, a []Value) Value { return ints(strings.Count(a[0].(string), a[1].(string))) })
	str("Compare", func(ex *Exec, st *State, a []Value) Value {
		return ints(strings.Compare(a[0].(string), a[1].(string)))
	})
	str("ContainsAny", func(ex *Exec, st *State, a []Value) Value {
		return mkBool(strings.ContainsAny(a[0].(string), a[1].(string)))
	})
	str("ContainsRune", func(ex *Exec, st *State, a []Value) Value {
		return mkBool(strings.ContainsRune(a[0].(string), rune(ex.intOf(st, a[1]))))
	})
	str("SplitN", func(ex *Exec, st *State, a []Value) Value {
		return strs(st, strings.SplitN(a[0].(string), a[1].(string), ex.intOf(st, a[2])))
	})
	// float helpers: constants, and what the solver can say exactly
	reg("math.Abs", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		x := a[0].(*Term)
		if x.IsConst() {
			return mkF64(math.Abs(f64(x)))
		}
		return Ite(FCmp(OFLt, x, mkF64(0)), FBin(OFSub, mkF64(0), x), x)
	})
	reg("math.IsInf", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		x, s := a[0].(*Term), ex.intOf(st, a[1])
		pos, neg := FCmp(OFLt, mkF64(math.MaxFloat64), x), FCmp(OFLt, x, mkF64(-math.MaxFloat64))
		if s > 0 {
			return pos
		}
		if s < 0 {
			return neg
		}
		return Or(pos, neg)
	})
	reg("math.Inf", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		return mkF64(math.Inf(ex.intOf(st, a[0])))
	})
	reg("math.NaN", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return mkF64(math.NaN()) })
	reg("math.Float64bits", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		x := a[0].(*Term)
		if !x.IsConst() {
			panic(Unsupported{"bits of a symbolic float"})
		}
		return mkBV(math.Float64bits(f64(x)), 64)
	})
	reg("math.Float64frombits", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		x := a[0].(*Term)
		if !x.IsConst() {
			panic(Unsupported{"float from symbolic bits"})
		}
		return mkF64(math.Float64frombits(x.C))
	})
	for n, fn := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Round": math.Round, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Exp": math.Exp, "Log": math.Log, "Exp2": math.Exp2, "Log2": math.Log2} {
		n, fn := n, fn
		reg("math."+n, func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
			x := a[0].(*Term)
			if !x.IsConst() {
				panic(Unsupported{"math." + n + " of a symbolic value"})
			}
			return mkF64(fn(f64(x)))
		})
	}
	reg("time.Since", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		return BV(OSub, mkBV(1, 64), ext(a[0]))
	})
	reg("time.Until", func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
		return BV(OSub, ext(a[0]), mkBV(1, 64))
	})
	natives["time.Sleep"] = &NativeFn{name: "atomic.Sleep", inlinable: true, enabled: always,
		perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) { return unit(), true }}

	// atomic.Value and atomic.Pointer: the cell is a field of the struct
	cell := func(name string, field int, perform func(ex *Exec, st *State, p Ptr, a []Value) Value) {
		m := name[strings.LastIndex(name, ".")+1:]
		natives[name] = &NativeFn{name: "atomic." + m, inlinable: true, enabled: always,
			perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) {
				p := f.args[0].(Ptr)
				n := len(st.load(p).(*Struct).f)
				return perform(ex, st, Ptr{p.O, p.P.child((n + field) % n)}, f.args[1:]), true
			}}
	}
	for _, t := range []string{"(*sync/atomic.Value)", "(*sync/atomic.Pointer)"} {
		field := 0
		if t == "(*sync/atomic.Pointer)" {
			field = -1 // the last field
		}
		cell(t+".Load", field, func(ex *Exec, st *State, p Ptr, a []Value) Value { return st.load(p) })
		cell(t+".Store", field, func(ex *Exec, st *State, p Ptr, a []Value) Value { st.store(p, a[0]); return unit() })
		cell(t+".Swap", field, func(ex *Exec, st *State, p Ptr, a []Value) Value {
			v := st.load(p)
			st.store(p, a[0])
			return v
		})
		cell(t+".CompareAndSwap", field, func(ex *Exec, st *State, p Ptr, a []Value) Value {
			c := ex.fork(st, ex.eq(st, ex.resolve(st, st.load(p)), ex.resolve(st, a[0])))
			if c {
				st.store(p, a[1])
			}
			return mkBool(c)
		})
	}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

var natOnceEnd = &NativeFn{name: "(*sync.Once).Do",
	perform: func(ex *Exec, st *State, g *Gor, f *Frame) (Value, bool) {
		st.store(f.args[0].(Ptr), OnceV{2})
		return unit(), true
	}}

func (ex *Exec) concVal(st *State, v *Term) *Term {
	if st.ev == nil || st.ev.m != st.wit {
		st.ev = newEval(st.wit)
	}
	c := st.ev.eval(v)
	return mk(OConst, v.S, v.W, c, "")
}

// freshPick chooses a value in [0, n) for the variable off places ahead of the
// sequence number, which is not consumed, so that a forked path re-executing
// the call sees the same variable. Nothing else mentions the variable yet, so
// every value is feasible and no query is needed.
func (ex *Exec) freshPick(st *State, n, off int) int {
	v := mkVar(fmt.Sprintf("n%d_%d_v64", st.depth, st.seq+off), SBV, 64)
	noteDomain(v, 0, int64(n-1))
	if ex.conc != nil {
		x := int64(ex.concVal(st, v).C)
		if x < 0 || x >= int64(n) {
			x = 0
		}
		return int(x)
	}
	c := And(rawCmp(OSLe, mkBV(0, 64), v), rawCmp(OSLe, v, mkBV(uint64(n-1), 64)))
	if !st.known[c] {
		st.known[c] = true
		st.wit = st.wit.with(v, 0)
		st.ev = nil
		st.guard = And(st.guard, c)
	}
	for i := 0; i < n; i++ {
		e := Eq(v, mkBV(uint64(i), 64))
		if e == True {
			return i
		}
		k, ok := st.known[e]
		if ok && k {
			return i
		}
		if ok {
			continue
		}
		if i == n-1 {
			st.known[e] = true
			st.guard = And(st.guard, e)
			return i
		}
		ex.nForks++
		o := st.clone()
		o.guard = And(st.guard, Not(e))
		o.wit = st.wit.with(v, uint64(i+1))
		o.ev = nil
		o.known[e] = false
		ex.work = append(ex.work, o)
		st.known[e] = true
		st.guard = And(st.guard, e)
		st.wit = st.wit.with(v, uint64(i))
		st.ev = nil
		return i
	}
	panic("unreachable")
}

func (ex *Exec) convertBytes(st *State, s string) Value {
	a := &Struct{}
	for i := 0; i < len(s); i++ {
		a.f = append(a.f, mkBV(uint64(s[i]), 8))
	}
	return Slice{st.alloc(a), rootPath, 0, len(a.f), len(a.f)}
}

func strSlice(st *State, s Slice) []string {
	var l []string
	for i := 0; i < s.Len; i++ {
		l = append(l, st.load(Ptr{s.O, s.P.child(s.Off + i)}).(string))
	}
	return l
}

func sortStrings(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value {
	s := a[0].(Slice)
	l := strSlice(st, s)
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	for i, x := range l {
		st.store(Ptr{s.O, s.P.child(s.Off + i)}, x)
	}
	return unit()
}

func (ex *Exec) deepEq(st *State, x, y Value, d int) *Term {
	if d > 20 {
		panic(Unsupported{"DeepEqual depth"})
	}
	switch a := x.(type) {
	case Iface:
		b, ok := y.(Iface)
		if !ok || a.T != b.T {
			return False
		}
		if a.T == nil {
			return True
		}
		return ex.deepEq(st, a.V, b.V, d+1)
	case *Struct:
		b := y.(*Struct)
		r := True
		for i := range a.f {
			r = And(r, ex.deepEq(st, ex.resolve(st, a.f[i]), ex.resolve(st, b.f[i]), d+1))
		}
		return r
	case Slice:
		b := y.(Slice)
		if (a.O == 0) != (b.O == 0) || a.Len != b.Len {
			return False
		}
		r := True
		for i := 0; i < a.Len; i++ {
			r = And(r, ex.deepEq(st, ex.resolve(st, st.load(Ptr{a.O, a.P.child(a.Off + i)})), ex.resolve(st, st.load(Ptr{b.O, b.P.child(b.Off + i)})), d+1))
		}
		return r
	case MapRef:
		b := y.(MapRef)
		if (a.O == 0) != (b.O == 0) {
			return False
		}
		if a.O == b.O {
			return True
		}
		m, n := st.heap[a.O].(*MapV), st.heap[b.O].(*MapV)
		if len(m.ents) != len(n.ents) {
			return False
		}
		r := True
		for _, e := range m.ents {
			v, ok := mapGet(n, e.k)
			if !ok {
				return False
			}
			r = And(r, ex.deepEq(st, ex.resolve(st, e.v), ex.resolve(st, v), d+1))
		}
		return r
	case Ptr:
		b := y.(Ptr)
		if a.O == 0 || b.O == 0 {
			return mkBool(a.O == b.O)
		}
		if a.O == b.O && pathEq(a.P, b.P) {
			return True
		}
		return ex.deepEq(st, ex.resolve(st, st.load(a)), ex.resolve(st, st.load(b)), d+1)
	}
	return ex.eq(st, x, y)
}

// assert decides an assertion with the solver and continues assuming it.
func (ex *Exec) assert(st *State, g *Gor, c *Term, msg string) {
	if ex.conc != nil {
		ok := st.eval(c)
		if !ok {
			ex.tr.note("assert", g, msg)
		}
		return
	}
	if ex.opt.Prop != "" && !strings.HasPrefix(msg, ex.opt.Prop+":") {
		return
	}
	s := ex.asserts[msg]
	if s == nil {
		s = &AssertStat{Msg: msg}
		ex.asserts[msg] = s
	}
	s.Checked++
	if c == True {
		return
	}
	if ex.violSet[msg] {
		return
	}
	s.Queries++
	r, m := ex.sol.Check(And(st.guard, Not(c)), true)
	switch r {
	case Unsat:
		return
	case Unknown:
		ex.inconclusive("solver returned unknown on assertion: " + msg)
		return
	}
	ex.violSet[msg] = true
	ex.viol = append(ex.viol, &Violation{Msg: msg, Depth: st.depth, Model: m, Rec: st.rec, Kind: "assert"})
}
