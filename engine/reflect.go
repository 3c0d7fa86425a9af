package main

// The part of package reflect that converts and stores values of arbitrary
// types: a reflect.Value is {type, value or address, addressable}, a
// reflect.Type a *reflect.rtype that carries the type.

import (
	"fmt"
	"go/types"
)

var rtypeInfo *TypeInfo

func (ex *Exec) rtype(t types.Type) Value {
	if rtypeInfo == nil {
		p := ex.prog.ImportedPackage("reflect")
		if p == nil {
			panic(Unsupported{"package reflect is not loaded"})
		}
		rtypeInfo = tinfo(types.NewPointer(p.Pkg.Scope().Lookup("rtype").Type()))
	}
	return Iface{T: rtypeInfo, V: &Struct{f: []Value{Iface{T: tinfo(t), V: unit()}}}}
}

func rtypeOf(v Value) types.Type {
	if i, ok := v.(Iface); ok {
		if i.T == nil {
			panic(goPanic{"reflect: nil type"})
		}
		v = i.V
	}
	s, ok := v.(*Struct)
	if !ok || len(s.f) != 1 {
		panic(Unsupported{"reflect.Type of another kind"})
	}
	return s.f[0].(Iface).T.T
}

func rvalue(t types.Type, v Value, addr bool) Value {
	return &Struct{f: []Value{Iface{T: tinfo(t), V: unit()}, v, mkBV(b2u(addr), 64)}}
}

// rv takes a reflect.Value apart; t is nil for the zero Value.
func (ex *Exec) rv(st *State, v Value) (t types.Type, val Value, ptr Ptr, addr bool) {
	s := ex.resolve(st, v).(*Struct)
	i, ok := ex.resolve(st, s.f[0]).(Iface)
	if !ok || i.T == nil {
		return nil, nil, Ptr{}, false
	}
	t = i.T.T
	val = ex.resolve(st, s.f[1])
	if f := ex.intOf(st, s.f[2]); f == 1 {
		ptr = val.(Ptr)
		return t, ex.resolve(st, st.load(ptr)), ptr, true
	}
	return t, val, Ptr{}, false
}

func rkind(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int, types.Int8, types.Int16, types.Int32, types.Int64,
			types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			return 2 + uint64(u.Kind()-types.Int)
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	panic(Unsupported{"reflect.Kind of " + t.String()})
}

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

func telem(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	panic(goPanic{"reflect: Elem of invalid type " + t.String()})
}

// convertTo is Value.Convert, the value as one of type to.
func (ex *Exec) convertTo(st *State, t types.Type, val Value, to types.Type) Value {
	if !types.ConvertibleTo(t, to) {
		panic(goPanic{"reflect.Value.Convert: value of type " + t.String() + " cannot be converted to type " + to.String()})
	}
	_, fromI := t.Underlying().(*types.Interface)
	if _, ok := to.Underlying().(*types.Interface); ok {
		if fromI {
			return val
		}
		return Iface{T: tinfo(t), V: val}
	}
	if fromI {
		panic(Unsupported{"reflect conversion from an interface type"})
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		switch to.Underlying().(type) {
		case *types.Array, *types.Pointer:
			panic(Unsupported{"reflect conversion of a slice to an array"})
		}
	}
	if types.Identical(t, to) {
		return val
	}
	return ex.convert(st, t, to, val)
}

func (ex *Exec) assignable(t, to types.Type) bool { return types.AssignableTo(t, to) }

func initReflect() {
	reg := func(name string, f func(ex *Exec, st *State, a []Value) Value) {
		intrinsics[name] = func(ex *Exec, st *State, g *Gor, fi *FnInfo, a []Value) Value { return f(ex, st, a) }
	}
	rt := "(*reflect.rtype)."
	rv := "(reflect.Value)."
	must := func(ex *Exec, st *State, v Value, what string) (types.Type, Value, Ptr, bool) {
		t, val, p, ad := ex.rv(st, v)
		if t == nil {
			panic(goPanic{"reflect: call of reflect.Value." + what + " on zero Value"})
		}
		return t, val, p, ad
	}
	typ := func(ex *Exec, st *State, v Value) types.Type { return rtypeOf(ex.resolve(st, v)) }
	valueOf := func(ex *Exec, st *State, v Value) Value {
		i := ex.resolve(st, v).(Iface)
		if i.T == nil {
			return &Struct{f: []Value{NilPtr, NilPtr, mkBV(0, 64)}}
		}
		return rvalue(i.T.T, i.V, false)
	}
	reg("reflect.ValueOf", func(ex *Exec, st *State, a []Value) Value { return valueOf(ex, st, a[0]) })
	reg("reflect.TypeOf", func(ex *Exec, st *State, a []Value) Value {
		i := ex.resolve(st, a[0]).(Iface)
		if i.T == nil {
			return NilIface
		}
		return ex.rtype(i.T.T)
	})
	reg("reflect.Indirect", func(ex *Exec, st *State, a []Value) Value {
		t, val, _, _ := ex.rv(st, a[0])
		if t == nil || rkind(t) != 22 {
			return a[0]
		}
		return rvalue(telem(t), val, true)
	})
	reg("reflect.New", func(ex *Exec, st *State, a []Value) Value {
		t := typ(ex, st, a[0])
		return rvalue(types.NewPointer(t), Ptr{O: st.alloc(zero(t)), P: rootPath}, false)
	})
	reg("reflect.Zero", func(ex *Exec, st *State, a []Value) Value {
		t := typ(ex, st, a[0])
		return rvalue(t, zero(t), false)
	})
	reg(rv+"IsValid", func(ex *Exec, st *State, a []Value) Value {
		t, _, _, _ := ex.rv(st, a[0])
		return mkBool(t != nil)
	})
	reg(rv+"Kind", func(ex *Exec, st *State, a []Value) Value {
		t, _, _, _ := ex.rv(st, a[0])
		if t == nil {
			return mkBV(0, 64)
		}
		return mkBV(rkind(t), 64)
	})
	reg(rv+"Type", func(ex *Exec, st *State, a []Value) Value {
		t, _, _, _ := must(ex, st, a[0], "Type")
		return ex.rtype(t)
	})
	reg(rv+"Elem", func(ex *Exec, st *State, a []Value) Value {
		t, val, _, _ := must(ex, st, a[0], "Elem")
		switch t.Underlying().(type) {
		case *types.Interface:
			return valueOf(ex, st, val)
		case *types.Pointer:
			if val.(Ptr).O == 0 {
				return &Struct{f: []Value{NilPtr, NilPtr, mkBV(0, 64)}}
			}
			return rvalue(telem(t), val, true)
		}
		panic(goPanic{"reflect: call of reflect.Value.Elem on " + kindNames[rkind(t)] + " Value"})
	})
	isNil := func(val Value) bool {
		switch x := val.(type) {
		case Iface:
			return x.T == nil
		case Ptr:
			return x.O == 0
		case Slice:
			return x.O == 0
		case MapRef:
			return x.O == 0
		case ChanRef:
			return x.O == 0
		case *FuncV:
			return x == nil
		case BuiltinV:
			return false
		}
		panic(goPanic{"reflect: call of reflect.Value.IsNil on a value that cannot be nil"})
	}
	reg(rv+"IsNil", func(ex *Exec, st *State, a []Value) Value {
		_, val, _, _ := must(ex, st, a[0], "IsNil")
		return mkBool(isNil(val))
	})
	reg(rv+"CanSet", func(ex *Exec, st *State, a []Value) Value { _, _, _, ad := ex.rv(st, a[0]); return mkBool(ad) })
	reg(rv+"CanAddr", func(ex *Exec, st *State, a []Value) Value { _, _, _, ad := ex.rv(st, a[0]); return mkBool(ad) })
	reg(rv+"CanInterface", func(ex *Exec, st *State, a []Value) Value {
		must(ex, st, a[0], "CanInterface")
		return True
	})
	reg(rv+"Interface", func(ex *Exec, st *State, a []Value) Value {
		t, val, _, _ := must(ex, st, a[0], "Interface")
		if _, ok := t.Underlying().(*types.Interface); ok {
			return val
		}
		return Iface{T: tinfo(t), V: val}
	})
	reg(rv+"Convert", func(ex *Exec, st *State, a []Value) Value {
		t, val, _, _ := must(ex, st, a[0], "Convert")
		to := typ(ex, st, a[1])
		return rvalue(to, ex.convertTo(st, t, val, to), false)
	})
	reg(rv+"CanConvert", func(ex *Exec, st *State, a []Value) Value {
		t, _, _, _ := must(ex, st, a[0], "CanConvert")
		return mkBool(types.ConvertibleTo(t, typ(ex, st, a[1])))
	})
	reg(rv+"Set", func(ex *Exec, st *State, a []Value) Value {
		t, _, p, ad := must(ex, st, a[0], "Set")
		if !ad {
			panic(goPanic{"reflect: reflect.Value.Set using unaddressable value"})
		}
		from, val, _, _ := must(ex, st, a[1], "Set")
		if !ex.assignable(from, t) {
			panic(goPanic{fmt.Sprintf("reflect.Set: value of type %s is not assignable to type %s", from, t)})
		}
		st.store(p, ex.convertTo(st, from, val, t))
		return unit()
	})
	reg(rv+"SetZero", func(ex *Exec, st *State, a []Value) Value {
		t, _, p, ad := must(ex, st, a[0], "SetZero")
		if !ad {
			panic(goPanic{"reflect: reflect.Value.SetZero using unaddressable value"})
		}
		st.store(p, zero(t))
		return unit()
	})
	reg(rv+"Addr", func(ex *Exec, st *State, a []Value) Value {
		t, _, p, ad := must(ex, st, a[0], "Addr")
		if !ad {
			panic(goPanic{"reflect.Value.Addr of unaddressable value"})
		}
		return rvalue(types.NewPointer(t), p, false)
	})
	reg(rt+"Kind", func(ex *Exec, st *State, a []Value) Value { return mkBV(rkind(typ(ex, st, a[0])), 64) })
	reg(rt+"Elem", func(ex *Exec, st *State, a []Value) Value { return ex.rtype(telem(typ(ex, st, a[0]))) })
	reg(rt+"ConvertibleTo", func(ex *Exec, st *State, a []Value) Value {
		return mkBool(types.ConvertibleTo(typ(ex, st, a[0]), typ(ex, st, a[1])))
	})
	reg(rt+"AssignableTo", func(ex *Exec, st *State, a []Value) Value {
		return mkBool(ex.assignable(typ(ex, st, a[0]), typ(ex, st, a[1])))
	})
	reg(rt+"Implements", func(ex *Exec, st *State, a []Value) Value {
		i, ok := typ(ex, st, a[1]).Underlying().(*types.Interface)
		if !ok {
			panic(goPanic{"reflect: non-interface type passed to Type.Implements"})
		}
		return mkBool(types.Implements(typ(ex, st, a[0]), i))
	})
	reg(rt+"Comparable", func(ex *Exec, st *State, a []Value) Value { return mkBool(types.Comparable(typ(ex, st, a[0]))) })
	reg(rt+"String", func(ex *Exec, st *State, a []Value) Value {
		return types.TypeString(typ(ex, st, a[0]), func(p *types.Package) string { return p.Name() })
	})
	reg(rt+"Name", func(ex *Exec, st *State, a []Value) Value {
		switch t := types.Unalias(typ(ex, st, a[0])).(type) {
		case *types.Named:
			return t.Obj().Name()
		case *types.Basic:
			return t.Name()
		}
		return ""
	})
	reg("(reflect.Kind).String", func(ex *Exec, st *State, a []Value) Value { return kindNames[ex.intOf(st, a[0])] })
}
