package main

// Runtime values of the symbolic executor.  All values are immutable trees;
// mutable memory is the heap (State.heap), indexed by ObjID.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Value interface{}

type ObjID int32

// Path is an interned field/element path inside an object.
type Path struct {
	parent *Path
	idx    int
	kids   map[int]*Path
	id     int
}

var (
	rootPath = &Path{}
	pathN    = 0
)

func (p *Path) child(i int) *Path {
	if c, ok := p.kids[i]; ok {
		return c
	}
	if p.kids == nil {
		p.kids = map[int]*Path{}
	}
	pathN++
	c := &Path{parent: p, idx: i, id: pathN}
	p.kids[i] = c
	return c
}

func (p *Path) String() string {
	if p == nil || p == rootPath {
		return ""
	}
	return fmt.Sprintf("%s.%d", p.parent, p.idx)
}

// Ptr: nil pointer is the zero value.
type Ptr struct {
	O ObjID
	P *Path
}

type MapRef struct{ O ObjID }
type ChanRef struct{ O ObjID }

type Slice struct {
	O             ObjID // 0: nil slice
	P             *Path
	Off, Len, Cap int
}

type Iface struct {
	T *TypeInfo // nil: nil interface
	V Value
}

type FuncV struct {
	fn    *ssa.Function
	binds []Value
}
type BuiltinV struct{ name string }

type Struct struct{ f []Value } // also arrays and tuples

// sync primitives, as values
type MutexV struct{ locked bool }
type RWMutexV struct {
	w bool
	r int
}
type WGV struct{ n int }
type OnceV struct{ st int }         // 0 idle 1 running 2 done
type CondV struct{ waiters string } // comma-terminated goroutine names

// heap-only values
type MapV struct{ ents []MapEnt }
type MapEnt struct{ k, v Value }
type ChanV struct {
	cap    int
	closed bool
	buf    []Value
	tag    string
}

// iterators
type RangeIter struct {
	keys  []Value
	m     ObjID
	str   string
	pos   int
	ismap bool
}

type Union struct{ alts []Alt }
type Alt struct {
	g *Term
	v Value
}

type TypeInfo struct {
	T    types.Type
	id   int
	name string
	err  bool // implements error
}

var typeMap typeutil.Map
var typeN int
var typeByPtr = map[types.Type]*TypeInfo{}
var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func tinfo(t types.Type) *TypeInfo {
	if ti, ok := typeByPtr[t]; ok {
		return ti
	}
	ot := t
	t = types.Unalias(t)
	if v := typeMap.At(t); v != nil {
		typeByPtr[ot] = v.(*TypeInfo)
		return v.(*TypeInfo)
	}
	typeN++
	ti := &TypeInfo{T: t, id: typeN, name: types.TypeString(t, nil), err: types.Implements(t, errorIface)}
	typeMap.Set(t, ti)
	typeByPtr[ot] = ti
	return ti
}

var NilPtr = Ptr{}
var NilIface = Iface{}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

func bvWidth(b *types.Basic) (uint8, bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	}
	panic(Unsupported{"bvWidth " + b.String()})
}

var zeroCache = map[types.Type]Value{}

func zero(t types.Type) Value {
	if v, ok := zeroCache[t]; ok {
		return v
	}
	v := zero1(t)
	zeroCache[t] = v
	return v
}

func zero1(t types.Type) Value {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if o := n.Obj(); o.Pkg() != nil && o.Pkg().Path() == "sync" {
			switch o.Name() {
			case "Mutex":
				return MutexV{}
			case "RWMutex":
				return RWMutexV{}
			case "WaitGroup":
				return WGV{}
			case "Once":
				return OnceV{}
			case "notifyList":
				return CondV{}
			case "copyChecker":
				return mkBV(0, 64)
			case "Map":
				return zero(modelType("SyncMap"))
			case "Pool":
				if s, ok := t.Underlying().(*types.Struct); ok {
					r := &Struct{f: make([]Value, s.NumFields())}
					for i := range r.f {
						r.f[i] = NilPtr
						if s.Field(i).Name() == "New" {
							r.f[i] = (*FuncV)(nil)
						}
					}
					return r
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			w, _ := bvWidth(u)
			return mkBV(0, w)
		case u.Info()&types.IsFloat != 0:
			return mkF64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return NilPtr
		case u.Kind() == types.UntypedNil:
			return NilPtr
		}
	case *types.Pointer:
		return NilPtr
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapRef{}
	case *types.Chan:
		return ChanRef{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Interface:
		return NilIface
	case *types.Struct:
		s := &Struct{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 4096 {
			panic(Unsupported{"huge array"})
		}
		s := &Struct{f: make([]Value, u.Len())}
		for i := range s.f {
			s.f[i] = zero(u.Elem())
		}
		return s
	case *types.Tuple:
		s := &Struct{f: make([]Value, u.Len())}
		for i := range s.f {
			s.f[i] = zero(u.At(i).Type())
		}
		return s
	}
	panic(Unsupported{"zero of " + t.String()})
}

func getPath(v Value, p *Path) Value {
	if p == nil || p == rootPath {
		return v
	}
	return getPath(v, p.parent).(*Struct).f[p.idx]
}

func setPath(v Value, p *Path, x Value) Value {
	if p == nil || p == rootPath {
		return x
	}
	parent := getPath(v, p.parent).(*Struct)
	n := &Struct{f: append([]Value(nil), parent.f...)}
	n.f[p.idx] = x
	return setPath(v, p.parent, n)
}

func showVal(v Value) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case *Term:
		if v.IsConst() {
			switch v.S {
			case SBool:
				return fmt.Sprint(v.C == 1)
			case SBV:
				return fmt.Sprint(v.SInt())
			}
			return fmt.Sprint(f64(v))
		}
		return v.str(2)
	case string:
		return fmt.Sprintf("%q", v)
	case Ptr:
		if v.O == 0 {
			return "nil"
		}
		return fmt.Sprintf("&%d%s", v.O, v.P)
	case Iface:
		if v.T == nil {
			return "nil"
		}
		return v.T.name + "(" + showVal(v.V) + ")"
	case *Struct:
		var l []string
		for _, x := range v.f {
			l = append(l, showVal(x))
		}
		return "{" + strings.Join(l, ",") + "}"
	case *Union:
		var l []string
		for _, a := range v.alts {
			l = append(l, showVal(a.v))
		}
		return "U[" + strings.Join(l, "|") + "]"
	case *FuncV:
		if v == nil {
			return "nilfunc"
		}
		return v.fn.String()
	}
	return fmt.Sprintf("%T%v", v, v)
}

// goPanic is a Go-level run-time panic raised while executing an instruction.
type goPanic struct{ msg string }

func modelType(n string) types.Type {
	p := theProg.ImportedPackage(modelPkg)
	return p.Type(n).Type()
}
