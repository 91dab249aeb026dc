package main

// A small reflection layer over interpreter values, used by the encoding models and for package reflect.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type RV = ReflV

func (m *Machine) rv(t types.Type, v Value) *RV { return &RV{t: t, v: v} }
func rvCell(t types.Type, c *Cell) *RV          { return &RV{t: t, cell: c} }

func (r *RV) get() Value {
	if r.cell != nil {
		return r.cell.v
	}
	return r.v
}

func (r *RV) set(v Value) {
	if r.cell == nil {
		panic(unsupported("reflect: set of unaddressable value"))
	}
	storeVal(r.cell, v)
}

type rkind int

const (
	kInvalid rkind = iota
	kBool
	kInt
	kUint
	kFloat
	kString
	kPtr
	kIface
	kStruct
	kSlice
	kArray
	kMap
	kFunc
	kChan
	kTime
	kOther
)

func kindOf(t types.Type) rkind {
	if t == nil {
		return kInvalid
	}
	if isTimeType(t) {
		return kTime
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return kBool
		case i&types.IsString != 0:
			return kString
		case i&types.IsInteger != 0:
			if i&types.IsUnsigned != 0 {
				return kUint
			}
			return kInt
		case i&types.IsFloat != 0:
			return kFloat
		}
	case *types.Pointer:
		return kPtr
	case *types.Interface:
		return kIface
	case *types.Struct:
		return kStruct
	case *types.Slice:
		return kSlice
	case *types.Array:
		return kArray
	case *types.Map:
		return kMap
	case *types.Signature:
		return kFunc
	case *types.Chan:
		return kChan
	}
	return kOther
}

func (r *RV) kind() rkind { return kindOf(r.t) }

func (r *RV) isNil() bool {
	switch x := r.get().(type) {
	case *Cell:
		return x == nil
	case *MapV:
		return x == nil
	case Slice:
		return x.isNil
	case Iface:
		return x.t == nil
	case *Closure:
		return x == nil
	case *Chan:
		return x == nil
	}
	return false
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	panic(unsupported("elem type of " + t.String()))
}

// elem of a pointer or interface.
func (m *Machine) rvElem(fr *Frame, r *RV) *RV {
	switch r.kind() {
	case kPtr:
		c := r.get().(*Cell)
		if c == nil {
			return &RV{}
		}
		return rvCell(elemType(r.t), c)
	case kIface:
		i := m.force(fr, r.get())
		if i.t == nil {
			return &RV{}
		}
		return &RV{t: i.t, v: i.v}
	}
	panic(unsupported("reflect: Elem of " + r.t.String()))
}

func (r *RV) field(i int) *RV {
	st := r.t.Underlying().(*types.Struct)
	s, ok := r.get().(*Struct)
	if !ok {
		panic(unsupported(fmt.Sprintf("reflect: field of modelled %v", r.t)))
	}
	f := &RV{t: st.Field(i).Type()}
	if r.cell != nil {
		f.cell = &s.f[i]
	} else {
		f.v = s.f[i].v
	}
	return f
}

func (r *RV) length() int {
	switch x := r.get().(type) {
	case Slice:
		return len(x.c)
	case *Array:
		return len(x.e)
	case *MapV:
		if x == nil {
			return 0
		}
		return x.live
	}
	panic(unsupported("reflect: Len"))
}

func (r *RV) index(i int) *RV {
	switch x := r.get().(type) {
	case Slice:
		return rvCell(elemType(r.t), &x.c[i])
	case *Array:
		e := &RV{t: elemType(r.t)}
		if r.cell != nil {
			e.cell = &x.e[i]
		} else {
			e.v = x.e[i].v
		}
		return e
	}
	panic(unsupported("reflect: Index"))
}

func (r *RV) iface() Value {
	if types.IsInterface(r.t) {
		return r.get()
	}
	return Iface{t: r.t, v: copyVal(r.get())}
}

// asIface wraps a value of static type t for a method call.
func (m *Machine) callMethod(fr *Frame, t types.Type, v Value, name string, args ...Value) Value {
	f := m.methodByName(t, nil, name)
	if f == nil {
		panic(unsupported("no method " + name + " on " + t.String()))
	}
	return m.call(fr, f, append([]Value{v}, args...), nil)
}

// hasMethod says whether t has method name with the given numbers of parameters and results.
func (m *Machine) hasMethod(t types.Type, name string, params, results int) bool {
	f := m.methodByName(t, nil, name)
	return f != nil && f.Signature.Params().Len() == params && f.Signature.Results().Len() == results
}

func isEmptyT(m *Machine, fr *Frame, r *RV) *Term {
	switch x := r.get().(type) {
	case *Term:
		switch x.sort {
		case SBool:
			return mkNot(x)
		case SStr:
			return mkEq(x, mkStr(""))
		case SFP:
			return mkFCmp(OFEq, x, mkFP(0))
		default:
			return mkEq(x, mkBV(0, x.w))
		}
	case *Cell:
		return mkBool(x == nil)
	case Slice:
		return mkBool(len(x.c) == 0)
	case *MapV:
		return mkBool(x == nil || x.live == 0)
	case *Array:
		return mkBool(len(x.e) == 0)
	case Iface:
		return mkBool(x.t == nil)
	case *LazyIface:
		return mkBool(m.force(fr, x).t == nil)
	}
	return tFalse
}

// ---- package reflect ----

func (m *Machine) typeIface(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	return Iface{t: m.ex.rtypeT, v: &Native{kind: "rtype", obj: t}}
}

func rtypeOf(v Value) types.Type {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	if n, ok := v.(*Native); ok && n.kind == "rtype" {
		return n.obj.(types.Type)
	}
	panic(unsupported("reflect.Type"))
}

var reflKinds = map[types.BasicKind]uint64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8,
	types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}

func reflKind(t types.Type) uint64 {
	if t == nil {
		return 0
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return reflKinds[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func init() {
	R := func(v Value) *RV { return v.(*RV) }
	reg("reflect.ValueOf", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		i := fr.m.force(fr, a[0])
		return &RV{t: i.t, v: i.v}
	})
	reg("reflect.TypeOf", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.typeIface(fr.m.force(fr, a[0]).t)
	})
	reg("reflect.New", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		t := rtypeOf(a[0])
		return &RV{t: types.NewPointer(t), v: &Cell{v: zero(t)}}
	})
	reg("reflect.Zero", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		t := rtypeOf(a[0])
		return &RV{t: t, v: zero(t)}
	})
	reg("reflect.Indirect", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if r := R(a[0]); r.kind() == kPtr {
			return fr.m.rvElem(fr, r)
		}
		return a[0]
	})
	reg("reflect.DeepEqual", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkBool(fr.m.branch(fr.m.sameVal(fr, a[0], a[1], true)))
	})
	reg("(reflect.Value).Type", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if R(a[0]).t == nil {
			panic(fr.m.runtimePanic("reflect: call of reflect.Value.Type on zero Value"))
		}
		return fr.m.typeIface(R(a[0]).t)
	})
	reg("(reflect.Value).Kind", func(fr *Frame, fn *ssa.Function, a []Value) Value { return mkBV(reflKind(R(a[0]).t), 64) })
	reg("(reflect.Value).IsValid", func(fr *Frame, fn *ssa.Function, a []Value) Value { return mkBool(R(a[0]).t != nil) })
	reg("(reflect.Value).IsNil", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if R(a[0]).t == nil {
			panic(fr.m.runtimePanic("reflect: call of reflect.Value.IsNil on zero Value"))
		}
		switch R(a[0]).kind() {
		case kPtr, kIface, kMap, kSlice, kFunc, kChan:
		default:
			panic(fr.m.runtimePanic("reflect: call of reflect.Value.IsNil on " + R(a[0]).t.String() + " Value"))
		}
		return mkBool(R(a[0]).isNil())
	})
	reg("(reflect.Value).IsZero", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		r := R(a[0])
		return fr.m.sameVal2(fr, nil, r.get(), zero(r.t), true)
	})
	reg("(reflect.Value).Elem", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		r := R(a[0])
		if k := r.kind(); k != kPtr && k != kIface {
			panic(fr.m.runtimePanic("reflect: call of reflect.Value.Elem on invalid Value"))
		}
		return fr.m.rvElem(fr, r)
	})
	reg("(reflect.Value).Set", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		d, s := R(a[0]), R(a[1])
		if d.cell == nil {
			panic(fr.m.runtimePanic("reflect: reflect.Value.Set using unaddressable value"))
		}
		if s.t == nil {
			panic(fr.m.runtimePanic("reflect: call of reflect.Value.Set on zero Value"))
		}
		if types.IsInterface(d.t) && !types.IsInterface(s.t) {
			fr.store(d.cell, Iface{t: s.t, v: copyVal(s.get())})
			return nil
		}
		if !types.AssignableTo(s.t, d.t) {
			panic(fr.m.runtimePanic("reflect.Set: value of type " + typeStr(s.t) + " is not assignable to type " + typeStr(d.t)))
		}
		fr.store(d.cell, copyVal(s.get()))
		return nil
	})
	reg("(reflect.Value).SetString", func(fr *Frame, fn *ssa.Function, a []Value) Value { R(a[0]).set(a[1]); return nil })
	reg("(reflect.Value).SetBool", func(fr *Frame, fn *ssa.Function, a []Value) Value { R(a[0]).set(a[1]); return nil })
	reg("(reflect.Value).Interface", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if R(a[0]).t == nil {
			panic(fr.m.runtimePanic("reflect: call of reflect.Value.Interface on zero Value"))
		}
		return R(a[0]).iface()
	})
	reg("(reflect.Value).CanInterface", func(fr *Frame, fn *ssa.Function, a []Value) Value { return mkBool(R(a[0]).t != nil) })
	reg("(reflect.Value).CanSet|(reflect.Value).CanAddr", func(fr *Frame, fn *ssa.Function, a []Value) Value { return mkBool(R(a[0]).cell != nil) })
	reg("(reflect.Value).Addr", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return &RV{t: types.NewPointer(R(a[0]).t), v: R(a[0]).cell}
	})
	reg("(reflect.Value).NumField", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkInt(int64(R(a[0]).t.Underlying().(*types.Struct).NumFields()))
	})
	reg("(reflect.Value).Field", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return R(a[0]).field(int(fr.m.concInt(fr, tm(a[1]))))
	})
	reg("(reflect.Value).FieldByName", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		st := R(a[0]).t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == goStr(a[1]) {
				return R(a[0]).field(i)
			}
		}
		return &RV{}
	})
	reg("(reflect.Value).Len", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if t, ok := R(a[0]).get().(*Term); ok {
			return mkStrLen(t)
		}
		return mkInt(int64(R(a[0]).length()))
	})
	reg("reflect.MakeSlice", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		t := rtypeOf(a[0])
		n, c := int(fr.m.concInt(fr, tm(a[1]))), int(fr.m.concInt(fr, tm(a[2])))
		if n < 0 || c < n {
			panic(fr.m.runtimePanic("reflect.MakeSlice: len out of range"))
		}
		cells := make([]Cell, c)
		for i := range cells {
			cells[i].v = zero(elemType(t))
		}
		return &RV{t: t, v: Slice{c: cells[:n]}}
	})
	reg("reflect.Append", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		r := R(a[0])
		old := r.get().(Slice)
		c := append([]Cell{}, old.c...)
		for _, x := range a[1].(Slice).c {
			v := R(x.v)
			if types.IsInterface(elemType(r.t)) && !types.IsInterface(v.t) {
				c = append(c, Cell{v: Iface{t: v.t, v: copyVal(v.get())}})
			} else {
				c = append(c, Cell{v: copyVal(v.get())})
			}
		}
		return &RV{t: r.t, v: Slice{c: c}}
	})
	reg("reflect.PtrTo|reflect.PointerTo", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.typeIface(types.NewPointer(rtypeOf(a[0])))
	})
	reg("reflect.SliceOf", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.typeIface(types.NewSlice(rtypeOf(a[0])))
	})
	reg("(reflect.Value).Convert", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		r, t := R(a[0]), rtypeOf(a[1])
		if !types.ConvertibleTo(r.t, t) {
			panic(fr.m.runtimePanic("reflect.Value.Convert: value of type " + typeStr(r.t) + " cannot be converted to type " + typeStr(t)))
		}
		if types.IsInterface(t) {
			return &RV{t: t, v: r.iface()}
		}
		return &RV{t: t, v: fr.conv(t, r.t, copyVal(r.get()))}
	})
	reg("(reflect.Value).Index", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return R(a[0]).index(int(fr.m.concInt(fr, tm(a[1]))))
	})
	reg("(reflect.Value).String", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if R(a[0]).kind() == kString {
			return R(a[0]).get()
		}
		return mkStr("<" + typeStr(R(a[0]).t) + " Value>")
	})
	reg("(reflect.Value).Int", func(fr *Frame, fn *ssa.Function, a []Value) Value { return mkSext(tm(R(a[0]).get()), 64) })
	reg("(reflect.Value).Bool", func(fr *Frame, fn *ssa.Function, a []Value) Value { return R(a[0]).get() })
	reg("(reflect.Value).Float", func(fr *Frame, fn *ssa.Function, a []Value) Value { return R(a[0]).get() })
	reg("(reflect.Value).Uint", func(fr *Frame, fn *ssa.Function, a []Value) Value { return mkZext(tm(R(a[0]).get()), 64) })
	reg("(reflect.Value).SetInt|(reflect.Value).SetUint|(reflect.Value).SetFloat", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		r := R(a[0])
		v := tm(a[1])
		if w := v.w; w > 0 {
			if x := tm(r.get()); x.w > 0 && x.w < w {
				v = mkTrunc(v, x.w)
			}
		}
		r.set(v)
		return nil
	})
	reg("(*reflect.rtype).String", func(fr *Frame, fn *ssa.Function, a []Value) Value { return mkStr(typeStr(rtypeOf(a[0]))) })
	reg("(*reflect.rtype).Name", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if n, ok := types.Unalias(rtypeOf(a[0])).(*types.Named); ok {
			return mkStr(n.Obj().Name())
		}
		return mkStr("")
	})
	reg("(*reflect.rtype).PkgPath", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if n, ok := types.Unalias(rtypeOf(a[0])).(*types.Named); ok && n.Obj().Pkg() != nil {
			return mkStr(n.Obj().Pkg().Path())
		}
		return mkStr("")
	})
	reg("(*reflect.rtype).Kind", func(fr *Frame, fn *ssa.Function, a []Value) Value { return mkBV(reflKind(rtypeOf(a[0])), 64) })
	reg("(*reflect.rtype).Elem", func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.typeIface(elemType(rtypeOf(a[0]))) })
	reg("(*reflect.rtype).NumField", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkInt(int64(rtypeOf(a[0]).Underlying().(*types.Struct).NumFields()))
	})
	structField := func(fr *Frame, fn *ssa.Function, st *types.Struct, i int) Value {
		f := st.Field(i)
		r := zero(fn.Signature.Results().At(0).Type()).(*Struct)
		r.f[0].v = mkStr(f.Name())
		if !f.Exported() && f.Pkg() != nil {
			r.f[1].v = mkStr(f.Pkg().Path())
		}
		r.f[2].v = fr.m.typeIface(f.Type())
		r.f[3].v = mkStr(st.Tag(i))
		r.f[5].v = Slice{c: []Cell{{v: mkInt(int64(i))}}}
		r.f[6].v = mkBool(f.Embedded())
		return r
	}
	reg("(*reflect.rtype).Field", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		st := rtypeOf(a[0]).Underlying().(*types.Struct)
		i := int(fr.m.concInt(fr, tm(a[1])))
		if i < 0 || i >= st.NumFields() {
			panic(fr.m.runtimePanic("reflect: Field index out of bounds"))
		}
		return structField(fr, fn, st, i)
	})
	reg("(*reflect.rtype).FieldByName", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		st := rtypeOf(a[0]).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == goStr(a[1]) {
				return Tuple{structField(fr, fn, st, i), mkBool(true)}
			}
		}
		return Tuple{zero(fn.Signature.Results().At(0).Type()), mkBool(false)}
	})
	reg("(*reflect.rtype).NumMethod", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		n := 0
		ms := types.NewMethodSet(rtypeOf(a[0]))
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return mkInt(int64(n))
	})
	reg("(*reflect.rtype).ConvertibleTo", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkBool(types.ConvertibleTo(rtypeOf(a[0]), rtypeOf(a[1])))
	})
	reg("(*reflect.rtype).AssignableTo", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkBool(types.AssignableTo(rtypeOf(a[0]), rtypeOf(a[1])))
	})
	reg("(*reflect.rtype).Implements", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkBool(fr.m.implements(rtypeOf(a[0]), rtypeOf(a[1])))
	})
	reg("(*reflect.rtype).Comparable", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkBool(types.Comparable(rtypeOf(a[0])))
	})
}

// sameVal compares two values structurally. exact: time to the nanosecond, nil and empty lists differ.
func (m *Machine) sameVal(fr *Frame, a, b Value, exact bool) *Term {
	return m.sameVal2(fr, nil, a, b, exact)
}

// elemOf is the element type of a type that may be unknown.
func elemOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func fieldOf(t types.Type, i int) types.Type {
	if t == nil {
		return nil
	}
	if u, ok := t.Underlying().(*types.Struct); ok && i < u.NumFields() {
		return u.Field(i).Type()
	}
	return nil
}

func (m *Machine) sameVal2(fr *Frame, t types.Type, a, b Value, exact bool) *Term {
	if la, ok := a.(*LazyIface); ok {
		if lb, ok := b.(*LazyIface); ok && la.n == lb.n {
			return tTrue
		}
		a = m.force(fr, a)
	}
	if _, ok := b.(*LazyIface); ok {
		b = m.force(fr, b)
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort || x.w != y.w {
			return tFalse
		}
		return mkEqRaw(x, y)
	case *Cell:
		y, ok := b.(*Cell)
		if !ok {
			return tFalse
		}
		if x == nil || y == nil {
			return mkBool(x == nil && y == nil)
		}
		if x == y && exact {
			return tTrue
		}
		return m.sameVal2(fr, elemOf(t), x.v, y.v, exact)
	case *Struct:
		if t != nil && m.skipNames && isXMLName(t) {
			return tTrue
		}
		y, ok := b.(*Struct)
		if !ok || len(x.f) != len(y.f) {
			return tFalse
		}
		var cs []*Term
		for i := range x.f {
			cs = append(cs, m.sameVal2(fr, fieldOf(t, i), x.f[i].v, y.f[i].v, exact))
		}
		return mkAnd(cs...)
	case *Array:
		y, ok := b.(*Array)
		if !ok || len(x.e) != len(y.e) {
			return tFalse
		}
		var cs []*Term
		for i := range x.e {
			cs = append(cs, m.sameVal2(fr, elemOf(t), x.e[i].v, y.e[i].v, exact))
		}
		return mkAnd(cs...)
	case Slice:
		y, ok := b.(Slice)
		if !ok {
			return tFalse
		}
		if exact && !m.skipNames && x.isNil != y.isNil {
			return tFalse
		}
		if isByteCells(x.c) && isByteCells(y.c) && (len(x.c) > 0 || len(y.c) > 0) {
			return mkEqRaw(bytesToStr(x.c), bytesToStr(y.c))
		}
		if len(x.c) != len(y.c) {
			return tFalse
		}
		var cs []*Term
		for i := range x.c {
			cs = append(cs, m.sameVal2(fr, elemOf(t), x.c[i].v, y.c[i].v, exact))
		}
		return mkAnd(cs...)
	case *MapV:
		y, ok := b.(*MapV)
		if !ok {
			return tFalse
		}
		nx, ny := 0, 0
		if x != nil {
			nx = x.live
		}
		if y != nil {
			ny = y.live
		}
		if exact && (x == nil) != (y == nil) {
			return tFalse
		}
		if nx != ny {
			return tFalse
		}
		var cs []*Term
		if x != nil {
			for _, e := range x.entries {
				if e.deleted {
					continue
				}
				o := m.mapFind(fr, y, e.k)
				if o == nil {
					return tFalse
				}
				cs = append(cs, m.sameVal2(fr, elemOf(t), e.v.v, o.v.v, exact))
			}
		}
		return mkAnd(cs...)
	case *TimeV:
		y, ok := b.(*TimeV)
		if !ok {
			return tFalse
		}
		if exact {
			return mkAnd(mkEqRaw(x.sec, y.sec), mkEqRaw(x.nsec, y.nsec))
		}
		return mkEqRaw(x.sec, y.sec)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return tFalse
		}
		if x.t == nil || y.t == nil {
			return mkBool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tFalse
		}
		return m.sameVal2(fr, x.t, x.v, y.v, exact)
	case *Chan:
		y, ok := b.(*Chan)
		return mkBool(ok && x == y)
	case *Closure:
		y, ok := b.(*Closure)
		return mkBool(ok && x == nil && y == nil)
	}
	panic(unsupported(fmt.Sprintf("structural comparison of %T", a)))
}

func isByteCells(c []Cell) bool {
	for i := range c {
		t, ok := c[i].v.(*Term)
		if !ok || !(t.sort == SStr || t.sort == SBV && t.w == 8) {
			return false
		}
	}
	return true
}
