package main

// Runtime values of the symbolically executed program.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term            bool, integer, float, string
//	*Cell            pointer (nil *Cell is the nil pointer)
//	*Struct, *Array  aggregates
//	Slice, *MapV (nil allowed), *Chan (nil allowed), *Closure (nil allowed)
//	Iface            interface value; LazyIface for an interface{} decoded from an arbitrary JSON value
//	*TimeV           time.Time
//	*ReflV           reflect.Value
//	Tuple            multiple results
//	*Native          model-internal object behind a pointer
type Value interface{}

type Tuple []Value

type access struct {
	tid int
	clk int32
	pos *instrPos
}

type cellMeta struct {
	w     access
	reads []access
}

type instrPos struct {
	fn *ssa.Function
	in ssa.Instruction
}

type Cell struct {
	v    Value
	meta *cellMeta
}

type Struct struct {
	f []Cell
}

type Array struct {
	e []Cell
}

type Slice struct {
	c     []Cell
	isNil bool
}

type MapEntry struct {
	k       Value
	v       Cell
	deleted bool
}

type MapV struct {
	entries []*MapEntry
	idx     map[string]int // constant keys
	symKeys bool
	live    int
	meta    *cellMeta
	kt      types.Type
}

type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(fr *Frame, args []Value) Value
	name   string
}

type Iface struct {
	t types.Type // nil: nil interface
	v Value
}

// LazyIface is an interface{} holding a JSON value whose kind is still symbolic.
type LazyIface struct {
	val *Iface
	n   *JNode
}

type TimeV struct {
	sec  *Term // unix seconds, 64 bit
	nsec *Term // 64 bit, 0..999999999
	off  int64 // seconds east of UTC
	rel  *Term // nanoseconds since the clock began, of an instant read from it; else nil
}

type ReflV struct {
	t    types.Type // nil: zero Value
	v    Value
	cell *Cell // addressable
}

type Native struct {
	kind string
	obj  interface{}
}

const zeroTimeSec = -62135596800

func zeroTime() *TimeV { return &TimeV{sec: mkInt(zeroTimeSec), nsec: mkInt(0)} }

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil {
			return o.Pkg().Path() + "." + o.Name()
		}
		return o.Name()
	}
	return ""
}

func isTimeType(t types.Type) bool { return typeName(t) == "time.Time" }

func basicWidth(b *types.Basic) (w int, signed bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func zero(t types.Type) Value {
	switch typeName(t) {
	case "time.Time":
		return zeroTime()
	case "reflect.Value":
		return &ReflV{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			return tFalse
		case info&types.IsString != 0:
			return mkStr("")
		case info&types.IsInteger != 0:
			w, _ := basicWidth(u)
			return mkBV(0, w)
		case info&types.IsFloat != 0:
			return mkFP(0)
		case u.Kind() == types.UnsafePointer:
			return (*Cell)(nil)
		case u.Kind() == types.UntypedNil:
			return (*Cell)(nil)
		case info&types.IsComplex != 0:
			return mkFP(0)
		}
	case *types.Pointer:
		return (*Cell)(nil)
	case *types.Struct:
		s := &Struct{f: make([]Cell, u.NumFields())}
		for i := range s.f {
			s.f[i].v = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := &Array{e: make([]Cell, n)}
		for i := range a.e {
			a.e[i].v = zero(u.Elem())
		}
		return a
	case *types.Slice:
		return Slice{isNil: true}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		var tu Tuple
		for i := 0; i < u.Len(); i++ {
			tu = append(tu, zero(u.At(i).Type()))
		}
		return tu
	}
	panic(unsupported(fmt.Sprintf("zero value of %v", t)))
}

// copyVal copies aggregates so that registers never alias memory.
func copyVal(v Value) Value {
	switch x := v.(type) {
	case *Struct:
		s := &Struct{f: make([]Cell, len(x.f))}
		for i := range x.f {
			s.f[i].v = copyVal(x.f[i].v)
		}
		return s
	case *Array:
		a := &Array{e: make([]Cell, len(x.e))}
		for i := range x.e {
			a.e[i].v = copyVal(x.e[i].v)
		}
		return a
	}
	return v
}

// storeVal assigns v to the cell, keeping the identity of nested cells.
func storeVal(c *Cell, v Value) {
	switch x := v.(type) {
	case *Struct:
		if d, ok := c.v.(*Struct); ok && len(d.f) == len(x.f) {
			for i := range x.f {
				storeVal(&d.f[i], x.f[i].v)
			}
			return
		}
		c.v = copyVal(x)
	case *Array:
		if d, ok := c.v.(*Array); ok && len(d.e) == len(x.e) {
			for i := range x.e {
				storeVal(&d.e[i], x.e[i].v)
			}
			return
		}
		c.v = copyVal(x)
	default:
		c.v = v
	}
}

// ---- control signals ----

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

type abortPath struct{}

type targetPanic struct {
	v       Value // interface value
	goexit  bool
	origin  string
	runtime bool
}

func goStr(v Value) string {
	t, ok := v.(*Term)
	if !ok || t.sort != SStr {
		panic(unsupported(fmt.Sprintf("string expected, got %T", v)))
	}
	if !t.isConst() {
		panic(unsupported("constant string expected, got symbolic"))
	}
	return t.s
}

func constStr(v Value) (string, bool) {
	t, ok := v.(*Term)
	if ok && t.isConst() && t.sort == SStr {
		return t.s, true
	}
	return "", false
}

func tm(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("scalar expected, got %T", v)))
	}
	return t
}

// bytesToStr turns the cells of a byte slice into a string term. A cell may hold a string term (a chunk of
// unknown text) instead of one byte.
func bytesToStr(c []Cell) *Term {
	var ps []*Term
	var buf []byte
	flush := func() {
		if len(buf) > 0 {
			ps = append(ps, mkStr(string(buf)))
			buf = nil
		}
	}
	for i := range c {
		t := tm(c[i].v)
		if t.sort == SStr {
			flush()
			ps = append(ps, t)
			continue
		}
		if !t.isConst() {
			panic(unsupported("symbolic byte"))
		}
		buf = append(buf, byte(t.u))
	}
	flush()
	return mkConcat(ps...)
}

func strToBytes(t *Term) Slice {
	var c []Cell
	for _, p := range parts(t) {
		if p.isConst() {
			for i := 0; i < len(p.s); i++ {
				c = append(c, Cell{v: mkBV(uint64(p.s[i]), 8)})
			}
		} else {
			c = append(c, Cell{v: p})
		}
	}
	if c == nil {
		c = []Cell{}
	}
	return Slice{c: c[:len(c):len(c)]}
}
