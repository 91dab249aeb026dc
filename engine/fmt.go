package main

// Model of package fmt.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type printer struct {
	m   *Machine
	fr  *Frame
	out []*Term
}

func (p *printer) str(s string) {
	if s != "" {
		p.out = append(p.out, mkStr(s))
	}
}
func (p *printer) term(t *Term) { p.out = append(p.out, t) }

// newWrap makes the error value of fmt.Errorf with %w.
func (m *Machine) newWrap(txt *Term, errs []Value) Value {
	if len(errs) == 1 {
		if t := m.ex.typ("fmt.wrapError"); t != nil {
			c := &Cell{v: zero(t)}
			fieldByName(c, t, "msg").v = txt
			fieldByName(c, t, "err").v = errs[0]
			return Iface{t: types.NewPointer(t), v: c}
		}
	} else if len(errs) > 1 {
		if t := m.ex.typ("fmt.wrapErrors"); t != nil {
			c := &Cell{v: zero(t)}
			fieldByName(c, t, "msg").v = txt
			s := Slice{c: make([]Cell, len(errs))}
			for i := range errs {
				s.c[i].v = errs[i]
			}
			fieldByName(c, t, "errs").v = s
			return Iface{t: types.NewPointer(t), v: c}
		}
	}
	return m.newErrorT(txt)
}

func (m *Machine) errText(fr *Frame, e Iface) *Term {
	return tm(m.callMethod(fr, e.t, e.v, "Error"))
}

// method calls Error or String as fmt does; a panicking method prints a note.
func (p *printer) method(i Iface, name string) (res *Term) {
	fr := p.fr
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		fr.th.fr = fr
		if c, ok := i.v.(*Cell); ok && c == nil {
			res = mkStr("<nil>")
			return
		}
		res = mkStr("%!v(PANIC=" + name + " method: " + p.m.panicText(tp) + ")")
	}()
	return tm(p.m.callMethod(fr, i.t, i.v, name))
}

func (p *printer) race(c *Cell) {
	if c != nil && p.m.raceOn(p.fr) {
		p.m.readCell(p.fr, c)
	}
}

func (p *printer) value(t types.Type, v Value, verb byte, plus bool, depth int, exported bool) {
	m := p.m
	if l, ok := v.(*LazyIface); ok {
		v = m.force(p.fr, l)
	}
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			if verb == 'v' {
				p.str("<nil>")
			} else {
				p.str("%!" + string(verb) + "(<nil>)")
			}
			return
		}
		p.value(i.t, i.v, verb, plus, depth, exported)
		return
	}
	if t != nil && exported && (verb == 'v' || verb == 's' || verb == 'q') {
		for _, name := range []string{"Error", "String"} {
			if f := m.methodByName(t, nil, name); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
				if b, ok := f.Signature.Results().At(0).Type().(*types.Basic); ok && b.Kind() == types.String {
					s := p.method(Iface{t: t, v: v}, name)
					if verb == 'q' {
						s = m.quote(s)
					}
					p.term(s)
					return
				}
			}
		}
	}
	switch x := v.(type) {
	case *Term:
		p.scalar(t, x, verb)
	case *TimeV:
		p.term(timeText(x))
	case *Cell:
		if x == nil {
			if verb == 'v' || depth > 0 {
				p.str("<nil>")
			} else {
				p.str("%!" + string(verb) + "(" + typeStr(t) + "=<nil>)")
			}
			return
		}
		if depth == 0 {
			switch kindOf(elemType(t)) {
			case kStruct, kSlice, kArray, kMap:
				p.str("&")
				p.race(x)
				p.value(elemType(t), x.v, verb, plus, depth+1, exported)
				return
			}
		}
		p.str("0xc000010000")
	case *Struct:
		st := t.Underlying().(*types.Struct)
		p.str("{")
		for i := range x.f {
			if i > 0 {
				p.str(" ")
			}
			if plus {
				p.str(st.Field(i).Name() + ":")
			}
			p.value(st.Field(i).Type(), x.f[i].v, verb, plus, depth+1, exported && st.Field(i).Exported())
		}
		p.str("}")
	case Slice:
		if b, ok := elemType(t).Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'q' || verb == 'x') {
			s := bytesToStr(x.c)
			if m.raceOn(p.fr) {
				for i := range x.c {
					m.noteRead(p.fr, &x.c[i].meta)
				}
			}
			p.scalar(types.Typ[types.String], s, verb)
			return
		}
		p.str("[")
		for i := range x.c {
			if i > 0 {
				p.str(" ")
			}
			p.race(&x.c[i])
			p.value(elemType(t), x.c[i].v, verb, plus, depth+1, exported)
		}
		p.str("]")
	case *Array:
		p.str("[")
		for i := range x.e {
			if i > 0 {
				p.str(" ")
			}
			p.value(elemType(t), x.e[i].v, verb, plus, depth+1, exported)
		}
		p.str("]")
	case *MapV:
		p.str("map[")
		if x != nil {
			if m.raceOn(p.fr) {
				m.noteRead(p.fr, &x.meta)
			}
			var es []*MapEntry
			for _, e := range x.entries {
				if !e.deleted {
					es = append(es, e)
				}
			}
			sort.SliceStable(es, func(i, j int) bool {
				a, ok1 := es[i].k.(*Term)
				b, ok2 := es[j].k.(*Term)
				return ok1 && ok2 && a.isConst() && b.isConst() && a.sort == SStr && a.s < b.s
			})
			for i, e := range es {
				if i > 0 {
					p.str(" ")
				}
				p.race(&e.v)
				mt := t.Underlying().(*types.Map)
				p.value(mt.Key(), e.k, verb, plus, depth+1, exported)
				p.str(":")
				p.value(mt.Elem(), e.v.v, verb, plus, depth+1, exported)
			}
		}
		p.str("]")
	case *Chan:
		if x == nil {
			p.str("<nil>")
		} else {
			p.str("0xc000020000")
		}
	case *Closure:
		if x == nil {
			p.str("<nil>")
		} else {
			p.str("0x4a0000")
		}
	case *Native:
		p.str(x.kind)
	case *ReflV:
		if x.t == nil {
			p.str("<invalid reflect.Value>")
		} else {
			p.value(x.t, x.get(), verb, plus, depth, exported)
		}
	default:
		panic(unsupported(fmt.Sprintf("printing %T", v)))
	}
}

func timeText(x *TimeV) *Term {
	if x.sec.isConst() && x.nsec.isConst() {
		return timeFormat(x, "2006-01-02 15:04:05.999999999 -0700 MST")
	}
	return mkConcat(mkRfc(rfcMode("n", x.off), x.sec, x.nsec))
}

func (p *printer) scalar(t types.Type, x *Term, verb byte) {
	bad := func() {
		p.str("%!" + string(verb) + "(" + typeStr(t) + "=")
		p.scalar(t, x, 'v')
		p.str(")")
	}
	switch x.sort {
	case SStr:
		switch verb {
		case 'v', 's':
			p.term(x)
		case 'q':
			p.term(p.m.quote(x))
		case 'x':
			if x.isConst() {
				p.str(fmt.Sprintf("%x", x.s))
			} else {
				panic(unsupported("%x of a symbolic string"))
			}
		default:
			bad()
		}
	case SBool:
		switch verb {
		case 'v', 't':
			p.term(mkIte(x, mkStr("true"), mkStr("false")))
		default:
			bad()
		}
	case SFP:
		switch verb {
		case 'v', 'g', 'f', 'e', 's':
			if verb == 's' {
				bad()
				return
			}
			if x.isConst() {
				p.str(fmt.Sprintf("%"+string(verb), x.f))
			} else {
				p.term(appText("txt_"+map[byte]string{'v': "g", 'g': "g", 'f': "f", 'e': "e"}[verb], mkFtoa(x)))
			}
		default:
			bad()
		}
	default:
		signed := true
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			signed = false
		}
		switch verb {
		case 'v', 'd':
			if signed {
				p.term(mkItoa(mkSext(x, 64)))
			} else {
				p.term(mkUtoa(mkZext(x, 64)))
			}
		case 'x', 'X', 'o', 'b', 'c', 'U', 'q':
			if !x.isConst() {
				panic(unsupported("%" + string(verb) + " of a symbolic number"))
			}
			if signed {
				p.str(fmt.Sprintf("%"+string(verb), x.sval()))
			} else {
				p.str(fmt.Sprintf("%"+string(verb), x.u))
			}
		default:
			bad()
		}
	}
}

// format interprets a format string; wrapped collects the operands of %w.
func (m *Machine) format(fr *Frame, format *Term, args []Value) (*Term, []Value) {
	p := &printer{m: m, fr: fr}
	var wrapped []Value
	argn := 0
	for _, part := range parts(format) {
		if !part.isConst() {
			if part.op == OVar && !m.identVar(part) && m.branch(mkStrPred(OContains, part, mkStr("%"))) {
				p.term(appText("txt_fmt", part))
				continue
			}
			p.term(part)
			continue
		}
		f := part.s
		for i := 0; i < len(f); {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				p.str(f[i:])
				break
			}
			p.str(f[i : i+j])
			i += j + 1
			st := i
			plus, sharp := false, false
			for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
				if f[i] == '+' {
					plus = true
				}
				if f[i] == '#' {
					sharp = true
				}
				i++
			}
			flags := f[st:i]
			if i >= len(f) {
				p.str("%!(NOVERB)")
				break
			}
			verb := f[i]
			i++
			if verb == '%' {
				p.str("%")
				continue
			}
			if verb == '*' || verb == '[' {
				panic(unsupported("fmt: indexed or starred format"))
			}
			if argn >= len(args) {
				p.str("%!" + string(verb) + "(MISSING)")
				continue
			}
			arg := m.force(fr, args[argn])
			argn++
			switch verb {
			case 'T':
				if arg.t == nil {
					p.str("<nil>")
				} else {
					p.str(typeStr(arg.t))
				}
				continue
			case 'p':
				p.str("0xc000012345")
				continue
			case 'w':
				verb = 'v'
				if arg.t != nil {
					wrapped = append(wrapped, arg)
				}
			}
			fl := strings.Trim(flags, "+#")
			if x, ok := arg.v.(*Term); ok && x.sort == SFP && !x.isConst() && verb == 'f' && len(fl) == 2 && fl[0] == '.' {
				p.term(mkFtoa(mkFixed(x, int(fl[1]-'0'))))
				continue
			}
			if fl != "" || sharp {
				q := &printer{m: m, fr: fr}
				q.value(arg.t, arg, verb, plus, 0, true)
				c := mkConcat(q.out...)
				if x, ok := arg.v.(*Term); ok && x.isConst() {
					spec := "%" + flags + string(verb)
					switch x.sort {
					case SStr:
						p.str(fmt.Sprintf(spec, x.s))
					case SBool:
						p.str(fmt.Sprintf(spec, x.u == 1))
					case SFP:
						p.str(fmt.Sprintf(spec, x.f))
					default:
						if isSigned(arg.t) {
							p.str(fmt.Sprintf(spec, x.sval()))
						} else {
							p.str(fmt.Sprintf(spec, x.u))
						}
					}
				} else if c.isConst() && !sharp && verb != 'x' {
					p.str(fmt.Sprintf("%"+fl+"s", c.s))
				} else if !c.isConst() {
					p.term(appText("txt_pad", c))
				} else {
					p.term(c)
				}
				continue
			}
			p.value(arg.t, arg, verb, plus, 0, true)
		}
	}
	if argn < len(args) {
		p.str("%!(EXTRA ")
		for k := argn; k < len(args); k++ {
			if k > argn {
				p.str(", ")
			}
			a := m.force(fr, args[k])
			if a.t == nil {
				p.str("<nil>")
			} else {
				p.str(typeStr(a.t) + "=")
				p.value(a.t, a, 'v', false, 0, true)
			}
		}
		p.str(")")
	}
	return mkConcat(p.out...), wrapped
}

func (m *Machine) sprint(fr *Frame, args []Value, ln bool) *Term {
	p := &printer{m: m, fr: fr}
	prevStr := false
	for i, v := range args {
		a := m.force(fr, v)
		isStr := a.t != nil && kindOf(a.t) == kString
		if i > 0 && (ln || !isStr && !prevStr) {
			p.str(" ")
		}
		p.value(a.t, a, 'v', false, 0, true)
		prevStr = isStr
	}
	if ln {
		p.str("\n")
	}
	return mkConcat(p.out...)
}

func cellVals(v Value) []Value {
	s := v.(Slice)
	r := make([]Value, len(s.c))
	for i := range s.c {
		r[i] = s.c[i].v
	}
	return r
}

func init() {
	write := func(fr *Frame, w Value, t *Term) Value {
		i := fr.m.force(fr, w)
		if i.t == nil {
			panic(fr.m.runtimePanic("invalid memory address or nil pointer dereference"))
		}
		return fr.m.callMethod(fr, i.t, i.v, "Write", strToBytes(t))
	}
	reg("fmt.Sprintf", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		t, _ := fr.m.format(fr, tm(a[0]), cellVals(a[1]))
		return t
	})
	reg("fmt.Sprint", func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.sprint(fr, cellVals(a[0]), false) })
	reg("fmt.Sprintln", func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.sprint(fr, cellVals(a[0]), true) })
	reg("fmt.Errorf", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		t, w := fr.m.format(fr, tm(a[0]), cellVals(a[1]))
		if len(w) > 0 {
			return fr.m.newWrap(t, w)
		}
		return fr.m.newErrorT(t)
	})
	reg("fmt.Fprintf", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		t, _ := fr.m.format(fr, tm(a[1]), cellVals(a[2]))
		return write(fr, a[0], t)
	})
	reg("fmt.Fprint", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return write(fr, a[0], fr.m.sprint(fr, cellVals(a[1]), false))
	})
	reg("fmt.Fprintln", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return write(fr, a[0], fr.m.sprint(fr, cellVals(a[1]), true))
	})
	reg("fmt.Printf|log.Printf|(*log.Logger).Printf", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		n := len(a)
		fr.m.format(fr, tm(a[n-2]), cellVals(a[n-1]))
		if fn.Name() == "Printf" && fn.Pkg.Pkg.Path() == "fmt" {
			return Tuple{mkInt(0), Iface{}}
		}
		return nil
	})
	reg("fmt.Print|fmt.Println", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.sprint(fr, cellVals(a[0]), true)
		return Tuple{mkInt(0), Iface{}}
	})
	reg("log.Println|log.Print|(*log.Logger).Println|(*log.Logger).Print", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.sprint(fr, cellVals(a[len(a)-1]), true)
		return nil
	})
	fatal := func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.violate("panic", "process exits (log.Fatal)", fr.th)
		panic(abortPath{})
	}
	reg("log.Fatal|log.Fatalf|log.Fatalln|(*log.Logger).Fatal|(*log.Logger).Fatalf|(*log.Logger).Fatalln|os.Exit", fatal)
	reg("log.New|log.Default", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return &Cell{v: zero(deref(fn.Signature.Results().At(0).Type()))}
	})
	_ = strconv.Itoa
}
