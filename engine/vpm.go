package main

// The harness API (package vp) and the primitives of the network model (package model).

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) addInput(name, kind string, in *input) *input {
	n := name
	for i := 2; m.inputIdx[n] != nil; i++ {
		n = fmt.Sprintf("%s#%d", name, i)
	}
	in.name, in.kind = n, kind
	m.inputs = append(m.inputs, in)
	m.inputIdx[n] = in
	return in
}

func (m *Machine) inputName(name string) string {
	n := name
	for i := 2; m.inputIdx[n] != nil; i++ {
		n = fmt.Sprintf("%s#%d", name, i)
	}
	return n
}

func (m *Machine) inBool(name string) *Term {
	t := mkVar(m.inputName(name), SBool, 0)
	m.addInput(name, "bool", &input{t: t})
	return t
}

func (m *Machine) inInt(name string, lo, hi int64, w int) *Term {
	if lo == hi {
		t := mkBV(uint64(lo), w)
		m.addInput(name, "int", &input{t: t, lo: lo, hi: hi})
		return t
	}
	t := mkVar(m.inputName(name), SBV, w)
	m.addInput(name, "int", &input{t: t, lo: lo, hi: hi})
	m.assume(mkAnd(mkBin(OSle, mkBV(uint64(lo), w), t), mkBin(OSle, t, mkBV(uint64(hi), w))))
	return t
}

func (m *Machine) inStr(name, kind, re string) *Term {
	t := mkVar(m.inputName(name), SStr, 0)
	m.addInput(name, kind, &input{t: t})
	if re != "" {
		m.assume(mkInRe(t, re))
	}
	return t
}

// choice is an explored choice recorded as an input.
func (m *Machine) choice(name string, n int) int {
	nm := m.inputName(name)
	in := m.addInput(nm, "int", &input{t: mkInt(0)})
	k := m.choose(n, false)
	in.t = mkInt(int64(k))
	return k
}

type fillSpec struct {
	mode, optional, focus string
	text                  bool
	fixed                 int // inside a long list: content is concrete and tells the element
}

func (m *Machine) fill(fr *Frame, f *fillSpec, name, path string, t types.Type, c *Cell) {
	free, n, _ := f.find(path)
	if f.fixed > 0 {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch info := u.Info(); {
			case info&types.IsInteger != 0:
				w, _ := basicWidth(u)
				c.v = mkBV(uint64(f.fixed), w)
				return
			case info&types.IsFloat != 0:
				c.v = mkFP(float64(f.fixed))
				return
			case info&types.IsString != 0:
				c.v = mkStr("s" + strconv.Itoa(f.fixed))
				return
			}
		case *types.Struct:
			if isTimeType(t) {
				storeVal(c, &TimeV{sec: mkInt(1600000000 + int64(f.fixed)), nsec: mkInt(0)})
				return
			}
		}
	}
	if isTimeType(t) {
		n := m.inputName(name)
		sec := mkVar(n+"~sec", SBV, 64)
		nsec := mkVar(n+"~nsec", SBV, 64)
		off := int64(0)
		if free {
			off = zoneOffs[m.choose(len(zoneOffs), false)]
		}
		m.addInput(name, "time", &input{sec: sec, nsec: nsec, off: off})
		// year 1 (after its first day) to 9999
		m.assume(mkAnd(mkBin(OSle, mkInt(zeroTimeSec+86400), sec), mkBin(OSle, sec, mkInt(253402300799-86400)),
			mkBin(OSle, mkInt(0), nsec), mkBin(OSle, nsec, mkInt(999999999))))
		storeVal(c, &TimeV{sec: sec, nsec: nsec, off: off})
		return
	}
	if isXMLName(t) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			if free {
				c.v = m.inBool(name)
			} else {
				c.v = tTrue
			}
		case info&types.IsInteger != 0:
			w, signed := basicWidth(u)
			lo, hi := int64(-maxExact), int64(maxExact)
			if w < 64 {
				lo, hi = -(1 << (w - 1)), 1<<(w-1)-1
				if !signed {
					lo, hi = 0, 1<<(w-1)-1
				}
			} else if !signed {
				lo = 0
			}
			x := m.inInt(name, lo, hi, w)
			if !free {
				m.assume(mkNot(mkEq(x, mkBV(0, w))))
			}
			c.v = x
		case info&types.IsFloat != 0:
			nm := m.inputName(name)
			v := mkVar(nm, SFP, 0)
			m.addInput(name, "float", &input{t: v})
			m.assume(mkAnd(mkBin2(OFLe, mkFP(-1e9), v), mkBin2(OFLe, v, mkFP(1e9))))
			if !free {
				m.assume(mkNot(mkBin2(OFEq, v, mkFP(0))))
			}
			c.v = v
		case info&types.IsString != 0:
			v := m.inStr(name, "string", "xmllegal")
			if !free {
				m.assume(mkNot(mkEq(v, mkStr(""))))
			}
			c.v = v
		default:
			panic(unsupported("Fill of " + t.String()))
		}
	case *types.Pointer:
		p := &Cell{v: zero(u.Elem())}
		m.fill(fr, f, name, path, u.Elem(), p)
		c.v = p
	case *types.Slice:
		if free {
			n = m.choice(name+".len", 3)
		}
		s := Slice{c: make([]Cell, n)}
		for i := range s.c {
			s.c[i].v = zero(u.Elem())
			was := f.fixed
			if n > 2 && i > 0 && i < n-1 {
				f.fixed = i
			}
			m.fill(fr, f, fmt.Sprintf("%s.%d", name, i), path, u.Elem(), &s.c[i])
			f.fixed = was
		}
		c.v = s
	case *types.Struct:
		st := c.v.(*Struct)
		for i := 0; i < u.NumFields(); i++ {
			sf := u.Field(i)
			if !sf.Exported() {
				continue
			}
			p := sf.Name()
			if path != "" {
				p = path + "." + sf.Name()
			}
			if strings.Contains(f.optional, ";"+p+";") {
				may, _, below := f.find(p)
				set := f.mode == "full" || below
				if may {
					set = m.branch(m.inBool(name + "." + sf.Name() + ".set"))
				}
				if !set {
					continue
				}
			}
			m.fill(fr, f, name+"."+sf.Name(), p, sf.Type(), &st.f[i])
		}
	case *types.Interface, *types.Map, *types.Signature, *types.Chan:
	default:
		panic(unsupported("Fill of " + t.String()))
	}
}

// find says whether the path is free, how many elements a list there has, and whether something below it is in focus.
func (f *fillSpec) find(path string) (free bool, n int, below bool) {
	n = 1
	for _, w := range strings.Split(f.focus, ",") {
		if i := strings.IndexByte(w, '*'); i >= 0 {
			if w[:i] == path {
				n, _ = strconv.Atoi(w[i+1:])
				below = true
			}
			w = w[:i]
		} else if w == path && path != "" {
			free = true
		}
		below = below || strings.HasPrefix(w, path+".")
	}
	return
}

func (m *Machine) jsonOf(fr *Frame, v Value) *JNode {
	n, err := m.parseJSON(fr, tm(v))
	if err != "" {
		return nil
	}
	return n
}

// doAssert discharges one assertion: the solver is asked for an input that falsifies it.
func (m *Machine) doAssert(fr *Frame, c *Term, msg string) {
	m.asserts++
	if c.isConst() {
		if c.u == 1 {
			return
		}
		m.violate("assert", msg, fr.th)
		panic(abortPath{})
	}
	switch m.sol.check(mkNot(c)) {
	case Unsat:
		return
	case Sat:
		m.assume(mkNot(c))
		m.violate("assert", msg, fr.th)
		panic(abortPath{})
	}
	m.uncertain = true
	m.note = "assertion undecided: " + msg
	m.assume(c)
}

func vpReg(name string, f intrinsic) { reg(verifPrefix+"vp."+name, f) }

func (m *Machine) repoGoroutines() int {
	n := 0
	for _, t := range m.threads {
		if t.done {
			continue
		}
		if t.byRepo {
			n++
			continue
		}
		for f := t.fr; f != nil; f = f.caller {
			if f.info != nil && f.info.isRepo {
				n++
				break
			}
		}
	}
	return n
}

// weigher counts what is reachable from a value: objects, map entries, list elements, messages in channels. It mirrors vp.Weight.
type weigher struct {
	m    *Machine
	seen map[interface{}]bool
	n    int64
}

var weightless = []string{"github.com/gorilla/", "net", "crypto", "bufio", "os", "log", "reflect", "internal/", "runtime", "sync", "time", "testing", "math"}

func isWeightless(t types.Type) bool {
	n := typeName(t)
	for _, p := range weightless {
		if strings.HasPrefix(n, p) && (strings.HasSuffix(p, "/") || len(n) > len(p) && (n[len(p)] == '.' || n[len(p)] == '/')) {
			return true
		}
	}
	return false
}

func (w *weigher) walk(t types.Type, v Value) {
	if typeName(t) != "sync.Map" && isWeightless(t) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c, _ := v.(*Cell)
		if c == nil || w.seen[c] || typeName(u.Elem()) != "sync.Map" && isWeightless(u.Elem()) {
			return
		}
		w.seen[c] = true
		w.n++
		w.cell(u.Elem(), c)
	case *types.Interface:
		if _, ok := v.(*LazyIface); ok {
			return
		}
		if i, ok := v.(Iface); ok && i.t != nil {
			w.walk(i.t, i.v)
		}
	case *types.Struct:
		if s, ok := v.(*Struct); ok {
			for i := range s.f {
				w.cell(u.Field(i).Type(), &s.f[i])
			}
		}
	case *types.Array:
		if a, ok := v.(*Array); ok {
			for i := range a.e {
				w.cell(u.Elem(), &a.e[i])
			}
		}
	case *types.Slice:
		s, ok := v.(Slice)
		if b, isB := u.Elem().Underlying().(*types.Basic); !ok || isB && b.Kind() == types.Uint8 {
			return
		}
		for i := range s.c {
			if w.seen[&s.c[i]] {
				continue
			}
			w.seen[&s.c[i]] = true
			w.n++
			w.cell(u.Elem(), &s.c[i])
		}
	case *types.Map:
		mp, _ := v.(*MapV)
		if mp == nil || w.seen[mp] {
			return
		}
		w.seen[mp] = true
		for _, e := range mp.entries {
			if !e.deleted {
				w.n++
				w.walk(u.Key(), e.k)
				w.cell(u.Elem(), &e.v)
			}
		}
	case *types.Chan:
		c, _ := v.(*Chan)
		if c == nil || w.seen[c] {
			return
		}
		w.seen[c] = true
		w.n += int64(len(c.buf))
	}
}

func (w *weigher) cell(t types.Type, c *Cell) {
	if typeName(t) == "sync.Map" {
		if mp, ok := w.m.side[c].(*MapV); ok {
			any := types.NewInterfaceType(nil, nil)
			for _, e := range mp.entries {
				if !e.deleted {
					w.n++
					w.walk(any, e.k)
					w.walk(any, e.v.v)
				}
			}
		}
		return
	}
	w.walk(t, c.v)
}

// thoroughTier is what vp.Thorough returns.
var thoroughTier bool

func init() {
	vpReg("Bool", func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.inBool(goStr(a[0])) })
	vpReg("Int", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.inInt(goStr(a[0]), tm(a[1]).sval(), tm(a[2]).sval(), 64)
	})
	vpReg("Duration", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.inInt(goStr(a[0]), tm(a[1]).sval(), tm(a[2]).sval(), 64)
	})
	vpReg("Calm", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.calm = true
		return nil
	})
	vpReg("Busy", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.calm = false
		return nil
	})
	vpReg("Thorough", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		t := mkBool(thoroughTier)
		fr.m.addInput("thorough", "bool", &input{t: t})
		return t
	})
	vpReg("Choice", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkInt(int64(fr.m.choice(goStr(a[0]), int(tm(a[1]).sval()))))
	})
	vpReg("String|"+verifPrefix+"vp.Text", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.inStr(goStr(a[0]), "string", "xmllegal")
	})
	vpReg("Ident", func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.inStr(goStr(a[0]), "ident", "ident") })
	vpReg("JSONValue", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		n := fr.m.lazyNode(fr.m.inputName(goStr(a[0])), int(tm(a[1]).sval()), int(tm(a[2]).sval()))
		fr.m.addInput(goStr(a[0]), "json", &input{node: n})
		return docText(n)
	})
	vpReg("Raw", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		name := m.inputName(goStr(a[0]))
		if m.branch(mkVar(name+"~isjson", SBool, 0)) {
			n := m.lazyNode(name, int(tm(a[1]).sval()), int(tm(a[2]).sval()))
			m.addInput(name, "json", &input{node: n})
			return docText(n)
		}
		bad := []string{"", "x", "[", "[2,", "{", "\x00\xff", "[2,\"a\",\"Heartbeat\",{}", "[2,\"a\",\"Heartbeat\",{}]]", "nul"}
		i := m.choose(len(bad), false)
		t := mkStr(bad[i])
		m.addInput(name, "string", &input{t: t})
		return t
	})
	vpReg("Fill", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		p := fr.m.force(fr, a[1])
		f := &fillSpec{mode: goStr(a[2]), text: tm(a[3]).u == 1, optional: goStr(a[4]), focus: goStr(a[5])}
		fr.m.fill(fr, f, goStr(a[0]), "", deref(p.t), p.v.(*Cell))
		return nil
	})
	vpReg("Assume", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		c := tm(a[0])
		if !c.isConst() {
			switch fr.m.sol.check(c) {
			case Unsat:
				fr.m.finish("assume", "")
				panic(abortPath{})
			case Unknown:
				fr.m.uncertain = true
			}
		}
		fr.m.assume(c)
		return nil
	})
	vpReg("Assert", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		msg := showTerm(tm(a[1]))
		fr.m.doAssert(fr, tm(a[0]), msg)
		return nil
	})
	vpReg("Reach", func(fr *Frame, fn *ssa.Function, a []Value) Value { fr.m.reach[goStr(a[0])] = true; return nil })
	vpReg("Note", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.traceAdd("%s", showTerm(tm(a[0])))
		return nil
	})
	same := func(exact bool) intrinsic {
		return func(fr *Frame, fn *ssa.Function, a []Value) Value {
			fr.m.skipNames = true
			r := fr.m.sameVal(fr, a[0], a[1], exact)
			fr.m.skipNames = false
			return r
		}
	}
	vpReg("Same", same(false))
	vpReg("SameExact", same(true))
	vpReg("SameJSON", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := fr.m.jsonOf(fr, a[0]), fr.m.jsonOf(fr, a[1])
		if x == nil || y == nil {
			return mkEqRaw(tm(a[0]), tm(a[1]))
		}
		return fr.m.sameJSON(fr, x, y)
	})
	vpReg("XMLText", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		var ps []*Term
		for _, p := range parts(tm(a[0])) {
			ps = append(ps, fr.m.xmlEscape(p))
		}
		return mkConcat(ps...)
	})
	vpReg("Sleep", func(fr *Frame, fn *ssa.Function, a []Value) Value { return intrinsics["time.Sleep"](fr, fn, a) })
	vpReg("After", func(fr *Frame, fn *ssa.Function, a []Value) Value { return intrinsics["time.After"](fr, fn, a) })
	vpReg("Now", func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.now })
	vpReg("Weight", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		w := &weigher{m: fr.m, seen: map[interface{}]bool{}}
		w.walk(fn.Signature.Params().At(0).Type(), a[0])
		return mkInt(w.n)
	})
	vpReg("RepoGoroutines", func(fr *Frame, fn *ssa.Function, a []Value) Value { return mkInt(int64(fr.m.repoGoroutines())) })
	const quiesceTime = 50 * 1000 * 1000
	vpReg("Quiesce", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		self := fr.th
		until := mkBin(OAdd, m.now, mkInt(quiesceTime))
		for {
			m.block(self, func() bool {
				if m.quiet {
					return false
				}
				m.quiet = true
				r := m.otherRunnable(self) == nil
				m.quiet = false
				return r
			})
			// what waits for no time worth mentioning goes on
			if !m.advanceWithin(until) {
				break
			}
		}
		// what the others did happened before what follows
		for _, t := range m.threads {
			if t != self {
				self.vc.join(t.vc)
				m.tick(t)
			}
		}
		return nil
	})

	md := func(name string, f intrinsic) { reg(verifPrefix+"model."+name, f) }
	md("block", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		th := fr.th
		f := a[0]
		root := &Frame{m: m, th: th, fn: m.ex.rootFn, info: m.ex.rootInfo, caller: nil}
		m.block(th, func() bool {
			save := th.fr
			th.atomic++
			r := tm(m.callValue(root, f, nil))
			th.atomic--
			th.fr = save
			return r.isConst() && r.u == 1 || !r.isConst() && m.branch(r)
		})
		return nil
	})
	md("ioRead", func(fr *Frame, fn *ssa.Function, a []Value) Value { fr.th.vc.join(fr.m.ioVC); return nil })
	md("ioWrite", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.ioVC.join(fr.th.vc)
		fr.m.tick(fr.th)
		return nil
	})
	md("raceOn", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		f := fr
		for f != nil && (f.info.isModel || f.info.synthetic) {
			f = f.caller
		}
		if f == nil || !f.m.raceOn(f) {
			return nil
		}
		c := fr.ptr(a[0])
		f.m.noteWrite(f, &c.meta)
		return nil
	})
	md("system", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		name := goStr(a[0])
		f := a[1]
		t := m.newThread(name, fr.th)
		t.system = true
		t.onPanic = func(p targetPanic) bool {
			if strings.Contains(m.panicText(p), "net/http: abort Handler") {
				return true
			}
			m.violate("handler-panic", m.panicText(p)+p.origin, t)
			return true
		}
		m.startThread(t, func() {
			root := &Frame{m: m, th: t, fn: m.ex.rootFn, info: m.ex.rootInfo}
			t.fr = root
			t.atomic = 1
			m.callValue(root, f, nil)
		})
		return nil
	})
	md("userCall", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		save := fr.th.atomic
		fr.th.atomic = 0
		defer func() { fr.th.atomic = save }()
		return fr.m.callValue(fr, a[0], nil)
	})
	md("wakeAfter", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.addTimer(tm(a[0]), nil, func() {})
		return nil
	})
	md("now", func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.now })
	_ = time.Now
}
