package main

import (
	"fmt"
	"reflect"
	"sync"
)

// What the encoding has no symbolic form for (positions inside unknown text, say) is followed on representatives: the
// unknown text is split into a few shapes and the solver picks one text of each. A check that came this way is no
// longer exhaustive, and says so.

var shapes = []struct {
	name string
	is   func(t *Term) *Term
}{
	{"short", func(t *Term) *Term { return mkInRe(t, "ident") }},
	{"empty", func(t *Term) *Term { return mkEq(t, mkStr("")) }},
	{"two parts with a slash", func(t *Term) *Term { return mkInRe(t, "slashed") }},
	{"blanks around and inside", func(t *Term) *Term { return mkInRe(t, "blanks") }},
	{"not ASCII", func(t *Term) *Term { return mkInRe(t, "nonascii") }},
	{"long", func(t *Term) *Term { return mkAnd(mkInRe(t, "ascii"), mkBin(OSlt, mkInt(300), mkStrLen(t))) }},
	{"quoted and escaped", func(t *Term) *Term {
		return mkAnd(mkStrPred(OContains, t, mkStr("%")), mkStrPred(OContains, t, mkStr("\"")), mkInRe(t, "ascii"))
	}},
	{"mixed", func(t *Term) *Term { return mkInRe(t, "mixed") }},
}

var picked struct {
	sync.Mutex
	vals []*Term
	idx  map[string]int
}

func pick(t *Term) int {
	picked.Lock()
	defer picked.Unlock()
	if picked.idx == nil {
		picked.idx = map[string]int{}
	}
	k := fmt.Sprintf("%d|%d|%d|%v|%s", t.sort, t.w, t.u, t.f, t.s)
	if i, ok := picked.idx[k]; ok {
		return i
	}
	picked.vals = append(picked.vals, t)
	picked.idx[k] = len(picked.vals) - 1
	return len(picked.vals) - 1
}

func pickedVal(i int) *Term {
	picked.Lock()
	defer picked.Unlock()
	return picked.vals[i]
}

// concretize pins the variables of a text and returns the text.
func (m *Machine) concretize(t *Term, why string) *Term {
	if t.isConst() {
		return t
	}
	if !knownBlobs(t) {
		panic(unsupported(why))
	}
	var vars []*Term
	seen := map[string]bool{}
	termVars(t, func(v *Term) {
		if !seen[v.s] {
			seen[v.s] = true
			vars = append(vars, v)
		}
	})
	ev := &evaluator{vals: map[string]*Term{}, m: m}
	open := false
	for _, v := range vars {
		if p, ok := m.pinned[v.s]; ok {
			ev.vals[v.s] = p
		} else {
			open = true
		}
	}
	if open {
		m.concretized = why
		if t.sort == SStr {
			k := m.choose(len(shapes), false)
			some := k == 0
			for _, v := range vars {
				if _, ok := m.pinned[v.s]; ok || v.sort != SStr {
					continue
				}
				if c := shapes[k].is(v); m.sol.check(c) == Sat {
					m.assume(c)
					some = true
				}
			}
			if !some {
				m.finish("assume", "")
				panic(abortPath{})
			}
		}
		i := len(m.taken)
		if i+len(vars) > len(m.prefix) {
			res, raw := m.sol.model(nil, vars)
			if res != Sat {
				if res == Unknown {
					m.uncertain = true
				}
				m.finish("assume", "")
				panic(abortPath{})
			}
			for _, v := range vars {
				m.taken = append(m.taken, pick(parseModelValue(v, raw[v.s])))
			}
		} else {
			m.taken = append(m.taken, m.prefix[i:i+len(vars)]...)
		}
		if m.pinned == nil {
			m.pinned = map[string]*Term{}
		}
		for k, v := range vars {
			c := pickedVal(m.taken[i+k])
			m.pinned[v.s], ev.vals[v.s] = c, c
			if v.sort == SFP {
				m.assume(mkBin2(OFEq, v, c))
			} else {
				m.assume(mkEq(v, c))
			}
		}
	}
	r := ev.eval(t)
	if !r.isConst() {
		panic(unsupported(why))
	}
	return r
}

// onTexts runs a library function whose symbolic form gave up on representatives of its arguments.
func onTexts(fr *Frame, name string, ft reflect.Type, a []Value, sym symFn, again func(a []Value) Value) (r Value) {
	why := name + " of a symbolic argument"
	if sym != nil {
		gaveUp := false
		func() {
			defer func() {
				if x := recover(); x != nil {
					u, ok := x.(unsupportedErr)
					if !ok {
						panic(x)
					}
					gaveUp, why = true, u.msg
				}
			}()
			r = sym(fr, a)
		}()
		if !gaveUp {
			return r
		}
	}
	b := make([]Value, len(a))
	for i, v := range a {
		b[i] = v
		switch x := v.(type) {
		case *Term:
			b[i] = fr.m.concretize(x, why)
		case Slice:
			if ft.In(i).Elem().Kind() == reflect.Uint8 {
				b[i] = bytesOf(fr.m.concretize(bytesToStr(x.c), why))
				break
			}
			c := make([]Cell, len(x.c))
			for k := range x.c {
				t, ok := x.c[k].v.(*Term)
				if !ok {
					panic(unsupported(why))
				}
				c[k].v = fr.m.concretize(t, why)
			}
			b[i] = Slice{c: c, isNil: x.isNil}
		}
	}
	return again(b)
}
