package main

// strings, bytes, strconv and friends: native on constants, symbolic where the program needs it.

import (
	"bytes"
	"fmt"
	"go/types"
	"html"
	"math"
	"net/textproto"
	"net/url"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func toNative(v Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		x, ok := v.(*Term)
		if !ok || !x.isConst() || x.sort != SStr {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(x.s).Convert(t), true
	case reflect.Bool:
		x, ok := v.(*Term)
		if !ok || !x.isConst() {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(x.u == 1), true
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		x, ok := v.(*Term)
		if !ok || !x.isConst() {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(x.sval()).Convert(t), true
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		x, ok := v.(*Term)
		if !ok || !x.isConst() || x.sort != SBV {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(x.u).Convert(t), true
	case reflect.Float64, reflect.Float32:
		x, ok := v.(*Term)
		if !ok || !x.isConst() {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(x.f).Convert(t), true
	case reflect.Slice:
		s, ok := v.(Slice)
		if !ok {
			return reflect.Value{}, false
		}
		if s.isNil {
			return reflect.Zero(t), true
		}
		r := reflect.MakeSlice(t, len(s.c), len(s.c))
		for i := range s.c {
			e, ok := toNative(s.c[i].v, t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			r.Index(i).Set(e)
		}
		return r, true
	}
	return reflect.Value{}, false
}

func (m *Machine) fromNative(v reflect.Value) Value {
	t := v.Type()
	switch t.Kind() {
	case reflect.String:
		return mkStr(v.String())
	case reflect.Bool:
		return mkBool(v.Bool())
	case reflect.Int, reflect.Int64:
		return mkInt(v.Int())
	case reflect.Int32, reflect.Int16, reflect.Int8:
		return mkBV(uint64(v.Int()), t.Bits())
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return mkBV(v.Uint(), t.Bits())
	case reflect.Float64, reflect.Float32:
		return mkFP(v.Float())
	case reflect.Slice:
		if v.IsNil() {
			return Slice{isNil: true}
		}
		c := make([]Cell, v.Len())
		for i := range c {
			c[i].v = m.fromNative(v.Index(i))
		}
		return Slice{c: c}
	case reflect.Interface:
		if v.IsNil() {
			return Iface{}
		}
		if e, ok := v.Interface().(error); ok {
			return m.newError(e.Error())
		}
	}
	panic(unsupported("native result " + t.String()))
}

type symFn func(fr *Frame, a []Value) Value

// native registers a library function that runs natively on concrete arguments.
func native(name string, f interface{}, sym symFn) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	var in intrinsic
	in = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		args := make([]reflect.Value, len(a))
		ok := true
		for i := range a {
			args[i], ok = toNative(a[i], ft.In(i))
			if !ok {
				break
			}
		}
		if !ok {
			return onTexts(fr, name, ft, a, sym, func(b []Value) Value {
				for i := range b {
					if _, ok := toNative(b[i], ft.In(i)); !ok {
						panic(unsupported(name + " of a symbolic argument"))
					}
				}
				return in(fr, fn, b)
			})
		}
		var outs []reflect.Value
		func() {
			defer func() {
				if r := recover(); r != nil {
					panic(fr.m.runtimePanic(fmt.Sprint(r)))
				}
			}()
			if ft.IsVariadic() {
				outs = fv.CallSlice(args)
			} else {
				outs = fv.Call(args)
			}
		}()
		if len(outs) == 1 {
			return fr.m.fromNative(outs[0])
		}
		var tu Tuple
		for _, o := range outs {
			tu = append(tu, fr.m.fromNative(o))
		}
		return tu
	}
	reg(name, in)
}

// formatFloat is strconv.FormatFloat(x, format, prec, bits) of an unknown number.
func formatFloat(a []Value) *Term {
	n := len(a) - 4
	if f, p := tm(a[n+1]), tm(a[n+2]); p.isConst() && p.sval() >= 0 {
		if f.isConst() && f.u == 'f' && p.sval() < 16 {
			return mkFtoa(mkFixed(tm(a[n]), int(p.sval())))
		}
		panic(unsupported("format of a symbolic number"))
	}
	return mkFtoa(tm(a[n]))
}

func bstr(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case Slice:
		return bytesToStr(x.c)
	}
	panic(unsupported("text expected"))
}

// dropPrefix returns s without its first n bytes, known to exist.
func dropPrefix(s *Term, n int) *Term {
	p := parts(s)
	for len(p) > 0 && n > 0 && p[0].isConst() {
		if len(p[0].s) > n {
			return mkConcat(append([]*Term{mkStr(p[0].s[n:])}, p[1:]...)...)
		}
		n -= len(p[0].s)
		p = p[1:]
	}
	if n == 0 {
		return mkConcat(p...)
	}
	return &Term{op: OSubstr, sort: SStr, args: []*Term{mkConcat(p...)}, u: uint64(n)}
}

func dropSuffix(s *Term, n int) *Term {
	p := parts(s)
	for len(p) > 0 && n > 0 && p[len(p)-1].isConst() {
		l := p[len(p)-1].s
		if len(l) > n {
			return mkConcat(append(append([]*Term{}, p[:len(p)-1]...), mkStr(l[:len(l)-n]))...)
		}
		n -= len(l)
		p = p[:len(p)-1]
	}
	if n == 0 {
		return mkConcat(p...)
	}
	return &Term{op: OSubstr, sort: SStr, args: []*Term{mkConcat(p...)}, w: n}
}

// splitSym splits a rope at a constant separator; symbolic parts are assumed not to contain it when that is certain,
// and otherwise the path is given up.
func (m *Machine) splitSym(fr *Frame, s *Term, sep string, n int) []*Term {
	var out []*Term
	var cur []*Term
	for _, p := range parts(s) {
		if !p.isConst() {
			if !m.textAvoids(p, sep) {
				if m.branch(mkStrPred(OContains, p, mkStr(sep))) {
					panic(unsupported("splitting inside a symbolic string"))
				}
			}
			cur = append(cur, p)
			continue
		}
		rest := p.s
		for {
			i := strings.Index(rest, sep)
			if i < 0 || n > 0 && len(out) == n-1 {
				break
			}
			cur = append(cur, mkStr(rest[:i]))
			out = append(out, mkConcat(cur...))
			cur = nil
			rest = rest[i+len(sep):]
		}
		cur = append(cur, mkStr(rest))
	}
	return append(out, mkConcat(cur...))
}

// textAvoids says that a rendered number or instant cannot contain the text.
func (m *Machine) textAvoids(p *Term, sep string) bool {
	switch p.op {
	case OItoa, OUtoa:
		return strings.Trim(sep, "0123456789-") != ""
	case ORfc:
		return strings.Trim(sep, "0123456789-+:TZ.") != ""
	case OFtoa:
		return strings.Trim(sep, "0123456789-+.eE") != ""
	case OVar:
		return m.identVar(p) && strings.Trim(sep, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") != ""
	}
	return false
}

// indexSym is the position of a separator of one character in a text whose unknown parts do not contain it.
func (m *Machine) indexSym(s *Term, sep string, last bool) (*Term, bool) {
	ps := parts(s)
	if len(sep) != 1 {
		return nil, false
	}
	for _, p := range ps {
		if !p.isConst() && !m.textAvoids(p, sep) {
			return nil, false
		}
	}
	for i := range ps {
		find := strings.Index
		if last {
			i, find = len(ps)-1-i, strings.LastIndex
		}
		if ps[i].isConst() {
			if k := find(ps[i].s, sep); k >= 0 {
				return mkStrLen(mkConcat(append(append([]*Term{}, ps[:i]...), mkStr(ps[i].s[:k]))...)), true
			}
		}
	}
	return mkInt(-1), true
}

// cutAt splits a rope at a position that is known to be a boundary of its parts or inside a constant part.
func cutAt(s, pos *Term) (*Term, *Term, bool) {
	ps := parts(s)
	for i := 0; i <= len(ps); i++ {
		before := mkConcat(ps[:i]...)
		if k, ok := lenDiff(pos, mkStrLen(before)); ok {
			if k == 0 {
				return before, mkConcat(ps[i:]...), true
			}
			if i < len(ps) && ps[i].isConst() && k > 0 && k <= int64(len(ps[i].s)) {
				return mkConcat(append(append([]*Term{}, ps[:i]...), mkStr(ps[i].s[:k]))...), mkConcat(append([]*Term{mkStr(ps[i].s[k:])}, ps[i+1:]...)...), true
			}
		}
	}
	return nil, nil, false
}

func strSlice(ts []*Term) Value {
	c := make([]Cell, len(ts))
	for i := range ts {
		c[i].v = ts[i]
	}
	return Slice{c: c}
}

// trimSym is strings.TrimSpace of a rope.
func (m *Machine) trimSym(fr *Frame, s *Term) *Term {
	return m.trimEnd(m.trimEnd(s, true), false)
}

// trimEnd takes the white space off one end of a rope.
func (m *Machine) trimEnd(s *Term, left bool) *Term {
	ps := append([]*Term{}, parts(s)...)
	for len(ps) > 0 {
		i, cut, re := 0, strings.TrimLeftFunc, "noblankl"
		if !left {
			i, cut, re = len(ps)-1, strings.TrimRightFunc, "noblankr"
		}
		p := ps[i]
		rest := ps[1:]
		if !left {
			rest = ps[:i]
		}
		if p.isConst() {
			t := cut(p.s, unicode.IsSpace)
			if t == "" {
				ps = rest
				continue
			}
			ps[i] = mkStr(t)
			break
		}
		if p.op == OBlob || p.op == OItoa || p.op == OUtoa || p.op == OFtoa || p.op == ORfc || p.op == OVar && m.identVar(p) {
			break
		}
		if m.branch(mkInRe(p, re)) {
			break
		}
		if m.branch(mkInRe(p, "spaces")) {
			ps = rest
			continue
		}
		a, t := m.fresh("blank", SStr, 0), m.fresh("trimmed", SStr, 0)
		m.assume(mkInRe(a, "spaces"))
		m.assume(mkInRe(t, re))
		if left {
			m.assume(mkEq(p, mkConcat(a, t)))
		} else {
			m.assume(mkEq(p, mkConcat(t, a)))
		}
		ps[i] = t
		break
	}
	return mkConcat(ps...)
}

func (m *Machine) identVar(t *Term) bool {
	in, ok := m.inputIdx[t.s]
	return ok && in.kind == "ident"
}

func (m *Machine) parseIntSym(fr *Frame, s *Term, bits int) (*Term, bool) {
	if s.isConst() {
		n, err := strconv.ParseInt(s.s, 10, bits)
		return mkInt(n), err == nil
	}
	inRange := func(v *Term) bool {
		if bits == 0 || bits == 64 {
			return true
		}
		lim := int64(1) << uint(bits-1)
		return m.branch(mkAnd(mkBin(OSle, mkInt(-lim), v), mkBin(OSlt, v, mkInt(lim))))
	}
	switch s.op {
	case OItoa:
		return s.args[0], inRange(s.args[0])
	case OFtoa, ORfc, OBlob:
		return mkInt(0), false
	case OVar:
		if b, ok := m.bindings[s.s]; ok {
			if b != nil && b.op == OItoa {
				return b.args[0], inRange(b.args[0])
			}
			return mkInt(0), false
		}
		if m.identVar(s) {
			if m.branch(mkInRe(s, "nodigit")) {
				return mkInt(0), false
			}
			panic(unsupported("parsing an identifier as a number"))
		}
		if m.branch(m.fresh("isInt", SBool, 0)) {
			v := m.fresh("int", SBV, 64)
			m.assume(mkAnd(mkBin(OSle, mkInt(-maxExact), v), mkBin(OSle, v, mkInt(maxExact))))
			txt := mkItoa(v)
			m.assume(mkEq(s, txt))
			m.bindings[s.s] = txt
			return v, inRange(v)
		}
		m.bindings[s.s] = nil
		return mkInt(0), false
	}
	if startsWithLetter(s, "") {
		return mkInt(0), false
	}
	panic(unsupported("parsing a composed symbolic string as a number"))
}

// startsWithLetter reports whether a composed string begins with a letter that is none of but.
func startsWithLetter(s *Term, but string) bool {
	p := parts(s)
	if len(p) == 0 || p[0].op != OConst || p[0].s == "" {
		return false
	}
	c := p[0].s[0] | 0x20
	return c >= 'a' && c <= 'z' && strings.IndexByte(but, c) < 0
}

func (m *Machine) parseFloatSym(fr *Frame, s *Term) (*Term, bool) {
	if s.isConst() {
		f, err := strconv.ParseFloat(s.s, 64)
		return mkFP(f), err == nil
	}
	switch s.op {
	case OItoa:
		return mkI2F(s.args[0]), true
	case OFtoa:
		return s.args[0], true
	case ORfc, OBlob:
		return mkFP(0), false
	case OVar:
		v, ok := m.parseIntSym(fr, s, 64)
		if ok {
			return mkI2F(v), true
		}
		return mkFP(0), false
	}
	if startsWithLetter(s, "in") {
		return mkFP(0), false
	}
	panic(unsupported("parsing a composed symbolic string as a number"))
}

func (m *Machine) parseBoolSym(fr *Frame, s *Term) (*Term, bool) {
	if s.isConst() {
		b, err := strconv.ParseBool(s.s)
		return mkBool(b), err == nil
	}
	if s.op == OIte {
		b1, ok1 := m.parseBoolSym(fr, s.args[1])
		b2, ok2 := m.parseBoolSym(fr, s.args[2])
		if ok1 && ok2 {
			return mkIte(s.args[0], b1, b2), true
		}
	}
	in := func(xs ...string) *Term {
		var ts []*Term
		for _, x := range xs {
			ts = append(ts, mkEq(s, mkStr(x)))
		}
		return mkOr(ts...)
	}
	tr := in("1", "t", "T", "TRUE", "true", "True")
	if m.branch(tr) {
		return tTrue, true
	}
	if m.branch(in("0", "f", "F", "FALSE", "false", "False")) {
		return tFalse, true
	}
	return tFalse, false
}

func (m *Machine) numError(fn string, s *Term) Value {
	return m.newErrorT(mkConcat(mkStr("strconv."+fn+": parsing "), &Term{op: OApp, sort: SStr, s: "txt_quote", args: []*Term{s}}, mkStr(": invalid syntax")))
}

func foldCmp(a, b *Term) *Term {
	if b.isConst() && !a.isConst() {
		return foldEq(a, b.s)
	}
	if a.isConst() && !b.isConst() {
		return foldEq(b, a.s)
	}
	if same(a, b) {
		return tTrue
	}
	return mkEq(appText("txt_lower", a), appText("txt_lower", b))
}

func appText(f string, t *Term) *Term {
	return &Term{op: OApp, sort: SStr, s: f, args: []*Term{t}}
}

func replaceSym(fr *Frame, s *Term, old, nw *Term, n int64) *Term {
	if !old.isConst() || !nw.isConst() {
		panic(unsupported("strings.Replace of symbolic patterns"))
	}
	var out []*Term
	for _, p := range parts(s) {
		switch {
		case p.isConst():
			if n >= 0 && strings.Contains(p.s, old.s) {
				panic(unsupported("bounded replace in a symbolic string"))
			}
			out = append(out, mkStr(strings.ReplaceAll(p.s, old.s, nw.s)))
		case p.op == OBlob || p.op == OItoa || p.op == ORfc || p.op == OFtoa || p.op == OUtoa:
			// documents are written without white space outside strings, and escape control characters inside
			if strings.TrimSpace(old.s) != "" && p.op == OBlob {
				panic(unsupported("replacing " + old.s + " in a document"))
			}
			out = append(out, p)
		case fr.m.identVar(p) && strings.Trim(old.s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") != "":
			out = append(out, p)
		default:
			if fr.m.branch(mkStrPred(OContains, p, old)) {
				panic(unsupported("replacing inside a symbolic string"))
			}
			out = append(out, p)
		}
	}
	return mkConcat(out...)
}

func bytesOf(v *Term) Slice { return strToBytes(v) }

func init() {
	pred := func(op Op) symFn {
		return func(fr *Frame, a []Value) Value { return mkStrPred(op, bstr(a[0]), bstr(a[1])) }
	}
	native("strings.HasPrefix", strings.HasPrefix, pred(OPrefix))
	native("strings.HasSuffix", strings.HasSuffix, pred(OSuffix))
	native("strings.Contains", strings.Contains, pred(OContains))
	native("bytes.HasPrefix", bytes.HasPrefix, pred(OPrefix))
	native("bytes.HasSuffix", bytes.HasSuffix, pred(OSuffix))
	native("bytes.Contains", bytes.Contains, pred(OContains))
	cutp := func(op Op, tuple bool) symFn {
		return func(fr *Frame, a []Value) Value {
			s, p := bstr(a[0]), bstr(a[1])
			if !p.isConst() {
				panic(unsupported("symbolic prefix"))
			}
			if fr.m.branch(mkStrPred(op, s, p)) {
				r := dropPrefix(s, len(p.s))
				if op == OSuffix {
					r = dropSuffix(s, len(p.s))
				}
				if tuple {
					return Tuple{r, tTrue}
				}
				return r
			}
			if tuple {
				return Tuple{s, tFalse}
			}
			return s
		}
	}
	native("strings.TrimPrefix", strings.TrimPrefix, cutp(OPrefix, false))
	native("strings.TrimSuffix", strings.TrimSuffix, cutp(OSuffix, false))
	native("strings.CutPrefix", strings.CutPrefix, cutp(OPrefix, true))
	native("strings.CutSuffix", strings.CutSuffix, cutp(OSuffix, true))
	bcut := func(op Op) symFn {
		f := cutp(op, false)
		return func(fr *Frame, a []Value) Value { return bytesOf(f(fr, a).(*Term)) }
	}
	native("bytes.TrimPrefix", bytes.TrimPrefix, bcut(OPrefix))
	native("bytes.TrimSuffix", bytes.TrimSuffix, bcut(OSuffix))
	split := func(fr *Frame, a []Value) Value {
		sep := goStr(a[1])
		n := int64(-1)
		if len(a) > 2 {
			n = tm(a[2]).sval()
		}
		if sep == "" || n == 0 {
			panic(unsupported("strings.Split"))
		}
		return strSlice(fr.m.splitSym(fr, bstr(a[0]), sep, int(n)))
	}
	native("strings.Split", strings.Split, split)
	native("strings.SplitN", strings.SplitN, split)
	native("strings.Cut", strings.Cut, func(fr *Frame, a []Value) Value {
		r := fr.m.splitSym(fr, bstr(a[0]), goStr(a[1]), 2)
		if len(r) == 2 {
			return Tuple{r[0], r[1], tTrue}
		}
		return Tuple{a[0], mkStr(""), tFalse}
	})
	native("strings.Fields", strings.Fields, nil)
	trim := func(fr *Frame, a []Value) Value { return fr.m.trimSym(fr, bstr(a[0])) }
	native("strings.TrimSpace", strings.TrimSpace, trim)
	native("bytes.TrimSpace", bytes.TrimSpace, func(fr *Frame, a []Value) Value { return bytesOf(fr.m.trimSym(fr, bstr(a[0]))) })
	trimLeft := func(fr *Frame, a []Value) Value {
		// s.TrimLeft(cut): constant ends only, symbolic ends that cannot start with the cut set
		s, cut := bstr(a[0]), goStr(a[1])
		ps := append([]*Term{}, parts(s)...)
		for len(ps) > 0 {
			if !ps[0].isConst() {
				if len(cut) == 1 {
					for k := 0; k < 3; k++ {
						if !fr.m.branch(mkStrPred(OPrefix, ps[0], mkStr(cut))) {
							return mkConcat(ps...)
						}
						ps[0] = dropPrefix(ps[0], 1)
					}
				}
				panic(unsupported("TrimLeft of a symbolic string"))
			}
			t := strings.TrimLeft(ps[0].s, cut)
			if t != "" {
				ps[0] = mkStr(t)
				return mkConcat(ps...)
			}
			ps = ps[1:]
		}
		return mkStr("")
	}
	trimRight := func(fr *Frame, a []Value) Value {
		s, cut := bstr(a[0]), goStr(a[1])
		ps := append([]*Term{}, parts(s)...)
		for len(ps) > 0 {
			n := len(ps) - 1
			if !ps[n].isConst() {
				if len(cut) == 1 {
					for k := 0; k < 3; k++ {
						if !fr.m.branch(mkStrPred(OSuffix, ps[n], mkStr(cut))) {
							return mkConcat(ps...)
						}
						ps[n] = dropSuffix(ps[n], 1)
					}
				}
				panic(unsupported("TrimRight of a symbolic string"))
			}
			t := strings.TrimRight(ps[n].s, cut)
			if t != "" {
				ps[n] = mkStr(t)
				return mkConcat(ps...)
			}
			ps = ps[:n]
		}
		return mkStr("")
	}
	native("strings.TrimLeft", strings.TrimLeft, trimLeft)
	native("strings.TrimRight", strings.TrimRight, trimRight)
	native("strings.Trim", strings.Trim, func(fr *Frame, a []Value) Value {
		return trimRight(fr, []Value{trimLeft(fr, a), a[1]})
	})
	native("bytes.Trim", bytes.Trim, nil)
	native("bytes.TrimLeft", bytes.TrimLeft, nil)
	native("bytes.TrimRight", bytes.TrimRight, nil)
	native("strings.Index", strings.Index, func(fr *Frame, a []Value) Value {
		s, sub := bstr(a[0]), goStr(a[1])
		p := parts(s)
		if len(p) > 0 && p[0].isConst() {
			if i := strings.Index(p[0].s, sub); i >= 0 {
				return mkInt(int64(i))
			}
		}
		if k, ok := fr.m.indexSym(s, sub, false); ok {
			return k
		}
		if !fr.m.branch(mkStrPred(OContains, s, mkStr(sub))) {
			return mkInt(-1)
		}
		if fr.m.branch(mkStrPred(OPrefix, s, mkStr(sub))) {
			return mkInt(0)
		}
		panic(unsupported("strings.Index of a symbolic string"))
	})
	native("strings.IndexByte", strings.IndexByte, func(fr *Frame, a []Value) Value {
		s, sub := bstr(a[0]), string(rune(tm(a[1]).u))
		if k, ok := fr.m.indexSym(s, sub, false); ok {
			return k
		}
		if !fr.m.branch(mkStrPred(OContains, s, mkStr(sub))) {
			return mkInt(-1)
		}
		if fr.m.branch(mkStrPred(OPrefix, s, mkStr(sub))) {
			return mkInt(0)
		}
		panic(unsupported("strings.IndexByte of a symbolic string"))
	})
	lastIndex := func(fr *Frame, s *Term, sub string) Value {
		if k, ok := fr.m.indexSym(s, sub, true); ok {
			return k
		}
		if !fr.m.branch(mkStrPred(OContains, s, mkStr(sub))) {
			return mkInt(-1)
		}
		panic(unsupported("strings.LastIndex of a symbolic string"))
	}
	native("strings.LastIndex", strings.LastIndex, func(fr *Frame, a []Value) Value { return lastIndex(fr, tm(a[0]), goStr(a[1])) })
	native("strings.LastIndexByte", strings.LastIndexByte, func(fr *Frame, a []Value) Value {
		return lastIndex(fr, tm(a[0]), string(rune(tm(a[1]).u)))
	})
	native("strings.IndexAny", strings.IndexAny, nil)
	native("strings.IndexRune", strings.IndexRune, nil)
	native("strings.ContainsAny", strings.ContainsAny, nil)
	native("strings.ContainsRune", strings.ContainsRune, nil)
	native("strings.Count", strings.Count, nil)
	native("strings.Compare", strings.Compare, nil)
	native("strings.Repeat", strings.Repeat, nil)
	native("strings.Title", strings.Title, nil)
	native("strings.ToTitle", strings.ToTitle, nil)
	native("strings.ToLower", strings.ToLower, func(fr *Frame, a []Value) Value { return appText("txt_lower", tm(a[0])) })
	native("strings.ToUpper", strings.ToUpper, func(fr *Frame, a []Value) Value { return appText("txt_upper", tm(a[0])) })
	native("strings.EqualFold", strings.EqualFold, func(fr *Frame, a []Value) Value { return foldCmp(tm(a[0]), tm(a[1])) })
	native("strings.Clone", strings.Clone, func(fr *Frame, a []Value) Value { return a[0] })
	native("strings.Replace", strings.Replace, func(fr *Frame, a []Value) Value {
		return replaceSym(fr, tm(a[0]), tm(a[1]), tm(a[2]), tm(a[3]).sval())
	})
	native("strings.ReplaceAll", strings.ReplaceAll, func(fr *Frame, a []Value) Value {
		return replaceSym(fr, tm(a[0]), tm(a[1]), tm(a[2]), -1)
	})
	native("bytes.Replace", bytes.Replace, func(fr *Frame, a []Value) Value {
		return bytesOf(replaceSym(fr, bstr(a[0]), bstr(a[1]), bstr(a[2]), tm(a[3]).sval()))
	})
	native("bytes.ReplaceAll", bytes.ReplaceAll, func(fr *Frame, a []Value) Value {
		return bytesOf(replaceSym(fr, bstr(a[0]), bstr(a[1]), bstr(a[2]), -1))
	})
	native("strings.Join", strings.Join, func(fr *Frame, a []Value) Value {
		var ps []*Term
		for i, c := range a[0].(Slice).c {
			if i > 0 {
				ps = append(ps, tm(a[1]))
			}
			ps = append(ps, tm(c.v))
		}
		return mkConcat(ps...)
	})
	native("bytes.Equal", bytes.Equal, func(fr *Frame, a []Value) Value { return mkEq(bstr(a[0]), bstr(a[1])) })
	native("bytes.Index", bytes.Index, nil)
	native("bytes.IndexByte", bytes.IndexByte, nil)
	native("bytes.Compare", bytes.Compare, nil)
	native("bytes.ToLower", bytes.ToLower, nil)
	native("bytes.ToUpper", bytes.ToUpper, nil)
	native("bytes.Split", bytes.Split, nil)
	native("bytes.Fields", bytes.Fields, nil)
	native("bytes.Join", bytes.Join, nil)
	native("bytes.EqualFold", bytes.EqualFold, nil)
	native("bytes.Clone", bytes.Clone, func(fr *Frame, a []Value) Value { return bytesOf(bstr(a[0])) })

	native("unicode/utf8.RuneCountInString", utf8.RuneCountInString, nil)
	native("unicode/utf8.ValidString", utf8.ValidString, func(fr *Frame, a []Value) Value { return tTrue })
	native("unicode/utf8.Valid", utf8.Valid, func(fr *Frame, a []Value) Value { return tTrue })
	native("unicode/utf8.RuneCount", utf8.RuneCount, nil)
	native("net/textproto.CanonicalMIMEHeaderKey|net/http.CanonicalHeaderKey", textproto.CanonicalMIMEHeaderKey, nil)
	native("net/url.PathEscape", url.PathEscape, func(fr *Frame, a []Value) Value {
		if fr.m.identVar(tm(a[0])) {
			return a[0]
		}
		return appText("url_path", tm(a[0]))
	})
	native("net/url.QueryEscape", url.QueryEscape, func(fr *Frame, a []Value) Value {
		if fr.m.identVar(tm(a[0])) {
			return a[0]
		}
		return appText("url_query", tm(a[0]))
	})
	native("net/url.PathUnescape", url.PathUnescape, func(fr *Frame, a []Value) Value {
		if t := tm(a[0]); t.op == OApp && t.s == "url_path" {
			return Tuple{t.args[0], Iface{}}
		}
		if fr.m.branch(mkStrPred(OContains, tm(a[0]), mkStr("%"))) {
			panic(unsupported("unescaping a symbolic string"))
		}
		return Tuple{a[0], Iface{}}
	})
	native("net/url.QueryUnescape", url.QueryUnescape, func(fr *Frame, a []Value) Value {
		s := tm(a[0])
		if s.op == OApp && s.s == "url_query" {
			return Tuple{s.args[0], Iface{}}
		}
		if fr.m.branch(mkOr(mkStrPred(OContains, s, mkStr("%")), mkStrPred(OContains, s, mkStr("+")))) {
			panic(unsupported("unescaping a symbolic string"))
		}
		return Tuple{a[0], Iface{}}
	})
	native("path.Clean", path.Clean, nil)
	native("path.Base", path.Base, func(fr *Frame, a []Value) Value {
		r := fr.m.splitSym(fr, tm(a[0]), "/", -1)
		for len(r) > 1 && fr.m.branch(mkEq(r[len(r)-1], mkStr(""))) {
			r = r[:len(r)-1]
		}
		l := r[len(r)-1]
		if len(r) == 1 && fr.m.branch(mkEq(l, mkStr(""))) {
			if c := tm(a[0]); fr.m.branch(mkEq(c, mkStr(""))) {
				return mkStr(".")
			}
			return mkStr("/")
		}
		return l
	})
	native("path.Dir", path.Dir, nil)
	native("path.Join", path.Join, nil)
	native("path/filepath.Base", filepath.Base, nil)
	native("html.EscapeString", html.EscapeString, func(fr *Frame, a []Value) Value { return a[0] })

	// ---- strconv ----
	native("strconv.Itoa", strconv.Itoa, func(fr *Frame, a []Value) Value { return mkItoa(tm(a[0])) })
	base10 := func(v Value) {
		if t := tm(v); !t.isConst() || t.u != 10 {
			panic(unsupported("number base"))
		}
	}
	native("strconv.FormatInt", strconv.FormatInt, func(fr *Frame, a []Value) Value { base10(a[1]); return mkItoa(tm(a[0])) })
	native("strconv.FormatUint", strconv.FormatUint, func(fr *Frame, a []Value) Value { base10(a[1]); return mkUtoa(tm(a[0])) })
	native("strconv.FormatFloat", strconv.FormatFloat, func(fr *Frame, a []Value) Value { return formatFloat(a) })
	native("strconv.FormatBool", strconv.FormatBool, func(fr *Frame, a []Value) Value {
		return mkIte(tm(a[0]), mkStr("true"), mkStr("false"))
	})
	native("strconv.Quote", strconv.Quote, func(fr *Frame, a []Value) Value { return fr.m.quote(tm(a[0])) })
	native("strconv.Unquote", strconv.Unquote, nil)
	app := func(f func(fr *Frame, a []Value) *Term) func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return func(fr *Frame, fn *ssa.Function, a []Value) Value {
			return bytesOf(mkConcat(bstr(a[0]), f(fr, a[1:])))
		}
	}
	reg("strconv.AppendInt", app(func(fr *Frame, a []Value) *Term { base10(a[1]); return mkItoa(tm(a[0])) }))
	reg("strconv.AppendUint", app(func(fr *Frame, a []Value) *Term { base10(a[1]); return mkUtoa(tm(a[0])) }))
	reg("strconv.AppendFloat", app(func(fr *Frame, a []Value) *Term { return formatFloat(a) }))
	for n, f := range map[string]struct {
		mode string
		fn   func(float64) float64
	}{"Round": {"RNA", math.Round}, "RoundToEven": {"RNE", math.RoundToEven}, "Floor": {"RTN", math.Floor}, "Ceil": {"RTP", math.Ceil}, "Trunc": {"RTZ", math.Trunc}} {
		f := f
		native("math."+n, f.fn, func(fr *Frame, a []Value) Value { return mkFRound(f.mode, tm(a[0])) })
	}
	native("math.Abs", math.Abs, func(fr *Frame, a []Value) Value {
		x := tm(a[0])
		return mkIte(mkBin2(OFLt, x, mkFP(0)), &Term{op: OFNeg, sort: SFP, args: []*Term{x}}, x)
	})
	native("math.IsNaN", math.IsNaN, func(fr *Frame, a []Value) Value { return mkNot(mkBin2(OFEq, tm(a[0]), tm(a[0]))) })
	native("math.IsInf", math.IsInf, nil)
	native("math.Pow", math.Pow, nil)
	native("math.Pow10", math.Pow10, nil)
	native("math.Mod", math.Mod, nil)
	native("math.Float64bits", math.Float64bits, nil)
	reg("strconv.AppendBool", app(func(fr *Frame, a []Value) *Term { return mkIte(tm(a[0]), mkStr("true"), mkStr("false")) }))
	reg("strconv.AppendQuote", app(func(fr *Frame, a []Value) *Term { return fr.m.quote(tm(a[0])) }))
	native("strconv.ParseBool", strconv.ParseBool, func(fr *Frame, a []Value) Value {
		b, ok := fr.m.parseBoolSym(fr, tm(a[0]))
		if !ok {
			return Tuple{tFalse, fr.m.numError("ParseBool", tm(a[0]))}
		}
		return Tuple{b, Iface{}}
	})
	native("strconv.Atoi", strconv.Atoi, func(fr *Frame, a []Value) Value {
		v, ok := fr.m.parseIntSym(fr, tm(a[0]), 64)
		if !ok {
			return Tuple{mkInt(0), fr.m.numError("Atoi", tm(a[0]))}
		}
		return Tuple{v, Iface{}}
	})
	native("strconv.ParseInt", strconv.ParseInt, func(fr *Frame, a []Value) Value {
		if b := tm(a[1]); !b.isConst() || b.u != 10 && b.u != 0 {
			panic(unsupported("number base"))
		}
		v, ok := fr.m.parseIntSym(fr, tm(a[0]), int(tm(a[2]).sval()))
		if !ok {
			return Tuple{mkInt(0), fr.m.numError("ParseInt", tm(a[0]))}
		}
		return Tuple{v, Iface{}}
	})
	native("strconv.ParseUint", strconv.ParseUint, func(fr *Frame, a []Value) Value {
		v, ok := fr.m.parseIntSym(fr, tm(a[0]), int(tm(a[2]).sval()))
		if !ok || fr.m.branch(mkBin(OSlt, v, mkInt(0))) {
			return Tuple{mkInt(0), fr.m.numError("ParseUint", tm(a[0]))}
		}
		return Tuple{v, Iface{}}
	})
	native("strconv.ParseFloat", strconv.ParseFloat, func(fr *Frame, a []Value) Value {
		v, ok := fr.m.parseFloatSym(fr, tm(a[0]))
		if !ok {
			return Tuple{mkFP(0), fr.m.numError("ParseFloat", tm(a[0]))}
		}
		return Tuple{v, Iface{}}
	})

	// ---- strings.Builder ----
	type sb struct{ ps []*Term }
	get := func(fr *Frame, v Value) *sb {
		c := fr.ptr(v)
		s, _ := fr.m.side[c].(*sb)
		if s == nil {
			s = &sb{}
			fr.m.side[c] = s
		}
		return s
	}
	reg("(*strings.Builder).WriteString", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s := get(fr, a[0])
		s.ps = append(s.ps, tm(a[1]))
		return Tuple{mkStrLen(tm(a[1])), Iface{}}
	})
	reg("(*strings.Builder).Write", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s := get(fr, a[0])
		s.ps = append(s.ps, bytesToStr(a[1].(Slice).c))
		return Tuple{mkInt(int64(len(a[1].(Slice).c))), Iface{}}
	})
	reg("(*strings.Builder).WriteByte", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s := get(fr, a[0])
		s.ps = append(s.ps, mkStr(string([]byte{byte(tm(a[1]).u)})))
		return Iface{}
	})
	reg("(*strings.Builder).WriteRune", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s := get(fr, a[0])
		r := string(rune(tm(a[1]).sval()))
		s.ps = append(s.ps, mkStr(r))
		return Tuple{mkInt(int64(len(r))), Iface{}}
	})
	reg("(*strings.Builder).String", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkConcat(get(fr, a[0]).ps...)
	})
	reg("(*strings.Builder).Len", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkStrLen(mkConcat(get(fr, a[0]).ps...))
	})
	reg("(*strings.Builder).Reset", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		get(fr, a[0]).ps = nil
		return nil
	})
	reg("(*strings.Builder).Grow", nop)
	reg("(*strings.Builder).Cap", func(fr *Frame, fn *ssa.Function, a []Value) Value { return mkInt(0) })

	// ---- readers and buffers: a list of byte cells ----
	type rd struct{ s Slice }
	getr := func(fr *Frame, v Value) *rd {
		c := fr.ptr(v)
		s, _ := fr.m.side[c].(*rd)
		if s == nil {
			s = &rd{}
			fr.m.side[c] = s
		}
		return s
	}
	reg("strings.NewReader|bytes.NewReader", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		c := &Cell{v: zero(deref(fn.Signature.Results().At(0).Type()))}
		var s Slice
		if t, ok := a[0].(*Term); ok {
			s = strToBytes(t)
		} else {
			s = a[0].(Slice)
		}
		fr.m.side[c] = &rd{s: s}
		return c
	})
	reg("bytes.NewBufferString", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		c := &Cell{v: zero(deref(fn.Signature.Results().At(0).Type()))}
		fr.m.side[c] = &rd{s: strToBytes(tm(a[0]))}
		return c
	})
	reg("bytes.NewBuffer", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		c := &Cell{v: zero(deref(fn.Signature.Results().At(0).Type()))}
		fr.m.side[c] = &rd{s: a[0].(Slice)}
		return c
	})
	const both = "(*strings.Reader).%[1]s|(*bytes.Reader).%[1]s|(*bytes.Buffer).%[1]s"
	all := func(n string, f intrinsic) { reg(fmt.Sprintf(both, n), f) }
	all("Read", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		r := getr(fr, a[0])
		p := a[1].(Slice)
		if len(r.s.c) == 0 {
			if len(p.c) == 0 {
				return Tuple{mkInt(0), Iface{}}
			}
			return Tuple{mkInt(0), fr.m.global(fr, fr.m.ex.ioEOF).v}
		}
		n := len(p.c)
		if len(r.s.c) < n {
			n = len(r.s.c)
		}
		for i := 0; i < n; i++ {
			p.c[i].v = r.s.c[i].v
		}
		r.s.c = r.s.c[n:]
		return Tuple{mkInt(int64(n)), Iface{}}
	})
	all("Len", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkStrLen(bytesToStr(getr(fr, a[0]).s.c))
	})
	all("ReadByte", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		r := getr(fr, a[0])
		if len(r.s.c) == 0 {
			return Tuple{mkBV(0, 8), fr.m.global(fr, fr.m.ex.ioEOF).v}
		}
		b := r.s.c[0].v
		r.s.c = r.s.c[1:]
		return Tuple{b, Iface{}}
	})
	all("WriteTo", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		r := getr(fr, a[0])
		w := fr.m.force(fr, a[1])
		s := r.s
		r.s.c = nil
		if len(s.c) == 0 {
			return Tuple{mkInt(0), Iface{}}
		}
		return fr.m.callMethod(fr, w.t, w.v, "Write", s)
	})
	buf := func(n string, f intrinsic) { reg("(*bytes.Buffer)."+n, f) }
	app2 := func(r *rd, c []Cell) {
		n := make([]Cell, 0, len(r.s.c)+len(c))
		for i := range r.s.c {
			n = append(n, Cell{v: r.s.c[i].v})
		}
		for i := range c {
			n = append(n, Cell{v: c[i].v})
		}
		r.s = Slice{c: n}
	}
	buf("Write", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		app2(getr(fr, a[0]), a[1].(Slice).c)
		return Tuple{mkInt(int64(len(a[1].(Slice).c))), Iface{}}
	})
	buf("WriteString", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		app2(getr(fr, a[0]), strToBytes(tm(a[1])).c)
		return Tuple{mkStrLen(tm(a[1])), Iface{}}
	})
	buf("WriteByte", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		app2(getr(fr, a[0]), []Cell{{v: a[1]}})
		return Iface{}
	})
	buf("WriteRune", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		r := string(rune(tm(a[1]).sval()))
		app2(getr(fr, a[0]), strToBytes(mkStr(r)).c)
		return Tuple{mkInt(int64(len(r))), Iface{}}
	})
	buf("ReadFrom", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		t, err := fr.m.readAll(fr, a[1])
		app2(getr(fr, a[0]), strToBytes(t).c)
		return Tuple{mkStrLen(t), err}
	})
	buf("String", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if c, ok := a[0].(*Cell); ok && c == nil {
			return mkStr("<nil>")
		}
		return bytesToStr(getr(fr, a[0]).s.c)
	})
	buf("Bytes", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s := getr(fr, a[0]).s
		if s.c == nil {
			return Slice{c: []Cell{}}
		}
		return s
	})
	buf("Reset", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		getr(fr, a[0]).s = Slice{c: []Cell{}}
		return nil
	})
	buf("Truncate", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		r := getr(fr, a[0])
		n := int(fr.m.concInt(fr, tm(a[1])))
		t := bytesToStr(r.s.c)
		l := mkStrLen(t)
		if l.isConst() && len(r.s.c) == int(l.u) && n <= len(r.s.c) {
			r.s.c = r.s.c[:n]
			return nil
		}
		if n == 0 {
			r.s.c = r.s.c[:0]
			return nil
		}
		panic(unsupported("Truncate of a symbolic buffer"))
	})
	buf("Grow", nop)
	buf("Cap", func(fr *Frame, fn *ssa.Function, a []Value) Value { return mkInt(int64(cap(getr(fr, a[0]).s.c))) })

	readAll := func(fr *Frame, fn *ssa.Function, a []Value) Value {
		t, err := fr.m.readAll(fr, a[0])
		return Tuple{strToBytes(t), err}
	}
	reg("io.ReadAll|io/ioutil.ReadAll", readAll)
	reg("io.Copy", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		t, err := fr.m.readAll(fr, a[1])
		w := fr.m.force(fr, a[0])
		if c, ok := constStr(t); !ok || c != "" {
			r := fr.m.callMethod(fr, w.t, w.v, "Write", strToBytes(t)).(Tuple)
			if e := fr.m.force(fr, r[1]); e.t != nil {
				return Tuple{mkInt(0), r[1]}
			}
		}
		return Tuple{mkStrLen(t), err}
	})
	reg("io.WriteString", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		w := fr.m.force(fr, a[0])
		if w.t == nil {
			panic(fr.m.runtimePanic("invalid memory address or nil pointer dereference"))
		}
		return fr.m.callMethod(fr, w.t, w.v, "Write", strToBytes(tm(a[1])))
	})

	// ---- net/url.Parse ----
	// escaped is the encoded form of a path that RawPath does not give.
	escaped := func(m *Machine, p *Term) *Term {
		var out []*Term
		for _, x := range parts(p) {
			switch {
			case x.isConst():
				out = append(out, mkStr((&url.URL{Path: x.s}).EscapedPath()))
			case m.identVar(x):
				out = append(out, x)
			default:
				out = append(out, appText("url_enc", x))
			}
		}
		return mkConcat(out...)
	}
	reg("net/url.Parse|net/url.ParseRequestURI", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		ut := deref(fn.Signature.Results().At(0).Type())
		s := tm(a[0])
		c := &Cell{v: zero(ut)}
		whole := func(s *Term) Value {
			u, err := url.Parse(s.s)
			if fn.Name() == "ParseRequestURI" {
				u, err = url.ParseRequestURI(s.s)
			}
			if err != nil {
				return Tuple{(*Cell)(nil), m.newError(err.Error())}
			}
			for k, v := range map[string]string{"Scheme": u.Scheme, "Opaque": u.Opaque, "Host": u.Host, "Path": u.Path, "RawPath": u.RawPath, "RawQuery": u.RawQuery, "Fragment": u.Fragment} {
				fieldByName(c, ut, k).v = mkStr(v)
			}
			return Tuple{c, Iface{}}
		}
		const why = "parsing a symbolic URL"
		if s.isConst() {
			return whole(s)
		}
		// a constant origin followed by a symbolic path
		ps := parts(s)
		if !ps[0].isConst() {
			return whole(m.concretize(s, why))
		}
		// the first question mark of the constant parts begins the query
		var query []*Term
		hasQuery := false
		for i, p := range ps {
			if !p.isConst() {
				continue
			}
			if j := strings.Index(p.s, "?"); j >= 0 {
				query = append([]*Term{mkStr(p.s[j+1:])}, ps[i+1:]...)
				ps = append(append([]*Term{}, ps[:i]...), mkStr(p.s[:j]))
				hasQuery = true
				break
			}
		}
		u, err := url.Parse(ps[0].s)
		if err != nil || u.Host == "" || u.Fragment != "" || u.Path == "" && len(ps) > 1 {
			return whole(m.concretize(s, why))
		}
		path, raw, quoted := []*Term{mkStr(u.Path)}, []*Term{mkStr(u.EscapedPath())}, u.RawPath != ""
		for i, p := range append(append([]*Term{}, ps[1:]...), query...) {
			inPath := i < len(ps)-1
			dec := p
			switch {
			case p.isConst():
				if strings.Contains(p.s, "#") {
					return whole(m.concretize(s, why))
				}
				if inPath {
					d, err := url.PathUnescape(p.s)
					if err != nil {
						return whole(m.concretize(s, why))
					}
					dec = mkStr(d)
					quoted = quoted || d != p.s
				}
			case m.identVar(p) || m.textAvoids(p, "?") && m.textAvoids(p, "#") && m.textAvoids(p, "%"):
			case p.op == OApp && (p.s == "url_path" || p.s == "url_enc" && inPath || p.s == "url_query" && !inPath):
				if inPath {
					dec, quoted = p.args[0], true
				}
			default:
				for _, ch := range []string{"?", "#", "%"} {
					if m.branch(mkStrPred(OContains, p, mkStr(ch))) {
						return whole(m.concretize(s, why))
					}
				}
			}
			if inPath {
				path, raw = append(path, dec), append(raw, p)
			}
		}
		if hasQuery {
			fieldByName(c, ut, "RawQuery").v = mkConcat(query...)
		}
		fieldByName(c, ut, "Scheme").v = mkStr(u.Scheme)
		fieldByName(c, ut, "Host").v = mkStr(u.Host)
		fieldByName(c, ut, "Path").v = mkConcat(path...)
		if quoted {
			fieldByName(c, ut, "RawPath").v = mkConcat(raw...)
		}
		return Tuple{c, Iface{}}
	})
	reg("(*net/url.URL).EscapedPath", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		ut := deref(fn.Signature.Recv().Type())
		c := fr.ptr(a[0])
		if r := fieldByName(c, ut, "RawPath").v.(*Term); !(r.isConst() && r.s == "") {
			return r
		}
		return escaped(fr.m, fieldByName(c, ut, "Path").v.(*Term))
	})
	reg("(*net/url.URL).String|(*net/url.URL).RequestURI", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		ut := deref(fn.Signature.Recv().Type())
		c := fr.ptr(a[0])
		f := func(n string) *Term { return fieldByName(c, ut, n).v.(*Term) }
		var ps []*Term
		path := escaped(fr.m, f("Path"))
		if r := f("RawPath"); !(r.isConst() && r.s == "") {
			if fr.m.decodes(r, f("Path")) {
				path = r
			}
		}
		if fn.Name() == "String" {
			if sc := f("Scheme"); !(sc.isConst() && sc.s == "") {
				ps = append(ps, sc, mkStr("://"))
			}
			ps = append(ps, f("Host"))
			if pp := parts(f("Path")); len(pp) > 0 && !(pp[0].isConst() && strings.HasPrefix(pp[0].s, "/")) {
				if h := f("Host"); !(h.isConst() && h.s == "") && !(len(pp) == 1 && pp[0].isConst() && pp[0].s == "") {
					ps = append(ps, mkStr("/"))
				}
			}
		} else if p := f("Path"); p.isConst() && p.s == "" {
			ps = append(ps, mkStr("/"))
		}
		ps = append(ps, path)
		if q := f("RawQuery"); !(q.isConst() && q.s == "") {
			ps = append(ps, mkStr("?"), q)
		}
		return mkConcat(ps...)
	})
	_ = types.Typ
}

// decodes says that a path is what its raw form stands for.
func (m *Machine) decodes(raw, path *Term) bool {
	var out []*Term
	for _, p := range parts(raw) {
		switch {
		case p.isConst():
			d, err := url.PathUnescape(p.s)
			if err != nil {
				return false
			}
			out = append(out, mkStr(d))
		case p.op == OApp && (p.s == "url_path" || p.s == "url_enc"):
			out = append(out, p.args[0])
		default:
			out = append(out, p)
		}
	}
	t := mkEq(mkConcat(out...), path)
	return t.isConst() && t.u != 0
}

// quote is the %q form of a string.
func (m *Machine) quote(s *Term) *Term {
	if s.isConst() {
		return mkStr(strconv.Quote(s.s))
	}
	if s.op == OVar && m.identVar(s) || s.op == OItoa || s.op == ORfc {
		return mkConcat(mkStr(`"`), s, mkStr(`"`))
	}
	return appText("txt_quote", s)
}
