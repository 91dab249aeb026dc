package main

// Symbolic terms: the scalar values of the interpreted program. Constants are folded on construction;
// everything else is printed as SMT-LIB 2 for z3.

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"
)

type Sort uint8

const (
	SBool Sort = iota
	SBV
	SFP // 64 bit floats (float32 values are kept as float64 values)
	SStr
	SInt // mathematical integers, only string lengths
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	// bit-vectors
	OAdd
	OSub
	OMul
	OSDiv
	OUDiv
	OSRem
	OURem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OBNot
	OSlt
	OSle
	OUlt
	OUle
	OZext
	OSext
	OTrunc
	// floats
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFEq
	OFLt
	OFLe
	OFRound // rounded to an integer, s: the rounding mode
	OFIsInt // integral and within int64
	OI2F    // signed 64 bit integer to float, exact by construction (|n| <= 2^53)
	OF2I
	// strings
	OConcat
	OStrLen // Int
	OStrLenBV
	OPrefix
	OSuffix
	OContains
	OSubstr // s, off(Int const), len(Int): rest after a constant prefix/suffix
	OLenCmp // sum of the lengths of the first w strings, plus u, s (<= or =), sum of the lengths of the rest
	OInRe   // membership in a fixed regular expression (name in sval)
	// uninterpreted text functions
	OItoa    // bv64 -> string (signed decimal)
	OUtoa    // bv64 -> string (unsigned decimal)
	OFtoa    // float -> string
	ORfc     // sec, nsec -> string; sval = "s" (RFC3339) or "n" (RFC3339Nano)
	OBlob    // opaque structured document (JSON or XML); printed as a string constant
	OApp     // uninterpreted string function; sval = name
	OStrLess // str.<
)

type Term struct {
	op   Op
	sort Sort
	w    int // bit width for SBV
	args []*Term
	u    uint64  // const bv / bool(0,1)
	f    float64 // const float
	s    string  // const string or name of var/function
	blob interface{}
	id   int // smt definition number, valid for gen
	gen  uint64
	key  string
}

func (t *Term) isConst() bool { return t.op == OConst }

var tTrue = &Term{op: OConst, sort: SBool, u: 1}
var tFalse = &Term{op: OConst, sort: SBool, u: 0}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

var smallBV [5][258]*Term

func wIdx(w int) int {
	switch w {
	case 8:
		return 0
	case 16:
		return 1
	case 32:
		return 2
	case 64:
		return 3
	}
	return 4
}

func init() {
	for _, w := range []int{8, 16, 32, 64} {
		for i := range smallBV[wIdx(w)] {
			smallBV[wIdx(w)][i] = &Term{op: OConst, sort: SBV, w: w, u: uint64(i) & mask(w)}
		}
	}
}

func mkBV(u uint64, w int) *Term {
	u &= mask(w)
	if u < 256 {
		if i := wIdx(w); i < 4 {
			return smallBV[i][u]
		}
	}
	return &Term{op: OConst, sort: SBV, w: w, u: u}
}
func mkInt(i int64) *Term  { return mkBV(uint64(i), 64) }
func mkFP(f float64) *Term { return &Term{op: OConst, sort: SFP, f: f} }
func mkStr(s string) *Term { return &Term{op: OConst, sort: SStr, s: s} }
func mkIntC(i int64) *Term { return &Term{op: OConst, sort: SInt, u: uint64(i)} }
func mkVar(name string, s Sort, w int) *Term {
	return &Term{op: OVar, sort: s, w: w, s: name}
}
func mkBlob(b interface{}) *Term { return &Term{op: OBlob, sort: SStr, blob: b} }

func (t *Term) sval() int64 { // signed value of constant bv
	if t.w >= 64 {
		return int64(t.u)
	}
	if t.u>>(uint(t.w)-1)&1 == 1 {
		return int64(t.u | ^mask(t.w))
	}
	return int64(t.u)
}

func same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != b.op || a.sort != b.sort || a.w != b.w || len(a.args) != len(b.args) || a.u != b.u || a.s != b.s {
		return false
	}
	if a.sort == SFP && a.op == OConst {
		return math.Float64bits(a.f) == math.Float64bits(b.f)
	}
	if a.op == OBlob {
		return a.blob == b.blob
	}
	for i := range a.args {
		if !same(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

func mkNot(a *Term) *Term {
	if a.isConst() {
		return mkBool(a.u == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return &Term{op: ONot, sort: SBool, args: []*Term{a}}
}

func mkAnd(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.isConst() {
			if a.u == 0 {
				return tFalse
			}
			continue
		}
		if a.op == OAnd {
			out = append(out, a.args...)
			continue
		}
		out = append(out, a)
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return &Term{op: OAnd, sort: SBool, args: out}
}

func mkOr(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.isConst() {
			if a.u == 1 {
				return tTrue
			}
			continue
		}
		out = append(out, a)
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return &Term{op: OOr, sort: SBool, args: out}
}

func mkIte(c, a, b *Term) *Term {
	if c.isConst() {
		if c.u == 1 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	return &Term{op: OIte, sort: a.sort, w: a.w, args: []*Term{c, a, b}}
}

// canonical decimal integer?
func canonInt(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil || strconv.FormatInt(n, 10) != s {
		return 0, false
	}
	return n, true
}

// nonEmptyText says that a string term can never be "".
func nonEmptyText(a *Term) bool {
	switch a.op {
	case OItoa, OUtoa, OFtoa, ORfc, OBlob:
		return true
	case OConst:
		return a.s != ""
	case OConcat:
		for _, x := range a.args {
			if nonEmptyText(x) {
				return true
			}
		}
	}
	return false
}

// mkEqRaw builds an equality without closing it by term identity, so that the solver decides it.
func mkEqRaw(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return mkEq(a, b)
	}
	if same(a, b) && a.op != OBlob {
		op := OEq
		if a.sort == SFP {
			op = OFEq
			return mkOr(mkNot(&Term{op: OFEq, sort: SBool, args: []*Term{a, a}}), &Term{op: op, sort: SBool, args: []*Term{a, b}})
		}
		return &Term{op: op, sort: SBool, args: []*Term{a, b}}
	}
	return mkEq(a, b)
}

func mkEq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(unsupported(fmt.Sprintf("comparing sorts %v %v", a.sort, b.sort)))
	}
	if a.sort == SFP {
		return mkFCmp(OFEq, a, b)
	}
	if same(a, b) {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		if a.sort == SStr {
			return mkBool(a.s == b.s)
		}
		return mkBool(a.u == b.u)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.sort == SBool && b.isConst() {
		if b.u == 1 {
			return a
		}
		return mkNot(a)
	}
	if a.sort == SStr && a.op == OApp && (a.s == "txt_lower" || a.s == "txt_upper") && b.isConst() {
		to := strings.ToLower
		if a.s == "txt_upper" {
			to = strings.ToUpper
		}
		if to(b.s) != b.s {
			return tFalse
		}
		return mkInRe(a.args[0], "fold:"+b.s)
	}
	if a.sort == SStr {
		if t := strEq(a, b); t != nil {
			return t
		}
	}
	if a.sort == SBV && a.w == 64 {
		if t := lenCmp(OEq, a, b); t != nil {
			return t
		}
	}
	if a.op == OIte && b.isConst() && a.args[1].isConst() && a.args[2].isConst() {
		return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
	}
	if (a.op == OZext || a.op == OSext) && b.isConst() {
		x := a.args[0]
		lo := mkBV(b.u, x.w)
		var back *Term
		if a.op == OZext {
			back = mkZext(lo, a.w)
		} else {
			back = mkSext(lo, a.w)
		}
		if back.u != b.u {
			return tFalse
		}
		return mkEq(x, lo)
	}
	return &Term{op: OEq, sort: SBool, args: []*Term{a, b}}
}

func parts(a *Term) []*Term {
	if a.op == OConcat {
		return a.args
	}
	if a.op == OConst && a.s == "" {
		return nil
	}
	return []*Term{a}
}

// strEq applies syntactic rules to equality of strings; nil means none applied.
func strEq(a, b *Term) *Term {
	if b.op == OConst && b.s == "" {
		if nonEmptyText(a) {
			return tFalse
		}
		if a.op == OConcat {
			cs := []*Term{}
			for _, x := range a.args {
				cs = append(cs, mkEq(x, b))
			}
			return mkAnd(cs...)
		}
		return nil
	}
	switch a.op {
	case OItoa:
		if b.op == OItoa {
			return mkEq(a.args[0], b.args[0])
		}
		if b.op == OConst {
			if n, ok := canonInt(b.s); ok {
				return mkEq(a.args[0], mkInt(n))
			}
			return tFalse
		}
	case ORfc:
		if b.op == ORfc && a.s == b.s {
			if a.s[0] == 's' {
				return mkEq(a.args[0], b.args[0])
			}
			return mkAnd(mkEq(a.args[0], b.args[0]), mkEq(a.args[1], b.args[1]))
		}
		if b.op == ORfc && a.s[1:] != b.s[1:] {
			return tFalse
		}
		if b.op == ORfc {
			if a.s[0] == 's' {
				a, b = b, a
			}
			return mkAnd(mkEq(a.args[0], b.args[0]), mkEq(a.args[1], mkInt(0)))
		}
		if b.op == OConst {
			t, err := time.Parse(time.RFC3339, b.s)
			if err != nil {
				return tFalse
			}
			if fmtRfc(a.s, t.Unix(), int64(t.Nanosecond())) != b.s {
				return tFalse
			}
			if a.s[0] == 's' {
				return mkEq(a.args[0], mkInt(t.Unix()))
			}
			return mkAnd(mkEq(a.args[0], mkInt(t.Unix())), mkEq(a.args[1], mkInt(int64(t.Nanosecond()))))
		}
	case OFtoa:
		if b.op == OFtoa {
			return mkFCmp(OFEq, a.args[0], b.args[0])
		}
	}
	// strip common constant prefixes and suffixes and identical parts
	pa, pb := append([]*Term{}, parts(a)...), append([]*Term{}, parts(b)...)
	changed := false
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if same(x, y) {
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if x.op == OConst && y.op == OConst {
			n := len(x.s)
			if len(y.s) < n {
				n = len(y.s)
			}
			if x.s[:n] != y.s[:n] {
				return tFalse
			}
			pa[0], pb[0] = mkStr(x.s[n:]), mkStr(y.s[n:])
			if pa[0].s == "" {
				pa = pa[1:]
			}
			if pb[0].s == "" {
				pb = pb[1:]
			}
			changed = true
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if same(x, y) {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		if x.op == OConst && y.op == OConst {
			n := len(x.s)
			if len(y.s) < n {
				n = len(y.s)
			}
			if x.s[len(x.s)-n:] != y.s[len(y.s)-n:] {
				return tFalse
			}
			pa[len(pa)-1], pb[len(pb)-1] = mkStr(x.s[:len(x.s)-n]), mkStr(y.s[:len(y.s)-n])
			if x.s[:len(x.s)-n] == "" {
				pa = pa[:len(pa)-1]
			}
			if y.s[:len(y.s)-n] == "" {
				pb = pb[:len(pb)-1]
			}
			changed = true
			continue
		}
		break
	}
	if changed {
		return mkEq(mkConcat(pa...), mkConcat(pb...))
	}
	return nil
}

func fmtRfc(mode string, sec, nsec int64) string {
	t := time.Unix(sec, nsec).UTC()
	if off := rfcOff(mode); off != 0 {
		t = t.In(time.FixedZone("", int(off)))
	}
	if mode[0] == 's' {
		return t.Format(time.RFC3339)
	}
	return t.Format(time.RFC3339Nano)
}

// rfcMode is the mode of rendered instants: "s" (seconds) or "n" (with fraction), and the zone's offset unless it is UTC.
func rfcMode(mode string, off int64) string {
	if off == 0 {
		return mode
	}
	return mode + strings.Replace(strconv.FormatInt(off, 10), "-", "m", 1)
}

func rfcOff(mode string) int64 {
	if len(mode) == 1 {
		return 0
	}
	n, _ := strconv.ParseInt(strings.Replace(mode[1:], "m", "-", 1), 10, 64)
	return n
}

// the zones of the symbolic instants
var zoneOffs = []int64{0, 7200, -34200}

func mkConcat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		for _, p := range parts(a) {
			if p.op == OConst && p.s == "" {
				continue
			}
			if p.op == OConst && len(out) > 0 && out[len(out)-1].op == OConst {
				out[len(out)-1] = mkStr(out[len(out)-1].s + p.s)
				continue
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return &Term{op: OConcat, sort: SStr, args: out}
}

func mkZext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkBV(a.u, w)
	}
	return &Term{op: OZext, sort: SBV, w: w, args: []*Term{a}}
}
func mkSext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkBV(uint64(a.sval()), w)
	}
	return &Term{op: OSext, sort: SBV, w: w, args: []*Term{a}}
}
func mkTrunc(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkBV(a.u, w)
	}
	if (a.op == OSext || a.op == OZext) && a.args[0].w == w {
		return a.args[0]
	}
	if (a.op == OSext || a.op == OZext) && a.args[0].w < w {
		if a.op == OSext {
			return mkSext(a.args[0], w)
		}
		return mkZext(a.args[0], w)
	}
	return &Term{op: OTrunc, sort: SBV, w: w, args: []*Term{a}}
}

// mkBin builds a bit-vector operation (wrapping arithmetic).
func mkBin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		x, y := a.u, b.u
		sx, sy := a.sval(), b.sval()
		switch op {
		case OAdd:
			return mkBV(x+y, w)
		case OSub:
			return mkBV(x-y, w)
		case OMul:
			return mkBV(x*y, w)
		case OSDiv:
			if sy == -1 {
				return mkBV(uint64(-sx), w)
			}
			return mkBV(uint64(sx/sy), w)
		case OUDiv:
			return mkBV(x/y, w)
		case OSRem:
			if sy == -1 {
				return mkBV(0, w)
			}
			return mkBV(uint64(sx%sy), w)
		case OURem:
			return mkBV(x%y, w)
		case OBAnd:
			return mkBV(x&y, w)
		case OBOr:
			return mkBV(x|y, w)
		case OBXor:
			return mkBV(x^y, w)
		case OShl:
			if y >= 64 {
				return mkBV(0, w)
			}
			return mkBV(x<<y, w)
		case OLshr:
			if y >= 64 {
				return mkBV(0, w)
			}
			return mkBV(x>>y, w)
		case OAshr:
			if y >= 64 {
				y = 63
			}
			return mkBV(uint64(sx>>y), w)
		case OSlt:
			return mkBool(sx < sy)
		case OSle:
			return mkBool(sx <= sy)
		case OUlt:
			return mkBool(x < y)
		case OUle:
			return mkBool(x <= y)
		}
	}
	switch op {
	case OAdd:
		if a.isConst() && a.u == 0 {
			return b
		}
		if b.isConst() && b.u == 0 {
			return a
		}
		if b.isConst() && a.op == OAdd && a.args[1].isConst() {
			return mkBin(OAdd, a.args[0], mkBV(a.args[1].u+b.u, w))
		}
		if a.isConst() {
			a, b = b, a
		}
	case OSub:
		if b.isConst() {
			return mkBin(OAdd, a, mkBV(-b.u, w))
		}
		if same(a, b) {
			return mkBV(0, w)
		}
		if a.op == OAdd && same(a.args[0], b) {
			return a.args[1]
		}
	case OMul:
		if b.isConst() && b.u == 1 {
			return a
		}
		if a.isConst() && a.u == 1 {
			return b
		}
	case OSlt, OUlt:
		if same(a, b) {
			return tFalse
		}
		// length terms stay in integer arithmetic
		if t := lenCmp(op, a, b); t != nil {
			return t
		}
	case OSle, OUle:
		if same(a, b) {
			return tTrue
		}
		if t := lenCmp(op, a, b); t != nil {
			return t
		}
	}
	s := SBV
	if op == OSlt || op == OSle || op == OUlt || op == OUle {
		s = SBool
		w = 0
	}
	return &Term{op: op, sort: s, w: w, args: []*Term{a, b}}
}

// linLen writes a sum of string lengths and constants as strings counted positively, strings counted negatively and a number.
func linLen(t *Term, sign int64, pos, neg *[]*Term, k *int64) bool {
	switch {
	case t.isConst():
		*k += sign * t.sval()
		return true
	case t.op == OStrLenBV:
		for _, p := range parts(t.args[0]) {
			if p.isConst() {
				*k += sign * int64(len(p.s))
				continue
			}
			with, against := pos, neg
			if sign < 0 {
				with, against = neg, pos
			}
			cancelled := false
			for i, q := range *against {
				if same(p, q) {
					*against = append(append([]*Term{}, (*against)[:i]...), (*against)[i+1:]...)
					cancelled = true
					break
				}
			}
			if !cancelled {
				*with = append(*with, p)
			}
		}
		return true
	case t.op == OAdd && t.w == 64:
		return linLen(t.args[0], sign, pos, neg, k) && linLen(t.args[1], sign, pos, neg, k)
	case t.op == OSub && t.w == 64:
		return linLen(t.args[0], sign, pos, neg, k) && linLen(t.args[1], -sign, pos, neg, k)
	}
	return false
}

// constDiff is a-b where that is a known number, sums being taken apart.
func constDiff(a, b *Term) (int64, bool) {
	var k int64
	type atom struct {
		t *Term
		n int
	}
	var atoms []atom
	var add func(t *Term, sign int)
	add = func(t *Term, sign int) {
		switch {
		case t.isConst():
			k += int64(sign) * t.sval()
		case t.op == OAdd:
			add(t.args[0], sign)
			add(t.args[1], sign)
		case t.op == OSub:
			add(t.args[0], sign)
			add(t.args[1], -sign)
		default:
			for i := range atoms {
				if same(atoms[i].t, t) {
					atoms[i].n += sign
					return
				}
			}
			atoms = append(atoms, atom{t, sign})
		}
	}
	if a.w != 64 || b.w != 64 {
		return 0, false
	}
	add(a, 1)
	add(b, -1)
	for _, x := range atoms {
		if x.n != 0 {
			return 0, false
		}
	}
	return k, true
}

// lenDiff is a-b where that is a known number.
func lenDiff(a, b *Term) (int64, bool) {
	var pos, neg []*Term
	var k int64
	if a.sort != SBV || a.w != 64 || !linLen(a, 1, &pos, &neg, &k) || !linLen(b, -1, &pos, &neg, &k) || len(pos)+len(neg) > 0 {
		return 0, false
	}
	return k, true
}

// lenCmp keeps comparisons of lengths in integer arithmetic: a op b for sums of string lengths and constants.
func lenCmp(op Op, a, b *Term) *Term {
	var pos, neg []*Term
	var k int64
	if a.sort != SBV || a.w != 64 || a.isConst() && b.isConst() || !linLen(a, 1, &pos, &neg, &k) || !linLen(b, -1, &pos, &neg, &k) {
		return nil
	}
	if len(pos)+len(neg) == 0 {
		switch op {
		case OSlt, OUlt:
			return mkBool(k < 0)
		case OEq:
			return mkBool(k == 0)
		}
		return mkBool(k <= 0)
	}
	rel := "<="
	switch op {
	case OSlt, OUlt:
		k++
	case OEq:
		rel = "="
	}
	// sum(pos) + k rel sum(neg)
	if len(neg) == 0 && rel == "<=" {
		if k > 0 {
			return tFalse
		}
		if k == 0 {
			return mkEq(mkConcat(pos...), mkStr(""))
		}
	}
	if len(pos) == 0 && rel == "<=" {
		if k <= 0 {
			return tTrue
		}
		if k == 1 {
			return mkNot(mkEq(mkConcat(neg...), mkStr("")))
		}
	}
	return &Term{op: OLenCmp, sort: SBool, args: append(append([]*Term{}, pos...), neg...), w: len(pos), u: uint64(k), s: rel}
}

func mkStrLen(s *Term) *Term {
	if s.isConst() {
		return mkInt(int64(len(s.s)))
	}
	if s.op == OConcat {
		var n int64
		var rest []*Term
		for _, p := range s.args {
			if p.isConst() {
				n += int64(len(p.s))
			} else {
				rest = append(rest, p)
			}
		}
		if n > 0 {
			return mkBin(OAdd, mkStrLen(mkConcat(rest...)), mkInt(n))
		}
	}
	return &Term{op: OStrLenBV, sort: SBV, w: 64, args: []*Term{s}}
}

func mkFBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		switch op {
		case OFAdd:
			return mkFP(a.f + b.f)
		case OFSub:
			return mkFP(a.f - b.f)
		case OFMul:
			return mkFP(a.f * b.f)
		case OFDiv:
			return mkFP(a.f / b.f)
		}
	}
	return &Term{op: op, sort: SFP, args: []*Term{a, b}}
}

func mkFCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		switch op {
		case OFEq:
			return mkBool(a.f == b.f)
		case OFLt:
			return mkBool(a.f < b.f)
		case OFLe:
			return mkBool(a.f <= b.f)
		}
	}
	isI := func(t *Term) (*Term, bool) {
		if t.op == OI2F {
			return t.args[0], true
		}
		if t.isConst() && t.f == math.Trunc(t.f) && math.Abs(t.f) < 1<<53 {
			return mkInt(int64(t.f)), true
		}
		return nil, false
	}
	if x, ok := isI(a); ok {
		if y, ok := isI(b); ok {
			switch op {
			case OFEq:
				return mkEq(x, y)
			case OFLt:
				return mkBin(OSlt, x, y)
			case OFLe:
				return mkBin(OSle, x, y)
			}
		}
		if b.isConst() && op == OFEq {
			return tFalse // comparing an integer with a non-integral constant
		}
	} else if a.isConst() && op == OFEq && b.op == OI2F {
		return tFalse
	}
	return &Term{op: op, sort: SBool, args: []*Term{a, b}}
}

func mkI2F(a *Term) *Term { // a: signed 64-bit
	if a.isConst() {
		return mkFP(float64(a.sval()))
	}
	return &Term{op: OI2F, sort: SFP, args: []*Term{a}}
}

func mkItoa(a *Term) *Term {
	if a.isConst() {
		return mkStr(strconv.FormatInt(a.sval(), 10))
	}
	return &Term{op: OItoa, sort: SStr, args: []*Term{a}}
}
func mkUtoa(a *Term) *Term {
	if a.isConst() {
		return mkStr(strconv.FormatUint(a.u, 10))
	}
	return &Term{op: OUtoa, sort: SStr, args: []*Term{a}}
}
func mkRfc(mode string, sec, nsec *Term) *Term {
	if sec.isConst() && nsec.isConst() {
		return mkStr(fmtRfc(mode, sec.sval(), nsec.sval()))
	}
	if mode[0] == 's' {
		return &Term{op: ORfc, sort: SStr, s: mode, args: []*Term{sec}}
	}
	return &Term{op: ORfc, sort: SStr, s: mode, args: []*Term{sec, nsec}}
}

var roundModes = map[string]func(float64) float64{"RNE": math.RoundToEven, "RNA": math.Round, "RTN": math.Floor, "RTP": math.Ceil, "RTZ": math.Trunc}

func mkFRound(mode string, f *Term) *Term {
	if f.isConst() {
		return mkFP(roundModes[mode](f.f))
	}
	if f.op == OI2F || f.op == OFRound {
		return f
	}
	return &Term{op: OFRound, sort: SFP, s: mode, args: []*Term{f}}
}

// mkFixed is f rounded to prec decimals.
func mkFixed(f *Term, prec int) *Term {
	if f.isConst() {
		x, _ := strconv.ParseFloat(strconv.FormatFloat(f.f, 'f', prec, 64), 64)
		return mkFP(x)
	}
	p := mkFP(math.Pow10(prec))
	return mkFBin(OFDiv, mkFRound("RNE", mkFBin(OFMul, f, p)), p)
}

func mkFtoa(f *Term) *Term {
	if f.isConst() {
		return mkStr(strconv.FormatFloat(f.f, 'g', -1, 64))
	}
	if f.op == OI2F {
		return mkItoa(f.args[0])
	}
	return &Term{op: OFtoa, sort: SStr, args: []*Term{f}}
}
func mkStrPred(op Op, s, x *Term) *Term { // OPrefix: x is a prefix of s
	if s.isConst() && x.isConst() {
		switch op {
		case OPrefix:
			return mkBool(strings.HasPrefix(s.s, x.s))
		case OSuffix:
			return mkBool(strings.HasSuffix(s.s, x.s))
		case OContains:
			return mkBool(strings.Contains(s.s, x.s))
		}
	}
	if x.isConst() && x.s == "" {
		return tTrue
	}
	if op == OPrefix && x.isConst() {
		ps := parts(s)
		if len(ps) > 0 && ps[0].isConst() {
			n := len(x.s)
			if len(ps[0].s) >= n {
				return mkBool(strings.HasPrefix(ps[0].s, x.s))
			}
			if !strings.HasPrefix(x.s, ps[0].s) {
				return tFalse
			}
			return mkStrPred(OPrefix, mkConcat(ps[1:]...), mkStr(x.s[len(ps[0].s):]))
		}
	}
	if op == OSuffix && x.isConst() {
		ps := parts(s)
		if len(ps) > 0 && ps[len(ps)-1].isConst() {
			l := ps[len(ps)-1].s
			if len(l) >= len(x.s) {
				return mkBool(strings.HasSuffix(l, x.s))
			}
		}
	}
	if op == OContains && x.isConst() {
		for _, p := range parts(s) {
			if p.isConst() && strings.Contains(p.s, x.s) {
				return tTrue
			}
		}
	}
	return &Term{op: op, sort: SBool, args: []*Term{s, x}}
}

func mkInRe(s *Term, name string) *Term {
	if s.isConst() {
		return mkBool(reGo[name].MatchString(s.s))
	}
	return &Term{op: OInRe, sort: SBool, args: []*Term{s}, s: name}
}

// hasBlob reports whether a structured document occurs in the term.
func hasBlob(t *Term) bool {
	if t.op == OBlob {
		return true
	}
	for _, a := range t.args {
		if hasBlob(a) {
			return true
		}
	}
	return false
}

// ---------- SMT-LIB printing ----------

func smtString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		if r == '"' {
			b.WriteString(`""`)
		} else if r >= 32 && r < 127 && r != '\\' {
			b.WriteRune(r)
		} else {
			fmt.Fprintf(&b, `\u{%x}`, r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func smtFP(f float64) string {
	u := math.Float64bits(f)
	return fmt.Sprintf("(fp #b%b #b%011b #b%052b)", u>>63, (u>>52)&0x7ff, u&(1<<52-1))
}

func sortName(t *Term) string {
	switch t.sort {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", t.w)
	case SFP:
		return "(_ FloatingPoint 11 53)"
	case SStr:
		return "String"
	}
	return "Int"
}

func smtIntC(v int64) string {
	if v < 0 {
		return fmt.Sprintf("(- %s)", new(big.Int).Neg(big.NewInt(v)).String())
	}
	return strconv.FormatInt(v, 10)
}

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OSDiv: "bvsdiv", OUDiv: "bvudiv", OSRem: "bvsrem", OURem: "bvurem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl",
	OLshr: "bvlshr", OAshr: "bvashr", OBNot: "bvnot", OSlt: "bvslt", OSle: "bvsle", OUlt: "bvult", OUle: "bvule",
	OFNeg: "fp.neg", OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OConcat: "str.++", OStrLess: "str.<",
	OItoa: "txt_itoa", OUtoa: "txt_utoa", OFtoa: "txt_ftoa"}

// expr prints one node given the printed arguments.
func (t *Term) expr(arg func(*Term) string) string {
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = arg(a)
	}
	j := strings.Join(as, " ")
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			if t.u == 1 {
				return "true"
			}
			return "false"
		case SBV:
			return fmt.Sprintf("(_ bv%d %d)", t.u, t.w)
		case SFP:
			return smtFP(t.f)
		case SStr:
			return smtString(t.s)
		case SInt:
			return smtIntC(int64(t.u))
		}
	case OVar:
		return "|" + t.s + "|"
	case OFAdd:
		return "(fp.add RNE " + j + ")"
	case OFSub:
		return "(fp.sub RNE " + j + ")"
	case OFMul:
		return "(fp.mul RNE " + j + ")"
	case OFDiv:
		return "(fp.div RNE " + j + ")"
	case OFRound:
		return "(fp.roundToIntegral " + t.s + " " + j + ")"
	case OFIsInt:
		return fmt.Sprintf("(and (not (fp.isNaN %s)) (not (fp.isInfinite %s)) (fp.eq %s (fp.roundToIntegral RNE %s)) (fp.lt (fp.abs %s) %s))",
			as[0], as[0], as[0], as[0], as[0], smtFP(1<<63))
	case OI2F:
		return "((_ to_fp 11 53) RNE " + j + ")"
	case OF2I:
		return "((_ fp.to_sbv 64) RTZ " + j + ")"
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, j)
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, j)
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, j)
	case OStrLen:
		return "(str.len " + j + ")"
	case OStrLenBV:
		return "((_ int2bv 64) (str.len " + j + "))"
	case OLenCmp:
		sum := func(ts []string, k int64) string {
			o := "(+ 0 " + smtIntC(k)
			for _, t := range ts {
				o += " (str.len " + t + ")"
			}
			return o + ")"
		}
		return "(" + t.s + " " + sum(as[:t.w], int64(t.u)) + " " + sum(as[t.w:], 0) + ")"
	case OPrefix:
		return fmt.Sprintf("(str.prefixof %s %s)", as[1], as[0])
	case OSuffix:
		return fmt.Sprintf("(str.suffixof %s %s)", as[1], as[0])
	case OContains:
		return "(str.contains " + j + ")"
	case OSubstr: // u = number of characters dropped at the front, w = at the back
		return fmt.Sprintf("(str.substr %s %d (- (str.len %s) %d))", as[0], t.u, as[0], int(t.u)+t.w)
	case OInRe:
		return fmt.Sprintf("(str.in_re %s %s)", as[0], reText(t.s))
	case ORfc:
		return "(txt_rfc_" + t.s + " " + j + ")"
	case OApp:
		return "(" + t.s + " " + j + ")"
	}
	n, ok := opName[t.op]
	if !ok {
		panic(fmt.Sprintf("no smt name for op %d", t.op))
	}
	return "(" + n + " " + j + ")"
}
