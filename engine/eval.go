package main

// Evaluation of terms under a solver model, for counterexamples and sample inputs.

import (
	"fmt"
	"math"
	"math/big"
	"net/url"
	"strconv"
	"strings"
	"time"
)

type evaluator struct {
	vals map[string]*Term
	m    *Machine
}

func parseModelFP(v string) float64 {
	v = strings.TrimSpace(v)
	switch {
	case strings.Contains(v, "NaN"):
		return math.NaN()
	case strings.Contains(v, "+oo"):
		return math.Inf(1)
	case strings.Contains(v, "-oo"):
		return math.Inf(-1)
	case strings.Contains(v, "+zero"):
		return 0
	case strings.Contains(v, "-zero"):
		return math.Copysign(0, -1)
	}
	f := strings.Fields(strings.Trim(v, "()"))
	if len(f) == 4 && f[0] == "fp" {
		s, e, mnt := parseModelBV(f[1]), parseModelBV(f[2]), parseModelBV(f[3])
		return math.Float64frombits(s<<63 | e<<52 | mnt)
	}
	return 0
}

func parseModelValue(t *Term, v string) *Term {
	switch t.sort {
	case SBool:
		return mkBool(strings.TrimSpace(v) == "true")
	case SBV:
		return mkBV(parseModelBV(v), t.w)
	case SFP:
		return mkFP(parseModelFP(v))
	case SStr:
		return mkStr(parseModelString(v))
	}
	n, _ := new(big.Int).SetString(strings.TrimSpace(v), 10)
	if n == nil {
		return mkIntC(0)
	}
	return mkIntC(n.Int64())
}

func defaultTerm(t *Term) *Term {
	switch t.sort {
	case SBool:
		return tFalse
	case SBV:
		return mkBV(0, t.w)
	case SFP:
		return mkFP(0)
	case SStr:
		return mkStr("")
	}
	return mkIntC(0)
}

func (e *evaluator) eval(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if t.op == OVar {
		if e.m != nil {
			if b, ok := e.m.bindings[t.s]; ok && b != nil {
				return e.eval(b)
			}
		}
		if v, ok := e.vals[t.s]; ok {
			return v
		}
		return defaultTerm(t)
	}
	if t.op == OBlob {
		switch n := t.blob.(type) {
		case *JNode:
			return mkStr(nodeText(n, e))
		case *XNode:
			return mkStr(xnodeText(n, e))
		}
		return mkStr("")
	}
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = e.eval(a)
	}
	switch t.op {
	case ONot:
		return mkNot(as[0])
	case OAnd:
		return mkAnd(as...)
	case OOr:
		return mkOr(as...)
	case OEq:
		return mkEq(as[0], as[1])
	case OIte:
		return mkIte(as[0], as[1], as[2])
	case OAdd, OSub, OMul, OSDiv, OUDiv, OSRem, OURem, OBAnd, OBOr, OBXor, OShl, OLshr, OAshr, OSlt, OSle, OUlt, OUle:
		if (t.op == OSDiv || t.op == OUDiv || t.op == OSRem || t.op == OURem) && as[1].u == 0 {
			return mkBV(0, t.w)
		}
		return mkBin(t.op, as[0], as[1])
	case OZext:
		return mkZext(as[0], t.w)
	case OSext:
		return mkSext(as[0], t.w)
	case OTrunc:
		return mkTrunc(as[0], t.w)
	case OI2F:
		return mkI2F(as[0])
	case OF2I:
		return mkInt(int64(as[0].f))
	case OFRound:
		return mkFRound(t.s, as[0])
	case OFIsInt:
		return mkBool(as[0].f == math.Trunc(as[0].f))
	case OFAdd, OFSub, OFMul, OFDiv:
		return mkFBin(t.op, as[0], as[1])
	case OFNeg:
		return mkFP(-as[0].f)
	case OFEq, OFLt, OFLe:
		return mkFCmp(t.op, as[0], as[1])
	case OConcat:
		return mkConcat(as...)
	case OStrLen:
		return mkIntC(int64(len(as[0].s)))
	case OStrLenBV:
		return mkStrLen(as[0])
	case OLenCmp:
		n := int64(t.u)
		for i, a := range as {
			if i < t.w {
				n += int64(len(a.s))
			} else {
				n -= int64(len(a.s))
			}
		}
		return mkBool(n == 0 || n < 0 && t.s == "<=")
	case OPrefix, OSuffix, OContains:
		return mkStrPred(t.op, as[0], as[1])
	case OSubstr:
		lo, hi := int(t.u), len(as[0].s)-t.w
		if lo > hi || lo > len(as[0].s) || hi < 0 {
			return mkStr("")
		}
		return mkStr(as[0].s[lo:hi])
	case OInRe:
		if strings.HasPrefix(t.s, "fold:") {
			return mkBool(strings.EqualFold(as[0].s, t.s[5:]))
		}
		return mkInRe(as[0], t.s)
	case OItoa:
		return mkStr(strconv.FormatInt(as[0].sval(), 10))
	case OUtoa:
		return mkStr(strconv.FormatUint(as[0].u, 10))
	case OFtoa:
		return mkStr(strconv.FormatFloat(as[0].f, 'g', -1, 64))
	case ORfc:
		var ns int64
		if len(as) > 1 {
			ns = as[1].sval()
		}
		return mkStr(fmtRfc(t.s, as[0].sval(), ns))
	case OApp:
		switch t.s {
		case "txt_upper":
			return mkStr(strings.ToUpper(as[0].s))
		case "txt_lower":
			return mkStr(strings.ToLower(as[0].s))
		case "txt_trim":
			return mkStr(strings.TrimSpace(as[0].s))
		case "txt_quote":
			return mkStr(strconv.Quote(as[0].s))
		case "url_path":
			return mkStr(url.PathEscape(as[0].s))
		case "url_query":
			return mkStr(url.QueryEscape(as[0].s))
		case "url_enc":
			return mkStr((&url.URL{Path: "/" + as[0].s}).EscapedPath()[1:])
		case "xml_esc":
			return mkStr(xmlEscConst(as[0].s))
		case "txt_g", "txt_f", "txt_e":
			f, _ := strconv.ParseFloat(as[0].s, 64)
			return mkStr(fmt.Sprintf("%"+t.s[4:], f))
		}
		return mkStr(as[0].s)
	case OStrLess:
		return mkBool(as[0].s < as[1].s)
	}
	return defaultTerm(t)
}

// assignment asks the solver for a model of the path and renders the inputs of the harness.
// elapsedKey is where an assignment has the virtual time the path took.
const elapsedKey = "@elapsed"

func (m *Machine) assignment(extra *Term) (SatResult, map[string]string) {
	seen := map[string]bool{}
	var want []*Term
	add := func(t *Term) {
		if !seen[t.s] {
			seen[t.s] = true
			want = append(want, t)
		}
	}
	for _, in := range m.inputs {
		for _, t := range []*Term{in.t, in.sec, in.nsec} {
			if t != nil {
				termVars(t, add)
			}
		}
		if in.node != nil {
			nodeVars(in.node, add)
		}
		if x, ok := in.xn.(*XNode); ok {
			xnodeVars(x, add)
		}
	}
	for _, b := range m.bindings {
		if b != nil {
			termVars(b, add)
		}
	}
	if m.now != nil {
		termVars(m.now, add)
	}
	// short runs are the easiest to replay
	var res SatResult
	var raw map[string]string
	short := false
	if m.now != nil && !m.now.isConst() {
		for _, limit := range []time.Duration{2 * time.Minute, 20 * time.Minute} {
			c := mkBin(OSle, m.now, mkInt(int64(limit)))
			if extra != nil {
				c = mkAnd(extra, c)
			}
			if res, raw = m.realModel(c, want); res == Sat {
				short = true
				break
			}
		}
	}
	if !short {
		res, raw = m.realModel(extra, want)
	}
	if res != Sat {
		return res, nil
	}
	ev := &evaluator{vals: map[string]*Term{}, m: m}
	for _, t := range want {
		if v, ok := raw[t.s]; ok {
			ev.vals[t.s] = parseModelValue(t, v)
		}
	}
	out := map[string]string{}
	if m.now != nil {
		out[elapsedKey] = fmt.Sprint(ev.eval(m.now).sval())
	}
	for _, in := range m.inputs {
		switch in.kind {
		case "json":
			out[in.name] = nodeText(in.node, ev)
		case "xml":
			out[in.name] = xnodeText(in.xn.(*XNode), ev)
		case "time":
			out[in.name] = fmtRfc(rfcMode("n", in.off), ev.eval(in.sec).sval(), ev.eval(in.nsec).sval())
		default:
			v := ev.eval(in.t)
			switch v.sort {
			case SBool:
				out[in.name] = fmt.Sprint(v.u == 1)
			case SBV:
				out[in.name] = strconv.FormatInt(v.sval(), 10)
			case SFP:
				out[in.name] = strconv.FormatFloat(v.f, 'g', -1, 64)
			default:
				out[in.name] = v.s
			}
		}
	}
	return Sat, out
}

// samples are texts that a text function is first tried on.
var samples = []string{"", "a", "Ab", "x9", "a b", " a ", "a  b", "\u00e9", "100%", "a/b", "\"q\"", "<&>", "a\nb", strings.Repeat("Ab ", 100) + "x"}

// realModel is a model in which the text functions that the solver does not know have their real values, if one is found.
func (m *Machine) realModel(extra *Term, want []*Term) (SatResult, map[string]string) {
	var apps []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.op == OApp && len(t.args) == 1 && t.args[0].sort == SStr && !hasBlob(t) {
			switch t.s {
			case "txt_upper", "txt_lower", "txt_trim", "txt_quote", "url_path", "url_query", "url_enc", "xml_esc":
				apps = append(apps, t)
			}
		}
	}
	for _, c := range m.pc {
		walk(c)
	}
	walk(extra)
	if len(apps) == 0 {
		return m.sol.model(extra, want)
	}
	all := func(cs []*Term) *Term {
		if extra != nil {
			cs = append([]*Term{extra}, cs...)
		}
		return mkAnd(cs...)
	}
	// the value of an application to a text; not simplified, as it is told to the solver
	fact := func(app *Term, arg string) *Term {
		f := (&evaluator{vals: map[string]*Term{}, m: m}).eval(&Term{op: OApp, sort: SStr, s: app.s, args: []*Term{mkStr(arg)}})
		return &Term{op: OEq, sort: SBool, args: []*Term{app, f}}
	}
	var some []*Term
	for _, app := range apps {
		var alt []*Term
		for _, x := range samples {
			alt = append(alt, mkAnd(mkEq(app.args[0], mkStr(x)), fact(app, x)))
		}
		some = append(some, mkOr(alt...))
	}
	if c := all(some); !c.isConst() || c.u == 1 {
		if res, raw := m.sol.model(c, want); res == Sat {
			return res, raw
		}
	}
	var vars []*Term
	known := map[string]bool{}
	for _, t := range append(append([]*Term{}, want...), apps...) {
		termVars(t, func(v *Term) {
			if !known[v.s] {
				known[v.s] = true
				vars = append(vars, v)
			}
		})
	}
	var facts []*Term
	for round := 0; ; round++ {
		res, raw := m.sol.model(all(facts), vars)
		if res != Sat || round == 6 {
			return res, raw
		}
		ev := &evaluator{vals: map[string]*Term{}, m: m}
		for _, t := range vars {
			if v, ok := raw[t.s]; ok {
				ev.vals[t.s] = parseModelValue(t, v)
			}
		}
		for _, app := range apps {
			x := ev.eval(app.args[0])
			if x.isConst() {
				facts = append(facts, mkOr(mkNot(mkEq(app.args[0], x)), fact(app, x.s)))
			}
		}
	}
}
