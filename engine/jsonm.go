package main

// Model of encoding/json over document trees. The text layer (scanning, quoting, number formatting) is abstracted: a
// document is a tree whose leaves are terms, and a text is a rope of constant text and opaque documents. The value layer
// (struct fields, tags, case folding, Marshaler/Unmarshaler calls, null handling, type errors) follows encoding/json.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"io"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type jkind int

const (
	jLazy jkind = iota
	jNull
	jBool
	jNum
	jStr
	jArr
	jObj
	jBad // text that is not JSON
)

var jkindName = []string{"lazy", "null", "bool", "number", "string", "array", "object", "bad"}

type JNode struct {
	kind  jkind
	name  string // of a symbolic document
	kv    *Term
	depth int
	width int
	b     *Term
	num   *Term // SFP
	s     *Term
	elems []*JNode
	keys  []*Term
}

func jString(s *Term) *JNode { return &JNode{kind: jStr, s: s} }

// lazyNode makes an arbitrary JSON value.
func (m *Machine) lazyNode(name string, depth, width int) *JNode {
	return &JNode{kind: jLazy, name: name, depth: depth, width: width}
}

const maxExact = 1 << 53

// resolve decides the kind of a symbolic value, forking.
func (m *Machine) resolve(fr *Frame, n *JNode) {
	if n.kind != jLazy {
		return
	}
	if n.kv == nil {
		n.kv = mkVar(n.name+"~kind", SBV, 8)
		hi := uint64(4)
		if n.depth > 0 {
			hi = 6
		}
		m.assume(mkAnd(mkBin(OUle, mkBV(1, 8), n.kv), mkBin(OUle, n.kv, mkBV(hi, 8))))
	}
	order := []jkind{jObj, jArr, jStr, jNum, jBool}
	for _, k := range order {
		if n.depth == 0 && (k == jObj || k == jArr) {
			continue
		}
		if m.branch(mkEq(n.kv, mkBV(uint64(k), 8))) {
			m.become(fr, n, k)
			return
		}
	}
	m.become(fr, n, jNull)
}

// isKind asks only whether the value has the given kind.
func (m *Machine) isKind(fr *Frame, n *JNode, k jkind) bool {
	if n.kind != jLazy {
		return n.kind == k
	}
	if n.depth == 0 && (k == jObj || k == jArr) {
		return false
	}
	if n.kv == nil {
		n.kv = mkVar(n.name+"~kind", SBV, 8)
		hi := uint64(4)
		if n.depth > 0 {
			hi = 6
		}
		m.assume(mkAnd(mkBin(OUle, mkBV(1, 8), n.kv), mkBin(OUle, n.kv, mkBV(hi, 8))))
	}
	if m.branch(mkEq(n.kv, mkBV(uint64(k), 8))) {
		m.become(fr, n, k)
		return true
	}
	return false
}

func (m *Machine) become(fr *Frame, n *JNode, k jkind) {
	n.kind = k
	switch k {
	case jBool:
		n.b = mkVar(n.name+"~b", SBool, 0)
	case jStr:
		n.s = mkVar(n.name+"~s", SStr, 0)
		m.assume(mkInRe(n.s, "xmllegal"))
	case jNum:
		ii := mkVar(n.name+"~isint", SBool, 0)
		if m.branch(ii) {
			v := mkVar(n.name+"~i", SBV, 64)
			m.assume(mkAnd(mkBin(OSle, mkInt(-maxExact), v), mkBin(OSle, v, mkInt(maxExact))))
			n.num = mkI2F(v)
		} else {
			v := mkVar(n.name+"~f", SFP, 0)
			// a number with a fraction, of moderate size
			m.assume(mkAnd(mkBin2(OFLe, mkFP(-1e9), v), mkBin2(OFLe, v, mkFP(1e9)), mkNot(&Term{op: OFIsInt, sort: SBool, args: []*Term{v}})))
			n.num = v
		}
	case jArr:
		c := m.lazyCount(n)
		for i := 0; i < c; i++ {
			n.elems = append(n.elems, m.lazyNode(fmt.Sprintf("%s[%d]", n.name, i), n.depth-1, n.width))
		}
	case jObj:
		c := m.lazyCount(n)
		for i := 0; i < c; i++ {
			k := mkVar(fmt.Sprintf("%s~key%d", n.name, i), SStr, 0)
			m.assume(mkInRe(k, "name"))
			for _, o := range n.keys {
				m.assume(mkNot(mkEq(o, k)))
			}
			n.keys = append(n.keys, k)
			n.elems = append(n.elems, m.lazyNode(fmt.Sprintf("%s.%d", n.name, i), n.depth-1, n.width))
		}
	}
}

func mkBin2(op Op, a, b *Term) *Term { return &Term{op: op, sort: SBool, args: []*Term{a, b}} }

func (m *Machine) lazyCount(n *JNode) int {
	cv := mkVar(n.name+"~len", SBV, 8)
	m.assume(mkBin(OUle, cv, mkBV(uint64(n.width), 8)))
	for i := 0; i < n.width; i++ {
		if m.branch(mkEq(cv, mkBV(uint64(i), 8))) {
			return i
		}
	}
	return n.width
}

// nodeVars lists the variables a symbolic document depends on.
func nodeVars(n *JNode, f func(*Term)) {
	if n == nil {
		return
	}
	for _, t := range []*Term{n.kv, n.b, n.num, n.s} {
		if t != nil {
			termVars(t, f)
		}
	}
	for _, k := range n.keys {
		termVars(k, f)
	}
	for _, e := range n.elems {
		nodeVars(e, f)
	}
}

func termVars(t *Term, f func(*Term)) {
	if t.op == OVar {
		f(t)
	}
	if t.op == OBlob {
		if n, ok := t.blob.(*JNode); ok {
			nodeVars(n, f)
		}
		if n, ok := t.blob.(*XNode); ok {
			xnodeVars(n, f)
		}
	}
	for _, a := range t.args {
		termVars(a, f)
	}
}

// nodeToGo evaluates a document under a model.
func nodeToGo(n *JNode, ev *evaluator) interface{} {
	switch n.kind {
	case jBool:
		return ev.eval(n.b).u == 1
	case jNum:
		if n.num.op == OI2F {
			return json.Number(strconv.FormatInt(ev.eval(n.num.args[0]).sval(), 10))
		}
		f := ev.eval(n.num).f
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return json.Number("0.5")
		}
		b, _ := json.Marshal(f)
		return json.Number(string(b))
	case jStr:
		return ev.eval(n.s).s
	case jArr:
		r := []interface{}{}
		for _, e := range n.elems {
			r = append(r, nodeToGo(e, ev))
		}
		return r
	case jObj:
		r := orderedObj{}
		for i, e := range n.elems {
			r = append(r, orderedField{ev.eval(n.keys[i]).s, nodeToGo(e, ev)})
		}
		return r
	case jBad:
		return badJSON{}
	}
	return nil
}

type badJSON struct{}

func (badJSON) MarshalJSON() ([]byte, error) { return nil, fmt.Errorf("not JSON") }

type orderedField struct {
	k string
	v interface{}
}
type orderedObj []orderedField

func (o orderedObj) MarshalJSON() ([]byte, error) {
	var b bytes.Buffer
	b.WriteByte('{')
	for i, f := range o {
		if i > 0 {
			b.WriteByte(',')
		}
		k, _ := json.Marshal(f.k)
		b.Write(k)
		b.WriteByte(':')
		v, err := json.Marshal(f.v)
		if err != nil {
			return nil, err
		}
		b.Write(v)
	}
	b.WriteByte('}')
	return b.Bytes(), nil
}

func nodeText(n *JNode, ev *evaluator) string {
	if n.kind == jBad {
		return "x{[ not json"
	}
	b, err := json.Marshal(nodeToGo(n, ev))
	if err != nil {
		return "x{[ not json"
	}
	return string(b)
}

// constNode says that no symbolic leaf occurs.
func constNode(n *JNode) bool {
	if n.kind == jLazy || n.kind == jBad {
		return false
	}
	for _, t := range []*Term{n.b, n.num, n.s} {
		if t != nil && !t.isConst() {
			return false
		}
	}
	for _, k := range n.keys {
		if !k.isConst() {
			return false
		}
	}
	for _, e := range n.elems {
		if !constNode(e) {
			return false
		}
	}
	return true
}

// docText is the text of a document: real text when it is concrete, an opaque document otherwise.
func docText(n *JNode) *Term {
	if constNode(n) {
		return mkStr(nodeText(n, &evaluator{}))
	}
	return mkBlob(n)
}

// ---- parsing ----

const phStr = "\u27e6S%d\u27e7"

// parseJSON reads a JSON text. The error text is empty on success.
func (m *Machine) parseJSON(fr *Frame, t *Term) (*JNode, string) {
	ps := parts(t)
	if len(ps) == 1 && ps[0].op == OBlob {
		n, ok := ps[0].blob.(*JNode)
		if !ok || n.kind == jBad {
			return nil, "invalid character 'x' looking for beginning of value"
		}
		return n, ""
	}
	if len(ps) == 1 && ps[0].op == OVar {
		return m.varJSON(fr, ps[0])
	}
	if len(ps) == 1 && ps[0].op == OItoa {
		return &JNode{kind: jNum, num: mkI2F(ps[0].args[0])}, ""
	}
	if len(ps) == 1 && ps[0].op == OFtoa {
		return &JNode{kind: jNum, num: ps[0].args[0]}, ""
	}
	// substitute placeholders for the symbolic parts
	var b strings.Builder
	inStr, esc := false, false
	var subs []*Term
	for _, p := range ps {
		if p.isConst() {
			for i := 0; i < len(p.s); i++ {
				c := p.s[i]
				if inStr {
					if esc {
						esc = false
					} else if c == '\\' {
						esc = true
					} else if c == '"' {
						inStr = false
					}
				} else if c == '"' {
					inStr = true
				}
			}
			b.WriteString(p.s)
			continue
		}
		ph := fmt.Sprintf(phStr, len(subs))
		if inStr {
			if p.op == OBlob {
				if n, ok := p.blob.(*JNode); ok && n.kind == jStr {
					panic(unsupported("quoted document inside a JSON string"))
				}
				panic(unsupported("document inside a JSON string"))
			}
			switch p.op {
			case OItoa, OUtoa, OFtoa, ORfc:
			default:
				if !m.branch(mkInRe(p, "jsonplain")) {
					return nil, "invalid character in string literal"
				}
			}
			b.WriteString(ph)
		} else {
			b.WriteString(`"` + ph + `"`)
		}
		subs = append(subs, p)
	}
	n, err := parseConstJSON(b.String())
	if err != "" {
		return nil, err
	}
	if len(subs) > 0 {
		n, err = m.substNode(fr, n, subs)
	}
	return n, err
}

func (m *Machine) varJSON(fr *Frame, v *Term) (*JNode, string) {
	key := "json:" + v.s
	if n, ok := m.natives[key]; ok {
		if n == nil {
			return nil, "invalid character 'x' looking for beginning of value"
		}
		return n.(*JNode), ""
	}
	if b, ok := m.bindings[v.s]; ok {
		if b != nil && b.op == OBlob {
			return b.blob.(*JNode), ""
		}
		return nil, "invalid character looking for beginning of value"
	}
	isJ := mkVar(v.s+"~isjson", SBool, 0)
	if m.branch(isJ) {
		n := m.lazyNode(v.s+"~doc", 1, 1)
		m.bindings[v.s] = mkBlob(n)
		m.natives[key] = n
		return n, ""
	}
	m.assume(mkStrPred(OPrefix, v, mkStr("x")))
	m.natives[key] = nil
	return nil, "invalid character 'x' looking for beginning of value"
}

func splitPlaceholders(s string, subs []*Term) *Term {
	var out []*Term
	for {
		i := strings.Index(s, "\u27e6S")
		if i < 0 {
			break
		}
		j := strings.Index(s[i:], "\u27e7")
		if j < 0 {
			break
		}
		k, err := strconv.Atoi(s[i+len("\u27e6S") : i+j])
		if err != nil || k >= len(subs) {
			break
		}
		out = append(out, mkStr(s[:i]), subs[k])
		s = s[i+j+len("\u27e7"):]
	}
	out = append(out, mkStr(s))
	return mkConcat(out...)
}

func (m *Machine) substNode(fr *Frame, n *JNode, subs []*Term) (*JNode, string) {
	switch n.kind {
	case jStr:
		s := n.s.s
		if strings.HasPrefix(s, "\u27e6S") && strings.HasSuffix(s, "\u27e7") && strings.Count(s, "\u27e6") == 1 {
			k, err := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(s, "\u27e6S"), "\u27e7"))
			if err == nil && k < len(subs) {
				p := subs[k]
				switch p.op {
				case OBlob:
					x, ok := p.blob.(*JNode)
					if !ok || x.kind == jBad {
						return nil, "invalid character 'x' looking for beginning of value"
					}
					return x, ""
				case OItoa:
					return &JNode{kind: jNum, num: mkI2F(p.args[0])}, ""
				case OFtoa:
					return &JNode{kind: jNum, num: p.args[0]}, ""
				}
			}
		}
		return jString(splitPlaceholders(s, subs)), ""
	case jArr, jObj:
		c := &JNode{kind: n.kind}
		for i, e := range n.elems {
			x, err := m.substNode(fr, e, subs)
			if err != "" {
				return nil, err
			}
			c.elems = append(c.elems, x)
			if n.kind == jObj {
				c.keys = append(c.keys, splitPlaceholders(n.keys[i].s, subs))
			}
		}
		return c, ""
	}
	return n, ""
}

func parseConstJSON(s string) (*JNode, string) {
	var raw json.RawMessage
	if err := json.Unmarshal([]byte(s), &raw); err != nil {
		return nil, err.Error()
	}
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	n, err := parseTok(d)
	if err != nil {
		return nil, err.Error()
	}
	return n, ""
}

func parseTok(d *json.Decoder) (*JNode, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case nil:
		return &JNode{kind: jNull}, nil
	case bool:
		return &JNode{kind: jBool, b: mkBool(x)}, nil
	case string:
		return jString(mkStr(x)), nil
	case json.Number:
		f, err := strconv.ParseFloat(string(x), 64)
		if err != nil {
			return nil, err
		}
		return &JNode{kind: jNum, num: mkFP(f)}, nil
	case json.Delim:
		n := &JNode{kind: jArr}
		if x == '{' {
			n.kind = jObj
		}
		for d.More() {
			if x == '{' {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				n.keys = append(n.keys, mkStr(k.(string)))
			}
			e, err := parseTok(d)
			if err != nil {
				return nil, err
			}
			n.elems = append(n.elems, e)
		}
		_, err := d.Token()
		if err == io.EOF {
			err = nil
		}
		return n, err
	}
	return nil, fmt.Errorf("token %v", t)
}

// ---- struct fields ----

type jfield struct {
	name      string
	idx       []int
	omitEmpty bool
	omitZero  bool
	quoted    bool
	tagged    bool
	t         types.Type
}

var jfieldCache sync.Map

func isValidTagName(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) {
			continue
		}
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 128) {
			return false
		}
	}
	return true
}

func jsonFields(t types.Type) []jfield {
	if v, ok := jfieldCache.Load(t); ok {
		return v.([]jfield)
	}
	type lvl struct {
		t   types.Type
		idx []int
	}
	cur := []lvl{}
	next := []lvl{{t, nil}}
	visited := map[string]bool{}
	var all []jfield
	for len(next) > 0 {
		cur, next = next, nil
		for _, l := range cur {
			k := types.TypeString(l.t, nil)
			if visited[k] {
				continue
			}
			visited[k] = true
			st := l.t.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if f.Embedded() {
					ft := f.Type()
					if p, ok := ft.Underlying().(*types.Pointer); ok {
						ft = p.Elem()
					}
					if !f.Exported() {
						if _, ok := ft.Underlying().(*types.Struct); !ok {
							continue
						}
					}
				} else if !f.Exported() {
					continue
				}
				tag := reflect.StructTag(st.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				name, opts := tag, ""
				if j := strings.IndexByte(tag, ','); j >= 0 {
					name, opts = tag[:j], tag[j+1:]
				}
				if !isValidTagName(name) {
					name = ""
				}
				idx := append(append([]int(nil), l.idx...), i)
				ft := f.Type()
				if _, named := types.Unalias(ft).(*types.Named); !named {
					if p, ok := ft.(*types.Pointer); ok {
						ft = p.Elem()
					}
				}
				_, isStruct := ft.Underlying().(*types.Struct)
				if name != "" || !f.Embedded() || !isStruct {
					jf := jfield{name: name, idx: idx, tagged: name != "", t: f.Type()}
					if name == "" {
						jf.name = f.Name()
					}
					for _, o := range strings.Split(opts, ",") {
						switch o {
						case "omitempty":
							jf.omitEmpty = true
						case "omitzero":
							jf.omitZero = true
						case "string":
							switch kindOf(ft) {
							case kBool, kInt, kUint, kFloat, kString:
								jf.quoted = true
							}
						}
					}
					all = append(all, jf)
					continue
				}
				next = append(next, lvl{ft, idx})
			}
		}
	}
	// dominance
	byName := map[string][]jfield{}
	for _, f := range all {
		byName[f.name] = append(byName[f.name], f)
	}
	var out []jfield
	for _, fs := range byName {
		sort.SliceStable(fs, func(i, j int) bool {
			if len(fs[i].idx) != len(fs[j].idx) {
				return len(fs[i].idx) < len(fs[j].idx)
			}
			return fs[i].tagged && !fs[j].tagged
		})
		if len(fs) > 1 && len(fs[0].idx) == len(fs[1].idx) && fs[0].tagged == fs[1].tagged {
			continue
		}
		out = append(out, fs[0])
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i].idx, out[j].idx
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	jfieldCache.Store(t, out)
	return out
}

// ---- decoding ----

type jdec struct {
	m         *Machine
	fr        *Frame
	saved     Value // first recoverable error
	useNumber bool
	strict    bool
}

type jabort struct{ err Value }

func (d *jdec) typeErr(value string, t types.Type) {
	if d.saved == nil {
		d.saved = d.m.errOf(d.m.ex.typ("encoding/json.UnmarshalTypeError"), "json: cannot unmarshal "+value+" into Go value of type "+typeStr(t), func(c *Cell, st types.Type) {
			fieldByName(c, st, "Value").v = mkStr(value)
			fieldByName(c, st, "Type").v = d.m.typeIface(t)
		})
	}
}

// jsonUnmarshal is json.Unmarshal; it returns an error value.
func (m *Machine) jsonUnmarshal(fr *Frame, text *Term, target Value) Value {
	n, es := m.parseJSON(fr, text)
	if es != "" {
		return m.syntaxError(es)
	}
	return m.jsonDecode(fr, n, target, false, false)
}

func (m *Machine) syntaxError(es string) Value {
	return m.errOf(m.ex.typ("encoding/json.SyntaxError"), es, func(c *Cell, st types.Type) { fieldByName(c, st, "msg").v = mkStr(es) })
}

// errOf makes an error of the given struct type (behind a pointer), or a plain error if the type is not loaded.
func (m *Machine) errOf(t types.Type, msg string, fill func(c *Cell, st types.Type)) Value {
	if t == nil {
		return m.newError(msg)
	}
	c := &Cell{v: zero(t)}
	fill(c, t)
	return Iface{t: types.NewPointer(t), v: c}
}

func (m *Machine) jsonDecode(fr *Frame, n *JNode, target Value, strict, useNumber bool) (res Value) {
	i := m.force(fr, target)
	c, isPtr := i.v.(*Cell)
	if i.t == nil || kindOf(i.t) != kPtr || !isPtr || c == nil {
		msg := "json: Unmarshal(nil)"
		if i.t != nil {
			msg = "json: Unmarshal(non-pointer " + typeStr(i.t) + ")"
			if kindOf(i.t) == kPtr {
				msg = "json: Unmarshal(nil " + typeStr(i.t) + ")"
			}
		}
		return m.newError(msg)
	}
	d := &jdec{m: m, fr: fr, strict: strict, useNumber: useNumber}
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(jabort); ok {
				res = a.err
				return
			}
			panic(r)
		}
	}()
	d.value(n, &RV{t: i.t, v: c})
	if d.saved != nil {
		return d.saved
	}
	return Iface{}
}

func addrOf(r *RV) *RV { return &RV{t: types.NewPointer(r.t), v: r.cell} }

// indirect follows pointers down to the value to set, or to an Unmarshaler.
func (d *jdec) indirect(v *RV, null bool) (unm *RV, text *RV, out *RV) {
	m := d.m
	v0 := v
	haveAddr := false
	if _, named := types.Unalias(v.t).(*types.Named); named && v.kind() != kPtr && v.cell != nil {
		haveAddr = true
		v = addrOf(v)
	}
	for {
		if v.kind() == kIface && !v.isNil() {
			if _, lazy := v.get().(*LazyIface); !lazy {
				e := m.rvElem(d.fr, v)
				if e.kind() == kPtr && !e.isNil() && (!null || kindOf(elemType(e.t)) == kPtr) {
					haveAddr = false
					v = e
					continue
				}
			}
		}
		if v.kind() != kPtr {
			break
		}
		if null && v.cell != nil {
			break
		}
		if v.isNil() {
			v.set(&Cell{v: zero(elemType(v.t))})
		}
		if isTimeType(elemType(v.t)) {
			return v, nil, nil
		}
		if m.hasMethod(v.t, "UnmarshalJSON", 1, 1) {
			return v, nil, nil
		}
		if !null && m.hasMethod(v.t, "UnmarshalText", 1, 1) {
			return nil, v, nil
		}
		if haveAddr {
			v = v0
			haveAddr = false
		} else {
			v = m.rvElem(d.fr, v)
		}
	}
	return nil, nil, v
}

func (d *jdec) value(n *JNode, v *RV) {
	m, fr := d.m, d.fr
	null := false
	if n.kind == jLazy {
		// a plain interface{} keeps the value lazy
		if v.cell != nil && v.kind() == kIface {
			if it, ok := v.t.Underlying().(*types.Interface); ok && it.NumMethods() == 0 && v.isNil() {
				v.cell.v = &LazyIface{n: n}
				return
			}
		}
		if v.t != nil && v.kind() == kPtr && v.cell == nil && !v.isNil() {
			if e := m.rvElem(fr, v); e.kind() == kIface && e.isNil() {
				if it := e.t.Underlying().(*types.Interface); it.NumMethods() == 0 {
					e.cell.v = &LazyIface{n: n}
					return
				}
			}
		}
		// RawMessage and other Unmarshalers need no kind except null
		null = m.isKind(fr, n, jNull)
	} else {
		null = n.kind == jNull
	}
	unm, text, pv := d.indirect(v, null)
	if unm != nil {
		var err Value
		if isTimeType(elemType(unm.t)) {
			err = d.timeValue(n, unm)
		} else {
			err = m.callMethod(fr, unm.t, unm.get(), "UnmarshalJSON", strToBytes(docText(n)))
		}
		if i, ok := err.(Iface); !ok || i.t != nil {
			panic(jabort{err})
		}
		return
	}
	if text != nil {
		if !m.isKind(fr, n, jStr) {
			m.resolve(fr, n)
			d.typeErr(jkindName[n.kind], text.t)
			return
		}
		err := m.callMethod(fr, text.t, text.get(), "UnmarshalText", strToBytes(n.s))
		if i, ok := err.(Iface); !ok || i.t != nil {
			panic(jabort{err})
		}
		return
	}
	v = pv
	if null {
		switch v.kind() {
		case kIface, kPtr, kMap, kSlice:
			v.set(zero(v.t))
		}
		return
	}
	switch v.kind() {
	case kIface:
		it := v.t.Underlying().(*types.Interface)
		if it.NumMethods() == 0 {
			v.cell.v = d.anyValue(n)
			return
		}
		m.resolve(fr, n)
		d.typeErr(jkindName[n.kind], v.t)
	case kString:
		if m.isKind(fr, n, jStr) {
			if typeName(v.t) == "encoding/json.Number" {
				panic(unsupported("json.Number"))
			}
			v.set(n.s)
			return
		}
		m.resolve(fr, n)
		if n.kind == jNum && typeName(v.t) == "encoding/json.Number" {
			v.set(mkFtoa(n.num))
			return
		}
		d.typeErr(jkindName[n.kind], v.t)
	case kBool:
		if m.isKind(fr, n, jBool) {
			v.set(n.b)
			return
		}
		m.resolve(fr, n)
		d.typeErr(jkindName[n.kind], v.t)
	case kInt, kUint:
		if !m.isKind(fr, n, jNum) {
			m.resolve(fr, n)
			d.typeErr(jkindName[n.kind], v.t)
			return
		}
		w, signed := basicWidth(v.t.Underlying().(*types.Basic))
		i64, ok := m.intOf(n.num)
		if !ok {
			d.typeErr("number "+showTerm(n.num), v.t)
			return
		}
		if signed {
			if w < 64 {
				lo, hi := mkInt(-(int64(1) << uint(w-1))), mkInt(int64(1)<<uint(w-1)-1)
				if !m.branch(mkAnd(mkBin(OSle, lo, i64), mkBin(OSle, i64, hi))) {
					d.typeErr("number", v.t)
					return
				}
			}
		} else {
			c := mkBin(OSle, mkInt(0), i64)
			if w < 64 {
				c = mkAnd(c, mkBin(OSle, i64, mkInt(int64(1)<<uint(w)-1)))
			}
			if !m.branch(c) {
				d.typeErr("number", v.t)
				return
			}
		}
		v.set(mkTrunc(i64, w))
	case kFloat:
		if m.isKind(fr, n, jNum) {
			if v.t.Underlying().(*types.Basic).Kind() == types.Float32 {
				if !n.num.isConst() && n.num.op != OVar {
					if n.num.op == OI2F {
						panic(unsupported("float32 from a symbolic integer"))
					}
				}
				if n.num.isConst() {
					v.set(mkFP(float64(float32(n.num.f))))
					return
				}
			}
			v.set(n.num)
			return
		}
		m.resolve(fr, n)
		d.typeErr(jkindName[n.kind], v.t)
	case kStruct:
		if !m.isKind(fr, n, jObj) {
			m.resolve(fr, n)
			d.typeErr(jkindName[n.kind], v.t)
			return
		}
		d.object(n, v)
	case kMap:
		if !m.isKind(fr, n, jObj) {
			m.resolve(fr, n)
			d.typeErr(jkindName[n.kind], v.t)
			return
		}
		mt := v.t.Underlying().(*types.Map)
		mp, _ := v.get().(*MapV)
		if mp == nil {
			mp = newMap(v.t)
			v.set(mp)
		}
		for i, k := range n.keys {
			e := &Cell{v: zero(mt.Elem())}
			d.value(n.elems[i], rvCell(mt.Elem(), e))
			if kindOf(mt.Key()) != kString {
				panic(unsupported("JSON map key type"))
			}
			m.mapSet(fr, mp, k, e.v)
		}
	case kSlice:
		el := elemType(v.t)
		if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if m.isKind(fr, n, jStr) {
				panic(unsupported("base64 bytes from JSON"))
			}
		}
		if !m.isKind(fr, n, jArr) {
			m.resolve(fr, n)
			d.typeErr(jkindName[n.kind], v.t)
			return
		}
		old, _ := v.get().(Slice)
		c := make([]Cell, len(n.elems))
		for i := range c {
			if i < len(old.c) {
				c[i].v = copyVal(old.c[i].v)
			} else {
				c[i].v = zero(el)
			}
			d.value(n.elems[i], rvCell(el, &c[i]))
		}
		v.set(Slice{c: c})
	case kArray:
		if !m.isKind(fr, n, jArr) {
			m.resolve(fr, n)
			d.typeErr(jkindName[n.kind], v.t)
			return
		}
		a := v.get().(*Array)
		for i := range a.e {
			if i < len(n.elems) {
				d.value(n.elems[i], rvCell(elemType(v.t), &a.e[i]))
			} else {
				storeVal(&a.e[i], zero(elemType(v.t)))
			}
		}
	default:
		m.resolve(fr, n)
		d.typeErr(jkindName[n.kind], v.t)
	}
}

func (d *jdec) timeValue(n *JNode, unm *RV) Value {
	m := d.m
	if m.isKind(d.fr, n, jNull) {
		return Iface{}
	}
	if !m.isKind(d.fr, n, jStr) {
		return m.newError("Time.UnmarshalJSON: input is not a JSON string")
	}
	t, ok := m.parseTime(d.fr, "2006-01-02T15:04:05Z07:00", n.s)
	if !ok {
		return m.newErrorT(mkConcat(mkStr("parsing time \""), n.s, mkStr("\" as RFC 3339: cannot parse")))
	}
	unm.get().(*Cell).v = t
	return Iface{}
}

// intOf returns the integer value of a number, forking when the kind is unknown.
func (m *Machine) intOf(num *Term) (*Term, bool) {
	if num.op == OI2F {
		return num.args[0], true
	}
	if num.isConst() {
		if num.f == math.Trunc(num.f) && math.Abs(num.f) < 9.2e18 {
			return mkInt(int64(num.f)), true
		}
		return nil, false
	}
	if m.branch(&Term{op: OFIsInt, sort: SBool, args: []*Term{num}}) {
		return &Term{op: OF2I, sort: SBV, w: 64, args: []*Term{num}}, true
	}
	return nil, false
}

func fieldAt(m *Machine, fr *Frame, v *RV, idx []int, create bool) *RV {
	for k, i := range idx {
		if k > 0 && v.kind() == kPtr {
			if v.isNil() {
				if !create {
					return nil
				}
				v.set(&Cell{v: zero(elemType(v.t))})
			}
			v = m.rvElem(fr, v)
		}
		v = v.field(i)
	}
	return v
}

func (d *jdec) object(n *JNode, v *RV) {
	m, fr := d.m, d.fr
	fields := jsonFields(v.t)
	for i, k := range n.keys {
		var f *jfield
		for j := range fields {
			if m.branch(mkEq(k, mkStr(fields[j].name))) {
				f = &fields[j]
				break
			}
		}
		if f == nil && k.isConst() {
			for j := range fields {
				if strings.EqualFold(fields[j].name, k.s) {
					f = &fields[j]
					break
				}
			}
		} else if f == nil {
			for j := range fields {
				if m.branch(foldEq(k, fields[j].name)) {
					f = &fields[j]
					break
				}
			}
		}
		if f == nil {
			if d.strict && d.saved == nil {
				d.saved = m.newErrorT(mkConcat(mkStr("json: unknown field \""), k, mkStr("\"")))
			}
			continue
		}
		fv := fieldAt(m, fr, v, f.idx, true)
		if f.quoted {
			panic(unsupported("json string option"))
		}
		d.value(n.elems[i], fv)
	}
}

// foldEq is case-insensitive equality with a constant.
func foldEq(k *Term, name string) *Term {
	if k.isConst() {
		return mkBool(strings.EqualFold(k.s, name))
	}
	return &Term{op: OInRe, sort: SBool, args: []*Term{k}, s: "fold:" + name}
}

// anyValue decodes into interface{}.
func (d *jdec) anyValue(n *JNode) Value {
	m := d.m
	ex := m.ex
	switch n.kind {
	case jLazy:
		return &LazyIface{n: n}
	case jNull:
		return Iface{}
	case jBool:
		return Iface{t: types.Typ[types.Bool], v: n.b}
	case jNum:
		if d.useNumber {
			panic(unsupported("UseNumber into interface{}"))
		}
		return Iface{t: types.Typ[types.Float64], v: n.num}
	case jStr:
		return Iface{t: types.Typ[types.String], v: n.s}
	case jArr:
		c := make([]Cell, len(n.elems))
		for i := range c {
			c[i].v = d.anyValue(n.elems[i])
		}
		return Iface{t: ex.tAnySlice, v: Slice{c: c}}
	case jObj:
		mp := newMap(ex.tAnyMap)
		for i, k := range n.keys {
			m.mapSet(d.fr, mp, k, d.anyValue(n.elems[i]))
		}
		return Iface{t: ex.tAnyMap, v: mp}
	}
	return Iface{}
}

// force makes an interface value concrete.
func (m *Machine) force(fr *Frame, v Value) Iface {
	switch x := v.(type) {
	case Iface:
		return x
	case *LazyIface:
		if x.val == nil {
			m.resolve(fr, x.n)
			d := &jdec{m: m, fr: fr}
			i := d.anyValue(x.n).(Iface)
			x.val = &i
		}
		return *x.val
	}
	panic(unsupported(fmt.Sprintf("interface expected, got %T", v)))
}

// forceFor resolves a lazy interface for a comparison.
func (m *Machine) forceFor(fr *Frame, v Value, other Value) Value {
	l := v.(*LazyIface)
	if o, ok := other.(Iface); ok && l.val == nil {
		if o.t == nil {
			if m.isKind(fr, l.n, jNull) {
				return Iface{}
			}
			return Iface{t: types.Typ[types.Invalid], v: tTrue}
		}
	}
	return m.force(fr, v)
}

// forceAssert resolves a lazy interface only as far as a type assertion needs.
func (m *Machine) forceAssert(fr *Frame, l *LazyIface, t types.Type) Value {
	if l.val != nil {
		return *l.val
	}
	k := jLazy
	switch u := t.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Float64:
			k = jNum
		case types.String:
			k = jStr
		case types.Bool:
			k = jBool
		}
	default:
		if types.Identical(t, m.ex.tAnyMap) {
			k = jObj
		} else if types.Identical(t, m.ex.tAnySlice) {
			k = jArr
		} else if !types.IsInterface(t) {
			return Iface{t: types.Typ[types.Invalid], v: tTrue} // never one of the JSON types
		}
	}
	if _, ok := t.(*types.Basic); ok && k == jLazy {
		return Iface{t: types.Typ[types.Invalid], v: tTrue}
	}
	if k != jLazy && l.n.kind == jLazy && !m.isKind(fr, l.n, k) {
		return Iface{t: types.Typ[types.Invalid], v: tTrue}
	}
	return m.force(fr, l)
}

// ---- encoding ----

type jenc struct {
	m  *Machine
	fr *Frame
}

// jsonMarshal is json.Marshal: a document, or an error value.
func (m *Machine) jsonMarshal(fr *Frame, v Value) (n *JNode, err Value) {
	e := &jenc{m, fr}
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(jabort); ok {
				n, err = nil, a.err
				return
			}
			panic(r)
		}
	}()
	if l, ok := v.(*LazyIface); ok {
		if l.val == nil {
			return l.n, nil
		}
		v = *l.val
	}
	i := v.(Iface)
	if i.t == nil {
		return &JNode{kind: jNull}, nil
	}
	return e.value(&RV{t: i.t, v: i.v}), nil
}

func (e *jenc) marshaler(v *RV) *JNode {
	m := e.m
	if isTimeType(v.t) {
		return jString(timeFormat(v.get().(*TimeV), "2006-01-02T15:04:05.999999999Z07:00"))
	}
	r := m.callMethod(e.fr, v.t, v.get(), "MarshalJSON").(Tuple)
	if i := m.force(e.fr, r[1]); i.t != nil {
		panic(jabort{m.wrapErr("json: error calling MarshalJSON for type "+typeStr(v.t)+": ", i)})
	}
	txt := bytesToStr(r[0].(Slice).c)
	n, es := m.parseJSON(e.fr, txt)
	if es != "" {
		panic(jabort{m.wrapErr("json: error calling MarshalJSON for type "+typeStr(v.t)+": ", m.newError(es).(Iface))})
	}
	return n
}

func (e *jenc) text(v *RV) *JNode {
	m := e.m
	r := m.callMethod(e.fr, v.t, v.get(), "MarshalText").(Tuple)
	if i := m.force(e.fr, r[1]); i.t != nil {
		panic(jabort{m.wrapErr("json: error calling MarshalText for type "+typeStr(v.t)+": ", i)})
	}
	return jString(bytesToStr(r[0].(Slice).c))
}

func (e *jenc) value(v *RV) *JNode {
	m, fr := e.m, e.fr
	if isTimeType(v.t) {
		return e.marshaler(v)
	}
	if v.kind() != kPtr && v.cell != nil && !types.IsInterface(v.t) {
		pt := types.NewPointer(v.t)
		if m.hasMethod(pt, "MarshalJSON", 0, 2) && !m.hasMethod(v.t, "MarshalJSON", 0, 2) {
			return e.marshaler(addrOf(v))
		}
	}
	if !types.IsInterface(v.t) && m.hasMethod(v.t, "MarshalJSON", 0, 2) {
		if v.kind() == kPtr && v.isNil() {
			return &JNode{kind: jNull}
		}
		return e.marshaler(v)
	}
	if v.kind() != kPtr && v.cell != nil && !types.IsInterface(v.t) {
		pt := types.NewPointer(v.t)
		if m.hasMethod(pt, "MarshalText", 0, 2) && !m.hasMethod(v.t, "MarshalText", 0, 2) {
			return e.text(addrOf(v))
		}
	}
	if !types.IsInterface(v.t) && m.hasMethod(v.t, "MarshalText", 0, 2) {
		if v.kind() == kPtr && v.isNil() {
			return &JNode{kind: jNull}
		}
		return e.text(v)
	}
	switch v.kind() {
	case kBool:
		return &JNode{kind: jBool, b: tm(v.get())}
	case kInt:
		return &JNode{kind: jNum, num: mkI2F(mkSext(tm(v.get()), 64))}
	case kUint:
		return &JNode{kind: jNum, num: mkI2F(mkZext(tm(v.get()), 64))}
	case kFloat:
		t := tm(v.get())
		if t.isConst() {
			if math.IsNaN(t.f) || math.IsInf(t.f, 0) {
				panic(jabort{m.newError("json: unsupported value: " + strconv.FormatFloat(t.f, 'g', -1, 64))})
			}
		} else if t.op != OI2F {
			big := mkBin2(OFLe, t, mkFP(math.MaxFloat64))
			small := mkBin2(OFLe, mkFP(-math.MaxFloat64), t)
			if !m.branch(mkAnd(big, small)) {
				panic(jabort{m.newError("json: unsupported value")})
			}
		}
		return &JNode{kind: jNum, num: t}
	case kString:
		if typeName(v.t) == "encoding/json.Number" {
			n, es := m.parseJSON(fr, tm(v.get()))
			if es != "" {
				panic(jabort{m.newError("json: invalid number literal")})
			}
			return n
		}
		return jString(tm(v.get()))
	case kPtr:
		if v.isNil() {
			return &JNode{kind: jNull}
		}
		return e.value(m.rvElem(fr, v))
	case kIface:
		if l, ok := v.get().(*LazyIface); ok {
			if l.val == nil {
				return l.n
			}
		}
		i := m.force(fr, v.get())
		if i.t == nil {
			return &JNode{kind: jNull}
		}
		return e.value(&RV{t: i.t, v: i.v})
	case kStruct:
		n := &JNode{kind: jObj}
		for _, f := range jsonFields(v.t) {
			fv := fieldAt(m, fr, v, f.idx, false)
			if fv == nil {
				continue
			}
			if f.omitEmpty && m.branch(isEmptyT(m, fr, fv)) {
				continue
			}
			if f.omitZero {
				panic(unsupported("json omitzero"))
			}
			if f.quoted {
				panic(unsupported("json string option"))
			}
			n.keys = append(n.keys, mkStr(f.name))
			n.elems = append(n.elems, e.value(fv))
		}
		return n
	case kMap:
		mp, _ := v.get().(*MapV)
		if mp == nil {
			return &JNode{kind: jNull}
		}
		mt := v.t.Underlying().(*types.Map)
		n := &JNode{kind: jObj}
		for _, en := range mp.entries {
			if en.deleted {
				continue
			}
			var k *Term
			switch kindOf(mt.Key()) {
			case kString:
				k = tm(en.k)
			case kInt:
				k = mkItoa(mkSext(tm(en.k), 64))
			default:
				panic(unsupported("JSON map key type"))
			}
			n.keys = append(n.keys, k)
			n.elems = append(n.elems, e.value(&RV{t: mt.Elem(), v: en.v.v}))
		}
		all := true
		for _, k := range n.keys {
			all = all && k.isConst()
		}
		if all {
			sort.Sort(byKey{n})
		}
		return n
	case kSlice:
		s := v.get().(Slice)
		if s.isNil {
			return &JNode{kind: jNull}
		}
		if b, ok := elemType(v.t).Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			t := bytesToStr(s.c)
			if !t.isConst() {
				panic(unsupported("base64 of symbolic bytes"))
			}
			x, _ := json.Marshal([]byte(t.s))
			n, _ := parseConstJSON(string(x))
			return n
		}
		n := &JNode{kind: jArr}
		for i := range s.c {
			n.elems = append(n.elems, e.value(v.index(i)))
		}
		return n
	case kArray:
		n := &JNode{kind: jArr}
		for i := 0; i < v.length(); i++ {
			n.elems = append(n.elems, e.value(v.index(i)))
		}
		return n
	}
	panic(jabort{m.newError("json: unsupported type: " + typeStr(v.t))})
}

type byKey struct{ n *JNode }

func (b byKey) Len() int           { return len(b.n.keys) }
func (b byKey) Less(i, j int) bool { return b.n.keys[i].s < b.n.keys[j].s }
func (b byKey) Swap(i, j int) {
	b.n.keys[i], b.n.keys[j] = b.n.keys[j], b.n.keys[i]
	b.n.elems[i], b.n.elems[j] = b.n.elems[j], b.n.elems[i]
}

// wrapErr makes an error whose text has a prefix and which unwraps to err.
func (m *Machine) wrapErr(prefix string, err Iface) Value {
	txt := m.errText(&Frame{m: m, th: m.cur, fn: m.ex.rootFn, info: m.ex.rootInfo, caller: m.cur.fr}, err)
	return m.newWrap(mkConcat(mkStr(prefix), txt), []Value{err})
}

// sameJSON compares two documents: object keys in any order, numbers by value.
func (m *Machine) sameJSON(fr *Frame, a, b *JNode) *Term {
	if a == b {
		return tTrue
	}
	m.resolve(fr, a)
	m.resolve(fr, b)
	if a.kind != b.kind {
		return tFalse
	}
	switch a.kind {
	case jNull:
		return tTrue
	case jBool:
		return mkEqRaw(a.b, b.b)
	case jNum:
		return mkEqRaw(a.num, b.num)
	case jStr:
		return mkEqRaw(a.s, b.s)
	case jArr:
		if len(a.elems) != len(b.elems) {
			return tFalse
		}
		var cs []*Term
		for i := range a.elems {
			cs = append(cs, m.sameJSON(fr, a.elems[i], b.elems[i]))
		}
		return mkAnd(cs...)
	case jObj:
		if len(a.elems) != len(b.elems) {
			return tFalse
		}
		var cs []*Term
		for i := range a.elems {
			found := -1
			for j := range b.elems {
				if m.branch(mkEq(a.keys[i], b.keys[j])) {
					found = j
					break
				}
			}
			if found < 0 {
				return tFalse
			}
			cs = append(cs, m.sameJSON(fr, a.elems[i], b.elems[found]))
		}
		return mkAnd(cs...)
	}
	return tFalse
}

func init() {
	reg("encoding/json.Unmarshal", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.jsonUnmarshal(fr, bytesToStr(a[0].(Slice).c), a[1])
	})
	reg("encoding/json.Marshal|encoding/json.MarshalIndent", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		n, err := fr.m.jsonMarshal(fr, a[0])
		if err != nil {
			return Tuple{Slice{isNil: true}, err}
		}
		return Tuple{strToBytes(docText(n)), Iface{}}
	})
	reg("encoding/json.Valid", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		_, es := fr.m.parseJSON(fr, bytesToStr(a[0].(Slice).c))
		return mkBool(es == "")
	})
	reg("(encoding/json.RawMessage).MarshalJSON", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(Slice)
		if s.isNil {
			return Tuple{strToBytes(mkStr("null")), Iface{}}
		}
		return Tuple{s, Iface{}}
	})
	reg("(*encoding/json.RawMessage).UnmarshalJSON", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s := a[1].(Slice)
		c := make([]Cell, len(s.c))
		for i := range c {
			c[i].v = s.c[i].v
		}
		storeVal(fr.ptr(a[0]), Slice{c: c})
		return Iface{}
	})
	// encoders and decoders over streams
	type encSt struct{ w Value }
	type decSt struct {
		r      Value
		read   bool
		text   *Term
		strict bool
		num    bool
	}
	reg("encoding/json.NewEncoder", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		c := &Cell{v: zero(deref(fn.Signature.Results().At(0).Type()))}
		fr.m.side[c] = &encSt{a[0]}
		return c
	})
	reg("(*encoding/json.Encoder).SetIndent|(*encoding/json.Encoder).SetEscapeHTML", nop)
	reg("(*encoding/json.Encoder).Encode", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		n, err := fr.m.jsonMarshal(fr, a[1])
		if err != nil {
			return err
		}
		st := fr.m.side[fr.ptr(a[0])].(*encSt)
		w := fr.m.force(fr, st.w)
		r := fr.m.callMethod(fr, w.t, w.v, "Write", strToBytes(mkConcat(docText(n), mkStr("\n")))).(Tuple)
		return r[1]
	})
	reg("encoding/json.NewDecoder", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		c := &Cell{v: zero(deref(fn.Signature.Results().At(0).Type()))}
		fr.m.side[c] = &decSt{r: a[0]}
		return c
	})
	reg("(*encoding/json.Decoder).DisallowUnknownFields", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.side[fr.ptr(a[0])].(*decSt).strict = true
		return nil
	})
	reg("(*encoding/json.Decoder).UseNumber", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.side[fr.ptr(a[0])].(*decSt).num = true
		return nil
	})
	decText := func(fr *Frame, st *decSt) {
		if !st.read {
			st.read = true
			t, err := fr.m.readAll(fr, st.r)
			_ = err
			st.text = t
		}
	}
	reg("(*encoding/json.Decoder).Decode", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		st := m.side[fr.ptr(a[0])].(*decSt)
		decText(fr, st)
		t := st.text
		if t.isConst() {
			if strings.TrimSpace(t.s) == "" {
				return m.global(fr, m.ex.ioEOF).v
			}
			d := json.NewDecoder(strings.NewReader(t.s))
			var raw json.RawMessage
			if err := d.Decode(&raw); err != nil {
				return m.syntaxError(err.Error())
			}
			st.text = mkStr(t.s[d.InputOffset():])
			n, es := parseConstJSON(string(raw))
			if es != "" {
				return m.syntaxError(es)
			}
			return m.jsonDecode(fr, n, a[1], st.strict, st.num)
		}
		ps := parts(t)
		n, es := m.parseJSON(fr, t)
		if es != "" {
			// a leading document may be followed by more text
			if ps[0].op == OBlob {
				if x, ok := ps[0].blob.(*JNode); ok && x.kind != jBad {
					st.text = mkConcat(ps[1:]...)
					return m.jsonDecode(fr, x, a[1], st.strict, st.num)
				}
			}
			return m.syntaxError(es)
		}
		st.text = mkStr("")
		return m.jsonDecode(fr, n, a[1], st.strict, st.num)
	})
	reg("(*encoding/json.Decoder).More", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		st := fr.m.side[fr.ptr(a[0])].(*decSt)
		decText(fr, st)
		if c, ok := constStr(st.text); ok {
			return mkBool(strings.TrimSpace(c) != "")
		}
		return tTrue
	})
	reg("encoding/json.Compact|encoding/json.Indent", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		t := bytesToStr(a[1].(Slice).c)
		n, es := m.parseJSON(fr, t)
		if es != "" {
			return m.syntaxError(es)
		}
		m.callMethod(fr, fn.Signature.Params().At(0).Type(), a[0], "Write", strToBytes(docText(n)))
		return Iface{}
	})
}

// readAll drains an io.Reader.
func (m *Machine) readAll(fr *Frame, r Value) (*Term, Value) {
	i := m.force(fr, r)
	if i.t == nil {
		panic(m.runtimePanic("invalid memory address or nil pointer dereference"))
	}
	var out []*Term
	for k := 0; k < 10000; k++ {
		buf := make([]Cell, 4096)
		for j := range buf {
			buf[j].v = mkBV(0, 8)
		}
		tu := m.callMethod(fr, i.t, i.v, "Read", Slice{c: buf}).(Tuple)
		n := int(m.concInt(fr, tm(tu[0])))
		if n > 0 {
			out = append(out, bytesToStr(buf[:n]))
		}
		if e := m.force(fr, tu[1]); e.t != nil {
			if m.errorsIs(fr, e, m.global(fr, m.ex.ioEOF).v) {
				return mkConcat(out...), Iface{}
			}
			return mkConcat(out...), e
		}
	}
	panic(unsupported("endless reader"))
}

// isDoc says that a text holds a JSON document that is known in full.
func isDoc(t *Term) bool {
	doc := false
	for _, p := range parts(t) {
		if p.op == OBlob {
			n, ok := p.blob.(*JNode)
			if !ok || !knownDoc(n) {
				return false
			}
			doc = true
		} else if !p.isConst() {
			doc = doc && len(parts(t)) > 1
		}
	}
	return doc
}

func knownDoc(n *JNode) bool {
	if n.kind == jLazy || n.kind == jBad {
		return false
	}
	for _, e := range n.elems {
		if !knownDoc(e) {
			return false
		}
	}
	return true
}

// knownBlobs says whether all documents in a text are known.
func knownBlobs(t *Term) bool {
	if t.op == OBlob {
		n, ok := t.blob.(*JNode)
		return ok && knownDoc(n)
	}
	for _, a := range t.args {
		if !knownBlobs(a) {
			return false
		}
	}
	return true
}

// plainText spells out the documents in a text, if their strings need no escapes; if they do, on representatives.
func (m *Machine) plainText(t *Term) *Term {
	if !hasBlob(t) {
		return t
	}
	var ps []*Term
	for _, p := range parts(t) {
		if n, ok := p.blob.(*JNode); ok && p.op == OBlob && knownDoc(n) {
			if _, ok := m.spelled[n]; !ok {
				if m.spelled == nil {
					m.spelled = map[*JNode]*Term{}
				}
				var plain []*Term
				x := spell(n, &plain)
				if m.branch(mkAnd(plain...)) {
					m.spelled[n] = x
				} else {
					m.spelled[n] = m.concretize(p, "length of a document whose texts need escapes")
				}
			}
			p = m.spelled[n]
		}
		ps = append(ps, p)
	}
	return mkConcat(ps...)
}

func spell(n *JNode, plain *[]*Term) *Term {
	str := func(s *Term) *Term {
		if s.isConst() {
			b, _ := json.Marshal(s.s)
			return mkStr(string(b))
		}
		*plain = append(*plain, mkInRe(s, "spelled"))
		return mkConcat(mkStr("\""), s, mkStr("\""))
	}
	switch n.kind {
	case jBool:
		return mkIte(n.b, mkStr("true"), mkStr("false"))
	case jNum:
		if n.num.op == OI2F {
			return mkItoa(n.num.args[0])
		}
		return mkFtoa(n.num)
	case jStr:
		return str(n.s)
	case jArr, jObj:
		open, end := "[", "]"
		if n.kind == jObj {
			open, end = "{", "}"
		}
		ps := []*Term{mkStr(open)}
		for i, e := range n.elems {
			if i > 0 {
				ps = append(ps, mkStr(","))
			}
			if n.kind == jObj {
				ps = append(ps, str(n.keys[i]), mkStr(":"))
			}
			ps = append(ps, spell(e, plain))
		}
		return mkConcat(append(ps, mkStr(end))...)
	}
	return mkStr("null")
}

// nodeEq compares two documents that are known in full; they are taken to be written in the same way.
func nodeEq(a, b *JNode) *Term {
	if a == b {
		return tTrue
	}
	if a.kind != b.kind || len(a.elems) != len(b.elems) {
		return tFalse
	}
	switch a.kind {
	case jBool:
		return mkEq(a.b, b.b)
	case jNum:
		return mkEq(a.num, b.num)
	case jStr:
		return mkEq(a.s, b.s)
	}
	r := tTrue
	for i := range a.elems {
		if a.kind == jObj {
			r = mkAnd(r, mkEq(a.keys[i], b.keys[i]))
		}
		r = mkAnd(r, nodeEq(a.elems[i], b.elems[i]))
	}
	return r
}

// docEq compares the text of a JSON document with constant text, or with that of another document.
func (m *Machine) docEq(fr *Frame, a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if isDoc(a) && (isDoc(b) || b.isConst() && a.op == OConcat) {
		x, ex := m.parseJSON(fr, a)
		y, ey := m.parseJSON(fr, b)
		if (ex == "") != (ey == "") {
			return tFalse
		}
		if ex != "" {
			return nil
		}
		return nodeEq(x, y)
	}
	if !b.isConst() || a.op != OBlob {
		return nil
	}
	n, ok := a.blob.(*JNode)
	if !ok {
		return nil
	}
	var v interface{}
	if json.Unmarshal([]byte(b.s), &v) != nil {
		if m.isKind(fr, n, jBad) {
			panic(unsupported("comparison of malformed JSON text"))
		}
		return tFalse
	}
	switch x := v.(type) {
	case nil:
		return mkBool(b.s == "null" && m.isKind(fr, n, jNull))
	case bool:
		if !m.isKind(fr, n, jBool) {
			return tFalse
		}
		return mkEq(n.b, mkBool(x))
	case string:
		if !m.isKind(fr, n, jStr) {
			return tFalse
		}
		return mkEq(n.s, mkStr(x))
	case map[string]interface{}:
		if !m.isKind(fr, n, jObj) || len(n.keys) != 0 && len(x) == 0 {
			return tFalse
		}
		if len(n.keys) == 0 {
			return mkBool(b.s == "{}")
		}
	case []interface{}:
		if !m.isKind(fr, n, jArr) || len(n.elems) != len(x) {
			return tFalse
		}
		if len(x) == 0 {
			return mkBool(b.s == "[]")
		}
	case float64:
		if !m.isKind(fr, n, jNum) {
			return tFalse
		}
	}
	panic(unsupported("comparison of JSON text with " + b.s))
}
