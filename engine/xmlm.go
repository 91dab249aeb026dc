package main

// Model of encoding/xml: documents are ropes of constant markup and symbolic text. Encoding and decoding follow the
// algorithms of the standard library over the reflection layer; tokenising is done by the real library on the rope with
// placeholders for its symbolic parts.

import (
	"encoding/xml"
	"fmt"
	"go/types"
	"io"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// XNode is unused (XML inputs are composed by the harness); it keeps the evaluator uniform.
type XNode struct{}

func xnodeVars(n *XNode, f func(*Term))        {}
func xnodeText(n *XNode, ev *evaluator) string { return "" }

type xflags int

const (
	xElement xflags = 1 << iota
	xAttr
	xCDATA
	xCharData
	xInnerXML
	xComment
	xAny
	xOmitEmpty
	xMode = xElement | xAttr | xCDATA | xCharData | xInnerXML | xComment | xAny
)

type xfield struct {
	idx     []int
	name    string
	xmlns   string
	flags   xflags
	parents []string
}

type xtype struct {
	xmlname *xfield
	fields  []xfield
	err     string
}

var xtypeCache sync.Map

func xmlTag(st *types.Struct, i int) string {
	return reflect.StructTag(st.Tag(i)).Get("xml")
}

func isXMLName(t types.Type) bool { return typeName(t) == "encoding/xml.Name" }

func xmlTypeInfo(t types.Type) *xtype {
	if v, ok := xtypeCache.Load(t); ok {
		return v.(*xtype)
	}
	ti := &xtype{}
	if st, ok := t.Underlying().(*types.Struct); ok && kindOf(t) == kStruct && !isXMLName(t) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !f.Exported() && !f.Anonymous() || xmlTag(st, i) == "-" {
				continue
			}
			if f.Anonymous() {
				ft := f.Type()
				if p, ok := ft.Underlying().(*types.Pointer); ok {
					ft = p.Elem()
				}
				if kindOf(ft) == kStruct {
					inner := xmlTypeInfo(ft)
					if inner.err != "" {
						ti.err = inner.err
						break
					}
					if ti.xmlname == nil {
						ti.xmlname = inner.xmlname
					}
					for _, fi := range inner.fields {
						fi.idx = append([]int{i}, fi.idx...)
						if e := xmlAddField(t, ti, fi); e != "" {
							ti.err = e
						}
					}
					continue
				}
			}
			fi, e := xmlFieldInfo(t, st, i)
			if e != "" {
				ti.err = e
				break
			}
			if f.Name() == "XMLName" {
				ti.xmlname = fi
				continue
			}
			if e := xmlAddField(t, ti, *fi); e != "" {
				ti.err = e
				break
			}
		}
	}
	xtypeCache.Store(t, ti)
	return ti
}

func xmlFieldInfo(t types.Type, st *types.Struct, i int) (*xfield, string) {
	f := st.Field(i)
	fi := &xfield{idx: []int{i}}
	full := xmlTag(st, i)
	tag := full
	if ns, r, ok := strings.Cut(tag, " "); ok {
		fi.xmlns, tag = ns, r
	}
	toks := strings.Split(tag, ",")
	if len(toks) == 1 {
		fi.flags = xElement
	} else {
		tag = toks[0]
		for _, fl := range toks[1:] {
			switch fl {
			case "attr":
				fi.flags |= xAttr
			case "cdata":
				fi.flags |= xCDATA
			case "chardata":
				fi.flags |= xCharData
			case "innerxml":
				fi.flags |= xInnerXML
			case "comment":
				fi.flags |= xComment
			case "any":
				fi.flags |= xAny
			case "omitempty":
				fi.flags |= xOmitEmpty
			}
		}
		valid := true
		switch mode := fi.flags & xMode; mode {
		case 0:
			fi.flags |= xElement
		case xAttr, xCDATA, xCharData, xInnerXML, xComment, xAny, xAny | xAttr:
			if f.Name() == "XMLName" || tag != "" && mode != xAttr {
				valid = false
			}
		default:
			valid = false
		}
		if fi.flags&xMode == xAny {
			fi.flags |= xElement
		}
		if fi.flags&xOmitEmpty != 0 && fi.flags&(xElement|xAttr) == 0 {
			valid = false
		}
		if !valid {
			return nil, fmt.Sprintf("xml: invalid tag in field %s of type %s: %q", f.Name(), typeStr(t), full)
		}
	}
	if fi.xmlns != "" && tag == "" {
		return nil, fmt.Sprintf("xml: namespace without name in field %s of type %s: %q", f.Name(), typeStr(t), full)
	}
	if f.Name() == "XMLName" {
		fi.name = tag
		return fi, ""
	}
	if tag == "" {
		if x := xmlLookupName(f.Type()); x != nil {
			fi.xmlns, fi.name = x.xmlns, x.name
		} else {
			fi.name = f.Name()
		}
		return fi, ""
	}
	parents := strings.Split(tag, ">")
	if parents[0] == "" {
		parents[0] = f.Name()
	}
	if parents[len(parents)-1] == "" {
		return nil, fmt.Sprintf("xml: trailing '>' in field %s of type %s", f.Name(), typeStr(t))
	}
	fi.name = parents[len(parents)-1]
	if len(parents) > 1 {
		if fi.flags&xElement == 0 {
			return nil, fmt.Sprintf("xml: %s chain not valid with %s flag", tag, strings.Join(toks[1:], ","))
		}
		fi.parents = parents[:len(parents)-1]
	}
	if fi.flags&xElement != 0 {
		if x := xmlLookupName(f.Type()); x != nil && x.name != fi.name {
			return nil, fmt.Sprintf("xml: name %q in tag of %s.%s conflicts with name %q in %s.XMLName", fi.name, typeStr(t), f.Name(), x.name, typeStr(f.Type()))
		}
	}
	return fi, ""
}

func xmlLookupName(t types.Type) *xfield {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || kindOf(t) != kStruct {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() != "XMLName" {
			continue
		}
		fi, e := xmlFieldInfo(t, st, i)
		if e == "" && fi.name != "" {
			return fi
		}
		break
	}
	return nil
}

func xmlAddField(t types.Type, ti *xtype, nf xfield) string {
	var conf []int
loop:
	for i := range ti.fields {
		of := &ti.fields[i]
		if of.flags&xMode != nf.flags&xMode {
			continue
		}
		if of.xmlns != "" && nf.xmlns != "" && of.xmlns != nf.xmlns {
			continue
		}
		n := len(nf.parents)
		if len(of.parents) < n {
			n = len(of.parents)
		}
		for p := 0; p < n; p++ {
			if of.parents[p] != nf.parents[p] {
				continue loop
			}
		}
		switch {
		case len(of.parents) > len(nf.parents):
			if of.parents[len(nf.parents)] == nf.name {
				conf = append(conf, i)
			}
		case len(of.parents) < len(nf.parents):
			if nf.parents[len(of.parents)] == of.name {
				conf = append(conf, i)
			}
		default:
			if nf.name == of.name && nf.xmlns == of.xmlns {
				conf = append(conf, i)
			}
		}
	}
	if conf == nil {
		ti.fields = append(ti.fields, nf)
		return ""
	}
	for _, i := range conf {
		if len(ti.fields[i].idx) < len(nf.idx) {
			return ""
		}
	}
	for _, i := range conf {
		if len(ti.fields[i].idx) == len(nf.idx) {
			return fmt.Sprintf("%s field with tag %q conflicts with another field", typeStr(t), nf.name)
		}
	}
	for c := len(conf) - 1; c >= 0; c-- {
		i := conf[c]
		ti.fields = append(ti.fields[:i], ti.fields[i+1:]...)
	}
	ti.fields = append(ti.fields, nf)
	return ""
}

func (fi *xfield) value(v *RV, init bool) *RV {
	for i, x := range fi.idx {
		if i > 0 && v.kind() == kPtr && kindOf(elemType(v.t)) == kStruct {
			if v.isNil() {
				if !init {
					return &RV{}
				}
				v.set(&Cell{v: zero(elemType(v.t))})
			}
			v = rvCell(elemType(v.t), v.get().(*Cell))
		}
		v = v.field(x)
	}
	return v
}

// ---- names ----

type xname struct{ space, local *Term }

func cname(s, l string) xname { return xname{mkStr(s), mkStr(l)} }

type xattr struct {
	name xname
	val  *Term
}

type xstart struct {
	name xname
	attr []xattr
}

func (m *Machine) nameVal(n xname) Value {
	s := &Struct{f: make([]Cell, 2)}
	s.f[0].v, s.f[1].v = n.space, n.local
	return s
}

func nameOf(v Value) xname {
	s := v.(*Struct)
	return xname{tm(s.f[0].v), tm(s.f[1].v)}
}

func (m *Machine) startVal(st xstart) Value {
	s := &Struct{f: make([]Cell, 2)}
	s.f[0].v = m.nameVal(st.name)
	as := Slice{c: make([]Cell, len(st.attr))}
	if len(st.attr) == 0 {
		as.c = []Cell{}
	}
	for i, a := range st.attr {
		av := &Struct{f: make([]Cell, 2)}
		av.f[0].v, av.f[1].v = m.nameVal(a.name), a.val
		as.c[i].v = av
	}
	s.f[1].v = as
	return s
}

func startOf(v Value) xstart {
	s := v.(*Struct)
	st := xstart{name: nameOf(s.f[0].v)}
	for _, c := range s.f[1].v.(Slice).c {
		a := c.v.(*Struct)
		st.attr = append(st.attr, xattr{nameOf(a.f[0].v), tm(a.f[1].v)})
	}
	return st
}

func isEmptyTerm(t *Term) bool { return t.isConst() && t.s == "" }

// ---- encoding ----

type xenc struct {
	m        *Machine
	fr       *Frame
	out      []*Term
	w        Value
	tags     []xname
	prefixes []string
	attrNS   map[string]string
	attrPfx  map[string]string
	seq      int
	cell     *Cell // the *xml.Encoder of the program
	indent   bool
}

type xerr struct{ v Value }

func (e *xenc) fail(s string) { panic(xerr{e.m.newError(s)}) }

func (e *xenc) str(s string) { e.out = append(e.out, mkStr(s)) }

func xmlEscConst(s string) string {
	var b strings.Builder
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// escape writes text with markup characters escaped.
func (e *xenc) escape(t *Term) {
	for _, p := range parts(t) {
		e.out = append(e.out, e.m.xmlEscape(p))
	}
}

func (m *Machine) xmlEscape(p *Term) *Term {
	switch {
	case p.isConst():
		return mkStr(xmlEscConst(p.s))
	case p.op == OItoa, p.op == OUtoa, p.op == OFtoa, p.op == ORfc:
		return p
	case p.op == OVar && m.identVar(p):
		return p
	case p.op == OIte && p.args[1].isConst() && p.args[2].isConst():
		return mkIte(p.args[0], mkStr(xmlEscConst(p.args[1].s)), mkStr(xmlEscConst(p.args[2].s)))
	}
	if !m.branch(mkInRe(p, "xmllegal")) {
		// characters XML cannot carry are replaced by the encoder
		return appText("xml_esc", appText("txt_xmlrepl", p))
	}
	return appText("xml_esc", p)
}

func (e *xenc) createPrefix(url string) string {
	if p := e.attrPfx[url]; p != "" {
		return p
	}
	if url == "http://www.w3.org/XML/1998/namespace" {
		return "xml"
	}
	if e.attrPfx == nil {
		e.attrPfx, e.attrNS = map[string]string{}, map[string]string{}
	}
	p := strings.TrimRight(url, "/")
	if i := strings.LastIndex(p, "/"); i >= 0 {
		p = p[i+1:]
	}
	if p == "" || strings.ContainsAny(p, ":") || p[0] >= '0' && p[0] <= '9' {
		p = "_"
	}
	if len(p) >= 3 && strings.EqualFold(p[:3], "xml") {
		p = "_" + p
	}
	if e.attrNS[p] != "" {
		for e.seq++; ; e.seq++ {
			if id := p + "_" + strconv.Itoa(e.seq); e.attrNS[id] == "" {
				p = id
				break
			}
		}
	}
	e.attrPfx[url] = p
	e.attrNS[p] = url
	e.str(`xmlns:` + p + `="` + xmlEscConst(url) + `" `)
	e.prefixes = append(e.prefixes, p)
	return p
}

func (e *xenc) popPrefix() {
	for len(e.prefixes) > 0 {
		p := e.prefixes[len(e.prefixes)-1]
		e.prefixes = e.prefixes[:len(e.prefixes)-1]
		if p == "" {
			break
		}
		delete(e.attrPfx, e.attrNS[p])
		delete(e.attrNS, p)
	}
}

func (e *xenc) writeStart(st *xstart) {
	if isEmptyTerm(st.name.local) {
		e.fail("xml: start tag with no name")
	}
	e.tags = append(e.tags, st.name)
	e.prefixes = append(e.prefixes, "")
	e.str("<")
	e.out = append(e.out, st.name.local)
	if !isEmptyTerm(st.name.space) {
		e.str(` xmlns="`)
		e.escape(st.name.space)
		e.str(`"`)
	}
	for _, a := range st.attr {
		if isEmptyTerm(a.name.local) {
			continue
		}
		e.str(" ")
		if !isEmptyTerm(a.name.space) {
			e.str(e.createPrefix(goStr(a.name.space)) + ":")
		}
		e.out = append(e.out, a.name.local)
		e.str(`="`)
		e.escape(a.val)
		e.str(`"`)
	}
	e.str(">")
}

func (e *xenc) writeEnd(n xname) {
	if isEmptyTerm(n.local) {
		e.fail("xml: end tag with no name")
	}
	if len(e.tags) == 0 || isEmptyTerm(e.tags[len(e.tags)-1].local) {
		e.fail("xml: end tag </" + showTerm(n.local) + "> without start tag")
	}
	top := e.tags[len(e.tags)-1]
	if !same(top.local, n.local) || !same(top.space, n.space) {
		e.fail("xml: end tag </" + showTerm(n.local) + "> does not match start tag <" + showTerm(top.local) + ">")
	}
	e.tags = e.tags[:len(e.tags)-1]
	e.str("</")
	e.out = append(e.out, n.local)
	e.str(">")
	e.popPrefix()
}

func (e *xenc) defaultStart(t types.Type, fi *xfield, tpl *xstart) xstart {
	switch {
	case tpl != nil:
		return xstart{name: tpl.name, attr: append([]xattr(nil), tpl.attr...)}
	case fi != nil && fi.name != "":
		return xstart{name: cname(fi.xmlns, fi.name)}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return xstart{name: cname("", n.Obj().Name())}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if n, ok := types.Unalias(p.Elem()).(*types.Named); ok {
			return xstart{name: cname("", n.Obj().Name())}
		}
	}
	return xstart{name: cname("", "")}
}

// withMethod finds the method on the value or, if addressable, on its address.
func (m *Machine) withMethod(v *RV, name string, params, results int) (types.Type, Value, bool) {
	if v.t == nil {
		return nil, nil, false
	}
	if kindOf(v.t) == kIface {
		return nil, nil, false
	}
	if m.hasMethod(v.t, name, params, results) {
		return v.t, v.get(), true
	}
	if v.cell != nil {
		pt := types.NewPointer(v.t)
		if m.hasMethod(pt, name, params, results) {
			return pt, v.cell, true
		}
	}
	return nil, nil, false
}

func (e *xenc) textOf(t types.Type, v Value) *Term {
	r := e.m.callMethod(e.fr, t, v, "MarshalText").(Tuple)
	if er := e.m.force(e.fr, r[1]); er.t != nil {
		panic(xerr{er})
	}
	return bytesToStr(r[0].(Slice).c)
}

func isByteSlice(t types.Type) bool {
	k := kindOf(t)
	if k != kSlice && k != kArray {
		return false
	}
	b, ok := elemType(t).Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *xenc) simple(v *RV) *Term {
	x := v.get()
	switch v.kind() {
	case kInt:
		return mkItoa(mkSext(tm(x), 64))
	case kUint:
		return mkUtoa(mkZext(tm(x), 64))
	case kFloat:
		f := tm(x)
		if f.isConst() {
			bits := 64
			if b := v.t.Underlying().(*types.Basic); b.Kind() == types.Float32 {
				bits = 32
			}
			return mkStr(strconv.FormatFloat(f.f, 'g', -1, bits))
		}
		return mkFtoa(f)
	case kString:
		return tm(x)
	case kBool:
		return mkIte(tm(x), mkStr("true"), mkStr("false"))
	case kSlice, kArray:
		if isByteSlice(v.t) {
			if s, ok := x.(Slice); ok {
				return bytesToStr(s.c)
			}
			return bytesToStr(x.(*Array).e)
		}
	}
	panic(xerr{e.m.newError("xml: unsupported type: " + typeStr(v.t))})
}

func (e *xenc) value(v *RV, fi *xfield, tpl *xstart) {
	m := e.m
	if tpl != nil && isEmptyTerm(tpl.name.local) {
		e.fail("xml: EncodeElement of StartElement with missing name")
	}
	if v.t == nil {
		return
	}
	if fi != nil && fi.flags&xOmitEmpty != 0 && m.branch(xmlEmpty(m, e.fr, v)) {
		return
	}
	for v.kind() == kIface || v.kind() == kPtr {
		if l, ok := v.get().(*LazyIface); ok {
			v = &RV{t: v.t, v: m.force(e.fr, l)}
		}
		if v.isNil() {
			return
		}
		v = m.rvElem(e.fr, v)
	}
	if t, x, ok := m.withMethod(v, "MarshalXML", 2, 1); ok {
		st := e.defaultStart(t, fi, tpl)
		e.tags = append(e.tags, cname("", ""))
		n := len(e.tags)
		r := m.force(e.fr, m.callMethod(e.fr, t, x, "MarshalXML", e.encCell(), m.startVal(st)))
		if r.t != nil {
			panic(xerr{r})
		}
		if len(e.tags) > n {
			e.fail("xml: MarshalXML wrote invalid XML: <" + showTerm(e.tags[len(e.tags)-1].local) + "> not closed")
		}
		e.tags = e.tags[:n-1]
		return
	}
	if t, x, ok := m.withMethod(v, "MarshalText", 0, 2); ok {
		st := e.defaultStart(t, fi, tpl)
		e.writeStart(&st)
		e.escape(e.textOf(t, x))
		e.writeEnd(st.name)
		return
	}
	k := v.kind()
	if (k == kSlice || k == kArray) && !isByteSlice(v.t) {
		for i := 0; i < v.length(); i++ {
			e.value(v.index(i), fi, tpl)
		}
		return
	}
	ti := xmlTypeInfo(v.t)
	if ti.err != "" {
		e.fail(ti.err)
	}
	st := xstart{name: cname("", "")}
	if tpl != nil {
		st.name = tpl.name
		st.attr = append(st.attr, tpl.attr...)
	} else if ti.xmlname != nil {
		if ti.xmlname.name != "" {
			st.name = cname(ti.xmlname.xmlns, ti.xmlname.name)
		} else {
			fv := ti.xmlname.value(v, false)
			if fv.t != nil && isXMLName(fv.t) {
				n := nameOf(fv.get())
				if !isEmptyTerm(n.local) {
					st.name = n
				}
			}
		}
	}
	if isEmptyTerm(st.name.local) && fi != nil {
		st.name = cname(fi.xmlns, fi.name)
	}
	if isEmptyTerm(st.name.local) {
		n := ""
		if nt, ok := types.Unalias(v.t).(*types.Named); ok {
			n = nt.Obj().Name()
		} else if b, ok := v.t.(*types.Basic); ok {
			n = b.Name()
		}
		if n == "" {
			e.fail("xml: unsupported type: " + typeStr(v.t))
		}
		st.name = cname("", n)
	}
	for i := range ti.fields {
		f := &ti.fields[i]
		if f.flags&xAttr == 0 {
			continue
		}
		fv := f.value(v, false)
		if f.flags&xOmitEmpty != 0 && (fv.t == nil || m.branch(xmlEmpty(m, e.fr, fv))) {
			continue
		}
		if fv.kind() == kIface && m.force(e.fr, fv.get()).t == nil {
			continue
		}
		e.attr(&st, cname(f.xmlns, f.name), fv)
	}
	if ti.xmlname != nil && isEmptyTerm(st.name.space) && ti.xmlname.xmlns == "" && ti.xmlname.name == "" && len(e.tags) != 0 && !isEmptyTerm(e.tags[len(e.tags)-1].space) {
		st.attr = append(st.attr, xattr{cname("", "xmlns"), mkStr("")})
	}
	e.writeStart(&st)
	if k == kStruct {
		e.structure(ti, v)
	} else {
		e.escape(e.simple(v))
	}
	e.writeEnd(st.name)
}

func xmlEmpty(m *Machine, fr *Frame, v *RV) *Term {
	if v.kind() == kTime || v.kind() == kStruct {
		return tFalse
	}
	return isEmptyT(m, fr, v)
}

func (e *xenc) attr(st *xstart, n xname, v *RV) {
	m := e.m
	if t, x, ok := m.withMethod(v, "MarshalXMLAttr", 1, 2); ok {
		r := m.callMethod(e.fr, t, x, "MarshalXMLAttr", m.nameVal(n)).(Tuple)
		if er := m.force(e.fr, r[1]); er.t != nil {
			panic(xerr{er})
		}
		a := r[0].(*Struct)
		an := nameOf(a.f[0].v)
		if !isEmptyTerm(an.local) {
			st.attr = append(st.attr, xattr{an, tm(a.f[1].v)})
		}
		return
	}
	if t, x, ok := m.withMethod(v, "MarshalText", 0, 2); ok && !(kindOf(t) == kPtr && v.kind() == kPtr && v.isNil()) {
		st.attr = append(st.attr, xattr{n, e.textOf(t, x)})
		return
	}
	if v.kind() == kPtr || v.kind() == kIface {
		if v.isNil() {
			return
		}
		v = m.rvElem(e.fr, v)
	}
	if v.kind() == kSlice && !isByteSlice(v.t) {
		for i := 0; i < v.length(); i++ {
			e.attr(st, n, v.index(i))
		}
		return
	}
	st.attr = append(st.attr, xattr{n, e.simple(v)})
}

func (e *xenc) structure(ti *xtype, v *RV) {
	m := e.m
	var stack []string
	trim := func(parents []string) {
		split := 0
		for ; split < len(parents) && split < len(stack); split++ {
			if parents[split] != stack[split] {
				break
			}
		}
		for i := len(stack) - 1; i >= split; i-- {
			e.writeEnd(cname("", stack[i]))
		}
		stack = stack[:split]
	}
	for i := range ti.fields {
		f := &ti.fields[i]
		if f.flags&xAttr != 0 {
			continue
		}
		fv := f.value(v, false)
		if fv.t == nil {
			continue
		}
		switch f.flags & xMode {
		case xCDATA, xCharData:
			if f.flags&xMode == xCDATA {
				panic(unsupported("xml cdata field"))
			}
			trim(f.parents)
			if t, x, ok := m.withMethod(fv, "MarshalText", 0, 2); ok {
				e.escape(e.textOf(t, x))
				continue
			}
			for fv.kind() == kIface || fv.kind() == kPtr {
				if fv.kind() == kIface {
					if m.force(e.fr, fv.get()).t == nil {
						break
					}
				} else if fv.isNil() {
					break
				}
				fv = m.rvElem(e.fr, fv)
			}
			switch fv.kind() {
			case kInt, kUint, kFloat, kBool, kString:
				e.escape(e.simple(fv))
			case kSlice:
				if isByteSlice(fv.t) {
					e.escape(e.simple(fv))
				}
			}
			continue
		case xComment:
			panic(unsupported("xml comment field"))
		case xInnerXML:
			x := fv
			for x.kind() == kIface || x.kind() == kPtr {
				if x.isNil() {
					break
				}
				x = m.rvElem(e.fr, x)
			}
			if x.kind() == kString || isByteSlice(x.t) {
				e.out = append(e.out, e.simple(x))
				continue
			}
		case xElement, xElement | xAny:
			trim(f.parents)
			if len(f.parents) > len(stack) {
				isN := false
				if fv.kind() == kIface {
					isN = m.force(e.fr, fv.get()).t == nil
				} else if fv.kind() == kPtr {
					isN = fv.isNil()
				}
				if !isN {
					for _, p := range f.parents[len(stack):] {
						e.writeStart(&xstart{name: cname("", p)})
					}
					stack = append([]string(nil), f.parents...)
				}
			}
		}
		e.value(fv, f, nil)
	}
	trim(nil)
}

func (e *xenc) encCell() Value {
	if e.cell == nil {
		t := e.m.ex.typ("encoding/xml.Encoder")
		e.cell = &Cell{v: zero(t)}
		e.m.side[e.cell] = e
	}
	return e.cell
}

func (e *xenc) guard(f func()) (err Value) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(xerr); ok {
				err = x.v
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (e *xenc) flush() Value {
	if len(e.out) == 0 || e.w == nil {
		return Iface{}
	}
	t := mkConcat(e.out...)
	e.out = nil
	w := e.m.force(e.fr, e.w)
	r := e.m.callMethod(e.fr, w.t, w.v, "Write", strToBytes(t)).(Tuple)
	return r[1]
}

// ---- decoding ----

type xdec struct {
	m     *Machine
	fr    *Frame
	r     Value // reader, not read yet
	dec   *xml.Decoder
	subs  []*Term
	depth int
	eofs  []int
	inUnm bool
	cell  *Cell
	err   Value
	pre   error // tokeniser failure decided symbolically
}

const xph = "\u00de\u00fe%d\u00fe\u00de"

func (d *xdec) open() {
	if d.dec != nil {
		return
	}
	t, rerr := d.m.readAll(d.fr, d.r)
	if e := d.m.force(d.fr, rerr); e.t != nil {
		d.err = e
	}
	d.openText(t)
}

func (d *xdec) openText(t *Term) {
	m := d.m
	var b strings.Builder
	inTag := false
	var quote byte
	special := false
	for _, p := range parts(t) {
		if p.isConst() {
			for i := 0; i < len(p.s); i++ {
				c := p.s[i]
				switch {
				case quote != 0:
					if c == quote {
						quote = 0
					}
				case inTag:
					if c == '"' || c == '\'' {
						quote = c
					} else if c == '>' {
						inTag = false
					}
				case c == '<':
					inTag = true
					special = i+1 < len(p.s) && (p.s[i+1] == '!' || p.s[i+1] == '?')
				}
			}
			b.WriteString(p.s)
			continue
		}
		src := p
		switch {
		case p.op == OApp && p.s == "xml_esc":
			src = p.args[0]
		case p.op == OItoa, p.op == OUtoa, p.op == OFtoa, p.op == ORfc:
		case p.op == OBlob:
			// a JSON document is never well-formed XML text on its own
			if strings.TrimSpace(b.String()) == "" {
				b.WriteString("{}")
				continue
			}
			panic(unsupported("document inside XML"))
		case inTag && quote == 0 && p.op == OVar && m.identVar(p):
			// letters and digits: a name, unless a digit comes first
			if strings.HasSuffix(b.String(), "<") && !m.branch(mkInRe(p, "nodigit")) {
				b.WriteString("0")
				continue
			}
		case inTag && quote == 0:
			if !m.branch(mkInRe(p, "name")) {
				panic(unsupported("symbolic markup"))
			}
		case p.op == OVar && m.identVar(p):
		default:
			if !m.branch(mkInRe(p, "xmlplain")) {
				if strings.TrimSpace(b.String()) == "" {
					// an arbitrary text outside any element; only texts without markup are followed
					panic(unsupported("symbolic XML document"))
				}
				panic(unsupported("symbolic markup in XML text"))
			}
		}
		if special && inTag {
			panic(unsupported("symbolic text in an XML declaration"))
		}
		b.WriteString(fmt.Sprintf(xph, len(d.subs)))
		d.subs = append(d.subs, src)
	}
	d.dec = xml.NewDecoder(strings.NewReader(b.String()))
}

func (d *xdec) sub(s string) *Term {
	if len(d.subs) == 0 || !strings.Contains(s, "\u00de\u00fe") {
		return mkStr(s)
	}
	var out []*Term
	for {
		i := strings.Index(s, "\u00de\u00fe")
		if i < 0 {
			break
		}
		j := strings.Index(s[i:], "\u00fe\u00de")
		if j < 0 {
			break
		}
		k, err := strconv.Atoi(s[i+4 : i+j])
		if err != nil || k >= len(d.subs) {
			break
		}
		out = append(out, mkStr(s[:i]), d.subs[k])
		s = s[i+j+4:]
	}
	out = append(out, mkStr(s))
	return mkConcat(out...)
}

func (d *xdec) name(n xml.Name) xname { return xname{d.sub(n.Space), d.sub(n.Local)} }

type xtok struct {
	start *xstart
	end   *xname
	char  *Term
	other xml.Token
}

func (d *xdec) eof() Value { return d.m.global(d.fr, d.m.ex.ioEOF).v }

func (d *xdec) token() (xtok, Value) {
	d.open()
	if n := len(d.eofs); n > 0 && d.depth == d.eofs[n-1] {
		return xtok{}, d.eof()
	}
	t, err := d.dec.Token()
	if err != nil {
		if err == io.EOF {
			if d.err != nil {
				return xtok{}, d.err
			}
			return xtok{}, d.eof()
		}
		if d.err != nil {
			return xtok{}, d.err
		}
		if se, ok := err.(*xml.SyntaxError); ok {
			st := d.m.ex.typ("encoding/xml.SyntaxError")
			return xtok{}, d.m.errOf(st, err.Error(), func(c *Cell, t types.Type) {
				fieldByName(c, t, "Msg").v = mkStr(se.Msg)
				fieldByName(c, t, "Line").v = mkInt(int64(se.Line))
			})
		}
		return xtok{}, d.m.newError(err.Error())
	}
	switch x := t.(type) {
	case xml.StartElement:
		d.depth++
		s := &xstart{name: d.name(x.Name)}
		for _, a := range x.Attr {
			s.attr = append(s.attr, xattr{d.name(a.Name), d.sub(a.Value)})
		}
		return xtok{start: s}, nil
	case xml.EndElement:
		d.depth--
		n := d.name(x.Name)
		return xtok{end: &n}, nil
	case xml.CharData:
		return xtok{char: d.sub(string(x))}, nil
	}
	return xtok{other: xml.CopyToken(t)}, nil
}

func (d *xdec) must(t xtok, err Value) xtok {
	if err != nil {
		panic(xerr{err})
	}
	return t
}

func (d *xdec) skip() {
	depth := 0
	for {
		t := d.must(d.token())
		if t.start != nil {
			depth++
		} else if t.end != nil {
			if depth == 0 {
				return
			}
			depth--
		}
	}
}

func (d *xdec) decCell() Value {
	if d.cell == nil {
		d.cell = &Cell{v: zero(d.m.ex.typ("encoding/xml.Decoder"))}
		d.m.side[d.cell] = d
	}
	return d.cell
}

func (d *xdec) fail(s string) { panic(xerr{d.m.newError(s)}) }

// decodeElement is (*Decoder).DecodeElement.
func (d *xdec) decodeElement(target Value, start *xstart) (res Value) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(xerr); ok {
				res = x.v
				return
			}
			panic(r)
		}
	}()
	i := d.m.force(d.fr, target)
	if i.t == nil || kindOf(i.t) != kPtr {
		return d.m.newError("non-pointer passed to Unmarshal")
	}
	c := i.v.(*Cell)
	if c == nil {
		return d.m.newError("nil pointer passed to Unmarshal")
	}
	d.unmarshal(rvCell(elemType(i.t), c), start)
	return Iface{}
}

func (d *xdec) unmarshal(v *RV, start *xstart) {
	m := d.m
	if start == nil {
		for {
			t := d.must(d.token())
			if t.start != nil {
				start = t.start
				break
			}
		}
	}
	if v.kind() == kIface {
		if i := m.force(d.fr, v.get()); i.t != nil && kindOf(i.t) == kPtr {
			if c := i.v.(*Cell); c != nil {
				v = &RV{t: i.t, v: i.v}
			}
		}
	}
	if v.kind() == kPtr {
		if v.isNil() {
			v.set(&Cell{v: zero(elemType(v.t))})
		}
		v = rvCell(elemType(v.t), v.get().(*Cell))
	}
	if t, x, ok := m.withMethod(v, "UnmarshalXML", 2, 1); ok {
		d.eofs = append(d.eofs, d.depth-1)
		r := m.force(d.fr, m.callMethod(d.fr, t, x, "UnmarshalXML", d.decCell(), m.startVal(*start)))
		base := d.eofs[len(d.eofs)-1]
		d.eofs = d.eofs[:len(d.eofs)-1]
		if r.t != nil {
			panic(xerr{r})
		}
		if d.depth != base {
			d.fail("xml: " + typeStr(t) + ".UnmarshalXML did not consume entire <" + showTerm(start.name.local) + "> element")
		}
		return
	}
	if t, x, ok := m.withMethod(v, "UnmarshalText", 1, 1); ok {
		var buf []*Term
		depth := 1
		for depth > 0 {
			tk := d.must(d.token())
			switch {
			case tk.char != nil:
				if depth == 1 {
					buf = append(buf, tk.char)
				}
			case tk.start != nil:
				depth++
			case tk.end != nil:
				depth--
			}
		}
		if r := m.force(d.fr, m.callMethod(d.fr, t, x, "UnmarshalText", strToBytes(mkConcat(buf...)))); r.t != nil {
			panic(xerr{r})
		}
		return
	}
	var data []*Term
	var saveData, saveAny, sv *RV
	var ti *xtype
	switch v.kind() {
	case kIface:
		d.skip()
		return
	case kSlice:
		if isByteSlice(v.t) {
			saveData = v
			break
		}
		s := v.get().(Slice)
		et := elemType(v.t)
		c := make([]Cell, len(s.c)+1)
		for i := range s.c {
			c[i].v = s.c[i].v
		}
		c[len(s.c)].v = zero(et)
		d.unmarshal(rvCell(et, &c[len(s.c)]), start)
		v.set(Slice{c: c})
		return
	case kBool, kInt, kUint, kFloat, kString:
		saveData = v
	case kStruct:
		if isXMLName(v.t) {
			v.set(m.nameVal(start.name))
			break
		}
		sv = v
		ti = xmlTypeInfo(v.t)
		if ti.err != "" {
			d.fail(ti.err)
		}
		if x := ti.xmlname; x != nil {
			if x.name != "" && !m.branch(mkEq(start.name.local, mkStr(x.name))) {
				d.fail2("expected element type <" + x.name + "> but have <" + showTerm(start.name.local) + ">")
			}
			if x.xmlns != "" && !m.branch(mkEq(start.name.space, mkStr(x.xmlns))) {
				e := "expected element <" + x.name + "> in name space " + x.xmlns + " but have "
				if isEmptyTerm(start.name.space) {
					e += "no name space"
				} else {
					e += showTerm(start.name.space)
				}
				d.fail2(e)
			}
			fv := x.value(sv, true)
			if isXMLName(fv.t) {
				fv.set(m.nameVal(start.name))
			}
		}
		for _, a := range start.attr {
			handled := false
			any := -1
			for i := range ti.fields {
				f := &ti.fields[i]
				switch f.flags & xMode {
				case xAttr:
					fv := f.value(sv, true)
					if m.branch(mkEq(a.name.local, mkStr(f.name))) && (f.xmlns == "" || m.branch(mkEq(a.name.space, mkStr(f.xmlns)))) {
						d.attr(fv, a)
						handled = true
					}
				case xAny | xAttr:
					if any == -1 {
						any = i
					}
				}
			}
			if !handled && any >= 0 {
				d.attr(ti.fields[any].value(sv, true), a)
			}
		}
		for i := range ti.fields {
			f := &ti.fields[i]
			switch f.flags & xMode {
			case xCDATA, xCharData:
				if saveData == nil {
					saveData = f.value(sv, true)
				}
			case xAny, xAny | xElement:
				if saveAny == nil {
					saveAny = f.value(sv, true)
				}
			case xComment, xInnerXML:
				panic(unsupported("xml comment or innerxml field"))
			}
		}
	default:
		d.fail("unknown type " + typeStr(v.t))
	}
loop:
	for {
		t := d.must(d.token())
		switch {
		case t.start != nil:
			consumed := false
			if sv != nil {
				consumed = d.path(ti, sv, nil, t.start)
				if !consumed && saveAny != nil {
					consumed = true
					d.unmarshal(saveAny, t.start)
				}
			}
			if !consumed {
				d.skip()
			}
		case t.end != nil:
			break loop
		case t.char != nil:
			if saveData != nil {
				data = append(data, t.char)
			}
		}
	}
	if saveData == nil {
		return
	}
	txt := mkConcat(data...)
	if t, x, ok := m.withMethod(saveData, "UnmarshalText", 1, 1); ok {
		if r := m.force(d.fr, m.callMethod(d.fr, t, x, "UnmarshalText", strToBytes(txt))); r.t != nil {
			panic(xerr{r})
		}
		return
	}
	d.copyValue(saveData, txt)
}

func (d *xdec) fail2(s string) {
	t := d.m.ex.typ("encoding/xml.UnmarshalError")
	panic(xerr{Iface{t: t, v: mkStr(s)}})
}

func (d *xdec) attr(v *RV, a xattr) {
	m := d.m
	if v.kind() == kPtr {
		if v.isNil() {
			v.set(&Cell{v: zero(elemType(v.t))})
		}
		v = rvCell(elemType(v.t), v.get().(*Cell))
	}
	if t, x, ok := m.withMethod(v, "UnmarshalXMLAttr", 1, 1); ok {
		av := &Struct{f: make([]Cell, 2)}
		av.f[0].v, av.f[1].v = m.nameVal(a.name), a.val
		if r := m.force(d.fr, m.callMethod(d.fr, t, x, "UnmarshalXMLAttr", av)); r.t != nil {
			panic(xerr{r})
		}
		return
	}
	if t, x, ok := m.withMethod(v, "UnmarshalText", 1, 1); ok {
		if r := m.force(d.fr, m.callMethod(d.fr, t, x, "UnmarshalText", strToBytes(a.val))); r.t != nil {
			panic(xerr{r})
		}
		return
	}
	if v.kind() == kSlice && !isByteSlice(v.t) {
		s := v.get().(Slice)
		et := elemType(v.t)
		c := make([]Cell, len(s.c)+1)
		for i := range s.c {
			c[i].v = s.c[i].v
		}
		c[len(s.c)].v = zero(et)
		d.attr(rvCell(et, &c[len(s.c)]), a)
		v.set(Slice{c: c})
		return
	}
	if typeName(v.t) == "encoding/xml.Attr" {
		av := &Struct{f: make([]Cell, 2)}
		av.f[0].v, av.f[1].v = m.nameVal(a.name), a.val
		v.set(av)
		return
	}
	d.copyValue(v, a.val)
}

func (d *xdec) copyValue(v *RV, src *Term) {
	m := d.m
	v0 := v
	if v.kind() == kPtr {
		if v.isNil() {
			v.set(&Cell{v: zero(elemType(v.t))})
		}
		v = rvCell(elemType(v.t), v.get().(*Cell))
	}
	k := v.kind()
	switch k {
	case kInt, kUint, kFloat, kBool:
		if m.branch(mkEq(src, mkStr(""))) {
			v.set(zero(v.t))
			return
		}
		s := m.trimSym(d.fr, src)
		b := v.t.Underlying().(*types.Basic)
		switch k {
		case kInt, kUint:
			w, _ := basicWidth(b)
			x, ok := m.parseIntSym(d.fr, s, w)
			if k == kUint && ok && m.branch(mkBin(OSlt, x, mkInt(0))) {
				ok = false
			}
			if !ok {
				panic(xerr{m.numError("ParseInt", s)})
			}
			v.set(mkTrunc(x, w))
		case kFloat:
			x, ok := m.parseFloatSym(d.fr, s)
			if !ok {
				panic(xerr{m.numError("ParseFloat", s)})
			}
			v.set(x)
		case kBool:
			x, ok := m.parseBoolSym(d.fr, s)
			if !ok {
				panic(xerr{m.numError("ParseBool", s)})
			}
			v.set(x)
		}
	case kString:
		v.set(src)
	case kSlice:
		v.set(strToBytes(src))
	default:
		d.fail("cannot unmarshal into " + typeStr(v0.t))
	}
}

func (d *xdec) path(ti *xtype, sv *RV, parents []string, start *xstart) bool {
	m := d.m
	recurse := false
loop:
	for i := range ti.fields {
		f := &ti.fields[i]
		if f.flags&xElement == 0 || len(f.parents) < len(parents) || f.xmlns != "" && !m.branch(mkEq(start.name.space, mkStr(f.xmlns))) {
			continue
		}
		for j := range parents {
			if parents[j] != f.parents[j] {
				continue loop
			}
		}
		if len(f.parents) == len(parents) && m.branch(mkEq(start.name.local, mkStr(f.name))) {
			d.unmarshal(f.value(sv, true), start)
			return true
		}
		if len(f.parents) > len(parents) && m.branch(mkEq(start.name.local, mkStr(f.parents[len(parents)]))) {
			recurse = true
			parents = f.parents[:len(parents)+1]
			break
		}
	}
	if !recurse {
		return false
	}
	for {
		t := d.must(d.token())
		if t.start != nil {
			if !d.path(ti, sv, parents, t.start) {
				d.skip()
			}
		} else if t.end != nil {
			return true
		}
	}
}

func init() {
	reg("encoding/xml.Marshal|encoding/xml.MarshalIndent", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		e := &xenc{m: fr.m, fr: fr}
		i := fr.m.force(fr, a[0])
		if err := e.guard(func() { e.value(&RV{t: i.t, v: i.v}, nil, nil) }); err != nil {
			return Tuple{Slice{isNil: true}, err}
		}
		return Tuple{strToBytes(mkConcat(e.out...)), Iface{}}
	})
	reg("encoding/xml.NewEncoder", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		e := &xenc{m: fr.m, fr: fr, w: a[0]}
		return e.encCell()
	})
	enc := func(fr *Frame, v Value) *xenc {
		e, ok := fr.m.side[fr.ptr(v)].(*xenc)
		if !ok {
			panic(unsupported("xml.Encoder"))
		}
		return e
	}
	reg("(*encoding/xml.Encoder).Indent", nop)
	reg("(*encoding/xml.Encoder).Encode", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		e := enc(fr, a[0])
		i := fr.m.force(fr, a[1])
		if err := e.guard(func() { e.value(&RV{t: i.t, v: i.v}, nil, nil) }); err != nil {
			return err
		}
		e.fr = fr
		return e.flush()
	})
	reg("(*encoding/xml.Encoder).EncodeElement", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		e := enc(fr, a[0])
		i := fr.m.force(fr, a[1])
		st := startOf(a[2])
		if err := e.guard(func() { e.value(&RV{t: i.t, v: i.v}, nil, &st) }); err != nil {
			return err
		}
		return e.flush()
	})
	reg("(*encoding/xml.Encoder).EncodeToken", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		e := enc(fr, a[0])
		i := fr.m.force(fr, a[1])
		err := e.guard(func() {
			switch typeName(i.t) {
			case "encoding/xml.StartElement":
				st := startOf(i.v)
				e.writeStart(&st)
			case "encoding/xml.EndElement":
				e.writeEnd(nameOf(i.v.(*Struct).f[0].v))
			case "encoding/xml.CharData":
				e.escape(bytesToStr(i.v.(Slice).c))
			case "encoding/xml.ProcInst":
				s := i.v.(*Struct)
				e.out = append(e.out, mkStr("<?"), tm(s.f[0].v), mkStr(" "), bytesToStr(s.f[1].v.(Slice).c), mkStr("?>"))
			default:
				e.fail("xml: EncodeToken of invalid token type")
			}
		})
		if err != nil {
			return err
		}
		return Iface{}
	})
	reg("(*encoding/xml.Encoder).Flush|(*encoding/xml.Encoder).Close", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		e := enc(fr, a[0])
		e.fr = fr
		return e.flush()
	})
	reg("encoding/xml.EscapeText|encoding/xml.Escape", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		e := &xenc{m: fr.m, fr: fr}
		e.escape(bytesToStr(a[1].(Slice).c))
		w := fr.m.force(fr, a[0])
		r := fr.m.callMethod(fr, w.t, w.v, "Write", strToBytes(mkConcat(e.out...))).(Tuple)
		return r[1]
	})
	reg("encoding/xml.Unmarshal", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		d := &xdec{m: fr.m, fr: fr}
		d.openText(bytesToStr(a[0].(Slice).c))
		return d.decodeElement(a[1], nil)
	})
	reg("encoding/xml.NewDecoder", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		d := &xdec{m: fr.m, fr: fr, r: a[0]}
		return d.decCell()
	})
	dec := func(fr *Frame, v Value) *xdec {
		d, ok := fr.m.side[fr.ptr(v)].(*xdec)
		if !ok {
			panic(unsupported("xml.Decoder"))
		}
		return d
	}
	reg("(*encoding/xml.Decoder).Decode", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return dec(fr, a[0]).decodeElement(a[1], nil)
	})
	reg("(*encoding/xml.Decoder).DecodeElement", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		c, _ := a[2].(*Cell)
		if c == nil {
			return dec(fr, a[0]).decodeElement(a[1], nil)
		}
		st := startOf(c.v)
		return dec(fr, a[0]).decodeElement(a[1], &st)
	})
	reg("(*encoding/xml.Decoder).Skip", func(fr *Frame, fn *ssa.Function, a []Value) (res Value) {
		d := dec(fr, a[0])
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(xerr); ok {
					res = x.v
					return
				}
				panic(r)
			}
		}()
		d.skip()
		return Iface{}
	})
	reg("(*encoding/xml.Decoder).Token", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		d := dec(fr, a[0])
		t, err := d.token()
		if err != nil {
			return Tuple{Iface{}, err}
		}
		mk := func(n string, v Value) Value { return Tuple{Iface{t: m.ex.typ("encoding/xml." + n), v: v}, Iface{}} }
		switch {
		case t.start != nil:
			return mk("StartElement", m.startVal(*t.start))
		case t.end != nil:
			s := &Struct{f: make([]Cell, 1)}
			s.f[0].v = m.nameVal(*t.end)
			return mk("EndElement", s)
		case t.char != nil:
			return mk("CharData", strToBytes(t.char))
		}
		switch x := t.other.(type) {
		case xml.Comment:
			return mk("Comment", strToBytes(mkStr(string(x))))
		case xml.Directive:
			return mk("Directive", strToBytes(mkStr(string(x))))
		case xml.ProcInst:
			s := &Struct{f: make([]Cell, 2)}
			s.f[0].v, s.f[1].v = mkStr(x.Target), strToBytes(mkStr(string(x.Inst)))
			return mk("ProcInst", s)
		}
		panic(unsupported("xml token"))
	})
	reg("(*encoding/xml.Decoder).InputOffset", func(fr *Frame, fn *ssa.Function, a []Value) Value { return mkInt(0) })
}
