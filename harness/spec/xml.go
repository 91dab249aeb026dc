package spec

import (
	"bytes"
	"encoding/xml"
	"io"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// XField is one element or attribute of a message in the OCPP 1.5 WSDL. Type is string, time, integer, boolean, object or group
// (an element that only groups others). Go is empty if the message type has no field for it.
type XField struct {
	Name, Go, Type string
	Req, Many      bool
	Attr, Text     bool
	Sub            []XField
}

// NS is the namespace of the service a message belongs to.
func (m Msg) NS() string {
	if m.FromCP {
		return "urn://Ocpp/Cs/2012/06/"
	}
	return "urn://Ocpp/Cp/2012/06/"
}

// Element is the name of the element of a message.
func (s Side) Element() string {
	n := strings.ToLower(s.Action[:1]) + s.Action[1:]
	if s.Resp {
		return n + "Response"
	}
	return n + "Request"
}

// XFields are the elements of a message in OCPP 1.5.
func (s Side) XFields() []XField {
	if s.Resp {
		return s.XResp
	}
	return s.XReq
}

// Sides15 are the message types of OCPP 1.5.
func Sides15() []Side {
	var out []Side
	for _, s := range Sides() {
		if s.V15 {
			out = append(out, s)
		}
	}
	return out
}

// XPaths lists the Go paths of the fields that OCPP 1.5 has.
func XPaths(fs []XField) []string { return xpaths(fs, "") }

func xpaths(fs []XField, prefix string) []string {
	var out []string
	for _, f := range fs {
		if f.Go == "" {
			continue
		}
		if f.Type == "group" {
			out = append(out, xpaths(f.Sub, prefix)...)
			continue
		}
		out = append(out, prefix+f.Go)
		if f.Sub != nil {
			out = append(out, xpaths(f.Sub, prefix+f.Go+".")...)
		}
	}
	return out
}

// Node is an XML element.
type Node struct {
	Space, Name string
	Attrs       []xml.Attr
	Kids        []*Node
	Text        string
}

// Parse reads an XML document; nil if it is none.
func Parse(doc string) *Node {
	d := xml.NewDecoder(bytes.NewReader([]byte(doc)))
	root := &Node{}
	stack := []*Node{root}
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil
		}
		top := stack[len(stack)-1]
		switch x := t.(type) {
		case xml.StartElement:
			n := &Node{Space: x.Name.Space, Name: x.Name.Local}
			for _, a := range x.Attr {
				if a.Name.Space != "xmlns" && a.Name.Local != "xmlns" {
					n.Attrs = append(n.Attrs, a)
				}
			}
			top.Kids = append(top.Kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			top.Text += string(x)
		}
	}
	if len(stack) != 1 || len(root.Kids) != 1 {
		return nil
	}
	return root.Kids[0]
}

// Kid returns the only child of that name.
func (n *Node) Kid(name string) *Node {
	var found *Node
	for _, k := range n.Kids {
		if k.Name == name {
			if found != nil {
				return nil
			}
			found = k
		}
	}
	return found
}

// SoapNS is the namespace of SOAP 1.2 envelopes.
const SoapNS = "http://www.w3.org/2003/05/soap-envelope"

// Body returns what stands in the body of an envelope.
func Body(doc string) (*Node, string) {
	n := Parse(doc)
	if n == nil {
		return nil, "an envelope is no XML document"
	}
	if n.Name != "Envelope" || n.Space != SoapNS {
		return nil, "the document is no SOAP 1.2 envelope"
	}
	b := n.Kid("Body")
	if b == nil || b.Space != SoapNS {
		return nil, "an envelope does not hold one body"
	}
	if len(b.Kids) != 1 {
		return nil, "a body does not hold one element"
	}
	return b.Kids[0], ""
}

// XConforms compares the element of a message with the WSDL and the message; it returns what is wrong.
func XConforms(s Side, n *Node, m interface{}) string {
	if n.Name != s.Element() {
		return "a message has another element than the WSDL's"
	}
	if n.Space != s.NS() {
		return "a message is in another namespace than the WSDL's"
	}
	if len(n.Attrs) != 0 {
		return "a message has attributes"
	}
	return xconforms(s.XFields(), n, reflect.ValueOf(m), s.NS())
}

func xconforms(fs []XField, n *Node, v reflect.Value, ns string) string {
	v = deref(v)
	known, attrs := 0, 0
	for _, f := range fs {
		if f.Text {
			if n.Text != v.FieldByName(f.Go).String() {
				return "an element does not hold the value of the message field"
			}
			continue
		}
		if f.Attr {
			x := v.FieldByName(f.Go)
			found := false
			for _, a := range n.Attrs {
				if a.Name.Local == f.Name && a.Name.Space == "" {
					found = true
					attrs++
					if a.Value != x.String() {
						return "an attribute does not hold the value of the message field"
					}
				}
			}
			if !found && (f.Req || !Unset(x)) {
				return "an attribute is missing"
			}
			continue
		}
		var kids []*Node
		for _, k := range n.Kids {
			if k.Name == f.Name {
				if k.Space != ns {
					return "an element is in another namespace than the WSDL's"
				}
				kids = append(kids, k)
			}
		}
		known += len(kids)
		if f.Req && len(kids) == 0 && !(f.Many && v.FieldByName(f.Go).Len() == 0) {
			return "a required element is missing"
		}
		if !f.Many && len(kids) > 1 {
			return "an element appears more than once"
		}
		if f.Go == "" {
			if len(kids) != 0 {
				return "an element without a message field appears"
			}
			continue
		}
		if f.Type == "group" {
			all := &Node{}
			for _, k := range kids {
				all.Kids = append(all.Kids, k.Kids...)
			}
			if s := xconforms(f.Sub, all, v, ns); s != "" {
				return s
			}
			continue
		}
		x := v.FieldByName(f.Go)
		if !x.IsValid() {
			return "a message has no field for an element"
		}
		if f.Many {
			if x.Len() != len(kids) {
				return "a list has another length than the message field"
			}
			for i, k := range kids {
				if s := xvalue(f, k, x.Index(i), ns); s != "" {
					return s
				}
			}
			continue
		}
		if len(kids) == 0 {
			if !Unset(x) {
				return "a field that is set is missing"
			}
			continue
		}
		if !f.Req && x.Kind() == reflect.Ptr && x.IsNil() {
			return "an optional element that is not set appears"
		}
		if s := xvalue(f, kids[0], x, ns); s != "" {
			return s
		}
	}
	if known != len(n.Kids) {
		return "an element that the WSDL does not define appears"
	}
	if attrs != len(n.Attrs) {
		return "an attribute that the WSDL does not define appears"
	}
	return ""
}

func xvalue(f XField, n *Node, x reflect.Value, ns string) string {
	const wrong = "an element does not hold the value of the message field"
	x = deref(x)
	switch f.Type {
	case "object":
		return xconforms(f.Sub, n, x, ns)
	case "string":
		if n.Text != x.String() {
			return wrong
		}
	case "boolean":
		if n.Text != strconv.FormatBool(x.Bool()) {
			return wrong
		}
	case "integer":
		if x.Kind() == reflect.Float64 {
			g, err := strconv.ParseFloat(n.Text, 64)
			if err != nil || g != x.Float() {
				return wrong
			}
		} else if n.Text != strconv.FormatInt(x.Int(), 10) {
			return wrong
		}
	case "time":
		t, err := time.Parse(time.RFC3339Nano, n.Text)
		if err != nil {
			return "an instant is not in the form of the WSDL"
		}
		if t.Unix() != x.Interface().(time.Time).Unix() {
			return wrong
		}
	}
	return ""
}

// Strip clears the fields of a message that OCPP 1.5 does not have.
func Strip(fs []XField, v reflect.Value) {
	v = deref(v)
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if sf.PkgPath != "" || sf.Anonymous || sf.Name == "XMLName" {
			continue
		}
		f, ok := xByGo(fs, sf.Name)
		if !ok {
			v.Field(i).Set(reflect.Zero(sf.Type))
			continue
		}
		if f.Sub == nil {
			continue
		}
		x := v.Field(i)
		if x.Kind() == reflect.Slice {
			for j := 0; j < x.Len(); j++ {
				Strip(f.Sub, x.Index(j))
			}
		} else if x.Kind() != reflect.Ptr || !x.IsNil() {
			Strip(f.Sub, x)
		}
	}
}

func xByGo(fs []XField, name string) (XField, bool) {
	for _, f := range fs {
		if f.Type == "group" {
			if g, ok := xByGo(f.Sub, name); ok {
				return g, true
			}
		} else if f.Go == name {
			return f, true
		}
	}
	return XField{}, false
}

// XDoc writes an envelope with a message, using the names of the WSDL and nothing of the repository.
func XDoc(s Side, m interface{}, prefixed bool) string { return XDocWith(s, m, prefixed, "") }

// XDocWith is XDoc with something before the body.
func XDocWith(s Side, m interface{}, prefixed bool, header string) string {
	p, decl := "", " xmlns="+quoted(s.NS())
	if prefixed {
		p, decl = "ocpp:", " xmlns:ocpp="+quoted(s.NS())
	}
	return XEnvelope(header, tag(p+s.Element(), decl, xdoc(s.XFields(), reflect.ValueOf(m), p)+sep()))
}

// XEnvelope writes an envelope.
func XEnvelope(header, body string) string {
	return envelope(header, body)
}

func xdoc(fs []XField, v reflect.Value, p string) string {
	v = deref(v)
	out := ""
	for _, f := range fs {
		if f.Go == "" || f.Attr {
			continue
		}
		if f.Text {
			out += vp.XMLText(v.FieldByName(f.Go).String())
			continue
		}
		if f.Type == "group" {
			// every value in a group of its own
			l := v.FieldByName(f.Sub[0].Go)
			for i := 0; i < l.Len(); i++ {
				out += sep() + tag(p+f.Name, "", xelement(f.Sub[0], l.Index(i), p)+sep())
			}
			continue
		}
		x := v.FieldByName(f.Go)
		if f.Many {
			for i := 0; i < x.Len(); i++ {
				out += xelement(f, x.Index(i), p)
			}
			continue
		}
		if !f.Req && Unset(x) {
			continue
		}
		out += xelement(f, x, p)
	}
	return out
}

func xelement(f XField, x reflect.Value, p string) string {
	x = deref(x)
	text, attrs := "", ""
	switch f.Type {
	case "object":
		for _, a := range f.Sub {
			if !a.Attr {
				continue
			}
			if y := x.FieldByName(a.Go); a.Req || !Unset(y) {
				attrs += " " + a.Name + "=" + quoted(vp.XMLText(y.String()))
			}
		}
		text = xdoc(f.Sub, x, p)
	case "string":
		text = vp.XMLText(x.String())
	case "boolean":
		text = strconv.FormatBool(x.Bool())
	case "integer":
		if x.Kind() == reflect.Float64 {
			text = strconv.FormatFloat(x.Float(), 'f', -1, 64)
		} else {
			text = strconv.FormatInt(x.Int(), 10)
		}
	case "time":
		text = x.Interface().(time.Time).Format(time.RFC3339Nano)
	}
	return sep() + tag(p+f.Name, attrs, text)
}
