package spec

import (
	"encoding/json"
	"reflect"
	"time"
)

func deref(v reflect.Value) reflect.Value {
	if v.Kind() == reflect.Ptr {
		return v.Elem()
	}
	return v
}

// Unset reports whether the caller left a field unset.
func Unset(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr:
		return v.IsNil()
	case reflect.Slice:
		return v.IsNil()
	case reflect.String:
		return v.String() == ""
	case reflect.Bool:
		return !v.Bool()
	case reflect.Int, reflect.Int32, reflect.Int64:
		return v.Int() == 0
	case reflect.Float64:
		return v.Float() == 0
	}
	if t, ok := v.Interface().(time.Time); ok {
		return t.IsZero()
	}
	return false
}

// Doc is the JSON document the schema prescribes for a message or nested object, built without the repository's encoders.
func Doc(fs []Field, v reflect.Value) map[string]interface{} {
	v = deref(v)
	out := map[string]interface{}{}
	for _, f := range fs {
		x := v.FieldByName(f.Go)
		if !f.Req && Unset(x) {
			continue
		}
		out[f.Name] = docValue(f, x)
	}
	return out
}

func docValue(f Field, x reflect.Value) interface{} {
	x = deref(x)
	switch f.Type {
	case "string":
		return x.String()
	case "time":
		return x.Interface().(time.Time).Format(time.RFC3339)
	case "integer":
		return x.Int()
	case "number":
		return x.Float()
	case "boolean":
		return x.Bool()
	case "object":
		return Doc(f.Sub, x)
	}
	l := []interface{}{}
	for i := 0; i < x.Len(); i++ {
		if f.Type == "strings" {
			l = append(l, x.Index(i).String())
		} else {
			l = append(l, Doc(f.Sub, x.Index(i)))
		}
	}
	return l
}

// Conforms compares an encoded message with the schema and the message; it returns what is wrong.
func Conforms(fs []Field, raw []byte, v reflect.Value) string {
	v = deref(v)
	var doc map[string]json.RawMessage
	if json.Unmarshal(raw, &doc) != nil || doc == nil {
		return "an object is encoded as something else"
	}
	known := 0
	for _, f := range fs {
		r, ok := doc[f.Name]
		x := v.FieldByName(f.Go)
		if !ok {
			if f.Req {
				return "a required field is missing"
			}
			if !Unset(x) && !(x.Kind() == reflect.Slice && x.Len() == 0) {
				return "an optional field that is set is missing"
			}
			continue
		}
		known++
		if !f.Req && Unset(x) {
			return "an optional field that is not set appears"
		}
		if s := conforms(f, r, deref(x)); s != "" {
			return s
		}
	}
	if known != len(doc) {
		return "a field that the schema does not define appears"
	}
	return ""
}

func conforms(f Field, raw json.RawMessage, x reflect.Value) string {
	const other, wrong = "a field does not have the schema's type", "a field does not have the value of the message field"
	if f.Type == "object" {
		return Conforms(f.Sub, raw, x)
	}
	var v interface{}
	if json.Unmarshal(raw, &v) != nil {
		return other
	}
	switch f.Type {
	case "string":
		s, ok := v.(string)
		if !ok {
			return other
		}
		if s != x.String() {
			return wrong
		}
	case "time":
		s, ok := v.(string)
		if !ok {
			return other
		}
		t, err := time.Parse(time.RFC3339, s)
		if err != nil {
			return "an instant is not in RFC 3339 form"
		}
		if t.Unix() != x.Interface().(time.Time).Unix() {
			return wrong
		}
	case "integer":
		n, ok := v.(float64)
		if !ok {
			return other
		}
		if n != float64(x.Int()) {
			return wrong
		}
	case "number":
		n, ok := v.(float64)
		if !ok {
			return other
		}
		if n != x.Float() {
			return wrong
		}
	case "boolean":
		b, ok := v.(bool)
		if !ok {
			return other
		}
		if b != x.Bool() {
			return wrong
		}
	default:
		var l []json.RawMessage
		if json.Unmarshal(raw, &l) != nil || l == nil {
			return other
		}
		if len(l) != x.Len() {
			return wrong
		}
		for i := range l {
			if f.Type == "strings" {
				var s string
				if json.Unmarshal(l[i], &s) != nil {
					return other
				}
				if s != x.Index(i).String() {
					return wrong
				}
			} else if s := Conforms(f.Sub, l[i], x.Index(i)); s != "" {
				return s
			}
		}
	}
	return ""
}

// Side is one message type: the request or the response of an operation.
type Side struct {
	Msg
	Resp   bool
	Fields []Field
}

// Make makes an empty message.
func (s Side) Make() interface{} {
	if s.Resp {
		return s.NewResp()
	}
	return s.New()
}

// Sides are all message types.
func Sides() []Side {
	var out []Side
	for _, m := range Msgs {
		out = append(out, Side{m, false, m.Req}, Side{m, true, m.Resp})
	}
	return out
}

// At finds the object that holds a field (given by the Go path of the field) in a document made by Doc, and the field.
func At(fs []Field, doc map[string]interface{}, path string) (map[string]interface{}, Field) {
	for i := 0; i < len(path); i++ {
		if path[i] == '.' {
			f := byGo(fs, path[:i])
			var sub map[string]interface{}
			switch v := doc[f.Name].(type) {
			case map[string]interface{}:
				sub = v
			case []interface{}:
				sub = v[0].(map[string]interface{})
			}
			return At(f.Sub, sub, path[i+1:])
		}
	}
	return doc, byGo(fs, path)
}

func byGo(fs []Field, name string) Field {
	for _, f := range fs {
		if f.Go == name {
			return f
		}
	}
	panic("no field " + name)
}
