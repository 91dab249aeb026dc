// Package spec holds what the OCPP specifications say about the messages, independently of the code under check.
package spec

import (
	"reflect"

	"github.com/voltbras/go-ocpp/messages"
)

// Field is one field of a message or nested object in the OCPP 1.6 schema.
type Field struct {
	Name, Go, Type string // Type: string, time, integer, number, boolean, object, objects, strings
	Req            bool
	Sub            []Field
}

// Msg is one OCPP operation.
type Msg struct {
	Action  string
	FromCP  bool // sent by charge points
	V15     bool // exists in OCPP 1.5
	Table   bool // named by an action (DataTransfer is not: both sides send it)
	New     func() messages.Request
	NewResp func() messages.Response
	Req     []Field
	Resp    []Field
	XReq    []XField // OCPP 1.5
	XResp   []XField
}

// SameType reports whether two messages have the same dynamic type.
func SameType(a, b interface{}) bool { return reflect.TypeOf(a) == reflect.TypeOf(b) }

// Optional lists the Go paths of the optional fields for vp.Fill.
func Optional(fs []Field) string { return ";" + optional(fs, "") }

func optional(fs []Field, prefix string) string {
	s := ""
	for _, f := range fs {
		if !f.Req {
			s += prefix + f.Go + ";"
		}
		if f.Sub != nil {
			s += optional(f.Sub, prefix+f.Go+".")
		}
	}
	return s
}

// Paths lists the Go paths of all fields.
func Paths(fs []Field) []string { return paths(fs, "") }

func paths(fs []Field, prefix string) []string {
	var out []string
	for _, f := range fs {
		out = append(out, prefix+f.Go)
		if f.Sub != nil {
			out = append(out, paths(f.Sub, prefix+f.Go+".")...)
		}
	}
	return out
}
