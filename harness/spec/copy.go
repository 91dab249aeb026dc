package spec

import (
	"reflect"
	"time"
)

// Copy copies a message with all it holds.
func Copy(m interface{}) interface{} {
	v := reflect.ValueOf(m)
	c := reflect.New(v.Type()).Elem()
	copyTo(c, v)
	return c.Interface()
}

func copyTo(to, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			to.Set(reflect.New(v.Type().Elem()))
			copyTo(to.Elem(), v.Elem())
		}
	case reflect.Slice:
		if !v.IsNil() {
			to.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				copyTo(to.Index(i), v.Index(i))
			}
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			to.Set(v)
			return
		}
		for i := 0; i < v.NumField(); i++ {
			copyTo(to.Field(i), v.Field(i))
		}
	default:
		to.Set(v)
	}
}

// Scramble changes everything a message holds.
func Scramble(m interface{}) { scramble(reflect.ValueOf(m).Elem()) }

func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			v.Set(reflect.ValueOf(time.Unix(86400, 0).UTC()))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name != "XMLName" {
				scramble(v.Field(i))
			}
		}
	case reflect.String:
		v.SetString("scrambled")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(7)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(7)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	}
}
