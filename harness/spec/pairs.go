package spec

import (
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// Pair picks two of the paths.
func Pair(paths []string) string {
	vp.Assume(len(paths) > 1)
	j := 1 + vp.Choice("second", len(paths)-1)
	return paths[vp.Choice("first", j)] + "," + paths[j]
}

// Lists lists the paths of the fields that hold several values.
func Lists(fs []Field) []string { return lists(fs, "") }

func lists(fs []Field, prefix string) []string {
	var out []string
	for _, f := range fs {
		if f.Type == "objects" || f.Type == "strings" {
			out = append(out, prefix+f.Go)
		}
		if f.Sub != nil {
			out = append(out, lists(f.Sub, prefix+f.Go+".")...)
		}
	}
	return out
}

// Length picks the length of a long list.
func Length() string {
	return []string{"*3", "*17", "*33", "*65"}[vp.Choice("length", 4)]
}

// XLists lists the paths of the fields that hold several values in OCPP 1.5.
func XLists(fs []XField) []string { return xlists(fs, "") }

func xlists(fs []XField, prefix string) []string {
	var out []string
	for _, f := range fs {
		switch {
		case f.Go == "":
			continue
		case f.Type == "group":
			out = append(out, xlists(f.Sub, prefix)...)
			continue
		case f.Many:
			out = append(out, prefix+f.Go)
		}
		out = append(out, xlists(f.Sub, prefix+f.Go+".")...)
	}
	return out
}
