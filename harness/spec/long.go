package spec

import (
	"strings"

	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// Long is s itself, or s after a text longer than any limit one would think of.
func Long(s string) string {
	if vp.Choice("long", 2) == 1 {
		return strings.Repeat("0123456789", 60) + s
	}
	return s
}
