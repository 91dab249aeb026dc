package spec

// Style is the way in which XEnvelope and XDoc write documents; all mean the same.
var Style = 0

// Styles is the number of styles.
const Styles = 11

// sep is what stands between two tags.
func sep() string {
	switch Style {
	case 2:
		return "\r\n\t  "
	case 3:
		return "<!-- a <b> & c -->\n"
	case 4:
		return "<?p x?>"
	}
	return ""
}

// tag is a start tag without its attributes.
func tag(name, attrs, text string) string {
	end := ">"
	if Style == 6 {
		end = " >"
	}
	return "<" + name + attrs + end + text + "</" + name + end
}

// quoted is the value of an attribute.
func quoted(s string) string {
	if Style == 5 {
		return "'" + s + "'"
	}
	return `"` + s + `"`
}

// envelope writes an envelope in the style.
func envelope(header, body string) string {
	decl := `<?xml version="1.0" encoding="UTF-8"?>` + "\n"
	p, ns := "soap:", "xmlns:soap"
	switch Style {
	case 1:
		decl = ""
	case 7:
		p, ns = "SOAP-ENV:", "xmlns:SOAP-ENV"
	case 8:
		p, ns = "", "xmlns"
	case 9:
		decl = `<?xml version='1.0' encoding='utf-8' standalone='yes' ?>`
	case 10:
		decl = "\ufeff" + decl
	}
	if header != "" {
		header = sep() + header
	}
	out := decl + sep() + tag(p+"Envelope", " "+ns+"="+quoted(SoapNS), header+sep()+tag(p+"Body", "", sep()+body+sep())+sep()) + sep()
	if Style == 10 {
		out += "\n\n <!-- end -->\n"
	}
	return out
}
