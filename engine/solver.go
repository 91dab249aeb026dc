package main

// One z3 process per worker, kept alive; every explored path is one push/pop scope.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

var reGo = map[string]*regexp.Regexp{
	"ident":     regexp.MustCompile(`^[A-Za-z0-9]{1,8}$`),
	"jsonplain": regexp.MustCompile(`^[^"\\\x00-\x1f]*$`),
	"xmlplain":  regexp.MustCompile(`^[^<>&"'\x00-\x1f]*$`),
	"name":      regexp.MustCompile(`^[A-Za-z]+$`),
	"nodigit":   regexp.MustCompile(`^[^0-9]`),
	"xmllegal":  regexp.MustCompile(`^[\t\n\r -\x{D7FF}\x{E000}-\x{FFFD}]*$`),
	"noblankl":  regexp.MustCompile(`^(?s:[^\t-\r \x{85}\x{A0}\x{1680}\x{2000}-\x{200A}\x{2028}\x{2029}\x{202F}\x{205F}\x{3000}].*)$`),
	"noblankr":  regexp.MustCompile(`^(?s:.*[^\t-\r \x{85}\x{A0}\x{1680}\x{2000}-\x{200A}\x{2028}\x{2029}\x{202F}\x{205F}\x{3000}])$`),
	"spaces":    regexp.MustCompile(`^[\t-\r \x{85}\x{A0}\x{1680}\x{2000}-\x{200A}\x{2028}\x{2029}\x{202F}\x{205F}\x{3000}]*$`),
	"ascii":     regexp.MustCompile(`^[\x00-\x7f]*$`),
	"nonascii":  regexp.MustCompile(`^[a-z]{1,4}[\x{E0}-\x{F6}]{1,2}[a-z]{1,4}$`),
	"slashed":   regexp.MustCompile(`^[a-z]{1,4}/[a-z0-9]{1,4}$`),
	"spelled":   regexp.MustCompile(`^[ !#-%'-;=?-\[\]-~]*$`),
	"blanks":    regexp.MustCompile(`^ [a-z]{1,4}  [a-z]{1,4} $`),
	"mixed":     regexp.MustCompile(`^[A-Z][a-z][A-Z0-9 ._-]{1,20}$`),
	"blank":     regexp.MustCompile(`^[ \t\r\n]*$`),
}

var reSMT = map[string]string{
	"ident":     `((_ re.loop 1 8) (re.union (re.range "A" "Z") (re.range "a" "z") (re.range "0" "9")))`,
	"jsonplain": `(re.* (re.union (re.range "#" "[") (re.range "]" "\u{ffff}") (str.to_re " ") (str.to_re "!")))`,
	"xmlplain":  `(re.* (re.union (re.range "(" ";") (str.to_re "=") (re.range "?" "\u{fffd}") (re.range " " "!") (re.range "#" "%")))`,
	"name":      `(re.+ (re.union (re.range "A" "Z") (re.range "a" "z")))`,
	"nodigit":   `(re.++ (re.diff re.allchar (re.range "0" "9")) re.all)`,
	"xmllegal":  `(re.* (re.union (re.range "\u{9}" "\u{a}") (str.to_re "\u{d}") (re.range " " "\u{d7ff}") (re.range "\u{e000}" "\u{fffd}")))`,
	"noblankl":  `(re.++ (re.diff re.allchar (re.union (re.range "\u{9}" "\u{d}") (str.to_re " ") (str.to_re "\u{85}") (str.to_re "\u{a0}") (str.to_re "\u{1680}") (re.range "\u{2000}" "\u{200a}") (re.range "\u{2028}" "\u{2029}") (str.to_re "\u{202f}") (str.to_re "\u{205f}") (str.to_re "\u{3000}"))) re.all)`,
	"noblankr":  `(re.++ re.all (re.diff re.allchar (re.union (re.range "\u{9}" "\u{d}") (str.to_re " ") (str.to_re "\u{85}") (str.to_re "\u{a0}") (str.to_re "\u{1680}") (re.range "\u{2000}" "\u{200a}") (re.range "\u{2028}" "\u{2029}") (str.to_re "\u{202f}") (str.to_re "\u{205f}") (str.to_re "\u{3000}"))))`,
	"spaces":    `(re.* (re.union (re.range "\u{9}" "\u{d}") (str.to_re " ") (str.to_re "\u{85}") (str.to_re "\u{a0}") (str.to_re "\u{1680}") (re.range "\u{2000}" "\u{200a}") (re.range "\u{2028}" "\u{2029}") (str.to_re "\u{202f}") (str.to_re "\u{205f}") (str.to_re "\u{3000}")))`,
	"ascii":     `(re.* (re.range "\u{0}" "\u{7f}"))`,
	"nonascii":  `(re.++ ((_ re.loop 1 4) (re.range "a" "z")) ((_ re.loop 1 2) (re.range "\u{e0}" "\u{f6}")) ((_ re.loop 1 4) (re.range "a" "z")))`,
	"slashed":   `(re.++ ((_ re.loop 1 4) (re.range "a" "z")) (str.to_re "/") ((_ re.loop 1 4) (re.union (re.range "a" "z") (re.range "0" "9"))))`,
	"spelled":   `(re.* (re.union (re.range " " "!") (re.range "#" "%") (re.range "'" ";") (str.to_re "=") (re.range "?" "[") (re.range "]" "~")))`,
	"blanks":    `(re.++ (str.to_re " ") ((_ re.loop 1 4) (re.range "a" "z")) (str.to_re "  ") ((_ re.loop 1 4) (re.range "a" "z")) (str.to_re " "))`,
	"mixed":     `(re.++ (re.range "A" "Z") (re.range "a" "z") ((_ re.loop 1 20) (re.union (re.range "A" "Z") (re.range "0" "9") (str.to_re " ") (str.to_re ".") (str.to_re "_") (str.to_re "-"))))`,
	"blank":     `(re.* (re.union (str.to_re " ") (str.to_re "\u{9}") (str.to_re "\u{d}") (str.to_re "\u{a}")))`,
}

// reText is the SMT form of a named regular expression; "fold:x" matches x in any case.
func reText(name string) string {
	if strings.HasPrefix(name, "fold:") {
		var b strings.Builder
		b.WriteString("(re.++ (str.to_re \"\")")
		for _, r := range name[5:] {
			l, u := strings.ToLower(string(r)), strings.ToUpper(string(r))
			if l == u {
				b.WriteString(" (str.to_re " + smtString(l) + ")")
			} else {
				b.WriteString(" (re.union (str.to_re " + smtString(l) + ") (str.to_re " + smtString(u) + "))")
			}
		}
		return b.String() + ")"
	}
	return reSMT[name]
}

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type Solver struct {
	script  []string // with VENGINE_SLOW: what was sent since begin
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	gen     uint64
	nextID  int
	vars    map[string]*Term // declared in this scope
	uf      bool
	Queries int64
	NSat    int64
	NUnsat  int64
	NUnk    int64
	Time    time.Duration
	timeout int
	log     *os.File
	broken  bool
}

var totalQueries, totalUnknown, totalUnsat, totalSat int64
var totalSolverNS int64
var genCounter uint64

const preamble = `(set-option :produce-models true)
(declare-fun txt_itoa ((_ BitVec 64)) String)
(declare-fun txt_utoa ((_ BitVec 64)) String)
(declare-fun txt_ftoa ((_ FloatingPoint 11 53)) String)
(declare-fun txt_rfc_s ((_ BitVec 64)) String)
(declare-fun txt_rfc_n ((_ BitVec 64) (_ BitVec 64)) String)
(declare-fun txt_rfc_s7200 ((_ BitVec 64)) String)
(declare-fun txt_rfc_n7200 ((_ BitVec 64) (_ BitVec 64)) String)
(declare-fun txt_rfc_sm34200 ((_ BitVec 64)) String)
(declare-fun txt_rfc_nm34200 ((_ BitVec 64) (_ BitVec 64)) String)
(declare-fun url_path (String) String)
(declare-fun url_query (String) String)
(declare-fun url_enc (String) String)
(declare-fun txt_quote (String) String)
(declare-fun txt_upper (String) String)
(declare-fun txt_lower (String) String)
(declare-fun txt_trim (String) String)
(declare-fun txt_hash (String) String)
(declare-fun txt_g (String) String)
(declare-fun txt_f (String) String)
(declare-fun txt_e (String) String)
(declare-fun txt_fmt (String) String)
(declare-fun txt_pad (String) String)
(declare-fun txt_xmlrepl (String) String)
(declare-fun xml_esc (String) String)
`

var slowDir = os.Getenv("VENGINE_SLOW")

func newSolver(timeoutMS int) *Solver {
	s := &Solver{timeout: timeoutMS, gen: atomic.AddUint64(&genCounter, 1), vars: map[string]*Term{}}
	s.start()
	return s
}

func (s *Solver) start() {
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	s.cmd = exec.Command(bin, "-in", "-smt2", "-t:"+strconv.Itoa(s.timeout))
	inc, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = inc
	s.in = bufio.NewWriterSize(inc, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.broken = false
	s.in.WriteString(preamble)
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(line string) {
	if s.log != nil {
		s.log.WriteString(line + "\n")
	}
	if slowDir != "" {
		s.script = append(s.script, line)
	}
	s.in.WriteString(line)
	s.in.WriteByte('\n')
}

// begin opens the scope of a new path.
func (s *Solver) begin() {
	if s.broken {
		s.close()
		s.start()
	}
	s.gen = atomic.AddUint64(&genCounter, 1)
	s.nextID = 0
	s.script = nil
	s.vars = map[string]*Term{}
	s.send("(push 1)")
}

func (s *Solver) end() { s.send("(pop 1)") }

// ref returns the name of a term, defining it first where needed.
func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return t.expr(nil)
	}
	if t.op == OVar {
		if _, ok := s.vars[t.s]; !ok {
			s.vars[t.s] = t
			s.send(fmt.Sprintf("(declare-const |%s| %s)", t.s, sortName(t)))
		}
		return "|" + t.s + "|"
	}
	if t.gen == s.gen {
		return "d" + strconv.Itoa(t.id)
	}
	if t.op == OBlob {
		t.gen, t.id = s.gen, s.nextID
		s.nextID++
		n := "d" + strconv.Itoa(t.id)
		s.send(fmt.Sprintf("(declare-const %s String)", n))
		s.send(fmt.Sprintf("(assert (not (= %s \"\")))", n))
		return n
	}
	e := t.expr(s.ref)
	t.gen, t.id = s.gen, s.nextID
	s.nextID++
	n := "d" + strconv.Itoa(t.id)
	s.send(fmt.Sprintf("(define-fun %s () %s %s)", n, sortName(t), e))
	switch t.op {
	case OItoa, OUtoa, OFtoa, ORfc:
		// a rendered number or instant is never empty; an instant is at least 20 characters long
		if t.op == ORfc {
			s.send(fmt.Sprintf("(assert (>= (str.len %s) 20))", n))
		} else {
			s.send(fmt.Sprintf("(assert (not (= %s \"\")))", n))
		}
	}
	return n
}

func (s *Solver) assert(t *Term) {
	if t.isConst() && t.u == 1 {
		return
	}
	s.send("(assert " + s.ref(t) + ")")
}

// check decides path condition plus extra.
func (s *Solver) check(extra *Term) SatResult {
	r := "true"
	if extra != nil {
		r = s.ref(extra)
	}
	start := time.Now()
	if extra != nil {
		s.send("(push 1)")
		s.send("(assert " + r + ")")
		s.send("(check-sat)")
	} else {
		s.send("(check-sat)")
	}
	res := s.readStatus()
	if extra != nil {
		s.send("(pop 1)")
		// terms defined before the inner push stay valid
	}
	s.account(res, time.Since(start))
	return res
}

func (s *Solver) account(res SatResult, d time.Duration) {
	s.Queries++
	if slowDir != "" && d > time.Second {
		os.WriteFile(fmt.Sprintf("%s/%d-%d.smt2", slowDir, int(d.Milliseconds()), atomic.LoadInt64(&totalQueries)), []byte(preamble+strings.Join(s.script, "\n")+"\n"), 0644)
	}
	atomic.AddInt64(&totalQueries, 1)
	atomic.AddInt64(&totalSolverNS, int64(d))
	switch res {
	case Sat:
		atomic.AddInt64(&totalSat, 1)
	case Unsat:
		atomic.AddInt64(&totalUnsat, 1)
	default:
		atomic.AddInt64(&totalUnknown, 1)
	}
}

func (s *Solver) readStatus() SatResult {
	if s.broken {
		return Unknown
	}
	s.in.Flush()
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.broken = true
		return Unknown
	}
	if s.log != nil {
		s.log.WriteString("; -> " + line)
	}
	switch strings.TrimSpace(line) {
	case "sat":
		return Sat
	case "unsat":
		return Unsat
	case "unknown", "timeout":
		return Unknown
	}
	if strings.HasPrefix(line, "(error") {
		fmt.Fprintln(os.Stderr, "solver error:", strings.TrimSpace(line))
	}
	// an error line makes everything after it unreliable in this scope: nothing is asked again before a new start
	s.broken = true
	return Unknown
}

// model checks pc+extra and, when satisfiable, returns the values of all declared variables.
func (s *Solver) model(extra *Term, want []*Term) (SatResult, map[string]string) {
	var names []string
	for _, t := range want {
		s.ref(t)
	}
	if extra != nil {
		r := s.ref(extra)
		s.send("(push 1)")
		s.send("(assert " + r + ")")
	}
	start := time.Now()
	s.send("(check-sat)")
	res := s.readStatus()
	s.account(res, time.Since(start))
	out := map[string]string{}
	if res == Sat {
		for _, t := range want {
			if t.op == OVar {
				names = append(names, t.s)
			}
		}
		for _, n := range names {
			s.send("(get-value (|" + n + "|))")
			s.in.Flush()
			v, err := s.readSexp()
			if err != nil || strings.HasPrefix(strings.TrimSpace(v), "(error") {
				s.broken = true
				return Unknown, nil
			}
			if s.log != nil {
				s.log.WriteString("; -> " + v + "\n")
			}
			out[n] = stripValue(v, n)
		}
	}
	if extra != nil {
		s.send("(pop 1)")
	}
	return res, out
}

func stripValue(v, name string) string {
	v = strings.TrimSpace(v)
	v = strings.TrimPrefix(v, "((")
	v = strings.TrimSuffix(v, "))")
	v = strings.TrimSpace(v)
	if strings.HasPrefix(v, "|") {
		if i := strings.Index(v[1:], "|"); i >= 0 {
			return strings.TrimSpace(v[i+2:])
		}
	}
	v = strings.TrimPrefix(v, name)
	return strings.TrimSpace(v)
}

func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth, inStr, inBar := 0, false, false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		b.WriteByte(c)
		if inStr {
			if c == '"' {
				inStr = false
			}
			continue
		}
		if inBar {
			if c == '|' {
				inBar = false
			}
			continue
		}
		switch c {
		case '"':
			inStr = true
		case '|':
			inBar = true
		case '(':
			depth++
		case ')':
			depth--
		case '\n':
			if depth == 0 && strings.TrimSpace(b.String()) != "" {
				return b.String(), nil
			}
		}
	}
}

var reU = regexp.MustCompile(`\\u\{([0-9a-fA-F]+)\}`)

// parseModelString decodes an SMT-LIB string literal.
func parseModelString(v string) string {
	v = strings.TrimSpace(v)
	if len(v) >= 2 && v[0] == '"' {
		v = v[1 : len(v)-1]
	}
	v = strings.ReplaceAll(v, `""`, `"`)
	return reU.ReplaceAllStringFunc(v, func(m string) string {
		n, _ := strconv.ParseUint(reU.FindStringSubmatch(m)[1], 16, 32)
		return string(rune(n))
	})
}

func parseModelBV(v string) uint64 {
	v = strings.TrimSpace(v)
	if strings.HasPrefix(v, "#x") {
		n, _ := strconv.ParseUint(v[2:], 16, 64)
		return n
	}
	if strings.HasPrefix(v, "#b") {
		n, _ := strconv.ParseUint(v[2:], 2, 64)
		return n
	}
	if strings.HasPrefix(v, "(_ bv") {
		f := strings.Fields(v[5:])
		n, _ := strconv.ParseUint(f[0], 10, 64)
		return n
	}
	return 0
}
