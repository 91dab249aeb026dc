// Package vp is what the harnesses are written against. Under the symbolic engine its functions are intrinsics (inputs are
// symbolic variables, Assert is a solver query); compiled natively they replay one concrete assignment.
package vp

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/gorilla/websocket"
)

// ---- inputs ----

type spec struct {
	Entry  string            `json:"entry"`
	Assign map[string]string `json:"assign"`
	Points []point           `json:"points"`
	Random int64             `json:"random"`
}

type point struct {
	Pos   string `json:"pos"`
	Visit int    `json:"visit"`
}

var (
	in   spec
	inMu sync.Mutex
	used = map[string]int{}
)

func value(name string) (string, bool) {
	inMu.Lock()
	defer inMu.Unlock()
	used[name]++
	if n := used[name]; n > 1 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	s, ok := in.Assign[name]
	return s, ok
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { s, _ := value(name); return s == "true" }

// Int is an arbitrary integer in lo..hi.
func Int(name string, lo, hi int64) int64 {
	s, ok := value(name)
	if !ok {
		return lo
	}
	n, _ := strconv.ParseInt(s, 10, 64)
	return n
}

// Thorough reports whether the check runs in the thorough tier, for bounds that depend on it.
func Thorough() bool { s, _ := value("thorough"); return s == "true" }

// Choice is an arbitrary number in 0..n-1; the engine explores each in turn.
func Choice(name string, n int) int { return int(Int(name, 0, int64(n-1))) }

// String is an arbitrary string.
func String(name string) string { s, _ := value(name); return s }

// Ident is an arbitrary string of one to eight ASCII letters and digits.
func Ident(name string) string {
	s, ok := value(name)
	if !ok {
		return "x"
	}
	return s
}

// Text is an arbitrary string of characters XML can carry.
func Text(name string) string { s, _ := value(name); return s }

// Duration is an arbitrary duration in lo..hi.
func Duration(name string, lo, hi time.Duration) time.Duration {
	return time.Duration(Int(name, int64(lo), int64(hi)))
}

// JSONValue is the text of an arbitrary JSON value nested at most depth deep with at most width members or elements.
func JSONValue(name string, depth, width int) string {
	s, ok := value(name)
	if !ok {
		return "null"
	}
	return s
}

// Raw is an arbitrary websocket message: any JSON value as above, or text that is not JSON.
func Raw(name string, depth, width int) string {
	s, ok := value(name)
	if !ok {
		return ""
	}
	return s
}

// Fill fills what ptr points to with symbolic content. Mode "full" sets every field, "req" leaves the optional ones unset; the
// field path named focus is free (an optional one may be set or not, a list has 0 to 2 elements, a string may be empty, a number
// zero), every other set field holds a non-zero value and every other list one element. Focus can name several paths, separated
// with commas; a path followed by *N names a list that has exactly N elements, all but
// the first and the last of which hold numbered values. Optional lists the paths of the optional
// fields, each between semicolons (";ReservationId;ChargingProfile.ValidFrom;"). With text, strings hold only what XML can carry.
func Fill(name string, ptr interface{}, mode string, text bool, optional, focus string) {
	f := filler{mode: mode, text: text, optional: optional, focus: focus}
	f.fill(name, "", reflect.ValueOf(ptr).Elem())
}

type filler struct {
	mode            string
	text            bool
	optional, focus string
	fixed           int // inside a long list: content is concrete and tells the element
}

func (f *filler) fill(name, path string, v reflect.Value) {
	free, n, _ := f.find(path)
	if f.fixed > 0 {
		switch {
		case v.Type() == reflect.TypeOf(time.Time{}):
			v.Set(reflect.ValueOf(time.Unix(1600000000+int64(f.fixed), 0).UTC()))
			return
		case v.Kind() >= reflect.Int && v.Kind() <= reflect.Int64:
			v.SetInt(int64(f.fixed))
			return
		case v.Kind() >= reflect.Uint && v.Kind() <= reflect.Uint64:
			v.SetUint(uint64(f.fixed))
			return
		case v.Kind() == reflect.Float32 || v.Kind() == reflect.Float64:
			v.SetFloat(float64(f.fixed))
			return
		case v.Kind() == reflect.String:
			v.SetString("s" + strconv.Itoa(f.fixed))
			return
		}
	}
	switch v.Type() {
	case reflect.TypeOf(time.Time{}):
		s, ok := value(name)
		if ok {
			t, _ := time.Parse(time.RFC3339Nano, s)
			v.Set(reflect.ValueOf(t))
		} else {
			v.Set(reflect.ValueOf(time.Unix(1600000000, 0).UTC()))
		}
		return
	case reflect.TypeOf(xml.Name{}):
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		if !free {
			v.SetBool(true)
		} else {
			v.SetBool(Bool(name))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(Int(name, 1, 1))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(Int(name, 1, 1)))
	case reflect.Float64, reflect.Float32:
		s, _ := value(name)
		x, _ := strconv.ParseFloat(s, 64)
		v.SetFloat(x)
	case reflect.String:
		s, ok := value(name)
		if !ok {
			s = "s"
		}
		v.SetString(s)
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		f.fill(name, path, v.Elem())
	case reflect.Slice:
		if free {
			n = Choice(name+".len", 3)
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			was := f.fixed
			if n > 2 && i > 0 && i < n-1 {
				f.fixed = i
			}
			f.fill(fmt.Sprintf("%s.%d", name, i), path, v.Index(i))
			f.fixed = was
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			sf := t.Field(i)
			if sf.PkgPath != "" {
				continue
			}
			p := sf.Name
			if path != "" {
				p = path + "." + sf.Name
			}
			if strings.Contains(f.optional, ";"+p+";") {
				may, _, below := f.find(p)
				set := f.mode == "full" || below
				if may {
					set = Bool(name + "." + sf.Name + ".set")
				}
				if !set {
					continue
				}
			}
			f.fill(name+"."+sf.Name, p, v.Field(i))
		}
	}
}

// find says whether the path is free, how many elements a list there has, and whether something below it is in focus.
func (f *filler) find(path string) (free bool, n int, below bool) {
	n = 1
	for _, w := range strings.Split(f.focus, ",") {
		if i := strings.IndexByte(w, '*'); i >= 0 {
			if w[:i] == path {
				n, _ = strconv.Atoi(w[i+1:])
				below = true
			}
			w = w[:i]
		} else if w == path && path != "" {
			free = true
		}
		below = below || strings.HasPrefix(w, path+".")
	}
	return
}

// ---- judgement ----

const (
	exitViolation  = 41
	exitAssumption = 43
)

// Assume restricts what follows to executions in which cond holds.
func Assume(cond bool) {
	if !cond {
		fmt.Fprintln(os.Stderr, "VP-ASSUME")
		os.Exit(exitAssumption)
	}
}

// Assert states the property.
func Assert(cond bool, msg string) {
	if !cond {
		fmt.Fprintln(os.Stderr, "VP-VIOLATION:", msg)
		os.Exit(exitViolation)
	}
}

// Reach records that an execution came here (vacuity control).
func Reach(label string) { fmt.Fprintln(os.Stderr, "VP-REACH:", label) }

// Note adds a line to the trace of a counterexample.
func Note(s string) { fmt.Fprintln(os.Stderr, "VP-NOTE:", s) }

// Same compares two values: strings, numbers, nested structs and lists equal, nil and empty lists alike, instants to the second.
func Same(a, b interface{}) bool { return same(reflect.ValueOf(a), reflect.ValueOf(b), false) }

// SameExact is Same with instants equal to the nanosecond.
func SameExact(a, b interface{}) bool { return same(reflect.ValueOf(a), reflect.ValueOf(b), true) }

func same(a, b reflect.Value, exact bool) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	if a.Type() == reflect.TypeOf(time.Time{}) && a.CanInterface() && b.CanInterface() {
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if exact {
			return x.Equal(y)
		}
		return x.Unix() == y.Unix()
	}
	if a.Type() == reflect.TypeOf(xml.Name{}) {
		return true
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem(), exact)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i), exact) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i), exact) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() || !same(a.MapIndex(k), y, exact) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// SameJSON compares two JSON texts as values (object members in any order).
func SameJSON(a, b string) bool {
	var x, y interface{}
	dec := func(s string, v *interface{}) error {
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		return d.Decode(v)
	}
	if dec(a, &x) != nil || dec(b, &y) != nil {
		return a == b
	}
	return sameAny(x, y)
}

func sameAny(x, y interface{}) bool {
	switch p := x.(type) {
	case json.Number:
		q, ok := y.(json.Number)
		if !ok {
			return false
		}
		if p == q {
			return true
		}
		f, e1 := p.Float64()
		g, e2 := q.Float64()
		return e1 == nil && e2 == nil && f == g
	case []interface{}:
		q, ok := y.([]interface{})
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !sameAny(p[i], q[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		q, ok := y.(map[string]interface{})
		if !ok || len(p) != len(q) {
			return false
		}
		for k, v := range p {
			w, ok := q[k]
			if !ok || !sameAny(v, w) {
				return false
			}
		}
		return true
	}
	return x == y
}

// XMLText escapes text for an XML element.
func XMLText(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// Panics runs f and reports whether it panicked, with the panic's text.
func Panics(f func()) (text string, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			text, panicked = fmt.Sprint(r), true
		}
	}()
	f()
	return
}

// ---- time ----

// scale is how much faster than the real one the clock of the run is.
var scale time.Duration = 10

// Sleep, After and Now run on the (scaled) clock of the run.
func Sleep(d time.Duration)                  { time.Sleep(d / scale) }
func After(d time.Duration) <-chan time.Time { return time.After(d / scale) }

var start = time.Now()

// Now is the time since the start of the run.
func Now() time.Duration { return time.Since(start) * scale }

// Calm ends the part of a run in which schedules vary: what follows is not delayed until Busy is called. Runs start busy.
func Calm() {}

// Busy starts the part of a run in which schedules vary.
func Busy() {}

// Quiesce waits until nothing but the passing of time can make the program go on.
//
// Natively that is seen from outside: for a while no goroutine but this one can run or is held up by the replay.
func Quiesce() {
	window := 300*time.Millisecond + 2*pointDelay*time.Duration(len(in.Points))
	quiet := time.Now()
	for limit := time.Now().Add(15 * time.Second); time.Since(quiet) < window && time.Now().Before(limit); {
		time.Sleep(15 * time.Millisecond)
		if busy() {
			quiet = time.Now()
		}
	}
}

var stacks []byte

// busy tells if a goroutine can run, except this one and those that wait for longer than the replay holds them up.
func busy() bool {
	if atomic.LoadInt32(&held) > 0 {
		return true
	}
	if stacks == nil {
		stacks = make([]byte, 1<<20)
	}
	n := runtime.Stack(stacks, true)
	if n == len(stacks) {
		stacks = make([]byte, 2*len(stacks))
		return true
	}
	for i, g := range strings.Split(string(stacks[:n]), "\n\n") {
		if i == 0 { // this one
			continue
		}
		if j := strings.IndexByte(g, '['); j >= 0 {
			g = g[j+1:]
		}
		if strings.HasPrefix(g, "run") || strings.HasPrefix(g, "syscall") && !strings.Contains(g, "os/signal.") {
			return true
		}
	}
	return false
}

// held counts the goroutines the replay holds up.
var held int32

// ---- processes and network ----

// Weight counts what is reachable from x: objects, map entries, list elements, messages in channels. It looks neither into
// functions nor into the types of some packages that are not about the state of the repository.
func Weight(x interface{}) int {
	w := &weigher{seen: map[unsafe.Pointer]bool{}}
	w.walk(reflect.ValueOf(x))
	return w.n
}

type weigher struct {
	seen map[unsafe.Pointer]bool
	n    int
}

var weightless = []string{"github.com/gorilla/", "net", "crypto", "bufio", "os", "log", "reflect", "internal/", "runtime", "sync", "time", "testing", "math"}

var syncMap = reflect.TypeOf(sync.Map{})

func isWeightless(t reflect.Type) bool {
	n := t.PkgPath() + "."
	for _, p := range weightless {
		if strings.HasPrefix(n, p) && (strings.HasSuffix(p, "/") || n[len(p)] == '.' || n[len(p)] == '/') {
			return true
		}
	}
	return false
}

func (w *weigher) walk(v reflect.Value) {
	if !v.IsValid() || v.Type() != syncMap && isWeightless(v.Type()) {
		return
	}
	if v.Type() == syncMap {
		if v.CanAddr() {
			(*sync.Map)(unsafe.Pointer(v.UnsafeAddr())).Range(func(k, x interface{}) bool {
				w.n++
				w.walk(reflect.ValueOf(k))
				w.walk(reflect.ValueOf(x))
				return true
			})
		}
		return
	}
	first := func(p unsafe.Pointer) bool {
		if w.seen[p] {
			return false
		}
		w.seen[p] = true
		return true
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || v.Type().Elem() != syncMap && isWeightless(v.Type().Elem()) || !first(unsafe.Pointer(v.Pointer())) {
			return
		}
		w.n++
		w.walk(v.Elem())
	case reflect.Interface:
		w.walk(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i))
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 || v.Len() == 0 || !first(unsafe.Pointer(v.Pointer())) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.n++
			w.walk(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() || !first(unsafe.Pointer(v.Pointer())) {
			return
		}
		for _, k := range v.MapKeys() {
			w.n++
			w.walk(k)
			w.walk(v.MapIndex(k))
		}
	case reflect.Chan:
		if !v.IsNil() && first(unsafe.Pointer(v.Pointer())) {
			w.n += v.Len()
		}
	}
}

// RepoGoroutines counts the goroutines that are inside code of the repository or were started by it.
func RepoGoroutines() int {
	buf := make([]byte, 1<<22)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		for _, l := range strings.Split(g, "\n") {
			l = strings.TrimPrefix(l, "created by ")
			if strings.HasPrefix(l, "github.com/voltbras/go-ocpp") && !strings.HasPrefix(l, "github.com/voltbras/go-ocpp/zzverif") {
				n++
				break
			}
		}
	}
	return n
}

var portMu sync.Mutex

// Port returns the address (":n") of a free port.
func Port() string {
	portMu.Lock()
	defer portMu.Unlock()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return ":" + strconv.Itoa(l.Addr().(*net.TCPAddr).Port)
}

// WaitListen waits until something listens on addr.
func WaitListen(addr string) {
	for i := 0; i < 500; i++ {
		c, err := net.Dial("tcp", "localhost"+addr)
		if err == nil {
			c.Close()
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// Listening reports whether something listens on addr.
func Listening(addr string) bool {
	c, err := net.DialTimeout("tcp", "localhost"+addr, time.Second)
	if err == nil {
		c.Close()
	}
	return err == nil
}

// Reset breaks the transport under a websocket connection without a websocket close.
func Reset(c *websocket.Conn) {
	if t, ok := c.UnderlyingConn().(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	c.UnderlyingConn().Close()
}

// Stall says that nothing is read from a websocket connection from now on: what is written at its other end fills the
// buffers of the transport. The caller sees to it that nobody reads; Resume says that somebody does again.
func Stall(c *websocket.Conn)  {}
func Resume(c *websocket.Conn) {}

// Bulk is a text that the buffers of the transport cannot hold.
func Bulk() string { return strings.Repeat("bulk", 2<<20) }

// ---- replay of schedules ----

const pointDelay = 250 * time.Millisecond

var (
	ptMu    sync.Mutex
	ptCount = map[string]int{}
	ptRand  *rand.Rand
)

// Abort drops the connection of an HTTP request instead of answering it.
func Abort(w http.ResponseWriter) {
	c, _, err := w.(http.Hijacker).Hijack()
	if err == nil {
		c.Close()
	}
}

// Point is inserted by the replay into the code of the repository: it delays the goroutine where the schedule says so.
func Point(pos string) {
	ptMu.Lock()
	ptCount[pos]++
	n := ptCount[pos]
	var d time.Duration
	for _, p := range in.Points {
		if p.Pos == pos && (p.Visit == n) {
			d += pointDelay
		}
	}
	if ptRand != nil {
		switch ptRand.Intn(8) {
		case 0:
			d = time.Duration(ptRand.Intn(1000)) * time.Microsecond
		case 1:
			if ptRand.Intn(4) == 0 {
				d = time.Duration(ptRand.Intn(60)) * time.Millisecond
			}
		}
	}
	ptMu.Unlock()
	if d > 0 {
		atomic.AddInt32(&held, 1)
		time.Sleep(d)
		atomic.AddInt32(&held, -1)
	} else if ptRand != nil {
		runtime.Gosched()
	}
}

// Main runs one harness function on the assignment named by VP_INPUT.
func Main(entries map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VP_INPUT"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := json.Unmarshal(b, &in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if in.Random != 0 {
		ptRand = rand.New(rand.NewSource(in.Random))
	}
	f := entries[in.Entry]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no entry", in.Entry)
		os.Exit(2)
	}
	f()
	fmt.Fprintln(os.Stderr, "VP-OK")
	os.Exit(0)
}
