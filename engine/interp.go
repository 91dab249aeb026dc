package main

// Symbolic execution of go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	fn          *ssa.Function
	slots       map[ssa.Value]int
	n           int
	intr        intrinsic
	redirect    *ssa.Function
	name        string // origin-qualified name
	pkg         string
	synthetic   bool
	pkgInit     bool
	preemptible bool
	tracked     bool // accesses take part in race detection
	isRepo      bool
	isModel     bool
	noBody      bool
	netOp       bool // a redirected network operation: a scheduling point
}

var stubbed sync.Map // redirected functions that were called

type intrinsic func(fr *Frame, fn *ssa.Function, args []Value) Value

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
	tail *deferred
}

type Frame struct {
	m         *Machine
	th        *Thread
	fn        *ssa.Function
	info      *fnInfo
	regs      []Value
	caller    *Frame
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        ssa.Instruction
	defers    *deferred
	result    Value
	panicking bool
	panicVal  targetPanic
	recovered bool
	depth     int
}

var infoCache sync.Map

var encodedFns sync.Map // repo functions executed symbolically: name -> true

const repoMod = "github.com/voltbras/go-ocpp"
const verifPrefix = repoMod + "/zzverif/"

func originName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}

func getInfo(ex *Explorer, fn *ssa.Function) *fnInfo {
	if v, ok := infoCache.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{fn: fn, slots: map[ssa.Value]int{}, name: originName(fn), pkg: fnPkgPath(fn)}
	add := func(v ssa.Value) {
		fi.slots[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.noBody = len(fn.Blocks) == 0
	fi.isRepo = strings.HasPrefix(fi.pkg, repoMod) && !strings.HasPrefix(fi.pkg, verifPrefix)
	fi.isModel = fi.pkg == verifPrefix+"model"
	isHarness := strings.HasPrefix(fi.pkg, verifPrefix) && !fi.isModel
	fi.synthetic = fn.Synthetic != "" && fn.Parent() == nil && !strings.HasPrefix(fn.Synthetic, "instance of")
	fi.pkgInit = fn.Synthetic == "package initializer"
	fi.preemptible = (fi.isRepo || isHarness) && !fi.synthetic
	fi.tracked = !fi.isModel && fi.pkg != verifPrefix+"vp"
	if in, ok := intrinsics[fi.name]; ok {
		fi.intr = in
	} else if r, ok := ex.redirects[fi.name]; ok && !fi.isModel {
		fi.redirect = r
		for _, p := range []string{"(*github.com/gorilla/websocket.Conn).", "(*github.com/gorilla/websocket.Dialer).", "(*github.com/gorilla/websocket.Upgrader).", "(*net/http.Client).", "(*net/http.Server)."} {
			if strings.HasPrefix(fi.name, p) {
				fi.netOp = true
			}
		}
	}
	infoCache.Store(fn, fi)
	return fi
}

func (fr *Frame) ipos() *instrPos { return &instrPos{fr.fn, fr.pc} }

func posOf(prog *ssa.Program, fn *ssa.Function, in ssa.Instruction) string {
	p := token.NoPos
	if in != nil {
		p = in.Pos()
	}
	if p == token.NoPos && fn != nil {
		p = fn.Pos()
	}
	pp := prog.Fset.Position(p)
	n := ""
	if fn != nil {
		n = fn.String()
	}
	return fmt.Sprintf("%s(%s:%d)", n, filepath.Base(pp.Filename), pp.Line)
}

func (fr *Frame) posString() string {
	p := token.NoPos
	if fr.pc != nil {
		p = fr.pc.Pos()
	}
	if p == token.NoPos {
		p = fr.fn.Pos()
	}
	pp := fr.m.ex.prog.Fset.Position(p)
	return fmt.Sprintf("(%s:%d)", filepath.Base(pp.Filename), pp.Line)
}

// shortPos is "relative/file.go:line" of the innermost frame with a position.
func (fr *Frame) shortPos() string {
	for f := fr; f != nil; f = f.caller {
		if f.pc == nil || f.info.synthetic {
			continue
		}
		p := f.pc.Pos()
		if d, ok := f.pc.(*ssa.RunDefers); ok {
			_ = d
			p = f.fn.Syntax().End()
		}
		if p == token.NoPos {
			continue
		}
		pp := f.m.ex.prog.Fset.Position(p)
		return fmt.Sprintf("%s:%d", strings.TrimPrefix(pp.Filename, f.m.ex.repo+"/"), pp.Line)
	}
	return "?"
}

func stackTop() string {
	s := strings.Split(string(debug.Stack()), "\n")
	var o []string
	for i := 0; i < len(s) && len(o) < 24; i++ {
		if strings.Contains(s[i], ".go:") {
			o = append(o, strings.TrimSpace(s[i]))
		}
	}
	return strings.Join(o, "\n")
}

func (fr *Frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Global:
		return fr.m.global(fr, x)
	case *ssa.Builtin:
		return &Closure{name: x.Name()}
	case nil:
		return nil
	}
	i, ok := fr.info.slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %v in %v", v, fr.fn))
	}
	return fr.regs[i]
}

func (fr *Frame) set(v ssa.Value, x Value) { fr.regs[fr.info.slots[v]] = x }

var constCache sync.Map

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	if v, ok := constCache.Load(c); ok {
		return v
	}
	v := constVal1(c)
	constCache.Store(c, v)
	return v
}

func constVal1(c *ssa.Const) Value {
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			return mkBool(constant.BoolVal(c.Value))
		case info&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return mkStr(constant.StringVal(c.Value))
			}
			return mkStr(string(rune(c.Int64())))
		case info&types.IsInteger != 0:
			w, _ := basicWidth(u)
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return mkBV(uint64(i), w)
			}
			i, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return mkBV(i, w)
		case info&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return mkFP(f)
		}
	case *types.Interface:
		panic(unsupported("const of interface type"))
	}
	panic(unsupported(fmt.Sprintf("constant %v of type %v", c, c.Type())))
}

// global returns the cell of a package variable, running the package's initialiser first.
func (m *Machine) global(fr *Frame, g *ssa.Global) *Cell {
	if c, ok := m.globals[g]; ok {
		return c
	}
	if g.Pkg != nil && strings.HasPrefix(g.Name(), "init$guard") {
		c := &Cell{v: tFalse}
		m.globals[g] = c
		return c
	}
	c := &Cell{v: zero(g.Type().Underlying().(*types.Pointer).Elem())}
	m.globals[g] = c
	m.initPkg(fr, g.Pkg)
	return m.globals[g]
}

func (m *Machine) initPkg(fr *Frame, p *ssa.Package) {
	if p == nil || m.inited[p] != 0 {
		return
	}
	path := p.Pkg.Path()
	if skipInit[path] {
		m.inited[p] = 2
		return
	}
	m.inited[p] = 1
	fn := p.Func("init")
	if fn == nil {
		return
	}
	m.initing++
	fr.th.atomic++
	m.call(fr, fn, nil, nil)
	fr.th.atomic--
	m.initing--
	m.inited[p] = 2
}

// packages whose variables keep their zero value: everything in them that matters is modelled
var skipInit = map[string]bool{"os": true, "runtime": true, "syscall": true, "net": true, "internal/godebug": true, "crypto/rand": true, "crypto/tls": true,
	"net/http/internal": true, "net/http/internal/http2": true, "log": true, "mime": true, "reflect": true, "internal/poll": true, "net/netip": true, "testing": true, "flag": true, "time": true,
	"math/rand": true, "math/rand/v2": true, "github.com/google/uuid": true}

// ---- calls ----

func (m *Machine) runtimePanic(msg string) targetPanic {
	return targetPanic{v: m.makeRuntimeError(msg), runtime: true}
}

func (m *Machine) makeRuntimeError(msg string) Value {
	return m.newError("runtime error: " + msg)
}

// newError makes an *errors.errorString.
func (m *Machine) newError(msg string) Value { return m.newErrorT(mkStr(msg)) }

func (m *Machine) newErrorT(msg *Term) Value {
	t := m.ex.errString
	s := &Struct{f: make([]Cell, 1)}
	s.f[0].v = msg
	return Iface{t: types.NewPointer(t), v: &Cell{v: s}}
}

func (m *Machine) panicText(p targetPanic) string {
	i, ok := p.v.(Iface)
	if !ok {
		return fmt.Sprintf("panic: %v", p.v)
	}
	if c, ok := i.v.(*Cell); ok && c != nil {
		if s, ok := c.v.(*Struct); ok && len(s.f) > 0 {
			if t, ok := s.f[0].v.(*Term); ok && t.sort == SStr {
				return "panic: " + showTerm(t)
			}
		}
	}
	if t, ok := i.v.(*Term); ok {
		return "panic: " + showTerm(t)
	}
	return fmt.Sprintf("panic: value of type %v", i.t)
}

func showTerm(t *Term) string {
	if t.isConst() {
		switch t.sort {
		case SStr:
			return t.s
		case SBool:
			return fmt.Sprint(t.u == 1)
		case SFP:
			return fmt.Sprint(t.f)
		}
		return fmt.Sprint(t.sval())
	}
	if t.op == OBlob {
		return "<document>"
	}
	if t.op == OVar {
		return "<" + t.s + ">"
	}
	s := t.expr(func(x *Term) string { return showTerm(x) })
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

func (m *Machine) callValue(fr *Frame, f Value, args []Value) Value {
	c, ok := f.(*Closure)
	if !ok {
		panic(unsupported(fmt.Sprintf("call of %T", f)))
	}
	if c == nil {
		panic(m.runtimePanic("invalid memory address or nil pointer dereference"))
	}
	if c.native != nil {
		return c.native(fr, args)
	}
	if c.fn == nil {
		panic(unsupported("call of builtin value " + c.name))
	}
	return m.call(fr, c.fn, args, c.env)
}

const maxDepth = 400

func (m *Machine) call(caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	info := getInfo(m.ex, fn)
	if info.intr != nil {
		return info.intr(caller, fn, args)
	}
	if info.redirect != nil {
		th := caller.th
		if info.netOp {
			m.visible(caller, "net")
		}
		stubbed.Store(info.name, true)
		th.atomic++
		r := m.call(caller, info.redirect, args, nil)
		th.atomic--
		return r
	}
	if info.pkgInit && m.inited[fn.Pkg] != 1 {
		// packages outside the repository are initialised when one of their variables is first used
		if strings.HasPrefix(info.pkg, repoMod) {
			m.initPkg(caller, fn.Pkg)
		}
		return nil
	}
	if info.noBody {
		panic(unsupported("no body: " + info.name))
	}
	if info.isRepo {
		if _, ok := encodedFns.Load(info.name); !ok {
			encodedFns.Store(info.name, true)
		}
	}
	fr := &Frame{m: m, th: caller.th, fn: fn, info: info, regs: make([]Value, info.n), caller: caller, depth: caller.depth + 1}
	if fr.depth > maxDepth {
		if info.isRepo || recursionInRepo(fr) {
			m.violate("panic", "stack overflow (recursion deeper than "+fmt.Sprint(maxDepth)+")", caller.th)
			panic(abortPath{})
		}
		panic(unsupported("call depth"))
	}
	for i := range fn.Params {
		fr.regs[i] = args[i]
	}
	for i := range fn.FreeVars {
		fr.regs[len(fn.Params)+i] = env[i]
	}
	fr.th.fr = fr
	fr.run()
	fr.th.fr = caller
	return fr.result
}

func recursionInRepo(fr *Frame) bool {
	for f := fr; f != nil; f = f.caller {
		if f.info.isRepo {
			return true
		}
	}
	return false
}

// run executes the function, handling panics, defers and recover.
func (fr *Frame) run() {
	fr.block = fr.fn.Blocks[0]
	for fr.block != nil {
		fr.runBlocks()
	}
}

func (fr *Frame) runBlocks() {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		switch x := r.(type) {
		case targetPanic:
			if x.origin == "" {
				x.origin = fr.m.where(fr.th)
			}
			fr.panicking = true
			fr.panicVal = x
		case nil:
			return
		default:
			panic(r) // engine signal
		}
		fr.th.fr = fr
		fr.runDefers()
		// recovered
		fr.block = fr.fn.Recover
		if fr.block == nil {
			fr.result = zero(fr.fn.Signature.Results())
			if fr.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
		} else {
			fr.prev = nil
		}
	}()
	for {
		b := fr.block
		for _, in := range b.Instrs {
			fr.pc = in
			fr.m.steps++
			if fr.m.steps&0xff == 0 {
				if fr.m.steps > fr.m.ex.cfg.MaxSteps {
					fr.m.finish("limit", "step bound"+fr.m.where(fr.th))
					panic(abortPath{})
				}
				if fr.m.aborted {
					panic(abortPath{})
				}
			}
			switch fr.exec(in) {
			case kReturn:
				fr.block = nil
				return
			case kJump:
				goto next
			}
		}
	next:
	}
}

func (fr *Frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (fr *Frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			if x, is := r.(targetPanic); is {
				if x.origin == "" {
					x.origin = fr.m.where(fr.th)
				}
				fr.panicking = true
				fr.panicVal = x
				fr.th.fr = fr
				return
			}
			if r != nil {
				panic(r)
			}
		}
	}()
	c := d.fn.(*Closure)
	if c == nil {
		panic(fr.m.runtimePanic("invalid memory address or nil pointer dereference"))
	}
	if c.native == nil && c.fn == nil {
		fr.builtin(c.name, d.call, d.args)
	} else {
		fr.m.callValue(fr, c, d.args)
	}
	ok = true
}

type kind int

const (
	kNext kind = iota
	kReturn
	kJump
)

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (fr *Frame) ptr(v Value) *Cell {
	c, ok := v.(*Cell)
	if !ok {
		panic(unsupported(fmt.Sprintf("pointer expected, got %T", v)))
	}
	if c == nil {
		panic(fr.m.runtimePanic("invalid memory address or nil pointer dereference"))
	}
	return c
}

func (fr *Frame) load(c *Cell) Value {
	if fr.m.raceOn(fr) {
		fr.m.readCell(fr, c)
	}
	return copyVal(c.v)
}

func (fr *Frame) store(c *Cell, v Value) {
	if fr.m.raceOn(fr) {
		fr.m.writeCell(fr, c)
	}
	storeVal(c, v)
}

func (fr *Frame) exec(in ssa.Instruction) kind {
	m := fr.m
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.set(x, &Cell{v: zero(deref(x.Type()))})
	case *ssa.UnOp:
		fr.set(x, fr.unop(x))
	case *ssa.BinOp:
		fr.set(x, fr.binop(x.Op, x.X.Type(), fr.get(x.X), fr.get(x.Y)))
	case *ssa.Call:
		fr.set(x, fr.doCall(&x.Call))
	case *ssa.ChangeInterface:
		fr.set(x, fr.get(x.X))
	case *ssa.ChangeType:
		fr.set(x, fr.get(x.X))
	case *ssa.Convert:
		fr.set(x, fr.conv(x.Type(), x.X.Type(), fr.get(x.X)))
	case *ssa.MultiConvert:
		fr.set(x, fr.conv(x.Type(), x.X.Type(), fr.get(x.X)))
	case *ssa.SliceToArrayPointer:
		s := fr.get(x.X).(Slice)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		if len(s.c) < n {
			panic(m.runtimePanic("cannot convert slice to array pointer"))
		}
		panic(unsupported("slice to array pointer"))
	case *ssa.MakeInterface:
		fr.set(x, m.makeIface(x.X.Type(), fr.get(x.X)))
	case *ssa.Extract:
		v := fr.get(x.Tuple)
		tu, ok := v.(Tuple)
		if !ok {
			panic(fmt.Sprintf("extract from %T in %v: %v", v, fr.fn, x))
		}
		fr.set(x, tu[x.Index])
	case *ssa.Slice:
		fr.set(x, fr.slice(x))
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
		case 1:
			fr.result = fr.get(x.Results[0])
		default:
			tu := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				tu[i] = fr.get(r)
			}
			fr.result = tu
		}
		fr.pc = in
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v := fr.get(x.X)
		panic(targetPanic{v: v})
	case *ssa.Send:
		m.send(fr, fr.get(x.Chan).(*Chan), fr.get(x.X))
	case *ssa.Store:
		fr.store(fr.ptr(fr.get(x.Addr)), fr.get(x.Val))
	case *ssa.If:
		i := 1
		if m.branch(tm(fr.get(x.Cond))) {
			i = 0
		}
		fr.jump(fr.block.Succs[i])
		return kJump
	case *ssa.Jump:
		fr.jump(fr.block.Succs[0])
		return kJump
	case *ssa.Defer:
		fn, args := fr.prepare(&x.Call)
		fr.defers = &deferred{fn: fn, args: args, call: &x.Call, tail: fr.defers}
	case *ssa.Go:
		fn, args := fr.prepare(&x.Call)
		cl := fn.(*Closure)
		if cl == nil {
			panic(m.runtimePanic("go of nil func value"))
		}
		fr.spawn(cl, args, &x.Call)
		m.visible(fr, "go")
	case *ssa.MakeChan:
		n := m.concInt(fr, tm(fr.get(x.Size)))
		if n < 0 {
			panic(m.runtimePanic("makechan: size out of range"))
		}
		fr.set(x, &Chan{cap: int(n), elem: x.Type().Underlying().(*types.Chan).Elem(), name: fr.shortPos()})
	case *ssa.MakeSlice:
		n := m.concInt(fr, tm(fr.get(x.Len)))
		cp := m.concInt(fr, tm(fr.get(x.Cap)))
		if n < 0 || cp < n {
			panic(m.runtimePanic("makeslice: len out of range"))
		}
		if cp > 1<<20 {
			panic(unsupported("large make"))
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		c := make([]Cell, cp)
		for i := range c {
			c[i].v = zero(el)
		}
		fr.set(x, Slice{c: c[:n]})
	case *ssa.MakeMap:
		fr.set(x, newMap(x.Type()))
	case *ssa.MakeClosure:
		env := make([]Value, len(x.Bindings))
		for i, b := range x.Bindings {
			env[i] = fr.get(b)
		}
		fr.set(x, &Closure{fn: x.Fn.(*ssa.Function), env: env})
	case *ssa.FieldAddr:
		c := fr.ptr(fr.get(x.X))
		s, ok := c.v.(*Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("field %d of modelled object %T (%v) in %v", x.Field, c.v, deref(x.X.Type()), fr.fn)))
		}
		fr.set(x, &s.f[x.Field])
	case *ssa.Field:
		s, ok := fr.get(x.X).(*Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of modelled object %v", x.X.Type())))
		}
		fr.set(x, copyVal(s.f[x.Field].v))
	case *ssa.IndexAddr:
		fr.set(x, fr.indexAddr(fr.get(x.X), tm(fr.get(x.Index))))
	case *ssa.Index:
		fr.set(x, fr.index(fr.get(x.X), tm(fr.get(x.Index))))
	case *ssa.Lookup:
		fr.set(x, fr.lookup(x))
	case *ssa.MapUpdate:
		mp := fr.get(x.Map).(*MapV)
		if mp == nil {
			panic(m.runtimePanic("assignment to entry in nil map"))
		}
		if m.raceOn(fr) {
			m.noteWrite(fr, &mp.meta)
		}
		m.mapSet(fr, mp, fr.get(x.Key), fr.get(x.Value))
	case *ssa.Range:
		fr.set(x, fr.rangeIter(fr.get(x.X)))
	case *ssa.Next:
		fr.set(x, fr.next(x))
	case *ssa.TypeAssert:
		fr.set(x, fr.typeAssert(x))
	case *ssa.Phi:
		// evaluated by jump
	case *ssa.Select:
		fr.set(x, fr.selectStmt(x))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	return kNext
}

func (fr *Frame) jump(b *ssa.BasicBlock) {
	fr.prev, fr.block = fr.block, b
	// phis are evaluated in parallel
	var vals []Value
	n := 0
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == fr.prev {
				vals = append(vals, fr.get(p.Edges[i]))
				break
			}
		}
		n++
	}
	if n > 0 {
		for i := 0; i < n; i++ {
			fr.set(b.Instrs[i].(*ssa.Phi), vals[i])
		}
	}
}

func (fr *Frame) spawn(cl *Closure, args []Value, call *ssa.CallCommon) *Thread {
	m := fr.m
	name := cl.name
	if cl.fn != nil {
		name = cl.fn.Name()
	}
	t := m.newThread(name, fr.th)
	t.waitPos = fr.shortPos()
	t.byRepo = fr.info != nil && fr.info.isRepo
	// model code never runs preempted; threads it starts carry program code and are not atomic
	m.startThread(t, func() {
		root := &Frame{m: m, th: t, fn: m.ex.rootFn, info: m.ex.rootInfo, regs: nil}
		t.fr = root
		if cl.fn == nil && cl.native == nil {
			fr.builtinOn(root, cl.name, call, args)
			return
		}
		m.callValue(root, cl, args)
	})
	if len(m.threads) > m.ex.cfg.MaxThreads {
		m.finish("limit", "thread bound"+m.where(fr.th))
		panic(abortPath{})
	}
	return t
}

func (fr *Frame) builtinOn(root *Frame, name string, call *ssa.CallCommon, args []Value) {
	root.builtin(name, call, args)
}

func (fr *Frame) prepare(c *ssa.CallCommon) (Value, []Value) {
	m := fr.m
	if c.IsInvoke() {
		recv := m.force(fr, fr.get(c.Value))
		if recv.t == nil {
			panic(m.runtimePanic("invalid memory address or nil pointer dereference"))
		}
		fn := m.method(recv.t, c.Method)
		args := []Value{recv.v}
		for _, a := range c.Args {
			args = append(args, fr.get(a))
		}
		return fn, args
	}
	fn := fr.get(c.Value)
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = fr.get(a)
	}
	return fn, args
}

type methKey struct {
	t types.Type
	m *types.Func
}

var methMu sync.Mutex

// method resolves a dynamic call.
func (m *Machine) method(t types.Type, f *types.Func) *Closure {
	methMu.Lock()
	fn := m.ex.prog.LookupMethod(t, f.Pkg(), f.Name())
	methMu.Unlock()
	if fn == nil {
		panic(unsupported(fmt.Sprintf("method %s of %v", f.Name(), t)))
	}
	return &Closure{fn: fn}
}

func (m *Machine) methodByName(t types.Type, pkg *types.Package, name string) *ssa.Function {
	methMu.Lock()
	defer methMu.Unlock()
	ms := m.ex.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return m.ex.prog.MethodValue(sel)
}

func (fr *Frame) doCall(c *ssa.CallCommon) Value {
	fn, args := fr.prepare(c)
	cl := fn.(*Closure)
	if cl == nil {
		panic(fr.m.runtimePanic("invalid memory address or nil pointer dereference"))
	}
	if cl.fn == nil && cl.native == nil {
		return fr.builtin(cl.name, c, args)
	}
	return fr.m.callValue(fr, cl, args)
}

func (m *Machine) makeIface(t types.Type, v Value) Value {
	if types.IsInterface(t) {
		return v
	}
	return Iface{t: t, v: copyVal(v)}
}

// ---- operators ----

func (fr *Frame) unop(x *ssa.UnOp) Value {
	v := fr.get(x.X)
	m := fr.m
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil && strings.HasPrefix(g.Name(), "init$guard") {
			return v.(*Cell).v
		}
		return fr.load(fr.ptr(v))
	case token.NOT:
		return mkNot(tm(v))
	case token.SUB:
		t := tm(v)
		if t.sort == SFP {
			if t.isConst() {
				return mkFP(-t.f)
			}
			if t.op == OI2F {
				return mkI2F(mkBin(OSub, mkBV(0, 64), t.args[0]))
			}
			return &Term{op: OFNeg, sort: SFP, args: []*Term{t}}
		}
		return mkBin(OSub, mkBV(0, t.w), t)
	case token.XOR:
		t := tm(v)
		return mkBin(OBXor, t, mkBV(mask(t.w), t.w))
	case token.ARROW:
		val, ok := m.recv(fr, v.(*Chan))
		if x.CommaOk {
			return Tuple{val, mkBool(ok)}
		}
		return val
	}
	panic(unsupported("unary " + x.Op.String()))
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	_, s := basicWidth(b)
	return s
}

func (fr *Frame) binop(op token.Token, t types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return fr.m.equal(fr, a, b)
	case token.NEQ:
		return mkNot(fr.m.equal(fr, a, b))
	}
	x, y := tm(a), tm(b)
	switch x.sort {
	case SBool:
		switch op {
		case token.AND, token.LAND:
			return mkAnd(x, y)
		case token.OR, token.LOR:
			return mkOr(x, y)
		}
	case SStr:
		switch op {
		case token.ADD:
			return mkConcat(x, y)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if x.isConst() && y.isConst() {
				switch op {
				case token.LSS:
					return mkBool(x.s < y.s)
				case token.GTR:
					return mkBool(x.s > y.s)
				case token.LEQ:
					return mkBool(x.s <= y.s)
				}
				return mkBool(x.s >= y.s)
			}
			less := func(p, q *Term) *Term { return &Term{op: OStrLess, sort: SBool, args: []*Term{p, q}} }
			switch op {
			case token.LSS:
				return less(x, y)
			case token.GTR:
				return less(y, x)
			case token.LEQ:
				return mkNot(less(y, x))
			}
			return mkNot(less(x, y))
		}
	case SFP:
		switch op {
		case token.ADD:
			return mkFBin(OFAdd, x, y)
		case token.SUB:
			return mkFBin(OFSub, x, y)
		case token.MUL:
			return mkFBin(OFMul, x, y)
		case token.QUO:
			return mkFBin(OFDiv, x, y)
		case token.LSS:
			return mkFCmp(OFLt, x, y)
		case token.LEQ:
			return mkFCmp(OFLe, x, y)
		case token.GTR:
			return mkFCmp(OFLt, y, x)
		case token.GEQ:
			return mkFCmp(OFLe, y, x)
		}
	case SBV:
		sg := isSigned(t)
		pick := func(s, u Op) Op {
			if sg {
				return s
			}
			return u
		}
		switch op {
		case token.ADD:
			return mkBin(OAdd, x, y)
		case token.SUB:
			return mkBin(OSub, x, y)
		case token.MUL:
			return mkBin(OMul, x, y)
		case token.QUO, token.REM:
			if fr.m.branch(mkEq(y, mkBV(0, y.w))) {
				panic(fr.m.runtimePanic("integer divide by zero"))
			}
			if op == token.QUO {
				return mkBin(pick(OSDiv, OUDiv), x, y)
			}
			return mkBin(pick(OSRem, OURem), x, y)
		case token.AND:
			return mkBin(OBAnd, x, y)
		case token.OR:
			return mkBin(OBOr, x, y)
		case token.XOR:
			return mkBin(OBXor, x, y)
		case token.AND_NOT:
			return mkBin(OBAnd, x, mkBin(OBXor, y, mkBV(mask(y.w), y.w)))
		case token.SHL, token.SHR:
			// bring the shift count to the operand's width, saturating
			if y.isConst() {
				n := y.u
				if n > 64 {
					n = 64
				}
				if n >= uint64(x.w) {
					if op == token.SHL || !sg {
						return mkBV(0, x.w)
					}
					n = uint64(x.w) - 1
				}
				y = mkBV(n, x.w)
			} else {
				y = mkTrunc(mkZext(y, 64), x.w)
			}
			if op == token.SHL {
				return mkBin(OShl, x, y)
			}
			return mkBin(pick(OAshr, OLshr), x, y)
		case token.LSS:
			return mkBin(pick(OSlt, OUlt), x, y)
		case token.LEQ:
			return mkBin(pick(OSle, OUle), x, y)
		case token.GTR:
			return mkBin(pick(OSlt, OUlt), y, x)
		case token.GEQ:
			return mkBin(pick(OSle, OUle), y, x)
		}
	}
	panic(unsupported(fmt.Sprintf("binary %s on %v", op, t)))
}

// equal is Go's == as a term.
func (m *Machine) equal(fr *Frame, a, b Value) *Term {
	if _, ok := a.(*LazyIface); ok {
		a = m.forceFor(fr, a, b)
	}
	if _, ok := b.(*LazyIface); ok {
		b = m.forceFor(fr, b, a)
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			if x.sort == SStr {
				if t := m.docEq(fr, x, y); t != nil {
					return t
				}
			}
			return mkEq(x, y)
		}
	case *Cell:
		if y, ok := b.(*Cell); ok {
			return mkBool(x == y)
		}
	case *Chan:
		if y, ok := b.(*Chan); ok {
			return mkBool(x == y)
		}
	case *MapV:
		if y, ok := b.(*MapV); ok {
			return mkBool(x == y)
		}
	case *Closure:
		if y, ok := b.(*Closure); ok {
			return mkBool(x == y)
		}
	case Slice:
		if y, ok := b.(Slice); ok {
			return mkBool(x.isNil && y.isNil)
		}
	case *TimeV:
		if y, ok := b.(*TimeV); ok {
			return mkAnd(mkEq(x.sec, y.sec), mkEq(x.nsec, y.nsec), mkBool(x.off == y.off))
		}
	case *Struct:
		if y, ok := b.(*Struct); ok {
			var cs []*Term
			for i := range x.f {
				cs = append(cs, m.equal(fr, x.f[i].v, y.f[i].v))
			}
			return mkAnd(cs...)
		}
	case *Array:
		if y, ok := b.(*Array); ok {
			var cs []*Term
			for i := range x.e {
				cs = append(cs, m.equal(fr, x.e[i].v, y.e[i].v))
			}
			return mkAnd(cs...)
		}
	case Iface:
		if y, ok := b.(Iface); ok {
			if x.t == nil || y.t == nil {
				return mkBool(x.t == nil && y.t == nil)
			}
			if !types.Identical(x.t, y.t) {
				return tFalse
			}
			switch x.v.(type) {
			case Slice, *MapV, *Closure:
				panic(m.runtimePanic("comparing uncomparable type " + x.t.String()))
			}
			return m.equal(fr, x.v, y.v)
		}
	case *Native:
		if y, ok := b.(*Native); ok && x.kind == "rtype" && y.kind == "rtype" {
			return mkBool(types.Identical(x.obj.(types.Type), y.obj.(types.Type)))
		}
		return mkBool(a == b)
	}
	panic(unsupported(fmt.Sprintf("comparison of %T and %T", a, b)))
}

// concInt makes an integer concrete, forking over its feasible values.
func (m *Machine) concInt(fr *Frame, t *Term) int64 {
	if t.isConst() {
		return t.sval()
	}
	// small non-negative values first
	for i := int64(0); i < 16; i++ {
		if m.branch(mkEq(t, mkBV(uint64(i), t.w))) {
			return i
		}
	}
	panic(unsupported("symbolic size"))
}

func (fr *Frame) boundIndex(i *Term, n int) int {
	m := fr.m
	i64 := i
	if i.w < 64 {
		i64 = mkSext(i, 64)
	}
	if i64.isConst() {
		k := i64.sval()
		if k < 0 || k >= int64(n) {
			panic(m.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", k, n)))
		}
		return int(k)
	}
	if !m.branch(mkBin(OUlt, i64, mkInt(int64(n)))) {
		panic(m.runtimePanic(fmt.Sprintf("index out of range with length %d", n)))
	}
	for k := 0; k < n-1; k++ {
		if m.branch(mkEq(i64, mkInt(int64(k)))) {
			return k
		}
	}
	return n - 1
}

func (fr *Frame) indexAddr(v Value, i *Term) Value {
	switch x := v.(type) {
	case Slice:
		return &x.c[fr.boundIndex(i, len(x.c))]
	case *Cell:
		if x == nil {
			panic(fr.m.runtimePanic("invalid memory address or nil pointer dereference"))
		}
		a := x.v.(*Array)
		return &a.e[fr.boundIndex(i, len(a.e))]
	}
	panic(unsupported(fmt.Sprintf("index of %T", v)))
}

func (fr *Frame) index(v Value, i *Term) Value {
	switch x := v.(type) {
	case *Array:
		return copyVal(x.e[fr.boundIndex(i, len(x.e))].v)
	case *Term:
		if x.isConst() {
			return mkBV(uint64(x.s[fr.boundIndex(i, len(x.s))]), 8)
		}
		// a constant prefix can be indexed
		if p := parts(x); len(p) > 0 && p[0].isConst() && i.isConst() && int(i.sval()) < len(p[0].s) && i.sval() >= 0 {
			return mkBV(uint64(p[0].s[i.sval()]), 8)
		}
		if c := fr.m.concretize(x, "index of symbolic string"); true {
			return mkBV(uint64(c.s[fr.boundIndex(i, len(c.s))]), 8)
		}
	case Slice:
		return copyVal(x.c[fr.boundIndex(i, len(x.c))].v)
	}
	panic(unsupported(fmt.Sprintf("index of %T", v)))
}

func (fr *Frame) slice(x *ssa.Slice) Value {
	m := fr.m
	opt := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		return int(m.concInt(fr, tm(fr.get(v))))
	}
	v := fr.get(x.X)
	switch s := v.(type) {
	case *Term:
		if !s.isConst() {
			return fr.sliceSym(s, x)
		}
		lo, hi := opt(x.Low, 0), opt(x.High, len(s.s))
		if lo < 0 || hi < lo || hi > len(s.s) {
			panic(m.runtimePanic("slice bounds out of range"))
		}
		return mkStr(s.s[lo:hi])
	case Slice:
		if x.Low != nil || x.High != nil {
			if t := fr.unknownBytes(s, x.X.Type()); t != nil {
				return bytesOf(tm(fr.sliceSym(m.plainText(t), x)))
			}
		}
		lo := opt(x.Low, 0)
		hi := opt(x.High, len(s.c))
		mx := opt(x.Max, cap(s.c))
		if lo < 0 || hi < lo || mx < hi || mx > cap(s.c) {
			panic(m.runtimePanic("slice bounds out of range"))
		}
		if s.isNil {
			return s
		}
		return Slice{c: s.c[lo:hi:mx]}
	case *Cell:
		if s == nil {
			panic(m.runtimePanic("invalid memory address or nil pointer dereference"))
		}
		a := s.v.(*Array)
		lo := opt(x.Low, 0)
		hi := opt(x.High, len(a.e))
		mx := opt(x.Max, len(a.e))
		if lo < 0 || hi < lo || mx < hi || mx > len(a.e) {
			panic(m.runtimePanic("slice bounds out of range"))
		}
		return Slice{c: a.e[lo:hi:mx]}
	}
	panic(unsupported(fmt.Sprintf("slice of %T", v)))
}

// unknownBytes is the text in a byte slice that the program under test looks at, if some of it is not known. (Library
// code that is followed only moves such bytes around, in pieces.)
func (fr *Frame) unknownBytes(s Slice, typ types.Type) *Term {
	if !fr.info.isRepo {
		return nil
	}
	st, ok := typ.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	if el, ok := st.Elem().Underlying().(*types.Basic); !ok || el.Kind() != types.Uint8 {
		return nil
	}
	for i := range s.c {
		t, ok := s.c[i].v.(*Term)
		if !ok {
			return nil
		}
		if t.sort == SStr {
			return bytesToStr(s.c)
		}
	}
	return nil
}

// sliceSym handles s[lo:hi] of a partly symbolic string: positions inside constant ends, and elsewhere a split into
// unknown parts of known length.
func (fr *Frame) sliceSym(s *Term, x *ssa.Slice) Value {
	m := fr.m
	lo, hi := mkInt(0), mkStrLen(s)
	if x.Low != nil {
		lo = tm(fr.get(x.Low))
	}
	if x.High != nil {
		hi = tm(fr.get(x.High))
	}
	end := same(hi, mkStrLen(s))
	p := parts(s)
	if len(p) > 0 && p[0].isConst() && lo.isConst() && lo.sval() >= 0 && lo.sval() <= int64(len(p[0].s)) {
		if end {
			return mkConcat(append([]*Term{mkStr(p[0].s[lo.sval():])}, p[1:]...)...)
		}
		if hi.isConst() && hi.sval() >= lo.sval() && hi.sval() <= int64(len(p[0].s)) {
			return mkStr(p[0].s[lo.sval():hi.sval()])
		}
	}
	if end && lo.isConst() && lo.u == 0 {
		return s
	}
	if _, rest, ok := cutAt(s, lo); ok {
		if end {
			return rest
		}
		if part, _, ok := cutAt(rest, mkBin(OSub, hi, lo)); ok {
			return part
		}
	}
	if !hasBlob(s) && !m.branch(mkAnd(mkBin(OSle, mkInt(0), lo), mkBin(OSle, lo, hi), mkBin(OSle, hi, mkStrLen(s)))) {
		panic(m.runtimePanic("slice bounds out of range"))
	}
	if hasBlob(s) || !m.branch(mkInRe(s, "ascii")) {
		c := m.concretize(s, "symbolic slice bound")
		l, h := m.concretize(lo, "symbolic slice bound"), int64(len(c.s))
		if !end {
			h = m.concretize(hi, "symbolic slice bound").sval()
		}
		if l.sval() < 0 || l.sval() > h || h > int64(len(c.s)) {
			panic(m.runtimePanic("slice bounds out of range"))
		}
		return mkStr(c.s[l.sval():h])
	}
	// all of s is ASCII: positions are characters
	if end && lo.isConst() {
		return &Term{op: OSubstr, sort: SStr, args: []*Term{s}, u: lo.u}
	}
	a, b, c := mkStr(""), m.fresh("part", SStr, 0), mkStr("")
	if !lo.isConst() || lo.u != 0 {
		a = m.fresh("before", SStr, 0)
		m.assume(mkEq(mkStrLen(a), lo))
	}
	if !end {
		c = m.fresh("after", SStr, 0)
		m.assume(mkEq(mkStrLen(b), mkBin(OSub, hi, lo)))
	}
	m.assume(mkEq(s, mkConcat(a, b, c)))
	return b
}

// ---- maps ----

func newMap(t types.Type) *MapV {
	return &MapV{idx: map[string]int{}, kt: t.Underlying().(*types.Map).Key()}
}

func mapKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return "", false
		}
		switch x.sort {
		case SStr:
			return "s" + x.s, true
		case SFP:
			return fmt.Sprintf("f%x", math.Float64bits(x.f)), true
		}
		return fmt.Sprintf("i%d", x.u), true
	case *Cell:
		return fmt.Sprintf("p%p", x), true
	case *Chan:
		return fmt.Sprintf("c%p", x), true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := mapKey(x.v)
		return "I" + types.TypeString(x.t, nil) + ":" + k, ok
	case *Struct:
		var b strings.Builder
		for i := range x.f {
			k, ok := mapKey(x.f[i].v)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&b, "%d:%s;", len(k), k)
		}
		return b.String(), true
	case *Array:
		var b strings.Builder
		for i := range x.e {
			k, ok := mapKey(x.e[i].v)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&b, "%d:%s;", len(k), k)
		}
		return b.String(), true
	case *TimeV:
		return "", false
	}
	return "", false
}

func (m *Machine) mapFind(fr *Frame, mp *MapV, k Value) *MapEntry {
	if mp == nil {
		return nil
	}
	if _, ok := k.(*LazyIface); ok {
		k = m.force(fr, k)
	}
	if i, ok := k.(Iface); ok && i.t != nil {
		switch i.v.(type) {
		case Slice, *MapV, *Closure:
			panic(m.runtimePanic("hash of unhashable type " + i.t.String()))
		}
	}
	if s, ok := mapKey(k); ok {
		if i, ok := mp.idx[s]; ok {
			return mp.entries[i]
		}
		if !mp.symKeys {
			return nil
		}
	}
	for i := len(mp.entries) - 1; i >= 0; i-- {
		e := mp.entries[i]
		if e.deleted {
			continue
		}
		if m.branch(m.equal(fr, e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(fr *Frame, mp *MapV, k, v Value) {
	if e := m.mapFind(fr, mp, k); e != nil {
		e.v.v = copyVal(v)
		return
	}
	e := &MapEntry{k: copyVal(k)}
	e.v.v = copyVal(v)
	if s, ok := mapKey(k); ok {
		mp.idx[s] = len(mp.entries)
	} else {
		mp.symKeys = true
	}
	mp.entries = append(mp.entries, e)
	mp.live++
}

func (m *Machine) mapDelete(fr *Frame, mp *MapV, k Value) {
	e := m.mapFind(fr, mp, k)
	if e == nil {
		return
	}
	e.deleted = true
	mp.live--
	if s, ok := mapKey(e.k); ok {
		delete(mp.idx, s)
	}
}

func (fr *Frame) lookup(x *ssa.Lookup) Value {
	m := fr.m
	switch c := fr.get(x.X).(type) {
	case *Term:
		return fr.index(c, tm(fr.get(x.Index)))
	case *MapV:
		var v Value
		ok := false
		if c != nil && m.raceOn(fr) {
			m.noteRead(fr, &c.meta)
		}
		if e := m.mapFind(fr, c, fr.get(x.Index)); e != nil {
			v, ok = copyVal(e.v.v), true
		} else {
			v = zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			return Tuple{v, mkBool(ok)}
		}
		return v
	}
	panic(unsupported("lookup"))
}

type mapIter struct {
	mp *MapV
	i  int
}
type strIter struct {
	s string
	i int
}

func (fr *Frame) rangeIter(v Value) Value {
	switch x := v.(type) {
	case *MapV:
		if x != nil && fr.m.raceOn(fr) {
			fr.m.noteRead(fr, &x.meta)
		}
		return &mapIter{mp: x}
	case *Term:
		if !x.isConst() {
			x = fr.m.concretize(x, "range over symbolic string")
		}
		return &strIter{s: x.s}
	}
	panic(unsupported("range"))
}

func (fr *Frame) next(x *ssa.Next) Value {
	switch it := fr.get(x.Iter).(type) {
	case *mapIter:
		if it.mp != nil {
			for it.i < len(it.mp.entries) {
				e := it.mp.entries[it.i]
				it.i++
				if !e.deleted {
					return Tuple{tTrue, copyVal(e.k), copyVal(e.v.v)}
				}
			}
		}
		t := x.Type().(*types.Tuple)
		z := func(i int) Value {
			if b, ok := t.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return zero(t.At(i).Type())
		}
		return Tuple{tFalse, z(1), z(2)}
	case *strIter:
		for i, r := range it.s[it.i:] {
			_ = i
			k := it.i
			n := len(string(r))
			if r == 0xFFFD {
				n = 1
				if strings.HasPrefix(it.s[it.i:], "\uFFFD") {
					n = 3
				}
			}
			it.i += n
			return Tuple{tTrue, mkInt(int64(k)), mkBV(uint64(r), 32)}
		}
		return Tuple{tFalse, mkInt(0), mkBV(0, 32)}
	}
	panic("next")
}

// ---- conversions ----

func (fr *Frame) conv(to, from types.Type, v Value) Value {
	ut, uf := to.Underlying(), from.Underlying()
	if tp, ok := to.(*types.TypeParam); ok {
		_ = tp
		panic(unsupported("conversion to type parameter"))
	}
	switch t := ut.(type) {
	case *types.Slice: // from string
		s, ok := v.(*Term)
		if !ok {
			return v
		}
		if t.Elem().Underlying().(*types.Basic).Kind() == types.Int32 {
			var c []Cell
			for _, r := range fr.m.concretize(s, "runes of a symbolic string").s {
				c = append(c, Cell{v: mkBV(uint64(r), 32)})
			}
			return Slice{c: c}
		}
		return strToBytes(s)
	case *types.Pointer:
		return v
	case *types.Basic:
		info := t.Info()
		switch {
		case info&types.IsString != 0:
			switch f := uf.(type) {
			case *types.Slice:
				s := v.(Slice)
				if f.Elem().Underlying().(*types.Basic).Kind() == types.Int32 {
					var rs []rune
					for i := range s.c {
						rs = append(rs, rune(tm(s.c[i].v).sval()))
					}
					return mkStr(string(rs))
				}
				if fr.m.raceOn(fr) {
					for i := range s.c {
						fr.m.noteRead(fr, &s.c[i].meta)
					}
				}
				return bytesToStr(s.c)
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return v
				}
				x := tm(v)
				if !x.isConst() {
					panic(unsupported("string(symbolic rune)"))
				}
				return mkStr(string(rune(x.sval())))
			}
		case info&types.IsInteger != 0:
			w, _ := basicWidth(t)
			if f, ok := uf.(*types.Basic); ok {
				if f.Kind() == types.UnsafePointer {
					panic(unsupported("unsafe pointer to integer"))
				}
				x := tm(v)
				if x.sort == SFP {
					if x.isConst() {
						return mkBV(uint64(int64(x.f)), w)
					}
					if x.op == OI2F {
						return mkTrunc(x.args[0], w)
					}
					return mkTrunc(&Term{op: OF2I, sort: SBV, w: 64, args: []*Term{x}}, w)
				}
				if w <= x.w {
					return mkTrunc(x, w)
				}
				if isSigned(from) {
					return mkSext(x, w)
				}
				return mkZext(x, w)
			}
		case info&types.IsFloat != 0:
			x := tm(v)
			if x.sort == SFP {
				if t.Kind() == types.Float32 && x.isConst() {
					return mkFP(float64(float32(x.f)))
				}
				if t.Kind() == types.Float32 && uf.(*types.Basic).Kind() != types.Float32 {
					panic(unsupported("float32 conversion of a symbolic value"))
				}
				return x
			}
			if isSigned(from) {
				return mkI2F(mkSext(x, 64))
			}
			return mkI2F(mkZext(x, 64))
		case t.Kind() == types.UnsafePointer:
			return v
		}
	}
	panic(unsupported(fmt.Sprintf("conversion %v -> %v", from, to)))
}

// ---- interfaces ----

func (fr *Frame) typeAssert(x *ssa.TypeAssert) Value {
	m := fr.m
	v := fr.get(x.X)
	if l, ok := v.(*LazyIface); ok {
		v = m.forceAssert(fr, l, x.AssertedType)
	}
	i := v.(Iface)
	ok := false
	var res Value
	if types.IsInterface(x.AssertedType) {
		if i.t != nil && m.implements(i.t, x.AssertedType) {
			ok = true
			res = i
		} else {
			res = Iface{}
		}
	} else {
		if i.t != nil && types.Identical(i.t, x.AssertedType) {
			ok = true
			res = copyVal(i.v)
		} else {
			res = zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		return Tuple{res, mkBool(ok)}
	}
	if !ok {
		panic(m.runtimePanic(fmt.Sprintf("interface conversion: interface is %v, not %v", i.t, x.AssertedType)))
	}
	return res
}

type implKey struct {
	t, i types.Type
}

var implCache sync.Map

func (m *Machine) implements(t, it types.Type) bool {
	k := implKey{t, it}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	methMu.Lock()
	r := types.Implements(t, it.Underlying().(*types.Interface))
	methMu.Unlock()
	implCache.Store(k, r)
	return r
}

// ---- select ----

func (fr *Frame) selectStmt(x *ssa.Select) Value {
	var cases []selCase
	for _, s := range x.States {
		k := selCase{send: s.Dir == types.SendOnly, c: fr.get(s.Chan).(*Chan)}
		if k.send {
			k.v = fr.get(s.Send)
		}
		cases = append(cases, k)
	}
	i, v, ok := fr.m.doSelect(fr, cases, x.Blocking)
	r := Tuple{mkInt(int64(i)), mkBool(ok)}
	for j, s := range x.States {
		if s.Dir == types.RecvOnly {
			if j == i {
				r = append(r, v)
			} else {
				r = append(r, zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return r
}

// ---- builtins ----

func (fr *Frame) builtin(name string, call *ssa.CallCommon, args []Value) Value {
	m := fr.m
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *Term:
			if fr.info.isRepo && hasBlob(x) {
				return mkStrLen(m.plainText(x))
			}
			return mkStrLen(x)
		case Slice:
			if t := fr.unknownBytes(x, call.Args[0].Type()); t != nil {
				return mkStrLen(m.plainText(t))
			}
			return mkInt(int64(len(x.c)))
		case *MapV:
			if x == nil {
				return mkInt(0)
			}
			if m.raceOn(fr) {
				m.noteRead(fr, &x.meta)
			}
			return mkInt(int64(x.live))
		case *Chan:
			if x == nil {
				return mkInt(0)
			}
			return mkInt(int64(len(x.buf)))
		case *Array:
			return mkInt(int64(len(x.e)))
		case *Cell:
			return mkInt(int64(len(x.v.(*Array).e)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return mkInt(int64(cap(x.c)))
		case *Chan:
			if x == nil {
				return mkInt(0)
			}
			return mkInt(int64(x.cap))
		case *Array:
			return mkInt(int64(len(x.e)))
		case *Cell:
			return mkInt(int64(len(x.v.(*Array).e)))
		}
	case "append":
		s := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		var add Slice
		if t, ok := args[1].(*Term); ok {
			add = strToBytes(t)
		} else {
			add = args[1].(Slice)
		}
		if len(add.c) == 0 {
			return s
		}
		n := len(s.c) + len(add.c)
		if n <= cap(s.c) {
			d := s.c[:n]
			for i := range add.c {
				dst := &d[len(s.c)+i]
				if m.raceOn(fr) {
					m.writeCell(fr, dst)
				}
				storeVal(dst, add.c[i].v)
			}
			return Slice{c: d}
		}
		cp := 2 * cap(s.c)
		if cp < n {
			cp = n
		}
		d := make([]Cell, n, cp)
		for i := range s.c {
			d[i].v = copyVal(s.c[i].v)
		}
		for i := range add.c {
			d[len(s.c)+i].v = copyVal(add.c[i].v)
		}
		if n < cp {
			el := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			full := d[:cp]
			for i := n; i < cp; i++ {
				full[i].v = zero(el)
			}
		}
		return Slice{c: d}
	case "copy":
		d := args[0].(Slice)
		var s Slice
		if t, ok := args[1].(*Term); ok {
			s = strToBytes(t)
		} else {
			s = args[1].(Slice)
		}
		n := len(s.c)
		if len(d.c) < n {
			n = len(d.c)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(s.c[i].v)
		}
		for i := 0; i < n; i++ {
			if m.raceOn(fr) {
				m.writeCell(fr, &d.c[i])
			}
			storeVal(&d.c[i], tmp[i])
		}
		return mkInt(int64(n))
	case "delete":
		mp := args[0].(*MapV)
		if mp == nil {
			return nil
		}
		if m.raceOn(fr) {
			m.noteWrite(fr, &mp.meta)
		}
		m.mapDelete(fr, mp, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				if m.raceOn(fr) {
					m.noteWrite(fr, &x.meta)
				}
				x.entries, x.idx, x.live, x.symKeys = nil, map[string]int{}, 0, false
			}
		case Slice:
			for i := range x.c {
				storeVal(&x.c[i], zero(call.Args[0].Type().Underlying().(*types.Slice).Elem()))
			}
		}
		return nil
	case "close":
		m.closeChan(fr, args[0].(*Chan))
		return nil
	case "panic":
		panic(targetPanic{v: args[0]})
	case "recover":
		return fr.doRecover()
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			c := fr.binop(op, call.Args[0].Type(), a, r).(*Term)
			if m.branch(c) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if c, ok := args[0].(*Cell); ok && c == nil {
			panic(m.runtimePanic("invalid memory address or nil pointer dereference"))
		}
		return args[0]
	case "String", "StringData", "Slice", "SliceData", "Add":
		panic(unsupported("unsafe." + name))
	}
	panic(unsupported(fmt.Sprintf("builtin %s on %T", name, args[0])))
}

// doRecover implements recover() called directly by a deferred function.
func (fr *Frame) doRecover() Value {
	c := fr.caller
	// fr is the deferred function; its caller frame is the panicking one
	if c != nil && c.panicking && !c.recovered {
		c.panicking = false
		p := c.panicVal
		if p.goexit {
			c.panicking = true
			return Iface{}
		}
		if i, ok := p.v.(Iface); ok {
			return i
		}
		return p.v
	}
	return Iface{}
}

func encodedList() []string {
	var s []string
	encodedFns.Range(func(k, v interface{}) bool { s = append(s, k.(string)); return true })
	sort.Strings(s)
	return s
}

var stepTotal int64

func addSteps(n int) { atomic.AddInt64(&stepTotal, int64(n)) }
