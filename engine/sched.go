package main

// Threads, blocking, channels, locks, the virtual clock and happens-before tracking of one explored path.

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type VC []int32

func (v VC) get(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func (v *VC) set(i int, c int32) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i] = c
}
func (v *VC) join(o VC) {
	for i, c := range o {
		if c > v.get(i) {
			v.set(i, c)
		}
	}
}
func (v VC) clone() VC { return append(VC(nil), v...) }

type Thread struct {
	id      int
	name    string
	m       *Machine
	resume  chan struct{}
	cond    func() bool
	done    bool
	vc      VC
	fr      *Frame
	atomic  int
	system  bool // model thread (HTTP server internals), not counted as a goroutine of the program
	isMain  bool
	byRepo  bool // started by a go statement of the repository
	waitPos string
	onPanic func(p targetPanic) bool // true: absorbed
}

type Timer struct {
	id       int
	deadline *Term // ns, 64 bit
	fire     func()
	active   bool
	vc       VC
	period   *Term
}

// violation found on a path
type Violation struct {
	Kind   string // assert, panic, race, hang, handler-panic
	Msg    string
	Pos    string
	Stack  []string
	Assign map[string]string
	Delays []DelayPoint
	Trace  []string
	Id     string
}

type visitKey struct {
	fn *ssa.Function
	in ssa.Instruction
}

type DelayPoint struct {
	Pos   string // file:line
	Visit int    // n-th visit of that position by any thread
	Kind  string
}

type decision struct {
	opt    int
	nopts  int
	forced bool
}

type pathJob struct {
	prefix []int
	delays int
	known  int
}

type Machine struct {
	ex       *Explorer
	w        *Worker
	sol      *Solver
	threads  []*Thread
	cur      *Thread
	abort    chan struct{}
	aborted  bool
	finished chan struct{}
	wg       sync.WaitGroup

	prefix []int
	taken  []int
	delays int

	pc       []*Term
	facts    map[Op][]fact
	inputs   []*input
	inputIdx map[string]*input
	nfresh   int

	now         *Term
	timers      []*Timer
	timerSeq    int
	steps       int
	asserts     int
	outcome     string // ok, assume, violation, unsupported, limit
	viol        *Violation
	note        string
	reach       map[string]bool
	visits      map[visitKey]int
	delayLog    []DelayPoint
	schedVars   int
	obs         []string
	uncertain   bool
	pinned      map[string]*Term // variables fixed to a representative
	spelled     map[*JNode]*Term
	concretized string
	races       int
	ioVC        VC

	globals   map[*ssa.Global]*Cell
	inited    map[*ssa.Package]int
	side      map[interface{}]interface{} // native side tables keyed by cell
	mutexes   map[*Cell]*mutexState
	uuidN     int
	portN     int
	trace     []string
	curPanic  map[*Thread]*targetPanic
	symStr    []*Term
	initing   int
	wgs       map[*Cell]*wgState
	bindings  map[string]*Term // input variable -> text term it was found equal to
	natives   map[string]interface{}
	peakThr   int
	skipNames bool
	quiet     bool // evaluating the condition of vp.Quiesce
	calm      bool // no delays for now (vp.Calm)
}

type input struct {
	name string
	kind string // bool int string float time json
	t    *Term
	lo   int64
	hi   int64
	node *JNode
	sec  *Term
	nsec *Term
	off  int64
	xn   interface{}
}

type mutexState struct {
	writer  *Thread
	readers int
	vc      VC
	rvc     VC
	waiters int
}

type wgState struct {
	n  int64
	vc VC
}

func (m *Machine) newThread(name string, parent *Thread) *Thread {
	t := &Thread{id: len(m.threads), name: name, m: m, resume: make(chan struct{}, 1)}
	if parent != nil {
		t.vc = parent.vc.clone()
		m.tick(parent)
		t.system = false
	}
	t.vc.set(t.id, 1)
	m.threads = append(m.threads, t)
	n := 0
	for _, x := range m.threads {
		if !x.done {
			n++
		}
	}
	if n > m.peakThr {
		m.peakThr = n
	}
	return t
}

func (m *Machine) tick(t *Thread) { t.vc.set(t.id, t.vc.get(t.id)+1) }

// startThread launches the native goroutine carrying a thread. It begins to run when the scheduler picks it.
func (m *Machine) startThread(t *Thread, body func()) {
	m.wg.Add(1)
	go func() {
		defer m.wg.Done()
		select {
		case <-t.resume:
		case <-m.abort:
			return
		}
		m.runThread(t, body)
	}()
}

func (m *Machine) runThread(t *Thread, body func()) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case abortPath:
				return
			case unsupportedErr:
				m.finish("unsupported", x.msg+m.where(t))
				return
			case targetPanic:
				if x.goexit {
					m.threadDone(t)
					return
				}
				if t.onPanic != nil && t.onPanic(x) {
					m.threadDone(t)
					return
				}
				m.violate("panic", m.panicText(x)+x.origin, t)
				return
			default:
				m.finish("unsupported", fmt.Sprintf("engine: %v%s\n%s", r, m.where(t), stackTop()))
				return
			}
		}
	}()
	if m.aborted {
		return
	}
	body()
	m.threadDone(t)
}

func (m *Machine) threadDone(t *Thread) {
	t.done = true
	t.fr = nil
	if m.aborted {
		return
	}
	if t.isMain {
		m.finish("ok", "")
		return
	}
	next := m.pickOrAdvance(t)
	if next == nil {
		m.deadlock()
		return
	}
	m.cur = next
	next.resume <- struct{}{}
}

func (m *Machine) finish(outcome, note string) {
	if m.aborted {
		return
	}
	m.aborted = true
	m.outcome = outcome
	m.note = note
	close(m.abort)
	close(m.finished)
}

func (m *Machine) where(t *Thread) string {
	var s []string
	for f := t.fr; f != nil && len(s) < 6; f = f.caller {
		s = append(s, f.fn.String()+f.posString())
	}
	return " in " + strings.Join(s, " < ")
}

func (m *Machine) stack(t *Thread) []string {
	var s []string
	for f := t.fr; f != nil && len(s) < 20; f = f.caller {
		s = append(s, f.fn.String()+f.posString())
	}
	return s
}

// switchTo hands the baton over and waits until it comes back.
func (m *Machine) switchTo(self, next *Thread) {
	if next == self {
		return
	}
	m.cur = next
	next.resume <- struct{}{}
	select {
	case <-self.resume:
	case <-m.abort:
		panic(abortPath{})
	}
	if m.aborted {
		panic(abortPath{})
	}
}

func (m *Machine) pick(after *Thread) *Thread {
	n := len(m.threads)
	for i := 1; i <= n; i++ {
		t := m.threads[(after.id+i)%n]
		if t.done {
			continue
		}
		if t.cond == nil || t.cond() {
			return t
		}
	}
	return nil
}

func (m *Machine) pickOrAdvance(after *Thread) *Thread {
	for {
		if t := m.pick(after); t != nil {
			return t
		}
		if !m.advance() {
			return nil
		}
	}
}

// otherRunnable reports whether some thread other than t can run now.
func (m *Machine) otherRunnable(t *Thread) *Thread {
	n := len(m.threads)
	for i := 1; i < n; i++ {
		x := m.threads[(t.id+i)%n]
		if !x.done && (x.cond == nil || x.cond()) {
			return x
		}
	}
	return nil
}

// block suspends the current thread until cond holds.
func (m *Machine) block(t *Thread, cond func() bool) {
	if cond() {
		return
	}
	t.cond = cond
	next := m.pickOrAdvance(t)
	if next == nil {
		m.deadlock()
		panic(abortPath{})
	}
	m.switchTo(t, next)
	t.cond = nil
}

func (m *Machine) deadlock() {
	// every thread waits and no timer is pending; the harness main thread is among them
	var main *Thread
	for _, t := range m.threads {
		if t.isMain {
			main = t
		}
	}
	m.violate("hang", "all goroutines are blocked", main)
}

func (m *Machine) violate(kind, msg string, t *Thread) {
	if m.aborted {
		return
	}
	v := &Violation{Kind: kind, Msg: msg}
	if t != nil {
		v.Stack = m.stack(t)
		if len(v.Stack) > 0 {
			v.Pos = v.Stack[0]
		}
	}
	v.Delays = append([]DelayPoint(nil), m.delayLog...)
	res, as := m.assignment(nil)
	if res != Sat {
		m.finish("inconclusive", "no model for violation "+kind+": "+msg)
		return
	}
	v.Assign = as
	v.Trace = m.trace
	m.viol = v
	m.finish("violation", msg)
}

// ---- nondeterminism ----

// choose is an n-way choice that needs no solver (it is over fresh symbolic variables).
func (m *Machine) choose(n int, isDelay bool) int {
	if n <= 1 {
		return 0
	}
	i := len(m.taken)
	if i < len(m.prefix) {
		m.taken = append(m.taken, m.prefix[i])
		return m.prefix[i]
	}
	for k := n - 1; k >= 1; k-- {
		d := m.delays
		if isDelay {
			d++
		}
		m.ex.push(m, append(append([]int(nil), m.taken...), k), d)
	}
	m.taken = append(m.taken, 0)
	return 0
}

// branch decides a symbolic condition, forking when both outcomes are feasible.
func (m *Machine) branch(c *Term) bool {
	if c.isConst() {
		return c.u == 1
	}
	// a condition that was decided before on this path
	if yes, ok := m.known(c); ok {
		return yes
	}
	i := len(m.taken)
	if i < len(m.prefix) {
		o := m.prefix[i]
		m.taken = append(m.taken, o)
		if o == 0 {
			m.assume(c)
			return true
		}
		m.assume(mkNot(c))
		return false
	}
	rt := m.sol.check(c)
	rf := Sat
	if rt != Unsat {
		rf = m.sol.check(mkNot(c))
	}
	if rt == Unknown || rf == Unknown {
		m.uncertain = true
	}
	switch {
	case rt != Unsat && rf != Unsat:
		m.ex.push(m, append(append([]int(nil), m.taken...), 1), m.delays)
		m.taken = append(m.taken, 0)
		m.assume(c)
		return true
	case rt != Unsat:
		m.taken = append(m.taken, 0)
		m.assume(c)
		return true
	case rf != Unsat:
		m.taken = append(m.taken, 1)
		m.assume(mkNot(c))
		return false
	}
	m.finish("assume", "infeasible")
	panic(abortPath{})
}

func (m *Machine) assume(c *Term) {
	if c.isConst() {
		if c.u == 0 {
			m.finish("assume", "")
			panic(abortPath{})
		}
		return
	}
	m.pc = append(m.pc, c)
	if c.op == OAnd {
		for _, x := range c.args {
			m.fact(x)
		}
	} else {
		m.fact(c)
	}
	m.sol.assert(c)
}

// fact notes a condition that holds on the path.
func (m *Machine) fact(c *Term) {
	if c.op == ONot {
		c = c.args[0]
		m.facts[c.op] = append(m.facts[c.op], fact{c, false})
		return
	}
	m.facts[c.op] = append(m.facts[c.op], fact{c, true})
}

type fact struct {
	c   *Term
	yes bool
}

// known looks up a condition among those that were decided on the path.
func (m *Machine) known(c *Term) (yes, ok bool) {
	not := c.op == ONot
	if not {
		c = c.args[0]
	}
	for _, f := range m.facts[c.op] {
		if same(f.c, c) {
			return f.yes != not, true
		}
	}
	return false, false
}

// fresh makes an anonymous symbolic variable.
func (m *Machine) fresh(prefix string, s Sort, w int) *Term {
	m.nfresh++
	return mkVar(fmt.Sprintf("%s!%d", prefix, m.nfresh), s, w)
}

// visible is a scheduling point of the program under test.
func (m *Machine) visible(fr *Frame, kind string) {
	t := fr.th
	if t.atomic > 0 || m.ex.cfg.Delays == 0 {
		return
	}
	// find the frame of the program or the harness; library and model code is not preempted
	f := fr
	for f != nil && f.info.synthetic {
		f = f.caller
	}
	if f == nil || !f.info.preemptible {
		return
	}
	vk := visitKey{f.fn, f.pc}
	m.visits[vk]++
	visit := m.visits[vk]
	if m.calm || m.otherRunnable(t) == nil {
		return
	}
	if len(m.taken) >= len(m.prefix) && m.delays >= m.ex.cfg.Delays {
		return
	}
	if m.delays >= m.ex.cfg.Delays {
		return
	}
	if m.choose(2, true) == 1 {
		m.delays++
		m.schedVars++
		pos := f.shortPos()
		m.delayLog = append(m.delayLog, DelayPoint{Pos: pos, Visit: visit, Kind: kind})
		m.traceAdd("delay %s at %s (%s)", t.name, pos, kind)
		t.cond = nil
		next := m.otherRunnable(t)
		if next != nil {
			m.switchTo(t, next)
		}
	}
}

func (m *Machine) traceAdd(f string, a ...interface{}) {
	if len(m.trace) < 400 {
		m.trace = append(m.trace, fmt.Sprintf(f, a...))
	}
}

// ---- virtual time ----

func (m *Machine) addTimer(d *Term, t *Thread, fire func()) *Timer {
	m.timerSeq++
	if d.isConst() && d.sval() < 0 {
		d = mkInt(0)
	}
	tm := &Timer{id: m.timerSeq, deadline: mkBin(OAdd, m.now, d), fire: fire, active: true}
	if t != nil {
		tm.vc = t.vc.clone()
		m.tick(t)
	}
	m.timers = append(m.timers, tm)
	return tm
}

// advance moves the clock to the earliest pending deadline and fires what is due.
func (m *Machine) advance() bool {
	var act []*Timer
	for _, t := range m.timers {
		if t.active {
			act = append(act, t)
		}
	}
	m.timers = act
	if len(act) == 0 || m.aborted {
		return false
	}
	min := act[0]
	for _, t := range act[1:] {
		if m.branch(mkBin(OSlt, t.deadline, min.deadline)) {
			min = t
		}
	}
	if m.branch(mkBin(OSlt, m.now, min.deadline)) {
		m.now = min.deadline
	}
	var due []*Timer
	for _, t := range act {
		if t == min || m.branch(mkBin(OSle, t.deadline, m.now)) {
			due = append(due, t)
		}
	}
	for _, t := range due {
		if !t.active {
			continue
		}
		if t.period != nil {
			t.deadline = mkBin(OAdd, m.now, t.period)
		} else {
			t.active = false
		}
		t.fire()
	}
	return true
}

// advanceWithin fires the timers that are known to be due by a time, without asking the solver.
func (m *Machine) advanceWithin(until *Term) bool {
	var first *Timer
	for _, t := range m.timers {
		if !t.active {
			continue
		}
		if k, ok := constDiff(t.deadline, until); !ok || k > 0 {
			continue
		}
		if first != nil {
			if k, ok := constDiff(t.deadline, first.deadline); !ok || k >= 0 {
				continue
			}
		}
		first = t
	}
	if first == nil {
		return false
	}
	if k, ok := constDiff(m.now, first.deadline); ok && k < 0 {
		m.now = first.deadline
	}
	if first.period != nil {
		first.deadline = mkBin(OAdd, m.now, first.period)
	} else {
		first.active = false
	}
	first.fire()
	return true
}

// ---- channels ----

type chItem struct {
	v  Value
	vc VC
}

type waiter struct {
	th    *Thread
	sel   *selState
	idx   int
	v     Value // to send
	recvd *chItem
	ok    bool
}

type selState struct {
	fired bool
	idx   int
	item  chItem
	ok    bool
	panic bool
}

type Chan struct {
	cap    int
	buf    []chItem
	closed bool
	clVC   VC
	sendq  []*waiter
	recvq  []*waiter
	elem   types.Type
	freeVC []VC // for receives making room in a buffered channel
	name   string
}

func (q *Chan) deq(ws *[]*waiter) *waiter {
	for len(*ws) > 0 {
		w := (*ws)[0]
		*ws = (*ws)[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}

func (q *Chan) peek(ws *[]*waiter) bool {
	for len(*ws) > 0 {
		if !(*ws)[0].sel.fired {
			return true
		}
		*ws = (*ws)[1:]
	}
	return false
}

func (q *Chan) canSend() bool {
	return q.closed || len(q.buf) < q.cap || q.peek(&q.recvq)
}
func (q *Chan) canRecv() bool {
	return q.closed || len(q.buf) > 0 || q.peek(&q.sendq)
}

// doSend performs a send that cannot block.
func (m *Machine) doSend(t *Thread, c *Chan, v Value) {
	if c.closed {
		panic(m.runtimePanic("send on closed channel"))
	}
	var vc VC
	if t != nil {
		vc = t.vc.clone()
		m.tick(t)
	} else {
		vc = nil
	}
	if w := c.deq(&c.recvq); w != nil {
		w.sel.fired, w.sel.idx, w.sel.ok = true, w.idx, true
		w.sel.item = chItem{v, vc}
		if t != nil && c.cap == 0 {
			// a receive from an unbuffered channel happens before the send completes
			t.vc.join(w.th.vc)
			m.tick(w.th)
		}
		return
	}
	c.buf = append(c.buf, chItem{v, vc})
	if t != nil && len(c.freeVC) > 0 {
		t.vc.join(c.freeVC[0])
		c.freeVC = c.freeVC[1:]
	}
}

// doRecv performs a receive that cannot block.
func (m *Machine) doRecv(t *Thread, c *Chan) (Value, bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		t.vc.join(it.vc)
		if c.cap > 0 {
			c.freeVC = append(c.freeVC, t.vc.clone())
			m.tick(t)
		}
		if w := c.deq(&c.sendq); w != nil {
			c.buf = append(c.buf, chItem{w.v, w.th.vc.clone()})
			w.sel.fired, w.sel.idx = true, w.idx
			m.tick(w.th)
		}
		return it.v, true
	}
	if w := c.deq(&c.sendq); w != nil {
		w.sel.fired, w.sel.idx = true, w.idx
		t.vc.join(w.th.vc)
		w.th.vc.join(t.vc)
		m.tick(w.th)
		m.tick(t)
		return w.v, true
	}
	if c.closed {
		t.vc.join(c.clVC)
		return zero(c.elem), false
	}
	panic("doRecv would block")
}

func (m *Machine) send(fr *Frame, c *Chan, v Value) {
	m.visible(fr, "send")
	t := fr.th
	if c == nil {
		m.block(t, func() bool { return false })
	}
	if c.canSend() {
		m.doSend(t, c, v)
		return
	}
	w := &waiter{th: t, sel: &selState{}, v: v}
	c.sendq = append(c.sendq, w)
	m.block(t, func() bool { return w.sel.fired })
	if w.sel.panic {
		panic(m.runtimePanic("send on closed channel"))
	}
}

func (m *Machine) recv(fr *Frame, c *Chan) (Value, bool) {
	m.visible(fr, "recv")
	t := fr.th
	if c == nil {
		m.block(t, func() bool { return false })
	}
	if c.canRecv() {
		return m.doRecv(t, c)
	}
	w := &waiter{th: t, sel: &selState{}}
	c.recvq = append(c.recvq, w)
	m.block(t, func() bool { return w.sel.fired })
	t.vc.join(w.sel.item.vc)
	if !w.sel.ok {
		return zero(c.elem), false
	}
	return w.sel.item.v, true
}

func (m *Machine) closeChan(fr *Frame, c *Chan) {
	m.visible(fr, "close")
	if c == nil {
		panic(m.runtimePanic("close of nil channel"))
	}
	if c.closed {
		panic(m.runtimePanic("close of closed channel"))
	}
	c.closed = true
	c.clVC = fr.th.vc.clone()
	m.tick(fr.th)
	for {
		w := c.deq(&c.recvq)
		if w == nil {
			break
		}
		w.sel.fired, w.sel.idx, w.sel.ok = true, w.idx, false
		w.sel.item = chItem{zero(c.elem), c.clVC}
	}
	for {
		w := c.deq(&c.sendq)
		if w == nil {
			break
		}
		w.sel.fired, w.sel.idx, w.sel.panic = true, w.idx, true
	}
}

type selCase struct {
	send bool
	c    *Chan
	v    Value
}

// doSelect returns the chosen case, or -1 for the default case.
func (m *Machine) doSelect(fr *Frame, cases []selCase, blocking bool) (int, Value, bool) {
	m.visible(fr, "select")
	t := fr.th
	var ready []int
	for i, k := range cases {
		if k.c == nil {
			continue
		}
		if k.send && k.c.canSend() || !k.send && k.c.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 {
			if t.atomic > 0 {
				i = ready[0]
			} else {
				i = ready[m.choose(len(ready), false)]
			}
		}
		k := cases[i]
		if k.send {
			m.doSend(t, k.c, k.v)
			return i, nil, false
		}
		v, ok := m.doRecv(t, k.c)
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	st := &selState{}
	for i, k := range cases {
		if k.c == nil {
			continue
		}
		w := &waiter{th: t, sel: st, idx: i, v: k.v}
		if k.send {
			k.c.sendq = append(k.c.sendq, w)
		} else {
			k.c.recvq = append(k.c.recvq, w)
		}
	}
	m.block(t, func() bool { return st.fired })
	if st.panic {
		panic(m.runtimePanic("send on closed channel"))
	}
	if cases[st.idx].send {
		return st.idx, nil, false
	}
	t.vc.join(st.item.vc)
	if !st.ok {
		return st.idx, zero(cases[st.idx].c.elem), false
	}
	return st.idx, st.item.v, true
}

// ---- mutexes ----

func (m *Machine) mutex(c *Cell) *mutexState {
	s := m.mutexes[c]
	if s == nil {
		s = &mutexState{}
		m.mutexes[c] = s
	}
	return s
}

func (m *Machine) lock(fr *Frame, c *Cell) {
	m.visible(fr, "lock")
	s := m.mutex(c)
	m.block(fr.th, func() bool { return s.writer == nil && s.readers == 0 })
	s.writer = fr.th
	fr.th.vc.join(s.vc)
	fr.th.vc.join(s.rvc)
}

func (m *Machine) tryLock(fr *Frame, c *Cell) bool {
	m.visible(fr, "trylock")
	s := m.mutex(c)
	if s.writer != nil || s.readers > 0 {
		return false
	}
	s.writer = fr.th
	fr.th.vc.join(s.vc)
	fr.th.vc.join(s.rvc)
	return true
}

func (m *Machine) unlock(fr *Frame, c *Cell) {
	s := m.mutex(c)
	if s.writer == nil {
		m.fatal(fr, "sync: unlock of unlocked mutex")
	}
	s.writer = nil
	s.vc.join(fr.th.vc)
	m.tick(fr.th)
	m.visible(fr, "unlock")
}

func (m *Machine) rlock(fr *Frame, c *Cell) {
	m.visible(fr, "rlock")
	s := m.mutex(c)
	m.block(fr.th, func() bool { return s.writer == nil })
	s.readers++
	fr.th.vc.join(s.vc)
}

func (m *Machine) runlock(fr *Frame, c *Cell) {
	s := m.mutex(c)
	if s.readers <= 0 {
		m.fatal(fr, "sync: RUnlock of unlocked RWMutex")
	}
	s.readers--
	s.rvc.join(fr.th.vc)
	m.tick(fr.th)
	m.visible(fr, "runlock")
}

// fatal is an unrecoverable runtime error (concurrent map access, bad unlock).
func (m *Machine) fatal(fr *Frame, msg string) {
	m.violate("panic", "fatal error: "+msg, fr.th)
	panic(abortPath{})
}

// ---- happens-before race detection ----

func (m *Machine) raceOn(fr *Frame) bool {
	return m.ex.cfg.Races && len(m.threads) > 1 && fr.info.tracked && m.initing == 0
}

func (m *Machine) race(fr *Frame, meta *cellMeta, prev access, kind string) {
	if prev.pos == nil {
		return
	}
	m.races++
	if m.ex.cfg.RaceViolation {
		a := posOf(m.ex.prog, prev.pos.fn, prev.pos.in)
		b := fr.fn.String() + fr.posString()
		m.violate("race", fmt.Sprintf("data race (%s): %s and %s", kind, a, b), fr.th)
		panic(abortPath{})
	}
}

func (m *Machine) noteRead(fr *Frame, mp **cellMeta) {
	if *mp == nil {
		*mp = &cellMeta{}
	}
	meta := *mp
	t := fr.th
	if meta.w.pos != nil && meta.w.tid != t.id && meta.w.clk > t.vc.get(meta.w.tid) {
		m.race(fr, meta, meta.w, "write/read")
	}
	clk := t.vc.get(t.id)
	for i := range meta.reads {
		if meta.reads[i].tid == t.id {
			meta.reads[i].clk = clk
			meta.reads[i].pos = fr.ipos()
			return
		}
	}
	meta.reads = append(meta.reads, access{t.id, clk, fr.ipos()})
}

func (m *Machine) noteWrite(fr *Frame, mp **cellMeta) {
	if *mp == nil {
		*mp = &cellMeta{}
	}
	meta := *mp
	t := fr.th
	if meta.w.pos != nil && meta.w.tid != t.id && meta.w.clk > t.vc.get(meta.w.tid) {
		m.race(fr, meta, meta.w, "write/write")
	}
	for _, r := range meta.reads {
		if r.tid != t.id && r.clk > t.vc.get(r.tid) {
			m.race(fr, meta, r, "read/write")
		}
	}
	meta.reads = meta.reads[:0]
	meta.w = access{t.id, t.vc.get(t.id), fr.ipos()}
}

func (m *Machine) readCell(fr *Frame, c *Cell) {
	switch x := c.v.(type) {
	case *Struct:
		for i := range x.f {
			m.readCell(fr, &x.f[i])
		}
		return
	case *Array:
		if len(x.e) > 64 {
			return
		}
		for i := range x.e {
			m.readCell(fr, &x.e[i])
		}
		return
	}
	m.noteRead(fr, &c.meta)
}

func (m *Machine) writeCell(fr *Frame, c *Cell) {
	switch x := c.v.(type) {
	case *Struct:
		for i := range x.f {
			m.writeCell(fr, &x.f[i])
		}
		return
	case *Array:
		if len(x.e) > 64 {
			return
		}
		for i := range x.e {
			m.writeCell(fr, &x.e[i])
		}
		return
	}
	m.noteWrite(fr, &c.meta)
}
