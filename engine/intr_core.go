package main

// Models of the standard library: synchronisation, time, runtime, errors, reflection.

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

func reg(name string, f intrinsic) {
	for _, n := range strings.Split(name, "|") {
		intrinsics[n] = f
	}
}

func nop(fr *Frame, fn *ssa.Function, args []Value) Value {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	return zero(r)
}

func (fr *Frame) nilErr() Value { return Iface{} }

func init() {
	// ---- sync ----
	reg("(*sync.Mutex).Lock|(*sync.RWMutex).Lock", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.lock(fr, fr.ptr(a[0]))
		return nil
	})
	reg("(*sync.Mutex).Unlock|(*sync.RWMutex).Unlock", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.unlock(fr, fr.ptr(a[0]))
		return nil
	})
	reg("(*sync.Mutex).TryLock|(*sync.RWMutex).TryLock", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkBool(fr.m.tryLock(fr, fr.ptr(a[0])))
	})
	reg("(*sync.RWMutex).RLock", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.rlock(fr, fr.ptr(a[0]))
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.runlock(fr, fr.ptr(a[0]))
		return nil
	})
	wg := func(m *Machine, c *Cell) *wgState {
		s := m.wgs[c]
		if s == nil {
			s = &wgState{}
			m.wgs[c] = s
		}
		return s
	}
	wgAdd := func(fr *Frame, c *Cell, n int64) {
		fr.m.visible(fr, "wg")
		s := wg(fr.m, c)
		s.n += n
		if s.n < 0 {
			panic(fr.m.runtimePanic("sync: negative WaitGroup counter"))
		}
		if n < 0 {
			s.vc.join(fr.th.vc)
			fr.m.tick(fr.th)
		}
	}
	reg("(*sync.WaitGroup).Add", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		wgAdd(fr, fr.ptr(a[0]), fr.m.concInt(fr, tm(a[1])))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		wgAdd(fr, fr.ptr(a[0]), -1)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.visible(fr, "wg")
		s := wg(fr.m, fr.ptr(a[0]))
		fr.m.block(fr.th, func() bool { return s.n == 0 })
		fr.th.vc.join(s.vc)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		c := fr.ptr(a[0])
		wgAdd(fr, c, 1)
		f := a[1]
		fr.spawn(&Closure{name: "wg.Go", native: func(fr2 *Frame, _ []Value) Value {
			fr2.m.callValue(fr2, f, nil)
			wgAdd(fr2, c, -1)
			return nil
		}}, nil, nil)
		fr.m.visible(fr, "go")
		return nil
	})
	type onceState struct {
		state int
		vc    VC
	}
	reg("(*sync.Once).Do", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		c := fr.ptr(a[0])
		m.visible(fr, "once")
		s, _ := m.side[c].(*onceState)
		if s == nil {
			s = &onceState{}
			m.side[c] = s
		}
		switch s.state {
		case 0:
			s.state = 1
			func() {
				defer func() {
					s.state = 2
					s.vc = fr.th.vc.clone()
					m.tick(fr.th)
				}()
				m.callValue(fr, a[1], nil)
			}()
		case 1:
			m.block(fr.th, func() bool { return s.state == 2 })
			fr.th.vc.join(s.vc)
		default:
			fr.th.vc.join(s.vc)
		}
		return nil
	})
	type condState struct{ q []*bool }
	reg("(*sync.Cond).Wait", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		c := fr.ptr(a[0])
		s, _ := m.side[c].(*condState)
		if s == nil {
			s = &condState{}
			m.side[c] = s
		}
		L := fieldByName(c, deref(fn.Signature.Recv().Type()), "L").v.(Iface)
		un := m.methodByName(L.t, nil, "Unlock")
		lk := m.methodByName(L.t, nil, "Lock")
		flag := new(bool)
		s.q = append(s.q, flag)
		m.call(fr, un, []Value{L.v}, nil)
		m.block(fr.th, func() bool { return *flag })
		m.call(fr, lk, []Value{L.v}, nil)
		return nil
	})
	reg("(*sync.Cond).Signal|(*sync.Cond).Broadcast", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s, _ := fr.m.side[fr.ptr(a[0])].(*condState)
		if s != nil {
			for len(s.q) > 0 {
				*s.q[0] = true
				s.q = s.q[1:]
				if fn.Name() == "Signal" {
					break
				}
			}
		}
		return nil
	})
	reg("(*sync.Pool).Get", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		c := fr.ptr(a[0])
		nf := fieldByName(c, deref(fn.Signature.Recv().Type()), "New").v.(*Closure)
		if nf == nil {
			return Iface{}
		}
		return fr.m.callValue(fr, nf, nil)
	})
	reg("(*sync.Pool).Put", nop)

	// sync.Map
	smap := func(fr *Frame, c *Cell) *MapV {
		mp, _ := fr.m.side[c].(*MapV)
		if mp == nil {
			mp = &MapV{idx: map[string]int{}}
			fr.m.side[c] = mp
		}
		return mp
	}
	smSync := func(fr *Frame, c *Cell) *MapV {
		fr.m.visible(fr, "syncmap")
		fr.m.acqrel(fr, c)
		return smap(fr, c)
	}
	reg("(*sync.Map).Load", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		mp := smSync(fr, fr.ptr(a[0]))
		if e := fr.m.mapFind(fr, mp, a[1]); e != nil {
			return Tuple{e.v.v, tTrue}
		}
		return Tuple{Iface{}, tFalse}
	})
	reg("(*sync.Map).Store", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.mapSet(fr, smSync(fr, fr.ptr(a[0])), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		mp := smSync(fr, fr.ptr(a[0]))
		if e := fr.m.mapFind(fr, mp, a[1]); e != nil {
			return Tuple{e.v.v, tTrue}
		}
		fr.m.mapSet(fr, mp, a[1], a[2])
		return Tuple{a[2], tFalse}
	})
	reg("(*sync.Map).LoadAndDelete", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		mp := smSync(fr, fr.ptr(a[0]))
		if e := fr.m.mapFind(fr, mp, a[1]); e != nil {
			v := e.v.v
			fr.m.mapDelete(fr, mp, a[1])
			return Tuple{v, tTrue}
		}
		return Tuple{Iface{}, tFalse}
	})
	reg("(*sync.Map).Swap", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		mp := smSync(fr, fr.ptr(a[0]))
		var r Value = Tuple{Iface{}, tFalse}
		if e := fr.m.mapFind(fr, mp, a[1]); e != nil {
			r = Tuple{e.v.v, tTrue}
		}
		fr.m.mapSet(fr, mp, a[1], a[2])
		return r
	})
	reg("(*sync.Map).Delete", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.mapDelete(fr, smSync(fr, fr.ptr(a[0])), a[1])
		return nil
	})
	reg("(*sync.Map).Range", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		mp := smSync(fr, fr.ptr(a[0]))
		for i := 0; i < len(mp.entries); i++ {
			e := mp.entries[i]
			if e.deleted {
				continue
			}
			if !fr.m.branch(tm(fr.m.callValue(fr, a[1], []Value{e.k, e.v.v}))) {
				break
			}
		}
		return nil
	})

	// ---- sync/atomic ----
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := w
		at := func(fr *Frame, c *Cell) { fr.m.visible(fr, "atomic"); fr.m.acqrel(fr, c) }
		reg("sync/atomic.Load"+w, func(fr *Frame, fn *ssa.Function, a []Value) Value {
			c := fr.ptr(a[0])
			at(fr, c)
			return c.v
		})
		reg("sync/atomic.Store"+w, func(fr *Frame, fn *ssa.Function, a []Value) Value {
			c := fr.ptr(a[0])
			at(fr, c)
			c.v = a[1]
			return nil
		})
		reg("sync/atomic.Swap"+w, func(fr *Frame, fn *ssa.Function, a []Value) Value {
			c := fr.ptr(a[0])
			at(fr, c)
			o := c.v
			c.v = a[1]
			return o
		})
		reg("sync/atomic.Add"+w, func(fr *Frame, fn *ssa.Function, a []Value) Value {
			c := fr.ptr(a[0])
			at(fr, c)
			c.v = mkBin(OAdd, tm(c.v), tm(a[1]))
			return c.v
		})
		reg("sync/atomic.Or"+w, func(fr *Frame, fn *ssa.Function, a []Value) Value {
			c := fr.ptr(a[0])
			at(fr, c)
			o := c.v
			c.v = mkBin(OBOr, tm(c.v), tm(a[1]))
			return o
		})
		reg("sync/atomic.CompareAndSwap"+w, func(fr *Frame, fn *ssa.Function, a []Value) Value {
			c := fr.ptr(a[0])
			at(fr, c)
			if fr.m.branch(fr.m.equal(fr, c.v, a[1])) {
				c.v = a[2]
				return tTrue
			}
			return tFalse
		})
	}
	av := func(fr *Frame, c *Cell) Value {
		if v, ok := fr.m.side[c]; ok {
			return v
		}
		return Iface{}
	}
	reg("(*sync/atomic.Value).Load", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		c := fr.ptr(a[0])
		fr.m.visible(fr, "atomic")
		fr.m.acqrel(fr, c)
		return av(fr, c)
	})
	reg("(*sync/atomic.Value).Store", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		c := fr.ptr(a[0])
		fr.m.visible(fr, "atomic")
		fr.m.acqrel(fr, c)
		fr.m.side[c] = a[1]
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		c := fr.ptr(a[0])
		fr.m.acqrel(fr, c)
		o := av(fr, c)
		fr.m.side[c] = a[1]
		return o
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		c := fr.ptr(a[0])
		fr.m.acqrel(fr, c)
		if fr.m.branch(fr.m.equal(fr, av(fr, c), a[1])) {
			fr.m.side[c] = a[2]
			return tTrue
		}
		return tFalse
	})

	// ---- runtime ----
	reg("runtime.Gosched", func(fr *Frame, fn *ssa.Function, a []Value) Value { fr.m.visible(fr, "gosched"); return nil })
	reg("runtime.NumGoroutine", func(fr *Frame, fn *ssa.Function, a []Value) Value { return mkInt(int64(fr.m.liveThreads())) })
	reg("runtime.Goexit", func(fr *Frame, fn *ssa.Function, a []Value) Value { panic(targetPanic{v: Iface{}, goexit: true}) })
	reg("runtime.KeepAlive|runtime.SetFinalizer|runtime.GC|runtime.Caller|runtime.Callers|runtime.GOMAXPROCS|runtime.NumCPU", nop)
	reg("runtime/debug.PrintStack|runtime/debug.Stack", nop)
	reg("log.SetFlags|log.SetOutput|log.SetPrefix|(*log.Logger).SetFlags|(*log.Logger).SetOutput|(*log.Logger).SetPrefix", nop)
	reg("os.Getenv|(*os.File).Write|(*os.File).WriteString|os.LookupEnv", nop)
	reg("internal/godebug.New", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return &Cell{v: zero(deref(fn.Signature.Results().At(0).Type()))}
	})
	reg("(*internal/godebug.Setting).Value|(*internal/godebug.Setting).IncNonDefault", nop)
	reg("internal/race.Acquire|internal/race.Release|internal/race.ReleaseMerge|internal/race.Enable|internal/race.Disable|internal/race.Read|internal/race.Write", nop)

	// ---- errors ----
	reg("errors.Is", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkBool(fr.m.errorsIs(fr, fr.m.force(fr, a[0]), fr.m.force(fr, a[1])))
	})
	reg("errors.As", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		target := a[1].(Iface)
		tc := target.v.(*Cell)
		tt := deref(target.t)
		var walk func(e Iface) bool
		walk = func(e Iface) bool {
			for e.t != nil {
				if types.IsInterface(tt) {
					if m.implements(e.t, tt) {
						storeVal(tc, e)
						return true
					}
				} else if types.Identical(e.t, tt) {
					storeVal(tc, e.v)
					return true
				}
				if f := m.methodByName(e.t, nil, "As"); f != nil && f.Signature.Params().Len() == 1 {
					if m.branch(tm(m.call(fr, f, []Value{e.v, target}, nil))) {
						return true
					}
				}
				f := m.methodByName(e.t, nil, "Unwrap")
				if f == nil {
					return false
				}
				r := m.call(fr, f, []Value{e.v}, nil)
				switch x := r.(type) {
				case Iface:
					e = x
				case Slice:
					for i := range x.c {
						if walk(x.c[i].v.(Iface)) {
							return true
						}
					}
					return false
				default:
					return false
				}
			}
			return false
		}
		return mkBool(walk(m.force(fr, a[0])))
	})

	// ---- time ----
	reg("time.Now", func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.timeNow() })
	reg("time.Since", func(fr *Frame, fn *ssa.Function, a []Value) Value { return timeSub(fr.m.timeNow(), a[0].(*TimeV)) })
	reg("time.Until", func(fr *Frame, fn *ssa.Function, a []Value) Value { return timeSub(a[0].(*TimeV), fr.m.timeNow()) })
	reg("time.Sleep", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		m.visible(fr, "sleep")
		if d := tm(a[0]); d.isConst() && d.sval() <= 0 {
			return nil
		}
		fired := false
		m.addTimer(tm(a[0]), nil, func() { fired = true })
		m.block(fr.th, func() bool { return fired })
		return nil
	})
	timeT := func(fr *Frame) types.Type { return fr.m.ex.timeType }
	mkChanTimer := func(fr *Frame, d *Term, c *Chan, period *Term) *Timer {
		m := fr.m
		var t *Timer
		t = m.addTimer(d, fr.th, func() {
			if len(c.buf) < c.cap || c.peek(&c.recvq) {
				if w := c.deq(&c.recvq); w != nil {
					w.sel.fired, w.sel.idx, w.sel.ok = true, w.idx, true
					w.sel.item = chItem{m.timeNow(), t.vc}
				} else {
					c.buf = append(c.buf, chItem{m.timeNow(), t.vc})
				}
			}
		})
		t.period = period
		return t
	}
	newC := func(fr *Frame) *Chan { return &Chan{cap: 1, elem: timeT(fr), name: "timer " + fr.shortPos()} }
	reg("time.After|time.Tick", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		c := newC(fr)
		var p *Term
		if fn.Name() == "Tick" {
			p = tm(a[0])
		}
		mkChanTimer(fr, tm(a[0]), c, p)
		return c
	})
	reg("time.NewTimer|time.NewTicker", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		st := deref(fn.Signature.Results().At(0).Type())
		cell := &Cell{v: zero(st)}
		c := newC(fr)
		fieldByName(cell, st, "C").v = c
		var p *Term
		if fn.Name() == "NewTicker" {
			p = tm(a[0])
		}
		fr.m.side[cell] = mkChanTimer(fr, tm(a[0]), c, p)
		return cell
	})
	reg("time.AfterFunc", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		cell := &Cell{v: zero(deref(fn.Signature.Results().At(0).Type()))}
		f := a[1]
		var t *Timer
		t = m.addTimer(tm(a[0]), fr.th, func() {
			th := m.newThread("timer func", nil)
			th.vc.join(t.vc)
			m.startThread(th, func() {
				root := &Frame{m: m, th: th, fn: m.ex.rootFn, info: m.ex.rootInfo}
				th.fr = root
				m.callValue(root, f, nil)
			})
		})
		m.side[cell] = t
		return cell
	})
	reg("(*time.Timer).Stop|(*time.Ticker).Stop", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		t, _ := fr.m.side[fr.ptr(a[0])].(*Timer)
		if t == nil {
			panic(fr.m.runtimePanic("time: Stop called on uninitialized Timer"))
		}
		fr.m.visible(fr, "timer")
		was := t.active
		t.active = false
		if st := deref(fn.Signature.Recv().Type()); true {
			// Go 1.23+: no stale value is left in the channel
			if c, ok := fieldByName(fr.ptr(a[0]), st, "C").v.(*Chan); ok && c != nil {
				if len(c.buf) > 0 {
					was = true
				}
				c.buf = nil
			}
		}
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return mkBool(was)
	})
	reg("(*time.Timer).Reset|(*time.Ticker).Reset", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		t, _ := fr.m.side[fr.ptr(a[0])].(*Timer)
		was := t.active
		d := tm(a[1])
		t.deadline = mkBin(OAdd, fr.m.now, d)
		t.vc = fr.th.vc.clone()
		fr.m.tick(fr.th)
		if st := deref(fn.Signature.Recv().Type()); true {
			if c, ok := fieldByName(fr.ptr(a[0]), st, "C").v.(*Chan); ok && c != nil {
				c.buf = nil
			}
		}
		if t.period != nil {
			t.period = d
		}
		if !was {
			t.active = true
			fr.m.timers = append(fr.m.timers, t)
		}
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return mkBool(was)
	})
	T := func(v Value) *TimeV { return v.(*TimeV) }
	reg("(time.Time).Equal", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if x, y := T(a[0]), T(a[1]); x.rel != nil && y.rel != nil {
			return mkEq(x.rel, y.rel)
		}
		return mkAnd(mkEq(T(a[0]).sec, T(a[1]).sec), mkEq(T(a[0]).nsec, T(a[1]).nsec))
	})
	before := func(x, y *TimeV) *Term {
		if x.rel != nil && y.rel != nil {
			return mkBin(OSlt, x.rel, y.rel)
		}
		return mkOr(mkBin(OSlt, x.sec, y.sec), mkAnd(mkEq(x.sec, y.sec), mkBin(OSlt, x.nsec, y.nsec)))
	}
	reg("(time.Time).Before", func(fr *Frame, fn *ssa.Function, a []Value) Value { return before(T(a[0]), T(a[1])) })
	reg("(time.Time).After", func(fr *Frame, fn *ssa.Function, a []Value) Value { return before(T(a[1]), T(a[0])) })
	reg("(time.Time).IsZero", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if T(a[0]).rel != nil {
			return tFalse
		}
		return mkAnd(mkEq(T(a[0]).sec, mkInt(zeroTimeSec)), mkEq(T(a[0]).nsec, mkInt(0)))
	})
	reg("(time.Time).Sub", func(fr *Frame, fn *ssa.Function, a []Value) Value { return timeSub(T(a[0]), T(a[1])) })
	reg("(time.Time).Add", func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.timeAdd(T(a[0]), tm(a[1])) })
	reg("(time.Time).UTC|(time.Time).Local|(time.Time).In|(time.Time).Round0", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		x := T(a[0])
		if x.off == 0 {
			return x
		}
		return &TimeV{sec: x.sec, nsec: x.nsec}
	})
	reg("(time.Time).Unix", func(fr *Frame, fn *ssa.Function, a []Value) Value { return T(a[0]).sec })
	reg("(time.Time).Nanosecond", func(fr *Frame, fn *ssa.Function, a []Value) Value { return T(a[0]).nsec })
	reg("(time.Time).UnixNano", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkBin(OAdd, mkBin(OMul, T(a[0]).sec, mkInt(1e9)), T(a[0]).nsec)
	})
	reg("(time.Time).UnixMilli", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkBin(OAdd, mkBin(OMul, T(a[0]).sec, mkInt(1e3)), mkBin(OSDiv, T(a[0]).nsec, mkInt(1e6)))
	})
	reg("(time.Time).Truncate|(time.Time).Round", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		d := tm(a[1])
		if d.isConst() && d.sval() <= 1 {
			return a[0]
		}
		if d.isConst() && d.sval() == 1e9 && fn.Name() == "Truncate" {
			return &TimeV{sec: T(a[0]).sec, nsec: mkInt(0), off: T(a[0]).off}
		}
		if x := T(a[0]); d.isConst() && x.sec.isConst() && x.nsec.isConst() {
			t := x.concrete()
			if fn.Name() == "Truncate" {
				t = t.Truncate(time.Duration(d.sval()))
			} else {
				t = t.Round(time.Duration(d.sval()))
			}
			return timeConst(t)
		}
		panic(unsupported("time rounding"))
	})
	reg("(time.Time).Format", func(fr *Frame, fn *ssa.Function, a []Value) Value { return timeFormat(T(a[0]), goStr(a[1])) })
	reg("(time.Time).String|(time.Time).GoString", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return timeFormat(T(a[0]), "2006-01-02 15:04:05.999999999 -0700 MST")
	})
	reg("(time.Time).AppendFormat", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s := a[1].(Slice)
		add := strToBytes(timeFormat(T(a[0]), goStr(a[2])))
		return Slice{c: append(append([]Cell{}, s.c...), add.c...)}
	})
	reg("(time.Time).MarshalJSON", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return Tuple{strToBytes(mkBlob(&JNode{kind: jStr, s: timeFormat(T(a[0]), time.RFC3339Nano)})), Iface{}}
	})
	reg("(time.Time).MarshalText", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return Tuple{strToBytes(timeFormat(T(a[0]), time.RFC3339Nano)), Iface{}}
	})
	reg("(*time.Time).UnmarshalJSON", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		n, err := m.parseJSON(fr, bytesToStr(a[1].(Slice).c))
		if err != "" {
			return m.newError(err)
		}
		m.resolve(fr, n)
		if n.kind == jNull {
			return Iface{}
		}
		if n.kind != jStr {
			return m.newError("Time.UnmarshalJSON: input is not a JSON string")
		}
		t, ok := m.parseTime(fr, time.RFC3339, n.s)
		if !ok {
			return m.newError("parsing time: cannot parse")
		}
		fr.store(fr.ptr(a[0]), t)
		return Iface{}
	})
	reg("(*time.Time).UnmarshalText", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		t, ok := fr.m.parseTime(fr, time.RFC3339, bytesToStr(a[1].(Slice).c))
		if !ok {
			return fr.m.newError("parsing time: cannot parse")
		}
		fr.store(fr.ptr(a[0]), t)
		return Iface{}
	})
	reg("time.Parse", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		t, ok := fr.m.parseTime(fr, goStr(a[0]), tm(a[1]))
		if !ok {
			return Tuple{zeroTime(), fr.m.newError("parsing time: cannot parse")}
		}
		return Tuple{t, Iface{}}
	})
	reg("time.Unix", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.timeAdd(&TimeV{sec: tm(a[0]), nsec: mkInt(0)}, tm(a[1]))
	})
	reg("time.UnixMilli", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		ms := tm(a[0])
		if !ms.isConst() {
			panic(unsupported("time.UnixMilli"))
		}
		return timeConst(time.UnixMilli(ms.sval()))
	})
	reg("time.Date", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		n := make([]int, 7)
		for i := range n {
			t := tm(a[i])
			if !t.isConst() {
				panic(unsupported("time.Date of symbolic fields"))
			}
			n[i] = int(t.sval())
		}
		return timeConst(time.Date(n[0], time.Month(n[1]), n[2], n[3], n[4], n[5], n[6], time.UTC))
	})
	reg("time.LoadLocation", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return Tuple{&Cell{v: zero(deref(fn.Signature.Results().At(0).Type()))}, Iface{}}
	})
	for _, f := range []string{"Year", "Month", "Day", "Hour", "Minute", "Second", "Weekday", "YearDay"} {
		f := f
		reg("(time.Time)."+f, func(fr *Frame, fn *ssa.Function, a []Value) Value {
			x := T(a[0])
			if !x.sec.isConst() {
				panic(unsupported("calendar field of a symbolic time"))
			}
			t := (&TimeV{sec: x.sec, nsec: mkInt(0), off: x.off}).concrete()
			n := map[string]int{"Year": t.Year(), "Month": int(t.Month()), "Day": t.Day(), "Hour": t.Hour(), "Minute": t.Minute(), "Second": t.Second(), "Weekday": int(t.Weekday()), "YearDay": t.YearDay()}[f]
			return mkInt(int64(n))
		})
	}
	reg("(time.Time).Compare", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if fr.m.branch(before(T(a[0]), T(a[1]))) {
			return mkInt(-1)
		}
		if fr.m.branch(before(T(a[1]), T(a[0]))) {
			return mkInt(1)
		}
		return mkInt(0)
	})

	// ---- uuid, randomness ----
	freshID := func(fr *Frame) Value {
		m := fr.m
		m.uuidN++
		a := &Array{e: make([]Cell, 16)}
		for i := range a.e {
			a.e[i].v = mkBV(0xab, 8)
		}
		a.e[6].v = mkBV(0x40, 8)
		a.e[8].v = mkBV(0x80, 8)
		a.e[15].v = mkBV(uint64(m.uuidN), 8)
		a.e[14].v = mkBV(uint64(m.uuidN>>8), 8)
		return a
	}
	reg("github.com/google/uuid.NewRandom|github.com/google/uuid.NewUUID", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return Tuple{freshID(fr), Iface{}}
	})
	reg("github.com/google/uuid.New", func(fr *Frame, fn *ssa.Function, a []Value) Value { return freshID(fr) })
	randN := func(fr *Frame, n *Term, w int) Value {
		m := fr.m
		v := m.inInt("@rand", 0, 1<<(uint(w)-2), w)
		m.assume(mkBin(OSlt, v, n))
		return v
	}
	for _, p := range []string{"math/rand", "math/rand/v2"} {
		for _, f := range []string{"Intn", "Int63n", "IntN", "Int64N"} {
			reg(p+"."+f, func(fr *Frame, fn *ssa.Function, a []Value) Value { return randN(fr, tm(a[0]), 64) })
			reg("(*"+p+".Rand)."+f, func(fr *Frame, fn *ssa.Function, a []Value) Value { return randN(fr, tm(a[1]), 64) })
		}
		for _, f := range []string{"Int31n", "Int32N"} {
			reg(p+"."+f, func(fr *Frame, fn *ssa.Function, a []Value) Value { return randN(fr, tm(a[0]), 32) })
		}
		for _, f := range []string{"Int", "Int63", "Int64"} {
			reg(p+"."+f, func(fr *Frame, fn *ssa.Function, a []Value) Value { return randN(fr, mkInt(1<<62), 64) })
			reg("(*"+p+".Rand)."+f, func(fr *Frame, fn *ssa.Function, a []Value) Value { return randN(fr, mkInt(1<<62), 64) })
		}
		for _, f := range []string{"Int31", "Int32"} {
			reg(p+"."+f, func(fr *Frame, fn *ssa.Function, a []Value) Value { return randN(fr, mkBV(1<<30, 32), 32) })
		}
		for _, f := range []string{"Uint32", "Uint64"} {
			w := 32
			if f == "Uint64" {
				w = 64
			}
			reg(p+"."+f, func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.fresh("rand", SBV, w) })
		}
		reg(p+".Seed", nop)
		reg(p+".New", func(fr *Frame, fn *ssa.Function, a []Value) Value {
			return &Cell{v: &Native{kind: "rand"}}
		})
		reg(p+".NewSource", func(fr *Frame, fn *ssa.Function, a []Value) Value { return Iface{} })
		reg(p+".Float64", func(fr *Frame, fn *ssa.Function, a []Value) Value { return mkFP(0.5) })
	}
	reg("crypto/rand.Read", func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(Slice)
		fr.m.uuidN++
		for i := range s.c {
			s.c[i].v = mkBV(uint64(fr.m.uuidN>>(8*uint(i%4))), 8)
		}
		return Tuple{mkInt(int64(len(s.c))), Iface{}}
	})
}

func (m *Machine) liveThreads() int {
	n := 0
	for _, t := range m.threads {
		if !t.done && !t.system {
			n++
		}
	}
	return n
}

// acqrel gives an object acquire-release ordering.
func (m *Machine) acqrel(fr *Frame, c *Cell) {
	s := m.mutex(c)
	fr.th.vc.join(s.vc)
	s.vc.join(fr.th.vc)
	m.tick(fr.th)
}

func (m *Machine) errorsIs(fr *Frame, e, target Value) bool {
	x, _ := e.(Iface)
	t, _ := target.(Iface)
	if x.t == nil || t.t == nil {
		return x.t == nil && t.t == nil
	}
	for x.t != nil {
		if types.Identical(x.t, t.t) && types.Comparable(x.t) && m.branch(m.equal(fr, x, t)) {
			return true
		}
		if f := m.methodByName(x.t, nil, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			if m.branch(tm(m.call(fr, f, []Value{x.v, t}, nil))) {
				return true
			}
		}
		f := m.methodByName(x.t, nil, "Unwrap")
		if f == nil {
			return false
		}
		switch r := m.call(fr, f, []Value{x.v}, nil).(type) {
		case Iface:
			x = r
		case Slice:
			for i := range r.c {
				if m.errorsIs(fr, r.c[i].v, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func fieldByName(c *Cell, t types.Type, name string) *Cell {
	st := t.Underlying().(*types.Struct)
	s := c.v.(*Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return &s.f[i]
		}
	}
	panic(fmt.Sprintf("no field %s in %v", name, t))
}

// the virtual clock starts at a fixed instant
const baseSec = 1600000000

func (m *Machine) timeNow() *TimeV {
	return m.timeAdd(&TimeV{sec: mkInt(baseSec), nsec: mkInt(0), rel: mkInt(0)}, m.now)
}

func timeConst(t time.Time) *TimeV {
	_, off := t.Zone()
	return &TimeV{sec: mkInt(t.Unix()), nsec: mkInt(int64(t.Nanosecond())), off: int64(off)}
}

// concrete is the instant as a time.Time.
func (t *TimeV) concrete() time.Time {
	c := time.Unix(t.sec.sval(), t.nsec.sval()).UTC()
	if t.off != 0 {
		c = c.In(time.FixedZone("", int(t.off)))
	}
	return c
}

func timeSub(a, b *TimeV) *Term {
	if a.rel != nil && b.rel != nil {
		return mkBin(OSub, a.rel, b.rel)
	}
	return mkBin(OAdd, mkBin(OMul, mkBin(OSub, a.sec, b.sec), mkInt(1e9)), mkBin(OSub, a.nsec, b.nsec))
}

func (m *Machine) timeAdd(t *TimeV, d *Term) *TimeV {
	if d.isConst() && d.u == 0 {
		return t
	}
	var rel *Term
	if t.rel != nil {
		rel = mkBin(OAdd, t.rel, d)
	}
	if d.isConst() && t.nsec.isConst() {
		n := t.nsec.sval() + d.sval()%1e9
		s := d.sval() / 1e9
		if n >= 1e9 {
			s++
			n -= 1e9
		} else if n < 0 {
			s--
			n += 1e9
		}
		return &TimeV{sec: mkBin(OAdd, t.sec, mkInt(s)), nsec: mkInt(n), off: t.off, rel: rel}
	}
	// symbolic duration: total nanoseconds relative to the base instant
	tot := mkBin(OAdd, t.nsec, d)
	return &TimeV{sec: mkBin(OAdd, t.sec, mkBin(OSDiv, tot, mkInt(1e9))), nsec: mkBin(OSRem, tot, mkInt(1e9)), off: t.off, rel: rel}
}

func timeFormat(t *TimeV, layout string) *Term {
	if t.sec.isConst() && t.nsec.isConst() {
		return mkStr(t.concrete().Format(layout))
	}
	switch layout {
	case time.RFC3339:
		return mkRfc(rfcMode("s", t.off), t.sec, mkInt(0))
	case time.RFC3339Nano:
		if t.nsec.isConst() && t.nsec.u == 0 {
			return mkRfc(rfcMode("s", t.off), t.sec, t.nsec)
		}
		return mkRfc(rfcMode("n", t.off), t.sec, t.nsec)
	case "2006-01-02T15:04:05Z":
		return mkRfc("s", mkBin(OAdd, t.sec, mkInt(t.off)), mkInt(0))
	case "2006-01-02T15:04:05.999999999Z":
		return mkRfc("n", mkBin(OAdd, t.sec, mkInt(t.off)), t.nsec)
	case "2006-01-02T15:04:05Z0700":
		if t.off == 0 {
			return mkRfc("s", t.sec, mkInt(0))
		}
	}
	panic(unsupported("time layout " + layout))
}

func validUnix(sec *Term) *Term {
	return mkAnd(mkBin(OSle, mkInt(zeroTimeSec), sec), mkBin(OSle, sec, mkInt(253402300799)))
}

// parseTime parses a text term.
func (m *Machine) parseTime(fr *Frame, layout string, s *Term) (*TimeV, bool) {
	if s.isConst() {
		t, err := time.Parse(layout, s.s)
		if err != nil {
			return nil, false
		}
		return timeConst(t), true
	}
	if layout != time.RFC3339 && layout != time.RFC3339Nano {
		panic(unsupported("parsing time with layout " + layout))
	}
	if s.op == ORfc {
		if s.s[0] == 's' {
			return &TimeV{sec: s.args[0], nsec: mkInt(0), off: rfcOff(s.s)}, true
		}
		return &TimeV{sec: s.args[0], nsec: s.args[1], off: rfcOff(s.s)}, true
	}
	switch s.op {
	case OItoa, OUtoa, OFtoa:
		return nil, false
	}
	// an arbitrary string: either it is a rendered instant, or it does not parse
	key := "time:" + fmt.Sprintf("%p", s)
	if v, ok := m.natives[key]; ok {
		if v == nil {
			return nil, false
		}
		return v.(*TimeV), true
	}
	if s.op != OVar {
		if startsWithLetter(s, "") {
			return nil, false
		}
		panic(unsupported("parsing a composed symbolic string as time"))
	}
	if b, ok := m.bindings[s.s]; ok {
		if b != nil && b.op == ORfc {
			return &TimeV{sec: b.args[0], nsec: mkInt(0), off: rfcOff(b.s)}, true
		}
		return nil, false
	}
	isT := m.fresh("isTime", SBool, 0)
	if m.branch(isT) {
		sec := m.fresh("sec", SBV, 64)
		m.assume(validUnix(sec))
		txt := mkRfc("s", sec, mkInt(0))
		m.assume(mkEq(s, txt))
		m.bindings[s.s] = txt
		tv := &TimeV{sec: sec, nsec: mkInt(0)}
		m.natives[key] = tv
		return tv, true
	}
	m.natives[key] = nil
	m.bindings[s.s] = nil
	return nil, false
}

var once sync.Once
