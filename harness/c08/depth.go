package c08

import (
	"strconv"
	"time"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// CheckStack lets five connections of one charge point end in any order; another one comes up in between.
func CheckStack() {
	vp.Calm()
	c, port := h.StartCS(handler)
	var ls []*live
	for i := 0; i < 5; i++ {
		p := h.MustDial(port, "/a")
		vp.Quiesce()
		ls = append(ls, &live{"a", p, c.WaitDisconnect("a")})
		check(c, ls, "a")
	}
	again := vp.Choice("again", 6)
	for i := 0; len(ls) > 0; i++ {
		k := vp.Choice("next", len(ls))
		l := ls[k]
		end(l.peer, 1+i%2)
		ls = drop(ls, k)
		vp.Assert(closed(l.down), "a disconnect channel does not close when its connection ends")
		check(c, ls, "a")
		if len(ls) > 0 {
			command(c, ls, "a")
		}
		if i == again && len(ls) < 3 {
			p := h.MustDial(port, "/a")
			vp.Quiesce()
			ls = append(ls, &live{"a", p, c.WaitDisconnect("a")})
			check(c, ls, "a")
			command(c, ls, "a")
			again = -1
		}
	}
	vp.Reach("end")
}

// CheckMany connects sixty charge points, ends every second connection, and connects those again.
//
//vp: threads=2000 delays=0 steps=40000000 samples=1
func CheckMany() {
	vp.Calm()
	c, port := h.StartCS(handler)
	n := 60
	var ls []*live
	who := func(i int) string { return "station" + strconv.Itoa(i) }
	for i := 0; i < n; i++ {
		p := h.MustDial(port, "/"+who(i))
		<-c.WaitConnect(who(i))
		ls = append(ls, &live{who(i), p, c.WaitDisconnect(who(i))})
	}
	all := func() {
		for i := 0; i < n; i++ {
			check(c, ls, who(i))
			if i%10 == 5 && newest(ls, who(i)) != nil {
				command(c, ls, who(i))
			}
		}
		check(c, ls, "nobody")
	}
	all()
	odd := vp.Choice("odd", 2)
	for i := 0; i < n; i++ {
		if i%2 == odd {
			for k, l := range ls {
				if l.who == who(i) {
					l.peer.C.Close()
					ls = drop(ls, k)
					break
				}
			}
		}
	}
	vp.Quiesce()
	all()
	for i := 0; i < n; i++ {
		if i%2 == odd {
			p := h.MustDial(port, "/"+who(i))
			<-c.WaitConnect(who(i))
			ls = append(ls, &live{who(i), p, c.WaitDisconnect(who(i))})
		}
	}
	all()
	vp.Reach("end")
}

// CheckAgain connects and disconnects one charge point forty times; a second connection overlaps or not.
//
//vp: threads=2000 delays=0 steps=40000000 samples=1
func CheckAgain() {
	vp.Calm()
	c, port := h.StartCS(handler)
	overlap := vp.Choice("overlap", 3)
	var ls []*live
	for i := 0; i < 40; i++ {
		p := h.MustDial(port, "/a")
		vp.Quiesce()
		ls = append(ls, &live{"a", p, c.WaitDisconnect("a")})
		if i%8 == 7 {
			check(c, ls, "a")
		}
		if len(ls) > overlap {
			if i%2 == 0 {
				ls[0].peer.C.Close()
			} else {
				vp.Reset(ls[0].peer.C)
			}
			<-ls[0].down
			vp.Quiesce()
			ls = drop(ls, 0)
			if i%8 == 7 {
				check(c, ls, "a")
			}
		}
	}
	if len(ls) > 0 {
		command(c, ls, "a")
	}
	for len(ls) > 0 {
		end(ls[0].peer, 1)
		ls = drop(ls, 0)
		check(c, ls, "a")
	}
	vp.Reach("end")
}

// CheckIdle leaves a connection alone for up to two hours; the charge point is still connected. The same after its end.
//
//vp: samples=1
func CheckIdle() {
	vp.Calm()
	h.Patience = 20 * time.Minute
	c, port := h.StartCS(handler)
	p := h.MustDial(port, "/a")
	vp.Quiesce()
	ls := []*live{{"a", p, c.WaitDisconnect("a")}}
	vp.Sleep(vp.Duration("idle", 0, 2*time.Hour))
	check(c, ls, "a")
	command(c, ls, "a")
	end(p, 1+vp.Choice("how", 2))
	vp.Sleep(vp.Duration("gone", 0, 2*time.Hour))
	check(c, nil, "a")
	vp.Reach("end")
}

// CheckNames connects charge points whose names are alike; each is looked up by its own name only.
func CheckNames() {
	vp.Calm()
	c, port := h.StartCS(handler)
	names := []string{"CP", "cp", "CP/", "CP/1", "CP%201", "CP 1", "CP1", "x/CP", "CP.", "", "C\u00fcP"}
	k := vp.Choice("name", len(names))
	path := "/" + names[k]
	who := names[k]
	switch who {
	case "CP 1":
		path = "/CP%201"
	case "CP%201":
		path = "/CP%25201"
	}
	p := h.MustDial(port, path)
	vp.Quiesce()
	ls := []*live{{who, p, c.WaitDisconnect(who)}}
	for _, n := range names {
		check(c, ls, n)
		if n != who {
			svc, err := c.GetServiceOf(n, ocpp.V16, "")
			vp.Assert(svc == nil && err != nil, "an identity without a live connection can be looked up")
		}
	}
	command(c, ls, who)
	end(p, 1)
	for _, n := range names {
		check(c, nil, n)
	}
	vp.Reach("end")
}
