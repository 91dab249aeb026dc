package c20

import (
	"time"

	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// CheckOutage refuses more than a hundred dials, in one of several ways, before the next is accepted.
//
//vp: steps=40000000 threads=900 samples=1
func CheckOutage() {
	s := h.Serve()
	c, p, cancel := h.StartCP(s, "me", echo)
	defer cancel()
	vp.Calm()
	s.Dialled()
	s.RefuseWith([]int{503, 404, 401, 200, 302, 429, -1}[vp.Choice("status", 7)])
	s.Refuse(true)
	old := c.WaitDisconnect()
	end(p, vp.Choice("how", 2))
	n := 110
	for i := 0; i < n; i++ {
		vp.Assert(s.Dialled(), "a charge point does not dial every five seconds until it is connected")
	}
	down(c, old, "while it reconnects")
	s.Refuse(false)
	vp.Assert(s.Dialled(), "a charge point does not dial every five seconds until it is connected")
	p = s.Accept()
	vp.Assert(p != nil, "a charge point does not connect again")
	times := s.Times()
	vp.Assert(len(times) == n+2, "a charge point does not dial every five seconds until it is connected")
	for i := 2; i < len(times); i++ {
		gap := times[i] - times[i-1]
		vp.Assert(gap > interval-slack && gap < interval+slack, "a charge point does not dial five seconds apart")
	}
	up(c, p, "after a reconnect")
	vp.Reach("end")
}

// CheckRounds ends the connection again and again.
//
//vp: steps=40000000 threads=900
func CheckRounds() {
	s := h.Serve()
	c, p, cancel := h.StartCP(s, "me", echo)
	defer cancel()
	vp.Calm()
	how := vp.Choice("how", 4)
	for i := 0; i < 25; i++ {
		old := c.WaitDisconnect()
		end(p, how)
		p = s.Accept()
		vp.Assert(p != nil, "a charge point does not connect again")
		vp.Quiesce()
		vp.Assert(is(old), "a disconnect channel is open after its connection has ended")
		if i%8 == 0 {
			up(c, p, "after a reconnect")
		}
	}
	up(c, p, "after a reconnect")
	vp.Assert(len(s.Dials()) == 26, "a charge point dials although it is connected")
	vp.Reach("end")
}

// CheckIdle leaves the connection alone for up to two hours, ends it, refuses the dials of up to half an hour, and leaves the next
// connection alone again.
//
//vp: steps=40000000 threads=900 samples=1
func CheckIdle() {
	h.Patience = 20 * time.Minute
	s := h.Serve()
	c, p, cancel := h.StartCP(s, "me", echo)
	defer cancel()
	vp.Calm()
	vp.Sleep(vp.Duration("before", 0, 2*time.Hour))
	up(c, p, "after a while")
	end(p, vp.Choice("how", 2))
	p = s.Accept()
	vp.Assert(p != nil, "a charge point does not connect again")
	vp.Sleep(vp.Duration("after", 0, 2*time.Hour))
	up(c, p, "after a reconnect and a while")
	vp.Assert(len(s.Dials()) == 2, "a charge point dials although it is connected")
	vp.Reach("end")
}
