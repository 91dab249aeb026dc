package c09

import (
	"strconv"
	"time"

	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// CheckStack lets five connections of one charge point come up and end in any order.
func CheckStack() {
	vp.Calm()
	l, port := start()
	var ps []*h.Peer
	up, down := 0, 0
	for up < 5 {
		ps = append(ps, h.MustDial(port, "/a"))
		vp.Quiesce()
		up++
		l.expect("a", up, 0, up, "when several connections of a charge point overlap")
	}
	for len(ps) > 0 {
		k := vp.Choice("next", len(ps))
		end(ps[k], 1+down%3)
		ps = append(append([]*h.Peer{}, ps[:k]...), ps[k+1:]...)
		down++
		l.expect("a", up, down, up+down, "when several connections of a charge point overlap")
	}
	vp.Reach("end")
}

// CheckMany connects sixty charge points, twice over, and ends the connections in one of two orders.
//
//vp: threads=2000 delays=0 steps=40000000 samples=1
func CheckMany() {
	vp.Calm()
	l, port := start()
	n := 60
	var ps []*h.Peer
	for i := 0; i < 2*n; i++ {
		ps = append(ps, h.MustDial(port, "/station"+strconv.Itoa(i%n)))
	}
	vp.Quiesce()
	for i := 0; i < n; i++ {
		l.expect("station"+strconv.Itoa(i), 2, 0, 2*n, "among many")
	}
	reverse := vp.Choice("reverse", 2) == 1
	for i := range ps {
		k := i
		if reverse {
			k = len(ps) - 1 - i
		}
		if i%2 == 0 {
			ps[k].C.Close()
		} else {
			vp.Reset(ps[k].C)
		}
	}
	vp.Quiesce()
	for i := 0; i < n; i++ {
		l.expect("station"+strconv.Itoa(i), 2, 2, 4*n, "among many")
	}
	vp.Reach("end")
}

// CheckIdle leaves a connection alone for up to two hours.
//
//vp: samples=1
func CheckIdle() {
	h.Patience = 20 * time.Minute
	l, port := start()
	p := h.MustDial(port, "/a")
	vp.Quiesce()
	vp.Sleep(vp.Duration("idle", 0, 2*time.Hour))
	l.expect("a", 1, 0, 1, "while the connection is up")
	p.Write(h.Call("1", "Heartbeat", "{}"))
	_, ok := h.IsError(p.Read(), "1", "InternalError")
	vp.Assert(ok, "a connection is not served")
	end(p, vp.Choice("how", 5))
	l.expect("a", 1, 1, 2, "after the end of the connection")
	vp.Sleep(vp.Duration("gone", 0, 2*time.Hour))
	l.expect("a", 1, 1, 2, "after the end of the connection")
	vp.Reach("end")
}

// CheckNames connects charge points with unusual names.
func CheckNames() {
	l, port := start()
	paths := []string{"/CP%201", "/CP/", "/CP%2F1", "/%C3%BC", "/CP?a=b", "/CP%3Fa", "/a/b/c/d", "/.hidden", "/CP%2525", "/x:y@z", "/ocpp/CP", "/CP+1", "/ws/CP", "/%20CP%20", "/CP;v=1", "/CP%09"}
	names := []string{"CP 1", "CP/", "CP/1", "\u00fc", "CP", "CP?a", "a/b/c/d", ".hidden", "CP%25", "x:y@z", "ocpp/CP", "CP+1", "ws/CP", " CP ", "CP;v=1", "CP\t"}
	k := vp.Choice("name", len(paths))
	p := h.MustDial(port, paths[k])
	vp.Quiesce()
	l.expect(names[k], 1, 0, 1, "while the connection is up")
	end(p, vp.Choice("how", 5))
	l.expect(names[k], 1, 1, 2, "after the end of the connection")
	vp.Reach("end")
}
