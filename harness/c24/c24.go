// Package c24 checks that a charge point is known to the central system by the identity it was made with.
package c24

import (
	"errors"
	"strings"
	"sync"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// seen is what a central system hears of its charge points.
type seen struct {
	mu          sync.Mutex
	up, down    []string
	requests    []string // the identities they came with
	tags        []string
	got         map[string]int // requests of the central system, by the charge point they arrived at
	CS          cs.CentralSystem
	port        string
	name, other string
}

func (s *seen) add(l *[]string, v string) {
	s.mu.Lock()
	*l = append(*l, v)
	s.mu.Unlock()
}

func (s *seen) list(l *[]string) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, *l...)
}

func (s *seen) count(who string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.got[who]
}

func start() *seen {
	s := &seen{got: map[string]int{}}
	s.CS, s.port = h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		a, ok := r.(*cpreq.Authorize)
		if !ok {
			return nil, errors.New("another request arrived")
		}
		s.add(&s.requests, md.ChargePointID)
		s.add(&s.tags, a.IdTag)
		return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: "Accepted"}}, nil
	})
	s.CS.SetChargePointConnectionListener(func(id string) { s.add(&s.up, id) })
	s.CS.SetChargePointDisconnectionListener(func(id string) { s.add(&s.down, id) })
	return s
}

// handler answers what the central system asks of the charge point who.
func (s *seen) handler(who string) func(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
	return func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		if _, ok := r.(*csreq.ClearCache); !ok {
			return nil, errors.New("another request arrived")
		}
		s.mu.Lock()
		s.got[who]++
		s.mu.Unlock()
		return &csresp.ClearCache{Status: "Accepted"}, nil
	}
}

// sends has a charge point send a request, and looks at who it is said to come from.
func (s *seen) sends(p *h.Point, identity, tag string) {
	n := len(s.list(&s.requests))
	a, err := p.Up(&cpreq.Authorize{IdTag: tag})
	vp.Assert(err == nil, "a request of a charge point is not answered")
	_, ok := a.(*cpresp.Authorize)
	vp.Assert(ok, "a request of a charge point gets another answer")
	r := s.list(&s.requests)
	vp.Assert(len(r) == n+1, "a request of a charge point is not handled once")
	vp.Assert(r[n] == identity, "a request is handled as if another charge point had sent it")
	vp.Assert(s.list(&s.tags)[n] == tag, "another request arrives")
}

// asks has the central system send a request to a charge point, and looks at where it arrives.
func (s *seen) asks(p *h.Point, identity, who string) {
	n := s.count(who)
	var r messages.Request = &csreq.ClearCache{}
	a, err := p.Down(s.CS, identity)(r)
	vp.Assert(s.count(who) == n+1, "a request to a charge point does not arrive there once")
	vp.Assert(err == nil, "a request to a charge point is not answered")
	_, ok := a.(*csresp.ClearCache)
	vp.Assert(ok, "a request to a charge point gets another answer")
}

// unknown looks up a charge point that is not there.
func (s *seen) unknown(identity string) {
	svc, err := s.CS.GetServiceOf(identity, ocpp.V16, "")
	vp.Assert(svc == nil && err != nil, "a charge point is known by a name that is not its identity")
}

func only(l []string, identity, what string) {
	vp.Assert(len(l) >= 1, "no "+what+" is announced")
	vp.Assert(len(l) <= 1, "more than one "+what+" is announced")
	vp.Assert(l[0] == identity, "the "+what+" of another charge point is announced")
}

// name is the identity of a charge point: any text that the path of a URL can hold.
func name(n string) string {
	id := ""
	switch vp.Choice(n+" is", 4) {
	case 0:
		id = vp.String(n)
	case 1:
		id = vp.Ident(n) + "/" + vp.String(n+" more")
	case 2:
		id = "50% of #" + vp.Ident(n) + "?"
	case 3:
		id = strings.Repeat("long-", 60) + vp.Ident(n)
	}
	vp.Assume(h.Segments(id))
	return id
}

// CheckJSON makes a charge point with any identity that talks over a websocket, and ends it.
func CheckJSON() {
	s := start()
	id := name("identity")
	p := h.Join(true, s.port, id, s.handler("it"))
	vp.Assert(p.CP.Identity() == id, "a charge point has another identity than it was made with")
	h.Connected(s.CS, id)
	vp.Quiesce()
	only(s.list(&s.up), id, "connection")
	s.sends(p, id, "tag")
	s.asks(p, id, "it")
	other := vp.String("other")
	vp.Assume(other != id)
	s.unknown(other)
	p.Cancel()
	vp.Quiesce()
	only(s.list(&s.down), id, "disconnection")
	only(s.list(&s.up), id, "connection")
	s.unknown(id)
}

// CheckSOAP makes a charge point with any identity that talks SOAP.
func CheckSOAP() {
	s := start()
	id := spec.Long(vp.Text("identity"))
	p := h.Join(false, s.port, id, s.handler("it"))
	vp.Assert(p.CP.Identity() == id, "a charge point has another identity than it was made with")
	s.sends(p, id, "tag")
	s.asks(p, id, "it")
	s.sends(p, id, "another")
	vp.Assert(len(s.list(&s.up)) == 0 && len(s.list(&s.down)) == 0, "a charge point that talks SOAP is announced as connected")
}

// CheckTwo makes two charge points of different identities, over either transport; one of them may go.
func CheckTwo() {
	s := start()
	var ps [2]*h.Point
	var ids [2]string
	who := [2]string{"first", "second"}
	for i := range ps {
		if vp.Choice(who[i]+" transport", 2) == 0 {
			ids[i] = vp.String(who[i])
			vp.Assume(h.Segments(ids[i]))
			vp.Assume(i == 0 || ids[0] != ids[i])
			ps[i] = h.Join(true, s.port, ids[i], s.handler(who[i]))
			h.Connected(s.CS, ids[i])
		} else {
			ids[i] = vp.Text(who[i])
			vp.Assume(i == 0 || ids[0] != ids[i])
			ps[i] = h.Join(false, s.port, ids[i], s.handler(who[i]))
		}
	}
	for i := range ps {
		s.sends(ps[i], ids[i], "tag")
		s.asks(ps[i], ids[i], who[i])
	}
	gone := vp.Choice("gone", 2)
	ps[gone].Cancel()
	vp.Quiesce()
	left := 1 - gone
	s.sends(ps[left], ids[left], "again")
	s.asks(ps[left], ids[left], who[left])
}

// CheckAgain ends the connection of a charge point, from either end of it; it comes back with its identity.
//
//vp: delays=1 thorough:delays=2
func CheckAgain() {
	vp.Calm()
	s := start()
	id := "50% of #" + vp.Ident("identity") + "?"
	p := h.Join(true, s.port, id, s.handler("it"))
	h.Connected(s.CS, id)
	vp.Quiesce()
	vp.Busy()
	rounds := 1
	if vp.Thorough() {
		rounds = 2
	}
	for n := 1; n <= rounds; n++ {
		p.CP.Connection().Close()
		vp.Sleep(h.Patience)
		h.Connected(s.CS, id)
		vp.Quiesce()
		up, down := s.list(&s.up), s.list(&s.down)
		vp.Assert(len(up) == n+1 && len(down) == n, "a charge point that comes back is not announced once each time")
		vp.Assert(up[n] == id && down[n-1] == id, "a charge point comes back with another identity")
		s.sends(p, id, "tag")
		s.asks(p, id, "it")
	}
	vp.Assert(p.CP.Identity() == id, "a charge point has another identity than it was made with")
}
