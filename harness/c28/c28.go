// Package c28 checks that a charge point that takes its time holds up no other.
package c28

import (
	"context"
	"errors"
	"io/ioutil"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// soon is the time that something may take that waits for nobody.
const soon = 10 * time.Second

// quick runs f, which has to be done soon.
func quick(what string, f func()) {
	done := make(chan bool, 1)
	go func() {
		f()
		done <- true
	}()
	select {
	case <-done:
	case <-vp.After(soon):
		vp.Assert(false, what+" waits for another charge point")
	}
}

// system is a central system with one charge point that takes its time, and another.
type system struct {
	cs.CentralSystem
	port     string
	mu       sync.Mutex
	up, down map[string]int
	gate     chan bool // what the slow charge point waits for
	at       int       // what it takes its time with
	b        *h.Peer
	soapB    *h.SoapServer
	busy     int // how many things wait for the gate
	done     chan bool
	n        int // how many charge points take their time
}

const (
	handling = iota
	handlingSOAP
	announced
	gone
	sending
	sendingSOAP
	handlingGone
	unread         // a request that the charge point does not read
	unreadResponse // the response to its call
	kinds
)

func (s *system) wait() {
	s.mu.Lock()
	s.busy++
	s.mu.Unlock()
	<-s.gate
}

func (s *system) waiting() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.busy
}

func (s *system) count(m map[string]int, id string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return m[id]
}

func clear(tag string) (int, string) {
	doc := spec.XEnvelope("", `<clearCacheResponse xmlns="urn://Ocpp/Cp/2012/06/"><status>Accepted</status></clearCacheResponse>`)
	return 200, doc
}

// start makes a central system with a charge point B that is connected, and a charge point A that is slow.
func start(at, n int) *system {
	vp.Calm()
	s := &system{up: map[string]int{}, down: map[string]int{}, gate: make(chan bool), at: at, done: make(chan bool, 100), n: n}
	s.CentralSystem, s.port = h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		a, ok := r.(*cpreq.Authorize)
		if !ok {
			return nil, errors.New("another request arrived")
		}
		if a.IdTag == "slow" {
			s.wait()
		}
		if a.IdTag == "bulk" {
			a.IdTag = vp.Bulk()
		}
		return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: a.IdTag}}, nil
	})
	s.SetChargePointConnectionListener(func(id string) {
		s.mu.Lock()
		s.up[id]++
		s.mu.Unlock()
		if id[0] == 'A' && id != "A2nd" && at == announced {
			s.wait()
		}
	})
	s.SetChargePointDisconnectionListener(func(id string) {
		s.mu.Lock()
		s.down[id]++
		s.mu.Unlock()
		if id[0] == 'A' && id != "A2nd" && at == gone {
			s.wait()
		}
	})
	s.b = h.MustDial(s.port, "/B")
	<-s.WaitConnect("B")
	s.soapB = h.ServeHTTP(func(p h.Post) (int, string) { return clear("") })
	vp.Quiesce()
	for i := 0; i < n; i++ {
		s.occupy("A" + strconv.Itoa(i))
	}
	vp.Quiesce()
	vp.Assert(s.waiting() == s.n, "what a slow charge point takes its time with does not begin")
	vp.Busy()
	return s
}

// occupy makes a charge point that takes its time.
func (s *system) occupy(who string) {
	ended := func() { s.done <- true }
	var a *h.Peer
	if s.at != handlingSOAP && s.at != sendingSOAP {
		a = h.MustDial(s.port, "/"+who)
		<-s.WaitConnect(who)
	}
	switch s.at {
	case handling, handlingGone:
		a.Write(authorize("1", "slow"))
		if s.at == handlingGone {
			vp.Quiesce()
			a.C.Close()
			ended()
		} else {
			go func() {
				<-s.gate
				_, ok := h.IsResult(a.Read(), "1")
				vp.Assert(ok, "a call of a slow charge point is not answered")
				ended()
			}()
		}
	case handlingSOAP:
		go func() {
			status, text := post(s.port, who, "slow")
			vp.Assert(status == 200 && strings.Contains(text, "slow"), "a SOAP request of a slow charge point is not answered")
			ended()
		}()
	case gone:
		a.C.Close()
		ended()
	case announced:
		ended()
	case unread, unreadResponse:
		a.Stall()
		a.Write(authorize("0", "tag"))
		_, ok := h.IsResult(a.Read(), "0")
		vp.Assert(ok, "a call of a charge point is not answered")
		a.Stalled()
		if s.at == unreadResponse {
			a.Write(authorize("1", "bulk"))
		} else {
			svc, err := s.GetServiceOf(who, ocpp.V16, "")
			vp.Assert(err == nil, "a connected charge point cannot be looked up")
			go func() {
				r, err := svc.Send(&csreq.DataTransfer{VendorId: vp.Bulk()})
				vp.Assert(err == nil && r != nil, "a request to a slow charge point is not answered")
				ended()
			}()
		}
		go func() {
			s.wait()
			a.Resume()
			if s.at == unreadResponse {
				_, ok := h.IsResult(a.Read(), "1")
				vp.Assert(ok, "a call of a slow charge point is not answered")
				ended()
				return
			}
			a.Write(h.Result(a.ID("a request to a slow charge point does not arrive"), `{"status":"Accepted"}`))
		}()
	case sending:
		svc, err := s.GetServiceOf(who, ocpp.V16, "")
		vp.Assert(err == nil, "a connected charge point cannot be looked up")
		go func() {
			r, err := svc.Send(&csreq.ClearCache{})
			vp.Assert(err == nil && r != nil, "a request to a slow charge point is not answered")
			ended()
		}()
		go func() {
			id := a.ID("a request to a slow charge point does not arrive")
			s.wait()
			a.Write(h.Result(id, `{"status":"Accepted"}`))
		}()
	case sendingSOAP:
		hang := h.ServeHTTP(func(p h.Post) (int, string) {
			s.wait()
			return clear("")
		})
		svc, err := s.GetServiceOf(who, ocpp.V15, "http://localhost"+hang.Port+"/")
		vp.Assert(err == nil, "a charge point cannot be looked up")
		go func() {
			r, err := svc.Send(&csreq.ClearCache{})
			vp.Assert(err == nil && r != nil, "a SOAP request to a slow charge point is not answered")
			ended()
		}()
	}
}

// end lets the slow charge point go on.
func (s *system) end() {
	close(s.gate)
	for i := 0; i < s.n; i++ {
		select {
		case <-s.done:
		case <-vp.After(h.Patience):
			vp.Assert(false, "what a slow charge point waited for is not finished")
		}
	}
	vp.Quiesce()
	vp.Assert(s.waiting() == s.n, "what a slow charge point takes its time with happens again")
}

func authorize(id, tag string) string {
	return h.Call(id, "Authorize", h.JSON(map[string]string{"idTag": tag}))
}

// post sends a SOAP request to a central system.
func post(port, identity, tag string) (int, string) {
	doc := spec.XEnvelope(`<soap:Header><chargeBoxIdentity xmlns="urn://Ocpp/Cs/2012/06/">`+vp.XMLText(identity)+`</chargeBoxIdentity></soap:Header>`,
		`<authorizeRequest xmlns="urn://Ocpp/Cs/2012/06/"><idTag>`+vp.XMLText(tag)+`</idTag></authorizeRequest>`)
	return visit("POST", port, doc)
}

func visit(method, port, body string) (int, string) {
	r, err := http.NewRequest(method, "http://localhost"+port+"/", strings.NewReader(body))
	vp.Assert(err == nil, "no request")
	resp, err := http.DefaultClient.Do(r)
	vp.Assert(err == nil, "an HTTP request is not answered")
	b, err := ioutil.ReadAll(resp.Body)
	vp.Assert(err == nil, "the answer to an HTTP request cannot be read")
	resp.Body.Close()
	return resp.StatusCode, string(b)
}

const deeds = 9

// deed is something that another charge point does, or that is done to it.
func (s *system) deed(n int) {
	switch n {
	case 0:
		quick("a call", func() {
			s.b.Write(authorize("b", "tag"))
			_, ok := h.IsResult(s.b.Read(), "b")
			vp.Assert(ok, "a call is not answered")
		})
	case 1:
		before := s.count(s.up, "C")
		quick("a connection", func() {
			p := h.MustDial(s.port, "/C")
			<-s.WaitConnect("C")
			p.Write(authorize("c", "tag"))
			_, ok := h.IsResult(p.Read(), "c")
			vp.Assert(ok, "a call of a new charge point is not answered")
		})
		vp.Quiesce()
		vp.Assert(s.count(s.up, "C") == before+1, "the connection of a charge point is not announced while another one is slow")
	case 2:
		before := s.count(s.down, "B")
		quick("the end of a connection", func() {
			s.b.C.Close()
			<-s.WaitDisconnect("B")
		})
		vp.Quiesce()
		vp.Assert(s.count(s.down, "B") == before+1, "the disconnection of a charge point is not announced while another one is slow")
		_, err := s.GetServiceOf("B", ocpp.V16, "")
		vp.Assert(err != nil, "a charge point that is gone can be looked up while another one is slow")
		s.b = h.MustDial(s.port, "/B")
		quick("a connection", func() { <-s.WaitConnect("B") })
	case 3:
		quick("a request", func() {
			svc, err := s.GetServiceOf("B", ocpp.V16, "")
			vp.Assert(err == nil, "a connected charge point cannot be looked up")
			go func() { s.b.Write(h.Result(s.b.ID("a request does not arrive"), `{"status":"Accepted"}`)) }()
			r, err := svc.Send(&csreq.ClearCache{})
			vp.Assert(err == nil && r != nil, "a request is not answered")
		})
	case 4:
		quick("a visit", func() {
			status, text := visit("GET", s.port, "")
			vp.Assert(status == 200 && strings.Contains(text, "<"), "a visitor gets no page")
		})
	case 5:
		quick("a SOAP request", func() {
			status, text := post(s.port, "B", "tagB")
			vp.Assert(status == 200 && strings.Contains(text, "tagB"), "a SOAP request is not answered")
		})
	case 6:
		quick("a SOAP request to a charge point", func() {
			svc, err := s.GetServiceOf("B", ocpp.V15, "http://localhost"+s.soapB.Port+"/")
			vp.Assert(err == nil, "a charge point cannot be looked up")
			r, err := svc.Send(&csreq.ClearCache{})
			vp.Assert(err == nil && r != nil, "a SOAP request to a charge point is not answered")
		})
	case 7:
		quick("a lookup", func() {
			s.GetServiceOf("A0", ocpp.V16, "")
			s.GetServiceOf("A0", ocpp.V15, "http://localhost"+s.soapB.Port+"/")
			s.WaitConnect("A0")
			s.WaitDisconnect("A0")
			s.WaitConnect("nobody")
			s.WaitDisconnect("nobody")
		})
	case 8:
		quick("another connection of the slow charge point", func() {
			p := h.MustDial(s.port, "/A2nd")
			p.Write(authorize("a2", "tag"))
			_, ok := h.IsResult(p.Read(), "a2")
			vp.Assert(ok, "a call is not answered")
			p.C.Close()
		})
	}
}

// CheckSlow has one charge point take its time with anything, and does two things with others meanwhile.
func CheckSlow() {
	s := start(vp.Choice("slow", kinds), 1)
	n := 2
	if vp.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		s.deed(vp.Choice("deed", deeds))
	}
	s.end()
	vp.Reach("end")
}

// CheckSchedules does two things with others at the same time while one charge point takes its time, under every schedule in
// bounds.
//
//vp: delays=1 thorough:delays=2
func CheckSchedules() {
	s := start(vp.Choice("slow", kinds), 1)
	first := vp.Choice("first", deeds)
	done := make(chan bool, 1)
	go func() {
		s.deed(first)
		done <- true
	}()
	// two that do not share the connection of B
	second := 4 + vp.Choice("second", 2)
	s.deed(second)
	<-done
	s.end()
	vp.Reach("end")
}

// CheckCrowd has many charge points take their time.
//
//vp: threads=600
func CheckCrowd() {
	n := []int{2, 5, 17, 33}[vp.Choice("how many", 4)]
	s := start(vp.Choice("slow", kinds), n)
	s.deed(vp.Choice("deed", deeds))
	s.end()
	vp.Reach("end")
}

// CheckLong has a charge point take its time, however long, before the others do anything.
func CheckLong() {
	at := []int{handling, handlingSOAP, announced, gone, handlingGone}[vp.Choice("slow", 5)]
	s := start(at, 1)
	vp.Sleep(vp.Duration("time", 0, 24*time.Hour))
	s.deed(vp.Choice("deed", deeds))
	s.end()
	vp.Reach("end")
}

// CheckPoints has one charge point of a process take its time; another one of the process, and the first one itself where it
// does not need what it waits for, go on.
func CheckPoints() {
	vp.Calm()
	gate := make(chan bool)
	server := h.Serve()
	handler := func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		c, ok := r.(*csreq.ChangeConfiguration)
		if ok && c.Value == "slow" {
			<-gate
		}
		return &csresp.ClearCache{Status: "Accepted"}, nil
	}
	config := func(value string) string {
		return h.Call("1", "ChangeConfiguration", h.JSON(map[string]string{"key": "k", "value": value}))
	}
	a, pa, _ := h.StartCP(server, "A", handler)
	b, pb, _ := h.StartCP(server, "B", handler)
	finish := func() {}
	switch vp.Choice("slow", 4) {
	case 0: // handling a call
		pa.Write(config("slow"))
		finish = func() {
			_, ok := h.IsResult(pa.Read(), "1")
			vp.Assert(ok, "a call is not answered")
		}
	case 1: // sending
		ch := h.Go(sender(a), &cpreq.Heartbeat{})
		id := pa.ID("a request does not arrive")
		finish = func() {
			pa.Write(h.Result(id, `{"currentTime":"2020-01-01T00:00:00Z"}`))
			r := h.Await(ch, "a request does not return")
			vp.Assert(r.Err == nil, "a request is not answered")
		}
	case 2: // dialling, and nobody answers
		hold := make(chan bool)
		server.Hold(hold)
		pa.C.Close()
		vp.Quiesce()
		vp.Sleep(20 * time.Second)
		server.Hold(nil)
		finish = func() { close(hold) }
	case 3: // being refused
		server.Refuse(true)
		pa.C.Close()
		vp.Quiesce()
		vp.Sleep(17 * time.Second)
		server.Refuse(false)
	}
	vp.Quiesce()
	vp.Busy()
	switch vp.Choice("deed", 4) {
	case 0:
		quick("a call", func() {
			pb.Write(config("tag"))
			_, ok := h.IsResult(pb.Read(), "1")
			vp.Assert(ok, "a call is not answered")
		})
	case 1:
		quick("a request", func() {
			ch := h.Go(sender(b), &cpreq.Heartbeat{})
			pb.Write(h.Result(pb.ID("a request does not arrive"), `{"currentTime":"2020-01-01T00:00:00Z"}`))
			r := h.Await(ch, "a request does not return")
			vp.Assert(r.Err == nil, "a request is not answered")
		})
	case 2:
		quick("a lookup", func() {
			a.WaitConnect()
			a.WaitDisconnect()
			vp.Assert(a.Identity() == "A" && a.Connection() != nil, "a slow charge point is another")
		})
	case 3:
		quick("a new charge point", func() {
			ctx, cancel := context.WithCancel(context.Background())
			c, err := cp.New(ctx, "C", "ws://localhost"+server.Port, ocpp.V16, ocpp.JSON, nil, handler)
			vp.Assert(err == nil && c != nil, "a charge point cannot be made")
			cancel()
		})
	}
	close(gate)
	finish()
	vp.Reach("end")
}

// CheckSOAP has a charge point that talks SOAP take its time with one request; it serves others.
func CheckSOAP() {
	vp.Calm()
	gate := make(chan bool)
	port := vp.Port()
	back := h.ServeHTTP(func(p h.Post) (int, string) {
		return 200, spec.XEnvelope("", `<authorizeResponse xmlns="urn://Ocpp/Cs/2012/06/"><idTagInfo><status>Accepted</status></idTagInfo></authorizeResponse>`)
	})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c, err := cp.New(ctx, "me", "http://localhost"+back.Port+"/", ocpp.V15, ocpp.SOAP, &port, func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		x, ok := r.(*csreq.ChangeConfiguration)
		vp.Assert(ok, "another request arrives")
		if x.Value == "slow" {
			<-gate
		}
		return nil, errors.New(x.Value)
	})
	vp.Assert(err == nil, "a charge point cannot be made")
	vp.WaitListen(port)
	ask := func(value string) {
		doc := spec.XEnvelope("", `<changeConfigurationRequest xmlns="urn://Ocpp/Cp/2012/06/"><key>k</key><value>`+value+`</value></changeConfigurationRequest>`)
		_, text := visit("POST", port, doc)
		vp.Assert(strings.Contains(text, value), "a request is not answered with the handler's error")
	}
	slow := make(chan bool, 1)
	go func() {
		ask("slow")
		slow <- true
	}()
	vp.Quiesce()
	vp.Busy()
	n := 1 + vp.Choice("requests", 2)
	for i := 0; i < n; i++ {
		if vp.Choice("what", 2) == 0 {
			quick("a request", func() { ask("other") })
		} else {
			quick("sending", func() {
				r, err := c.Send(&cpreq.Authorize{IdTag: "tag"})
				vp.Assert(err == nil && r != nil, "a request is not answered")
			})
		}
	}
	vp.Assert(len(slow) == 0, "a request is answered before it is handled")
	close(gate)
	select {
	case <-slow:
	case <-vp.After(h.Patience):
		vp.Assert(false, "a slow request is not answered")
	}
	vp.Reach("end")
}

func sender(c cp.ChargePoint) h.Sender {
	p := &h.Point{CP: c}
	return p.Up
}
