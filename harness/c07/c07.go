// Package c07 checks that connections, central systems and charge points may be used by many goroutines at a time.
package c07

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"strings"
	"sync"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/ws"
	"github.com/voltbras/go-ocpp/zzverif/h"
	"github.com/voltbras/go-ocpp/zzverif/spec"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// logger formats what it gets, as a debug logger does.
type logger struct {
	mu  sync.Mutex
	all []string
}

func (l *logger) Printf(format string, v ...interface{}) {
	s := fmt.Sprintf(format, v...)
	l.mu.Lock()
	l.all = append(l.all, s)
	l.mu.Unlock()
}

func logging() {
	if vp.Choice("debug", 2) == 1 {
		ocpp.SetDebugLogger(&logger{})
		ocpp.SetErrorLogger(&logger{})
	}
}

// all runs functions at the same time and waits for them.
func all(fs ...func()) {
	done := make(chan bool, len(fs))
	for _, f := range fs {
		f := f
		go func() {
			f()
			done <- true
		}()
	}
	for range fs {
		<-done
	}
}

// peer is a peer that several goroutines may write to.
type peer struct {
	*h.Peer
	mu sync.Mutex
}

func (p *peer) Write(s string) {
	p.mu.Lock()
	p.Peer.Write(s)
	p.mu.Unlock()
}

func (p *peer) closing() {
	p.mu.Lock()
	p.C.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
	p.mu.Unlock()
}

// answering reads what a connection brings and answers its calls, until it ends.
func answering(p *peer) {
	for {
		f, ok := h.Parse(p.Read())
		if !ok {
			return
		}
		if f.Type == 2 {
			p.Write(h.Result(f.ID, `{"status":"Accepted"}`))
		}
	}
}

// operation is what one goroutine does with a connection.
func operation(c *ws.Conn, k int) {
	switch k {
	case 0:
		a, err := c.SendRequest(&cpreq.DataTransfer{VendorId: "v"})
		vp.Assert(err == nil && a != nil, "a request does not get its answer while others use the connection")
	case 1:
		c.SendResponse("1", &csresp.ClearCache{Status: "Accepted"}, nil)
	case 2:
		c.SendResponse("2", nil, errors.New("failed"))
	case 3:
		c.SendError("3", ws.NotSupported, "no")
	case 4:
		c.WriteMessage(websocket.TextMessage, []byte(h.Result("4", "{}")))
	case 5:
		c.WriteJSON([]interface{}{3, "5", struct{}{}})
	}
}

const operations = 6

// CheckConn has goroutines send requests, responses, errors and raw messages over one connection that another one reads.
//
//vp: races delays=1 thorough:delays=2
func CheckConn() {
	vp.Calm()
	logging()
	s := h.Serve()
	c, err := ws.Dial("me", "ws://localhost"+s.Port, ocpp.V16)
	vp.Assert(err == nil, "a websocket cannot be dialled")
	p := &peer{Peer: s.Accept()}
	go func() {
		for {
			select {
			case <-c.WaitClose():
				return
			case r := <-c.Requests():
				c.SendResponse(r.MessageID, nil, errors.New("no call expected"))
			case <-c.ReadMessageAsync():
			}
		}
	}()
	got := make(chan int, 1)
	n := 2
	if vp.Thorough() {
		n = 3
	}
	ks := make([]int, n)
	for i := range ks {
		ks[i] = vp.Choice("operation", operations)
		vp.Assume(i == 0 || ks[i] >= ks[i-1])
	}
	call := vp.Choice("call", 2)
	vp.Busy()
	go func() {
		k := 0
		for k < n+call {
			f, ok := h.Parse(p.Read())
			vp.Assert(ok, "a frame is not written, or not whole")
			if f.Type == 2 {
				p.Write(h.Result(f.ID, `{"status":"Accepted"}`))
			}
			k++
		}
		got <- k
	}()
	fs := []func(){}
	for _, k := range ks {
		k := k
		fs = append(fs, func() { operation(c, k) })
	}
	if call == 1 {
		p.Write(h.Call("9", "ClearCache", "{}"))
	}
	all(fs...)
	<-got
	vp.Reach("end")
}

// CheckEnd ends a connection while goroutines use it.
//
//vp: races delays=1 thorough:delays=2
func CheckEnd() {
	vp.Calm()
	logging()
	s := h.Serve()
	c, err := ws.Dial("me", "ws://localhost"+s.Port, ocpp.V16)
	vp.Assert(err == nil, "a websocket cannot be dialled")
	p := &peer{Peer: s.Accept()}
	go func() {
		for {
			select {
			case <-c.WaitClose():
				return
			case <-c.ReadMessageAsync():
			}
		}
	}()
	k, how := 1+vp.Choice("operation", operations-1), vp.Choice("how", 4)
	vp.Busy()
	all(func() { operation(c, k) }, func() {
		c.SendRequest(&cpreq.DataTransfer{VendorId: "v"})
	}, func() {
		if f, ok := h.Parse(p.Read()); ok {
			p.Write(h.Result(f.ID, `{"status":"Accepted"}`))
		}
	}, func() {
		switch how {
		case 0:
			c.Close()
		case 1:
			p.C.Close()
		case 2:
			vp.Reset(p.C)
		case 3:
			p.closing()
		}
	})
	<-c.WaitClose()
	vp.Reach("end")
}

// use is one of the things done with a central system.
func use(c cs.CentralSystem, port string, k int) {
	switch k {
	case 0: // a charge point comes, calls and goes
		p := h.MustDial(port, "/a")
		p.Write(h.Call("1", "Heartbeat", "{}"))
		p.Read()
		p.C.Close()
	case 1: // another one
		p := h.MustDial(port, "/b")
		p.C.Close()
	case 2: // requests to a connected one
		s, err := c.GetServiceOf("up", ocpp.V16, "")
		vp.Assert(err == nil, "a connected charge point cannot be looked up")
		_, err = s.Send(&csreq.ClearCache{})
		vp.Assert(err == nil, "a request does not get its answer while others use the central system")
	case 3: // requests to one that comes
		if s, err := c.GetServiceOf("a", ocpp.V16, ""); err == nil {
			_ = s
		}
	case 4:
		select {
		case <-c.WaitConnect("a"):
		default:
		}
	case 5:
		select {
		case <-c.WaitDisconnect("a"):
		default:
		}
	case 6:
		c.SetChargePointConnectionListener(func(string) {})
		c.SetChargePointDisconnectionListener(func(string) {})
	case 7:
		if r, err := http.Get("http://localhost" + port + "/"); err == nil {
			r.Body.Close()
		}
	case 8: // a SOAP request
		doc := spec.XEnvelope(`<soap:Header><chargeBoxIdentity xmlns="urn://Ocpp/Cs/2012/06/">a</chargeBoxIdentity></soap:Header>`,
			`<authorizeRequest xmlns="urn://Ocpp/Cs/2012/06/"><idTag>tag</idTag></authorizeRequest>`)
		if r, err := http.Post("http://localhost"+port+"/", "application/soap+xml", strings.NewReader(doc)); err == nil {
			r.Body.Close()
		}
	}
}

const uses = 9

// CheckSystem has goroutines use one central system while charge points come and go.
//
//vp: races delays=1 thorough:delays=2
func CheckSystem() {
	vp.Calm()
	logging()
	c, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		return nil, errors.New("handled")
	})
	up := h.MustDial(port, "/up")
	<-c.WaitConnect("up")
	go answering(&peer{Peer: up})
	n := 2
	if vp.Thorough() {
		n = 3
	}
	fs := make([]func(), n)
	last := 0
	for i := range fs {
		k := vp.Choice("use", uses)
		vp.Assume(k >= last)
		last = k
		fs[i] = func() { use(c, port, k) }
	}
	vp.Busy()
	all(fs...)
	vp.Calm()
	vp.Quiesce()
	vp.Reach("end")
}

// CheckSame has charge points of the same identity come and go while that identity is looked up and awaited.
//
//vp: races delays=2 thorough:delays=3
func CheckSame() {
	vp.Calm()
	c, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		return nil, errors.New("handled")
	})
	k := 2 + vp.Choice("use", 4)
	if k == 2 {
		k = 8
	}
	vp.Busy()
	all(func() { use(c, port, 0) }, func() { use(c, port, 0) }, func() { use(c, port, k) })
	vp.Calm()
	vp.Quiesce()
	vp.Reach("end")
}

// CheckPoint has goroutines use one charge point while its connection ends, is made again, or while it is cancelled.
//
//vp: races delays=1 thorough:delays=2
func CheckPoint() {
	vp.Calm()
	logging()
	s := h.Serve()
	ctx, cancel := context.WithCancel(context.Background())
	c, err := cp.New(ctx, "me", "ws://localhost"+s.Port, ocpp.V16, ocpp.JSON, nil, func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		return &csresp.ClearCache{Status: "Accepted"}, nil
	})
	vp.Assert(err == nil, "a charge point cannot be made although the central system accepts it")
	p := &peer{Peer: s.Accept()}
	go func() {
		answering(p)
		if q := s.Accept(); q != nil {
			answering(&peer{Peer: q})
		}
	}()
	k, what := vp.Choice("use", 6), vp.Choice("event", 4)
	vp.Busy()
	all(func() {
		switch k {
		case 0:
			c.Send(&cpreq.Heartbeat{})
		case 1:
			c.Send(&cpreq.DataTransfer{VendorId: "v"})
		case 2:
			select {
			case <-c.WaitConnect():
			default:
			}
		case 3:
			select {
			case <-c.WaitDisconnect():
			default:
			}
		case 4:
			c.Connection().SendResponse("1", nil, errors.New("failed"))
		case 5:
			c.Identity()
		}
	}, func() {
		switch what {
		case 0:
			p.C.Close()
		case 1:
			vp.Reset(p.C)
		case 2:
			cancel()
		case 3:
			p.Write(h.Call("1", "ClearCache", "{}"))
		}
	}, func() {
		if k > 1 {
			c.Send(&cpreq.DataTransfer{VendorId: "v"})
		}
	})
	vp.Calm()
	vp.Quiesce()
	cancel()
	vp.Quiesce()
	vp.Reach("end")
}

// CheckSOAP has goroutines send requests over SOAP with one service, and requests handled at the same time.
//
//vp: races delays=2 thorough:delays=3
func CheckSOAP() {
	vp.Calm()
	logging()
	fromCP := vp.Choice("charge point", 2) == 1
	ns, el := "urn://Ocpp/Cp/2012/06/", "clearCacheResponse"
	body := "<status>Accepted</status>"
	if fromCP {
		ns, el = "urn://Ocpp/Cs/2012/06/", "statusNotificationResponse"
		body = ""
	}
	send, _ := h.SoapSide(fromCP, func(h.Post) (int, string) {
		return 200, spec.XEnvelope("", "<"+el+` xmlns="`+ns+`">`+body+"</"+el+">")
	})
	_, port := h.StartCS(func(r cpreq.ChargePointRequest, md cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		return nil, errors.New("handled")
	})
	vp.Busy()
	f := func() {
		if fromCP {
			_, err := send(&cpreq.StatusNotification{ConnectorId: 1, ErrorCode: "NoError", Status: "Available"})
			vp.Assert(err == nil, "a request does not get its answer while others use the charge point")
			return
		}
		_, err := send(&csreq.ClearCache{})
		vp.Assert(err == nil, "a request does not get its answer while others use the service")
	}
	all(f, f, func() { use(nil, port, 8) }, func() { use(nil, port, 8) })
	vp.Reach("end")
}
