package h

import (
	"context"
	"net/http"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// Server is a central system made of nothing but websockets: it accepts charge points and leaves the talking to the harness.
type Server struct {
	Port   string
	Conns  chan *Peer
	Events chan bool // one for every dial
	mu     sync.Mutex
	paths  []string
	times  []time.Duration
	refuse bool
	status int // of refusals; 0: 503, -1: the connection is dropped
	hold   chan bool
	srv    *http.Server
}

// Serve starts a Server.
func Serve() *Server {
	s := &Server{Port: vp.Port(), Conns: make(chan *Peer, 64), Events: make(chan bool, 256)}
	s.Start()
	return s
}

// Start makes the server listen (again).
func (s *Server) Start() {
	s.srv = &http.Server{Addr: s.Port, Handler: http.HandlerFunc(s.serve)}
	go s.srv.ListenAndServe()
	vp.WaitListen(s.Port)
}

// Stop ends the listening; accepted websockets stay.
func (s *Server) Stop() { s.srv.Close() }

// Refuse makes the server answer dials with an error, or accept them again.
func (s *Server) Refuse(on bool) {
	s.mu.Lock()
	s.refuse = on
	s.mu.Unlock()
}

// RefuseWith says how dials are refused: with a status, or by dropping the connection (-1).
func (s *Server) RefuseWith(status int) {
	s.mu.Lock()
	s.status = status
	s.mu.Unlock()
}

// Dials lists the paths that were dialled.
func (s *Server) Dials() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.paths...)
}

// Times lists when it was dialled.
func (s *Server) Times() []time.Duration {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]time.Duration{}, s.times...)
}

// Hold makes the server answer dials only when something comes over the channel: true to accept, false to refuse.
func (s *Server) Hold(ch chan bool) {
	s.mu.Lock()
	s.hold = ch
	s.mu.Unlock()
}

func (s *Server) serve(w http.ResponseWriter, r *http.Request) {
	if !websocket.IsWebSocketUpgrade(r) {
		return
	}
	s.mu.Lock()
	s.paths = append(s.paths, r.URL.Path)
	s.times = append(s.times, vp.Now())
	refuse, hold, status := s.refuse, s.hold, s.status
	s.mu.Unlock()
	s.Events <- true
	if hold != nil {
		refuse = !<-hold
	}
	if refuse {
		switch status {
		case 0:
			w.WriteHeader(503)
		case -1:
			vp.Abort(w)
		default:
			w.WriteHeader(status)
		}
		return
	}
	up := websocket.Upgrader{Subprotocols: []string{"ocpp1.6"}, CheckOrigin: func(*http.Request) bool { return true }}
	c, err := up.Upgrade(w, r, nil)
	if err != nil {
		return
	}
	s.Conns <- NewPeer(c)
}

// Dialled waits for a dial.
func (s *Server) Dialled() bool {
	select {
	case <-s.Events:
		return true
	case <-vp.After(Patience):
		return false
	}
}

// Accept waits for a charge point.
func (s *Server) Accept() *Peer {
	select {
	case p := <-s.Conns:
		return p
	case <-vp.After(Patience):
		return nil
	}
}

// StartCP makes a JSON charge point that is connected to a Server.
func StartCP(s *Server, identity string, handler cp.CentralSystemMessageHandler) (c cp.ChargePoint, p *Peer, cancel context.CancelFunc) {
	ctx, cancel := context.WithCancel(context.Background())
	c, err := cp.New(ctx, identity, "ws://localhost"+s.Port, ocpp.V16, ocpp.JSON, nil, handler)
	vp.Assert(err == nil, "a charge point cannot be made although the central system accepts it")
	p = s.Accept()
	vp.Assert(p != nil, "a charge point does not connect")
	return c, p, cancel
}
