package h

import (
	"context"
	"errors"
	"io/ioutil"
	"net/http"
	"sync"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/zzverif/vp"
)

// Post is an HTTP request that a SoapServer got.
type Post struct {
	Method, Path, Query string
	Header              http.Header
	Body                string
}

// SoapServer is an HTTP server that answers as the harness says.
type SoapServer struct {
	Port  string
	mu    sync.Mutex
	posts []Post
	srv   *http.Server
}

// ServeHTTP answers every request with what answer returns: a status (0: drop the connection) and a body.
func ServeHTTP(answer func(p Post) (status int, body string)) *SoapServer {
	s := &SoapServer{Port: vp.Port()}
	s.srv = &http.Server{Addr: s.Port, Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		p := Post{Method: r.Method, Path: r.URL.Path, Query: r.URL.RawQuery, Header: r.Header, Body: string(b)}
		s.mu.Lock()
		s.posts = append(s.posts, p)
		s.mu.Unlock()
		status, body := answer(p)
		if status == 0 {
			vp.Abort(w)
			return
		}
		w.Header().Set("Content-Type", "application/soap+xml")
		w.WriteHeader(status)
		w.Write([]byte(body))
	})}
	go s.srv.ListenAndServe()
	vp.WaitListen(s.Port)
	return s
}

// Posts lists the requests that came.
func (s *SoapServer) Posts() []Post {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Post{}, s.posts...)
}

// SoapSide makes one of the two things that send requests over SOAP: the service of a central system, or a charge point; answer
// is what the peer does.
func SoapSide(fromCP bool, answer func(p Post) (int, string)) (Sender, *SoapServer) {
	vp.Calm()
	defer vp.Busy()
	s := ServeHTTP(answer)
	url := "http://localhost" + s.Port + "/ocpp"
	if !fromCP {
		svc, err := cs.New().GetServiceOf("me", ocpp.V15, url)
		vp.Assert(err == nil && svc != nil, "a charge point of OCPP 1.5 cannot be looked up")
		return func(r messages.Request) (messages.Response, error) {
			a, err := svc.Send(r.(csreq.CentralSystemRequest))
			if a == nil {
				return nil, err
			}
			return a, err
		}, s
	}
	port := vp.Port()
	c, err := cp.New(context.Background(), "me", url, ocpp.V15, ocpp.SOAP, &port, func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		return nil, errors.New("no call expected")
	})
	vp.Assert(err == nil, "a SOAP charge point cannot be made")
	return func(r messages.Request) (messages.Response, error) {
		a, err := c.Send(r.(cpreq.ChargePointRequest))
		if a == nil {
			return nil, err
		}
		return a, err
	}, s
}
