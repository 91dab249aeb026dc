From 25e88b8567957876b3c8c85c0b2a88cb7d3cfddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 01/29] fix: report short and unknown websocket frames as
 errors instead of panicking

---
 ws/conn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ws/conn.go b/ws/conn.go
index b85bc00..2c80db6 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -119,6 +119,9 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 	if err != nil {
 		return nil, fmt.Errorf("on unmarshalling websocket message: %w", err)
 	}
+	if len(frame) < 3 {
+		return nil, errors.New("websocket message has too few fields")
+	}
 	msgType, ok := frame[0].(float64)
 	if !ok {
 		return nil, fmt.Errorf("first field is not a message type: %w", err)
@@ -130,6 +133,9 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 	id := MessageID(idStr)
 	switch MessageType(msgType) {
 	case Call:
+		if len(frame) < 4 {
+			return nil, errors.New("call has too few fields")
+		}
 		actionStr, ok := frame[2].(string)
 		if !ok {
 			return nil, fmt.Errorf("third field is not action: %w", err)
@@ -147,6 +153,9 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 		}
 		return &CallResultMessage{id, payload}, nil
 	case CallError:
+		if len(frame) < 5 {
+			return nil, errors.New("call error has too few fields")
+		}
 		codeStr, ok := frame[2].(string)
 		if !ok {
 			return nil, fmt.Errorf("third field is not error code: %w", err)
@@ -161,7 +170,7 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 		}
 		return &CallErrorMessage{id, ErrorCode(codeStr), description, details}, nil
 	}
-	return nil, nil
+	return nil, fmt.Errorf("unknown message type: %v", msgType)
 }
 
 func (c *Conn) ReadMessageAsync() <-chan error {
-- 
2.43.0


From bf45228c9bd9ecd22dbc2d7eeb89c29e8fe5116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 02/29] fix: synchronise the pending requests of a connection
 and answer each at most once

---
 ws/conn.go | 67 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 2c80db6..1e31a1a 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -29,27 +29,33 @@ type Conn struct {
 	ctx       context.Context
 	cancelCtx context.CancelFunc
 	*websocket.Conn
-	sendMux      sync.Mutex
-	sentMessages map[MessageID]*CallMessage
-	requests     chan struct {
+	sendMux  sync.Mutex
+	requests chan struct {
 		messages.Request
 		MessageID
 	}
-	responsesOf map[MessageID]chan CallResponse
+	pendingMux sync.Mutex
+	pending    map[MessageID]pendingRequest
+}
+
+// pendingRequest is a sent request that has not been answered yet
+type pendingRequest struct {
+	messages.Request
+	// buffered, so that delivering the answer never blocks
+	response chan CallResponse
 }
 
 func newConn(socket *websocket.Conn) *Conn {
 	ctx, cancel := context.WithCancel(context.Background())
 	return &Conn{
-		Conn:         socket,
-		sentMessages: make(map[MessageID]*CallMessage, 0),
+		Conn: socket,
 		requests: make(chan struct {
 			messages.Request
 			MessageID
 		}, 0),
-		ctx:         ctx,
-		cancelCtx:   cancel,
-		responsesOf: make(map[MessageID]chan CallResponse),
+		ctx:       ctx,
+		cancelCtx: cancel,
+		pending:   make(map[MessageID]pendingRequest),
 	}
 }
 
@@ -196,8 +202,10 @@ func (c *Conn) ReadMessage() error {
 
 	log.Debug("Received a message, parsed: %v", msg)
 
+	var pending pendingRequest
 	if msg.Type() == CallResult || msg.Type() == CallError {
-		_, ok := c.sentMessages[msg.ID()]
+		var ok bool
+		pending, ok = c.takePending(msg.ID())
 		if !ok {
 			return errors.New("received call error/result without sending any call message")
 		}
@@ -218,13 +226,13 @@ func (c *Conn) ReadMessage() error {
 		}{req, msg.ID()}
 	case *CallResultMessage:
 		var resp messages.Response
-		resp, wserr = c.callResultToResponse(m)
-		c.responsesOf[m.ID()] <- CallResponse{
+		resp, wserr = c.callResultToResponse(pending.Request, m)
+		pending.response <- CallResponse{
 			response: resp,
 			err:      wserr,
 		}
 	case *CallErrorMessage:
-		c.responsesOf[m.ID()] <- CallResponse{
+		pending.response <- CallResponse{
 			response: nil,
 			err:      m,
 		}
@@ -248,16 +256,18 @@ func (c *Conn) callToRequest(call *CallMessage) (messages.Request, ErrorCode) {
 	return req, Nil
 }
 
-func (c *Conn) callResultToResponse(result *CallResultMessage) (messages.Response, ErrorCode) {
-	id := result.ID()
-	call, ok := c.sentMessages[id]
-	if !ok {
-		return nil, GenericError
-	}
-	if call == nil {
-		return nil, NotSupported
-	}
-	resp := req.FromActionName(string(call.Action)).GetResponse()
+// takePending removes and returns the pending request with this ID,
+// so that it is answered at most once
+func (c *Conn) takePending(id MessageID) (pendingRequest, bool) {
+	c.pendingMux.Lock()
+	defer c.pendingMux.Unlock()
+	pending, ok := c.pending[id]
+	delete(c.pending, id)
+	return pending, ok
+}
+
+func (c *Conn) callResultToResponse(request messages.Request, result *CallResultMessage) (messages.Response, ErrorCode) {
+	resp := request.GetResponse()
 	originalPayload, err := json.Marshal(result.Payload)
 	if err != nil {
 		return nil, GenericError
@@ -301,16 +311,17 @@ func (c *Conn) SendRequest(request messages.Request) (messages.Response, error)
 	if err != nil {
 		return nil, err
 	}
-	c.sentMessages[id] = msg
-	c.responsesOf[id] = make(chan CallResponse)
+	pending := pendingRequest{request, make(chan CallResponse, 1)}
+	c.pendingMux.Lock()
+	c.pending[id] = pending
+	c.pendingMux.Unlock()
+	defer c.takePending(id)
 	err = c.sendMessage(msg)
 	if err != nil {
 		return nil, err
 	}
 	select {
-	case callResponse := <-c.responsesOf[id]:
-		delete(c.sentMessages, id)
-		delete(c.responsesOf, id)
+	case callResponse := <-pending.response:
 		if callResponse.err != Nil {
 			return nil, callResponse.err
 		}
-- 
2.43.0


From e94e2c12e2dfa3b62b3de76b5d9e9ae02b580bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 03/29] fix: do not leak the goroutine of ReadMessageAsync

---
 ws/conn.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 1e31a1a..29a3dcd 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -180,7 +180,8 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 }
 
 func (c *Conn) ReadMessageAsync() <-chan error {
-	readMessageResultChannel := make(chan error)
+	// buffered, so that the goroutine ends even if nobody waits for the result anymore
+	readMessageResultChannel := make(chan error, 1)
 	go func() {
 		readMessageResultChannel <- c.ReadMessage()
 	}()
@@ -220,10 +221,14 @@ func (c *Conn) ReadMessage() error {
 			msg := NewCallErrorMessage(msg.ID(), wserr, "on handling message")
 			return c.sendMessage(msg)
 		}
-		c.requests <- struct {
+		select {
+		case c.requests <- struct {
 			messages.Request
 			MessageID
-		}{req, msg.ID()}
+		}{req, msg.ID()}:
+		case <-c.WaitClose():
+			return errors.New("connection closed before the request was handled")
+		}
 	case *CallResultMessage:
 		var resp messages.Response
 		resp, wserr = c.callResultToResponse(pending.Request, m)
-- 
2.43.0


From 2fd192a64125bc49ffeada8e48ed07b65fde96c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 04/29] fix: serialise raw writes with the other writes of a
 connection

---
 ws/conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ws/conn.go b/ws/conn.go
index 29a3dcd..99805c6 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -104,6 +104,12 @@ func (c *Conn) WriteJSON(data interface{}) error {
 	return c.Conn.WriteJSON(data)
 }
 
+func (c *Conn) WriteMessage(messageType int, data []byte) error {
+	c.sendMux.Lock()
+	defer c.sendMux.Unlock()
+	return c.Conn.WriteMessage(messageType, data)
+}
+
 func (c *Conn) Close() error {
 	err := c.Conn.Close()
 	c.cancelCtx()
-- 
2.43.0


From a54805f504d825475db98ec7154c90fb5e832b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 05/29] fix: guard the connections and listeners of the central
 system with its mutex

---
 cs/cs.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/cs/cs.go b/cs/cs.go
index b9a2412..85d2e4c 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -80,7 +80,7 @@ func (csys *centralSystem) Run(port string, cphandler ChargePointMessageHandler)
 				`<h1>OCPP Central System</h1>
 				<p>currently connected with %d OCPP-J stations, and more OCPP-S stations</p>
 				<i>Central System using <a href="https://github.com/voltbras/go-ocpp"/>https://github.com/voltbras/go-ocpp</i>`,
-				len(csys.conns),
+				csys.countConns(),
 			)
 			w.Write([]byte(body))
 		} else {
@@ -93,7 +93,7 @@ func (csys *centralSystem) Run(port string, cphandler ChargePointMessageHandler)
 }
 
 func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Request, cphandler ChargePointMessageHandler) {
-	log.Debug("Current WS connections map: %v", csys.conns)
+	log.Debug("Current number of WS connections: %d", csys.countConns())
 	cpID := strings.TrimPrefix(r.URL.Path, "/")
 
 	rawReq, _ := httputil.DumpRequest(r, true)
@@ -115,16 +115,17 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 		close(csys.connChans[cpID])
 	}
 	csys.connsConnected[cpID] = true
+	connListener := csys.connListener
 	csys.connMux.Unlock()
 
 	log.Debug("Connected with %s", cpID)
-	go csys.connListener(cpID)
+	go connListener(cpID)
 
 	defer func() {
 		conn.Close()
 		log.Debug("Closed connection of: %s", cpID)
-		go csys.disconnListener(cpID)
 		csys.connMux.Lock()
+		go csys.disconnListener(cpID)
 		csys.connsCount[cpID]--
 		// if the same CP connected more times before we do the
 		// connection cleanup, don't remove the connection reference
@@ -165,6 +166,12 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 	}
 }
 
+func (csys *centralSystem) countConns() int {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
+	return len(csys.conns)
+}
+
 func (csys *centralSystem) handleSoap(w http.ResponseWriter, r *http.Request, cphandler ChargePointMessageHandler) {
 	log.Debug("New SOAP request")
 	err := soap.Handle(w, r, func(request messages.Request, cpID string) (messages.Response, error) {
@@ -203,10 +210,14 @@ func (csys *centralSystem) GetServiceOf(cpID string, version ocpp.Version, url s
 }
 
 func (csys *centralSystem) SetChargePointConnectionListener(f ChargePointConnectionListener) {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
 	csys.connListener = f
 }
 
 func (csys *centralSystem) SetChargePointDisconnectionListener(f ChargePointConnectionListener) {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
 	csys.disconnListener = f
 }
 
-- 
2.43.0


From 770f692e885156dc61eea5fb1b9ddf7bf051ac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 06/29] fix: fall back to an older live connection when the
 newest one of a charge point ends

---
 cs/cs.go | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/cs/cs.go b/cs/cs.go
index 85d2e4c..24b1e3c 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -47,11 +47,11 @@ type CentralSystem interface {
 }
 
 type centralSystem struct {
-	conns map[string]*ws.Conn
+	// live connections by charge point, the most recent one last
+	conns map[string][]*ws.Conn
 	// used to symbolize if the connection is connected
 	connChans       map[string]chan struct{}
 	connsConnected  map[string]bool
-	connsCount      map[string]int
 	connMux         sync.Mutex
 	connListener    ChargePointConnectionListener
 	disconnListener ChargePointConnectionListener
@@ -59,9 +59,8 @@ type centralSystem struct {
 
 func New() CentralSystem {
 	return &centralSystem{
-		conns:           make(map[string]*ws.Conn, 0),
+		conns:           make(map[string][]*ws.Conn, 0),
 		connChans:       make(map[string]chan struct{}, 0),
-		connsCount:      make(map[string]int, 0),
 		connsConnected:  make(map[string]bool, 0),
 		connListener:    func(cpID string) {},
 		disconnListener: func(cpID string) {},
@@ -106,8 +105,7 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 	}
 
 	csys.connMux.Lock()
-	csys.conns[cpID] = conn
-	csys.connsCount[cpID]++
+	csys.conns[cpID] = append(csys.conns[cpID], conn)
 	if csys.connChans[cpID] == nil {
 		csys.connChans[cpID] = make(chan struct{})
 	}
@@ -126,10 +124,15 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 		log.Debug("Closed connection of: %s", cpID)
 		csys.connMux.Lock()
 		go csys.disconnListener(cpID)
-		csys.connsCount[cpID]--
 		// if the same CP connected more times before we do the
-		// connection cleanup, don't remove the connection reference
-		if csys.connsCount[cpID] == 0 {
+		// connection cleanup, don't remove the other connections
+		for i, c := range csys.conns[cpID] {
+			if c == conn {
+				csys.conns[cpID] = append(csys.conns[cpID][:i], csys.conns[cpID][i+1:]...)
+				break
+			}
+		}
+		if len(csys.conns[cpID]) == 0 {
 			delete(csys.conns, cpID)
 			csys.connChans[cpID] = make(chan struct{})
 			csys.connsConnected[cpID] = false
@@ -172,6 +175,17 @@ func (csys *centralSystem) countConns() int {
 	return len(csys.conns)
 }
 
+// lastConn returns the most recent live connection of a charge point
+func (csys *centralSystem) lastConn(cpID string) *ws.Conn {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
+	conns := csys.conns[cpID]
+	if len(conns) == 0 {
+		return nil
+	}
+	return conns[len(conns)-1]
+}
+
 func (csys *centralSystem) handleSoap(w http.ResponseWriter, r *http.Request, cphandler ChargePointMessageHandler) {
 	log.Debug("New SOAP request")
 	err := soap.Handle(w, r, func(request messages.Request, cpID string) (messages.Response, error) {
@@ -198,9 +212,7 @@ func (csys *centralSystem) GetServiceOf(cpID string, version ocpp.Version, url s
 		}), nil
 	}
 	if version == ocpp.V16 {
-		csys.connMux.Lock()
-		conn := csys.conns[cpID]
-		csys.connMux.Unlock()
+		conn := csys.lastConn(cpID)
 		if conn == nil { // TODO: or conn closed
 			return nil, errors.New("no connection to this charge point")
 		}
@@ -222,9 +234,7 @@ func (csys *centralSystem) SetChargePointDisconnectionListener(f ChargePointConn
 }
 
 func (csys *centralSystem) WaitDisconnect(cpID string) <-chan struct{} {
-	csys.connMux.Lock()
-	conn := csys.conns[cpID]
-	csys.connMux.Unlock()
+	conn := csys.lastConn(cpID)
 
 	ch := make(chan struct{})
 	if conn == nil {
-- 
2.43.0


From 4bf87c9138503384b2ffceeaa618ac764ab0ba2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 07/29] fix: reply to calls of the wrong direction and to calls
 without an encodable response

---
 cp/json.go |  5 +++++
 cs/cs.go   |  4 ++++
 ws/conn.go | 18 ++++++++++++++++++
 3 files changed, 27 insertions(+)

diff --git a/cp/json.go b/cp/json.go
index 15a0ceb..4d40e33 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -55,6 +55,11 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 			cprequest, ok := req.Request.(csreq.CentralSystemRequest)
 			if !ok {
 				log.Error(csreq.ErrorNotCentralSystemRequest.Error())
+				err := cp.conn.SendError(req.MessageID, ws.NotSupported, csreq.ErrorNotCentralSystemRequest.Error())
+				if err != nil {
+					log.Error(err.Error())
+				}
+				continue
 			}
 			cpresponse, err := cshandler(cprequest)
 			err = cp.conn.SendResponse(req.MessageID, cpresponse, err)
diff --git a/cs/cs.go b/cs/cs.go
index 24b1e3c..1d6516a 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -146,6 +146,10 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 			cprequest, ok := req.Request.(cpreq.ChargePointRequest)
 			if !ok {
 				log.Error(cpreq.ErrorNotChargePointRequest.Error())
+				err := conn.SendError(req.MessageID, ws.NotSupported, cpreq.ErrorNotChargePointRequest.Error())
+				if err != nil {
+					log.Error(err.Error())
+				}
 				continue
 			}
 			cpresponse, err := cphandler(cprequest, ChargePointRequestMetadata{
diff --git a/ws/conn.go b/ws/conn.go
index 99805c6..704483d 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -290,8 +290,26 @@ func (c *Conn) callResultToResponse(request messages.Request, result *CallResult
 	return resp, Nil
 }
 func (c *Conn) SendResponse(id MessageID, response messages.Response, err error) error {
+	if err == nil {
+		// the caller must get a reply even if there is no response to send
+		payload, marshalErr := json.Marshal(response)
+		if marshalErr != nil {
+			err = fmt.Errorf("on marshalling response: %w", marshalErr)
+		} else if string(payload) == "null" {
+			err = errors.New("no response to the request")
+		}
+		if err != nil {
+			log.Error(err.Error())
+		}
+	}
 	return c.sendMessage(unmarshalResponse(id, response, err))
 }
+
+// SendError replies to the call with this ID with the given error code
+func (c *Conn) SendError(id MessageID, code ErrorCode, description string) error {
+	return c.sendMessage(NewCallErrorMessage(id, code, description))
+}
+
 func (c *Conn) sendMessage(msg Message) error {
 	c.sendMux.Lock()
 	defer c.sendMux.Unlock()
-- 
2.43.0


From 31fb7e53aee537b819e1ac8bcc799f462a1a5057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 08/29] fix: synchronise the connection of a charge point,
 which a reconnection replaces

---
 cp/cp.go   | 13 +++++++++++++
 cp/json.go | 23 ++++++++++++++++-------
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/cp/cp.go b/cp/cp.go
index 79cb293..5350aaa 100644
--- a/cp/cp.go
+++ b/cp/cp.go
@@ -4,9 +4,12 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/voltbras/go-ocpp"
 	"github.com/voltbras/go-ocpp/internal/service"
+	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
+	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
 	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
 	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
 	"github.com/voltbras/go-ocpp/soap"
@@ -27,6 +30,8 @@ type ChargePoint interface {
 }
 
 type chargePoint struct {
+	// guards CentralSystem, conn and connectedChan, which change on a reconnection
+	mux sync.Mutex
 	service.CentralSystem
 	identity         string
 	centralSystemURL string
@@ -65,6 +70,14 @@ func New(ctx context.Context, identity, csURL string, version ocpp.Version, tran
 	return cp, nil
 }
 
+// Send a request to the central system
+func (cp *chargePoint) Send(req cpreq.ChargePointRequest) (cpresp.ChargePointResponse, error) {
+	cp.mux.Lock()
+	centralSystem := cp.CentralSystem
+	cp.mux.Unlock()
+	return centralSystem.Send(req)
+}
+
 func (cp *chargePoint) Identity() string {
 	return cp.identity
 }
diff --git a/cp/json.go b/cp/json.go
index 4d40e33..cd32dc5 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -14,6 +14,8 @@ const (
 )
 
 func (cp *chargePoint) Connection() *ws.Conn {
+	cp.mux.Lock()
+	defer cp.mux.Unlock()
 	return cp.conn
 }
 
@@ -23,6 +25,8 @@ func (cp *chargePoint) getNewWebsocketConnection() error {
 	if err != nil {
 		return err
 	}
+	cp.mux.Lock()
+	defer cp.mux.Unlock()
 	cp.conn = conn
 	cp.CentralSystem = service.NewCentralSystemJSON(cp.conn)
 	// closing the channel will make the reads non blocking
@@ -32,13 +36,16 @@ func (cp *chargePoint) getNewWebsocketConnection() error {
 
 func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageHandler) {
 	for {
+		conn := cp.Connection()
 		select {
 		case <-cp.ctx.Done():
-			cp.conn.Close()
+			conn.Close()
 			return
-		case <-cp.conn.WaitClose():
+		case <-conn.WaitClose():
 			log.Debug("Closed connection of Central System")
+			cp.mux.Lock()
 			cp.connectedChan = make(chan struct{})
+			cp.mux.Unlock()
 			// try to connect until it is established
 			for {
 				err := cp.getNewWebsocketConnection()
@@ -49,20 +56,20 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 					break
 				}
 			}
-		case <-cp.conn.ReadMessageAsync():
+		case <-conn.ReadMessageAsync():
 			continue
-		case req := <-cp.conn.Requests():
+		case req := <-conn.Requests():
 			cprequest, ok := req.Request.(csreq.CentralSystemRequest)
 			if !ok {
 				log.Error(csreq.ErrorNotCentralSystemRequest.Error())
-				err := cp.conn.SendError(req.MessageID, ws.NotSupported, csreq.ErrorNotCentralSystemRequest.Error())
+				err := conn.SendError(req.MessageID, ws.NotSupported, csreq.ErrorNotCentralSystemRequest.Error())
 				if err != nil {
 					log.Error(err.Error())
 				}
 				continue
 			}
 			cpresponse, err := cshandler(cprequest)
-			err = cp.conn.SendResponse(req.MessageID, cpresponse, err)
+			err = conn.SendResponse(req.MessageID, cpresponse, err)
 			if err != nil {
 				log.Error(err.Error())
 			}
@@ -71,9 +78,11 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 }
 
 func (cp *chargePoint) WaitConnect() <-chan struct{} {
+	cp.mux.Lock()
+	defer cp.mux.Unlock()
 	return cp.connectedChan
 }
 
 func (cp *chargePoint) WaitDisconnect() <-chan struct{} {
-	return cp.conn.WaitClose()
+	return cp.Connection().WaitClose()
 }
-- 
2.43.0


From 23e43e459ba7292f34d06b6ab33d0723e88afc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 09/29] fix: stop a charge point for good once its context is
 cancelled

---
 cp/json.go | 45 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/cp/json.go b/cp/json.go
index cd32dc5..c2ef066 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -21,44 +21,75 @@ func (cp *chargePoint) Connection() *ws.Conn {
 
 // tries to reach CS, if succeeded handle
 func (cp *chargePoint) getNewWebsocketConnection() error {
+	if cp.ctx.Err() != nil {
+		return cp.ctx.Err()
+	}
 	conn, err := ws.Dial(cp.identity, cp.centralSystemURL, cp.version)
 	if err != nil {
 		return err
 	}
+	if cp.ctx.Err() != nil {
+		conn.Close()
+		return cp.ctx.Err()
+	}
 	cp.mux.Lock()
 	defer cp.mux.Unlock()
 	cp.conn = conn
 	cp.CentralSystem = service.NewCentralSystemJSON(cp.conn)
 	// closing the channel will make the reads non blocking
 	close(cp.connectedChan)
+	// close the connection on cancellation, also while a request is being handled
+	go func() {
+		select {
+		case <-cp.ctx.Done():
+			conn.Close()
+		case <-conn.WaitClose():
+		}
+	}()
 	return nil
 }
 
+// makes the connect channel block again
+func (cp *chargePoint) setDisconnected() {
+	cp.mux.Lock()
+	defer cp.mux.Unlock()
+	select {
+	case <-cp.connectedChan:
+		cp.connectedChan = make(chan struct{})
+	default:
+	}
+}
+
 func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageHandler) {
 	for {
 		conn := cp.Connection()
 		select {
 		case <-cp.ctx.Done():
 			conn.Close()
+			cp.setDisconnected()
 			return
 		case <-conn.WaitClose():
 			log.Debug("Closed connection of Central System")
-			cp.mux.Lock()
-			cp.connectedChan = make(chan struct{})
-			cp.mux.Unlock()
+			cp.setDisconnected()
 			// try to connect until it is established
 			for {
 				err := cp.getNewWebsocketConnection()
-				if err != nil {
-					log.Error("On restarting connection with Central System: %w", err)
-					<-time.After(websocketConnectionRetryInterval)
-				} else {
+				if err == nil {
 					break
 				}
+				log.Error("On restarting connection with Central System: %w", err)
+				select {
+				case <-cp.ctx.Done():
+					return
+				case <-time.After(websocketConnectionRetryInterval):
+				}
 			}
 		case <-conn.ReadMessageAsync():
 			continue
 		case req := <-conn.Requests():
+			if cp.ctx.Err() != nil {
+				continue
+			}
 			cprequest, ok := req.Request.(csreq.CentralSystemRequest)
 			if !ok {
 				log.Error(csreq.ErrorNotCentralSystemRequest.Error())
-- 
2.43.0


From bc5c4ce46d33b276505be64bea59a47151db225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 10/29] fix: stop the SOAP server of a charge point when its
 context is cancelled

---
 cp/soap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cp/soap.go b/cp/soap.go
index 4a791dd..b68f2ef 100644
--- a/cp/soap.go
+++ b/cp/soap.go
@@ -15,13 +15,13 @@ func handleSoap(ctx context.Context, port string, cshandler CentralSystemMessage
 	handler := soapHandler{cshandler}
 	server := &http.Server{Addr: port, Handler: handler}
 
-	serverErrorCh := make(chan error)
+	serverErrorCh := make(chan error, 1)
 	go func() {
 		serverErrorCh <- server.ListenAndServe()
 	}()
 	select {
 	case <-ctx.Done():
-		return nil
+		return server.Close()
 	case err := <-serverErrorCh:
 		return err
 	}
-- 
2.43.0


From 9131545d933df101ad77cede1b2744a36a97510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 11/29] fix: return an error for a SOAP answer without the
 expected response instead of panicking

---
 soap/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soap/client.go b/soap/client.go
index 8600153..d7e65d9 100644
--- a/soap/client.go
+++ b/soap/client.go
@@ -112,8 +112,11 @@ func (s *Client) Call(soapAction string, request messages.Request, response mess
 	}
 
 	respVal, contentVal := reflect.ValueOf(response), reflect.ValueOf(respEnvelope.Body.Content)
+	if !contentVal.IsValid() {
+		return errors.New("response holds no message")
+	}
 	if respVal.Type() != contentVal.Type() {
-		panic("incompatible types:" + respVal.Type().String() + contentVal.Type().String())
+		return errors.New("unexpected response: " + contentVal.Type().String() + " instead of " + respVal.Type().String())
 	}
 
 	respVal.Elem().Set(contentVal.Elem())
-- 
2.43.0


From f88e536a4dc9d8c260c03bd3f087fda3102f045b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 12/29] fix: handle SOAP envelopes without a header

---
 soap/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soap/server.go b/soap/server.go
index c0fba7a..f42c8ef 100644
--- a/soap/server.go
+++ b/soap/server.go
@@ -30,7 +30,11 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 		return errors.New("received message is not a request")
 	}
 
-	resp, err := handle(req, reqEnv.Header.ChargeBoxIdentity)
+	cpID := ""
+	if reqEnv.Header != nil {
+		cpID = reqEnv.Header.ChargeBoxIdentity
+	}
+	resp, err := handle(req, cpID)
 	if err != nil {
 		log.Error("couldn't handle request: %w", err)
 	}
-- 
2.43.0


From c0adf2a8c7ea0d3a9eab1cda4cf1d07760a710f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 13/29] fix: do not announce a content encoding the SOAP answer
 does not have

---
 soap/server.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/soap/server.go b/soap/server.go
index f42c8ef..4a07281 100644
--- a/soap/server.go
+++ b/soap/server.go
@@ -47,7 +47,6 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 	log.Debug("Sending raw response: %s", string(rawResp))
 
 	w.Header().Set("Content-Type", "application/soap+xml")
-	w.Header().Set("Content-Encoding", "deflate")
 
 	_, err = w.Write(rawResp)
 	return err
-- 
2.43.0


From 175a92239f27f3f99c56e995b8ebc2c506cb1341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 14/29] fix: send the reason of a SOAP fault where it is read,
 and no message besides

---
 soap/marshal.go | 3 ++-
 soap/models.go  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/soap/marshal.go b/soap/marshal.go
index 5ce64a4..7f8717b 100644
--- a/soap/marshal.go
+++ b/soap/marshal.go
@@ -23,8 +23,9 @@ func Marshal(data interface{}, err error, NS string) ([]byte, error) {
 	respEnv := toSendEnvelope{XMLNS: NS}
 	if err != nil {
 		respEnv.Body.Fault = &toSendFault{Reason: err.Error()}
+	} else {
+		respEnv.Body.Content = data
 	}
-	respEnv.Body.Content = data
 
 	return xml.Marshal(respEnv)
 }
diff --git a/soap/models.go b/soap/models.go
index c1be438..fae5c4f 100644
--- a/soap/models.go
+++ b/soap/models.go
@@ -87,7 +87,7 @@ type toSendFault struct {
 	XMLName xml.Name `xml:"S:Fault,omitempty"`
 
 	Code   string `xml:"Code,omitempty"`
-	Reason string `xml:"reason,omitempty"`
+	Reason string `xml:"S:Reason>S:Text,omitempty"`
 	String string `xml:"faultstring,omitempty"`
 	Actor  string `xml:"faultactor,omitempty"`
 	Detail string `xml:"detail,omitempty"`
-- 
2.43.0


From 5ce878e34e2b2367c2937483de808f7d02343c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 15/29] fix: correct malformed struct tags

---
 messages/v1x/cpresp/messages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/v1x/cpresp/messages.go b/messages/v1x/cpresp/messages.go
index 597de5e..933a6ba 100644
--- a/messages/v1x/cpresp/messages.go
+++ b/messages/v1x/cpresp/messages.go
@@ -30,7 +30,7 @@ type DataTransfer struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ dataTransferResponse"`
 
-	Data   string `json:"data, xml:"data,omitempty"omitempty"`
+	Data   string `json:"data,omitempty" xml:"data,omitempty"`
 	Status string `json:"status" xml:"status,omitempty"`
 }
 
@@ -87,5 +87,5 @@ type StopTransaction struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ stopTransactionResponse"`
 
-	IdTagInfo *IdTagInfo `json:"idTagInfo, xml:"idTagInfo,omitempty"omitempty"`
+	IdTagInfo *IdTagInfo `json:"idTagInfo,omitempty" xml:"idTagInfo,omitempty"`
 }
-- 
2.43.0


From a127c4e82a6d41a79cc70777e7756ea2d202d8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 16/29] fix: do not encode optional message fields that are not
 set

The encoders wrote optional fields the caller left unset as "", 0, null or
the zero time, which the schemas do not allow (and which panicked for the
unset expiry date of an IdTagInfo).
---
 messages/v1x/cpreq/json_encode.go  | 460 +++++++++++++------------
 messages/v1x/cpresp/json_encode.go |  40 ++-
 messages/v1x/csreq/json_encode.go  | 517 ++++++++++++++++-------------
 messages/v1x/csresp/json_encode.go | 207 +++++++-----
 4 files changed, 678 insertions(+), 546 deletions(-)

diff --git a/messages/v1x/cpreq/json_encode.go b/messages/v1x/cpreq/json_encode.go
index 38bd439..e57fd98 100644
--- a/messages/v1x/cpreq/json_encode.go
+++ b/messages/v1x/cpreq/json_encode.go
@@ -61,16 +61,18 @@ func (m *BootNotification) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "chargeBoxSerialNumber" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"chargeBoxSerialNumber\": ")
-	if tmp, err := json.Marshal(m.ChargeBoxSerialNumber); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ChargeBoxSerialNumber != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"chargeBoxSerialNumber\": ")
+		if tmp, err := json.Marshal(m.ChargeBoxSerialNumber); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "ChargePointModel" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "chargePointModel" field
@@ -85,16 +87,18 @@ func (m *BootNotification) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "chargePointSerialNumber" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"chargePointSerialNumber\": ")
-	if tmp, err := json.Marshal(m.ChargePointSerialNumber); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ChargePointSerialNumber != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"chargePointSerialNumber\": ")
+		if tmp, err := json.Marshal(m.ChargePointSerialNumber); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "ChargePointVendor" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "chargePointVendor" field
@@ -109,60 +113,70 @@ func (m *BootNotification) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "firmwareVersion" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"firmwareVersion\": ")
-	if tmp, err := json.Marshal(m.FirmwareVersion); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.FirmwareVersion != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"firmwareVersion\": ")
+		if tmp, err := json.Marshal(m.FirmwareVersion); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "iccid" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"iccid\": ")
-	if tmp, err := json.Marshal(m.Iccid); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Iccid != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"iccid\": ")
+		if tmp, err := json.Marshal(m.Iccid); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "imsi" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"imsi\": ")
-	if tmp, err := json.Marshal(m.Imsi); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Imsi != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"imsi\": ")
+		if tmp, err := json.Marshal(m.Imsi); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "meterSerialNumber" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"meterSerialNumber\": ")
-	if tmp, err := json.Marshal(m.MeterSerialNumber); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.MeterSerialNumber != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"meterSerialNumber\": ")
+		if tmp, err := json.Marshal(m.MeterSerialNumber); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "meterType" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"meterType\": ")
-	if tmp, err := json.Marshal(m.MeterType); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.MeterType != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"meterType\": ")
+		if tmp, err := json.Marshal(m.MeterType); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
@@ -237,27 +251,31 @@ func (m *DataTransfer) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "data" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"data\": ")
-	if tmp, err := json.Marshal(m.Data); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Data != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"data\": ")
+		if tmp, err := json.Marshal(m.Data); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "messageId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"messageId\": ")
-	if tmp, err := json.Marshal(m.MessageId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.MessageId != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"messageId\": ")
+		if tmp, err := json.Marshal(m.MessageId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "VendorId" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "vendorId" field
@@ -530,16 +548,18 @@ func (m *MeterValues) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "transactionId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"transactionId\": ")
-	if tmp, err := json.Marshal(m.TransactionId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.TransactionId != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"transactionId\": ")
+		if tmp, err := json.Marshal(m.TransactionId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
@@ -590,71 +610,83 @@ func (m *SampledValue) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "context" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"context\": ")
-	if tmp, err := json.Marshal(m.Context); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Context != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"context\": ")
+		if tmp, err := json.Marshal(m.Context); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "format" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"format\": ")
-	if tmp, err := json.Marshal(m.Format); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Format != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"format\": ")
+		if tmp, err := json.Marshal(m.Format); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "location" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"location\": ")
-	if tmp, err := json.Marshal(m.Location); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Location != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"location\": ")
+		if tmp, err := json.Marshal(m.Location); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "measurand" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"measurand\": ")
-	if tmp, err := json.Marshal(m.Measurand); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Measurand != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"measurand\": ")
+		if tmp, err := json.Marshal(m.Measurand); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "phase" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"phase\": ")
-	if tmp, err := json.Marshal(m.Phase); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Phase != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"phase\": ")
+		if tmp, err := json.Marshal(m.Phase); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "unit" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"unit\": ")
-	if tmp, err := json.Marshal(m.Unit); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Unit != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"unit\": ")
+		if tmp, err := json.Marshal(m.Unit); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "Value" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "value" field
@@ -765,16 +797,18 @@ func (m *StartTransaction) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "reservationId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"reservationId\": ")
-	if tmp, err := json.Marshal(m.ReservationId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ReservationId != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"reservationId\": ")
+		if tmp, err := json.Marshal(m.ReservationId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "Timestamp" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "timestamp" field
@@ -884,16 +918,18 @@ func (m *StatusNotification) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "info" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"info\": ")
-	if tmp, err := json.Marshal(m.Info); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Info != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"info\": ")
+		if tmp, err := json.Marshal(m.Info); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "Status" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "status" field
@@ -918,27 +954,31 @@ func (m *StatusNotification) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "vendorErrorCode" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"vendorErrorCode\": ")
-	if tmp, err := json.Marshal(m.VendorErrorCode); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.VendorErrorCode != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"vendorErrorCode\": ")
+		if tmp, err := json.Marshal(m.VendorErrorCode); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "vendorId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"vendorId\": ")
-	if tmp, err := json.Marshal(m.VendorId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.VendorId != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"vendorId\": ")
+		if tmp, err := json.Marshal(m.VendorId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
@@ -1011,16 +1051,18 @@ func (m *StopTransaction) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "idTag" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"idTag\": ")
-	if tmp, err := json.Marshal(m.IdTag); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.IdTag != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"idTag\": ")
+		if tmp, err := json.Marshal(m.IdTag); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "MeterStop" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "meterStop" field
@@ -1035,16 +1077,18 @@ func (m *StopTransaction) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "reason" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"reason\": ")
-	if tmp, err := json.Marshal(m.Reason); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Reason != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"reason\": ")
+		if tmp, err := json.Marshal(m.Reason); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "Timestamp" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "timestamp" field
@@ -1059,16 +1103,18 @@ func (m *StopTransaction) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "transactionData" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"transactionData\": ")
-	if tmp, err := json.Marshal(m.TransactionData); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if len(m.TransactionData) > 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"transactionData\": ")
+		if tmp, err := json.Marshal(m.TransactionData); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "TransactionId" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "transactionId" field
diff --git a/messages/v1x/cpresp/json_encode.go b/messages/v1x/cpresp/json_encode.go
index eb776b1..7a28e8a 100644
--- a/messages/v1x/cpresp/json_encode.go
+++ b/messages/v1x/cpresp/json_encode.go
@@ -157,16 +157,18 @@ func (m *DataTransfer) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "data" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"data\": ")
-	if tmp, err := json.Marshal(m.Data); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Data != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"data\": ")
+		if tmp, err := json.Marshal(m.Data); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "Status" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "status" field
@@ -501,16 +503,18 @@ func (m *StopTransaction) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "idTagInfo" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"idTagInfo\": ")
-	if tmp, err := json.Marshal(m.IdTagInfo); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.IdTagInfo != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"idTagInfo\": ")
+		if tmp, err := json.Marshal(m.IdTagInfo); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 924e656..0dd27a3 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -257,16 +257,18 @@ func (m *ChargingProfile) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "recurrencyKind" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"recurrencyKind\": ")
-	if tmp, err := json.Marshal(m.RecurrencyKind); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.RecurrencyKind != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"recurrencyKind\": ")
+		if tmp, err := json.Marshal(m.RecurrencyKind); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "StackLevel" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "stackLevel" field
@@ -281,14 +283,17 @@ func (m *ChargingProfile) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "transactionId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"transactionId\": ")
-	if tmp, err := json.Marshal(m.TransactionId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.TransactionId != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"transactionId\": ")
+		if tmp, err := json.Marshal(m.TransactionId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
 	if m.ValidFrom != nil {
 		buf.WriteString(",")
@@ -421,49 +426,57 @@ func (m *ClearChargingProfile) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "chargingProfilePurpose" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"chargingProfilePurpose\": ")
-	if tmp, err := json.Marshal(m.ChargingProfilePurpose); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ChargingProfilePurpose != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"chargingProfilePurpose\": ")
+		if tmp, err := json.Marshal(m.ChargingProfilePurpose); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "connectorId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"connectorId\": ")
-	if tmp, err := json.Marshal(m.ConnectorId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ConnectorId != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"connectorId\": ")
+		if tmp, err := json.Marshal(m.ConnectorId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "id" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"id\": ")
-	if tmp, err := json.Marshal(m.Id); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Id != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"id\": ")
+		if tmp, err := json.Marshal(m.Id); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "stackLevel" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"stackLevel\": ")
-	if tmp, err := json.Marshal(m.StackLevel); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.StackLevel != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"stackLevel\": ")
+		if tmp, err := json.Marshal(m.StackLevel); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
@@ -506,27 +519,31 @@ func (m *DataTransfer) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "data" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"data\": ")
-	if tmp, err := json.Marshal(m.Data); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Data != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"data\": ")
+		if tmp, err := json.Marshal(m.Data); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "messageId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"messageId\": ")
-	if tmp, err := json.Marshal(m.MessageId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.MessageId != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"messageId\": ")
+		if tmp, err := json.Marshal(m.MessageId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "VendorId" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "vendorId" field
@@ -584,16 +601,18 @@ func (m *GetCompositeSchedule) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "chargingRateUnit" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"chargingRateUnit\": ")
-	if tmp, err := json.Marshal(m.ChargingRateUnit); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ChargingRateUnit != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"chargingRateUnit\": ")
+		if tmp, err := json.Marshal(m.ChargingRateUnit); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "ConnectorId" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "connectorId" field
@@ -710,25 +729,30 @@ func (m *GetDiagnostics) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "retries" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"retries\": ")
-	if tmp, err := json.Marshal(m.Retries); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Retries != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"retries\": ")
+		if tmp, err := json.Marshal(m.Retries); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "retryInterval" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"retryInterval\": ")
-	if tmp, err := json.Marshal(m.RetryInterval); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.RetryInterval != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"retryInterval\": ")
+		if tmp, err := json.Marshal(m.RetryInterval); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
 	if m.StartTime != nil {
 		buf.WriteString(",")
@@ -823,27 +847,31 @@ func (m *IdTagInfo) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "expiryDate" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"expiryDate\": ")
-	if tmp, err := json.Marshal(m.ExpiryDate.Format(time.RFC3339)); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ExpiryDate != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"expiryDate\": ")
+		if tmp, err := json.Marshal(m.ExpiryDate.Format(time.RFC3339)); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "parentIdTag" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"parentIdTag\": ")
-	if tmp, err := json.Marshal(m.ParentIdTag); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ParentIdTag != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"parentIdTag\": ")
+		if tmp, err := json.Marshal(m.ParentIdTag); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "Status" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "status" field
@@ -904,16 +932,18 @@ func (m *LocalAuthorizationListItems) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "idTagInfo" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"idTagInfo\": ")
-	if tmp, err := json.Marshal(m.IdTagInfo); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.IdTagInfo != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"idTagInfo\": ")
+		if tmp, err := json.Marshal(m.IdTagInfo); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
@@ -991,16 +1021,18 @@ func (m *ReserveNow) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "parentIdTag" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"parentIdTag\": ")
-	if tmp, err := json.Marshal(m.ParentIdTag); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ParentIdTag != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"parentIdTag\": ")
+		if tmp, err := json.Marshal(m.ParentIdTag); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "ReservationId" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "reservationId" field
@@ -1145,16 +1177,18 @@ func (m *SendLocalList) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "localAuthorizationList" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"localAuthorizationList\": ")
-	if tmp, err := json.Marshal(m.LocalAuthorizationList); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if len(m.LocalAuthorizationList) > 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"localAuthorizationList\": ")
+		if tmp, err := json.Marshal(m.LocalAuthorizationList); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "UpdateType" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "updateType" field
@@ -1218,16 +1252,18 @@ func (m *TriggerMessage) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "connectorId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"connectorId\": ")
-	if tmp, err := json.Marshal(m.ConnectorId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ConnectorId != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"connectorId\": ")
+		if tmp, err := json.Marshal(m.ConnectorId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "RequestedMessage" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "requestedMessage" field
@@ -1307,25 +1343,30 @@ func (m *ChargingSchedule) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "duration" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"duration\": ")
-	if tmp, err := json.Marshal(m.Duration); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Duration != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"duration\": ")
+		if tmp, err := json.Marshal(m.Duration); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "minChargingRate" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"minChargingRate\": ")
-	if tmp, err := json.Marshal(m.MinChargingRate); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.MinChargingRate != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"minChargingRate\": ")
+		if tmp, err := json.Marshal(m.MinChargingRate); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
 	if m.StartSchedule != nil {
 		buf.WriteString(",")
@@ -1404,16 +1445,18 @@ func (m *ChargingSchedulePeriodItems) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "numberPhases" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"numberPhases\": ")
-	if tmp, err := json.Marshal(m.NumberPhases); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.NumberPhases != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"numberPhases\": ")
+		if tmp, err := json.Marshal(m.NumberPhases); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "StartPeriod" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "startPeriod" field
@@ -1529,16 +1572,18 @@ func (m *CsChargingProfiles) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "recurrencyKind" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"recurrencyKind\": ")
-	if tmp, err := json.Marshal(m.RecurrencyKind); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.RecurrencyKind != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"recurrencyKind\": ")
+		if tmp, err := json.Marshal(m.RecurrencyKind); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "StackLevel" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "stackLevel" field
@@ -1553,38 +1598,44 @@ func (m *CsChargingProfiles) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "transactionId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"transactionId\": ")
-	if tmp, err := json.Marshal(m.TransactionId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.TransactionId != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"transactionId\": ")
+		if tmp, err := json.Marshal(m.TransactionId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "validFrom" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"validFrom\": ")
-	if tmp, err := json.Marshal(m.ValidFrom.Format(time.RFC3339)); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if !m.ValidFrom.IsZero() {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"validFrom\": ")
+		if tmp, err := json.Marshal(m.ValidFrom.Format(time.RFC3339)); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "validTo" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"validTo\": ")
-	if tmp, err := json.Marshal(m.ValidTo.Format(time.RFC3339)); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if !m.ValidTo.IsZero() {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"validTo\": ")
+		if tmp, err := json.Marshal(m.ValidTo.Format(time.RFC3339)); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
@@ -1809,16 +1860,18 @@ func (m *UpdateFirmware) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "retries" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"retries\": ")
-	if tmp, err := json.Marshal(m.Retries); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Retries != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"retries\": ")
+		if tmp, err := json.Marshal(m.Retries); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "RetrieveDate" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "retrieveDate" field
@@ -1833,16 +1886,18 @@ func (m *UpdateFirmware) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "retryInterval" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"retryInterval\": ")
-	if tmp, err := json.Marshal(m.RetryInterval); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.RetryInterval != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"retryInterval\": ")
+		if tmp, err := json.Marshal(m.RetryInterval); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
diff --git a/messages/v1x/csresp/json_encode.go b/messages/v1x/csresp/json_encode.go
index 36bc65b..71ad6f0 100644
--- a/messages/v1x/csresp/json_encode.go
+++ b/messages/v1x/csresp/json_encode.go
@@ -183,25 +183,30 @@ func (m *ChargingSchedule) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "duration" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"duration\": ")
-	if tmp, err := json.Marshal(m.Duration); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Duration != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"duration\": ")
+		if tmp, err := json.Marshal(m.Duration); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "minChargingRate" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"minChargingRate\": ")
-	if tmp, err := json.Marshal(m.MinChargingRate); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.MinChargingRate != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"minChargingRate\": ")
+		if tmp, err := json.Marshal(m.MinChargingRate); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
 
 	if m.StartSchedule != nil {
@@ -282,16 +287,18 @@ func (m *ChargingSchedulePeriodItems) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "numberPhases" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"numberPhases\": ")
-	if tmp, err := json.Marshal(m.NumberPhases); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.NumberPhases != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"numberPhases\": ")
+		if tmp, err := json.Marshal(m.NumberPhases); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "StartPeriod" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "startPeriod" field
@@ -475,16 +482,18 @@ func (m *ConfigurationKeyItems) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "value" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"value\": ")
-	if tmp, err := json.Marshal(m.Value); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Value != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"value\": ")
+		if tmp, err := json.Marshal(m.Value); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
@@ -533,16 +542,18 @@ func (m *DataTransfer) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "data" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"data\": ")
-	if tmp, err := json.Marshal(m.Data); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Data != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"data\": ")
+		if tmp, err := json.Marshal(m.Data); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "Status" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "status" field
@@ -596,40 +607,50 @@ func (m *GetCompositeSchedule) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "chargingSchedule" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"chargingSchedule\": ")
-	if tmp, err := json.Marshal(m.ChargingSchedule); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ChargingSchedule != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"chargingSchedule\": ")
+		if tmp, err := json.Marshal(m.ChargingSchedule); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "connectorId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"connectorId\": ")
-	if tmp, err := json.Marshal(m.ConnectorId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ConnectorId != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"connectorId\": ")
+		if tmp, err := json.Marshal(m.ConnectorId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
 	// Marshal the "scheduleStart" field
 	if m.ScheduleStart != nil {
-		buf.WriteString(",")
+		if comma {
+			buf.WriteString(",")
+		}
 		buf.WriteString("\"scheduleStart\": ")
 		if tmp, err := json.Marshal(m.ScheduleStart.Format(time.RFC3339)); err != nil {
 			return nil, err
 		} else {
 			buf.Write(tmp)
 		}
+		comma = true
 	}
 	// "Status" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "status" field
-	buf.WriteString(",")
+	if comma {
+		buf.WriteString(",")
+	}
 	buf.WriteString("\"status\": ")
 	if tmp, err := json.Marshal(m.Status); err != nil {
 		return nil, err
@@ -684,27 +705,31 @@ func (m *GetConfiguration) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "configurationKey" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"configurationKey\": ")
-	if tmp, err := json.Marshal(m.ConfigurationKey); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if len(m.ConfigurationKey) > 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"configurationKey\": ")
+		if tmp, err := json.Marshal(m.ConfigurationKey); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "unknownKey" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"unknownKey\": ")
-	if tmp, err := json.Marshal(m.UnknownKey); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if len(m.UnknownKey) > 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"unknownKey\": ")
+		if tmp, err := json.Marshal(m.UnknownKey); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
@@ -739,16 +764,18 @@ func (m *GetDiagnostics) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "fileName" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"fileName\": ")
-	if tmp, err := json.Marshal(m.FileName); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.FileName != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"fileName\": ")
+		if tmp, err := json.Marshal(m.FileName); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
-- 
2.43.0


From 303be2db84d432759418e6976c828ba7efd74a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 17/29] fix: decode the optional fields of the IdTagInfo of a
 local list

---
 messages/v1x/csreq/json_encode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 0dd27a3..149fd8b 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -900,6 +900,14 @@ func (m *IdTagInfo) UnmarshalJSON(b []byte) error {
 	// parse all the defined properties
 	for k, v := range jsonMap {
 		switch k {
+		case "expiryDate":
+			if err := json.Unmarshal([]byte(v), &m.ExpiryDate); err != nil {
+				return err
+			}
+		case "parentIdTag":
+			if err := json.Unmarshal([]byte(v), &m.ParentIdTag); err != nil {
+				return err
+			}
 		case "status":
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
-- 
2.43.0


From 736783a91bf271d42c1fc925f6c71982bfbed01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 18/29] fix: check the fields of remote start and stop requests
 when decoding them

---
 messages/v1x/csreq/json_encode.go | 114 ++++++++++++++++++++++++++++++
 1 file changed, 114 insertions(+)

diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 149fd8b..ebde71a 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -985,6 +985,120 @@ func (m *LocalAuthorizationListItems) UnmarshalJSON(b []byte) error {
 	return nil
 }
 
+func (m *RemoteStartTransaction) MarshalJSON() ([]byte, error) {
+	buf := bytes.NewBuffer(make([]byte, 0))
+	buf.WriteString("{")
+	// "IdTag" field is required
+	// only required object types supported for marshal checking (for now)
+	// Marshal the "idTag" field
+	buf.WriteString("\"idTag\": ")
+	if tmp, err := json.Marshal(m.IdTag); err != nil {
+		return nil, err
+	} else {
+		buf.Write(tmp)
+	}
+	// Marshal the "chargingProfile" field
+	if m.ChargingProfile != nil {
+		buf.WriteString(",")
+		buf.WriteString("\"chargingProfile\": ")
+		if tmp, err := json.Marshal(m.ChargingProfile); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+	}
+	// Marshal the "connectorId" field
+	if m.ConnectorId != 0 {
+		buf.WriteString(",")
+		buf.WriteString("\"connectorId\": ")
+		if tmp, err := json.Marshal(m.ConnectorId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+	}
+
+	buf.WriteString("}")
+	rv := buf.Bytes()
+	return rv, nil
+}
+
+func (m *RemoteStartTransaction) UnmarshalJSON(b []byte) error {
+	idTagReceived := false
+	var jsonMap map[string]json.RawMessage
+	if err := json.Unmarshal(b, &jsonMap); err != nil {
+		return err
+	}
+	// parse all the defined properties
+	for k, v := range jsonMap {
+		switch k {
+		case "idTag":
+			if err := json.Unmarshal([]byte(v), &m.IdTag); err != nil {
+				return err
+			}
+			idTagReceived = true
+		case "chargingProfile":
+			if err := json.Unmarshal([]byte(v), &m.ChargingProfile); err != nil {
+				return err
+			}
+		case "connectorId":
+			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
+				return err
+			}
+		default:
+			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+		}
+	}
+	// check if idTag (a required property) was received
+	if !idTagReceived {
+		return errors.New("\"idTag\" is required but was not present")
+	}
+	return nil
+}
+
+func (m *RemoteStopTransaction) MarshalJSON() ([]byte, error) {
+	buf := bytes.NewBuffer(make([]byte, 0))
+	buf.WriteString("{")
+	// "TransactionId" field is required
+	// only required object types supported for marshal checking (for now)
+	// Marshal the "transactionId" field
+	buf.WriteString("\"transactionId\": ")
+	if tmp, err := json.Marshal(m.TransactionId); err != nil {
+		return nil, err
+	} else {
+		buf.Write(tmp)
+	}
+
+	buf.WriteString("}")
+	rv := buf.Bytes()
+	return rv, nil
+}
+
+func (m *RemoteStopTransaction) UnmarshalJSON(b []byte) error {
+	transactionIdReceived := false
+	var jsonMap map[string]json.RawMessage
+	if err := json.Unmarshal(b, &jsonMap); err != nil {
+		return err
+	}
+	// parse all the defined properties
+	for k, v := range jsonMap {
+		switch k {
+		case "transactionId":
+			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
+				return err
+			}
+			transactionIdReceived = true
+		default:
+			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+		}
+	}
+	// check if transactionId (a required property) was received
+	if !transactionIdReceived {
+		return errors.New("\"transactionId\" is required but was not present")
+	}
+	return nil
+}
+
 func (m *ReserveNow) MarshalJSON() ([]byte, error) {
 	buf := bytes.NewBuffer(make([]byte, 0))
 	buf.WriteString("{")
-- 
2.43.0


From 4f25680774c64d688ea19b66051cc45ef3fb60ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:56 +0000
Subject: [PATCH 19/29] fix: take a required message field that is null for
 missing

---
 messages/v1x/cpreq/json_encode.go  | 46 ++++++++---------
 messages/v1x/cpresp/json_encode.go | 18 +++----
 messages/v1x/csreq/json_encode.go  | 80 +++++++++++++++---------------
 messages/v1x/csresp/json_encode.go | 44 ++++++++--------
 4 files changed, 94 insertions(+), 94 deletions(-)

diff --git a/messages/v1x/cpreq/json_encode.go b/messages/v1x/cpreq/json_encode.go
index e57fd98..581bf36 100644
--- a/messages/v1x/cpreq/json_encode.go
+++ b/messages/v1x/cpreq/json_encode.go
@@ -44,7 +44,7 @@ func (m *Authorize) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.IdTag); err != nil {
 				return err
 			}
-			idTagReceived = true
+			idTagReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -201,7 +201,7 @@ func (m *BootNotification) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ChargePointModel); err != nil {
 				return err
 			}
-			chargePointModelReceived = true
+			chargePointModelReceived = string(v) != "null"
 		case "chargePointSerialNumber":
 			if err := json.Unmarshal([]byte(v), &m.ChargePointSerialNumber); err != nil {
 				return err
@@ -210,7 +210,7 @@ func (m *BootNotification) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ChargePointVendor); err != nil {
 				return err
 			}
-			chargePointVendorReceived = true
+			chargePointVendorReceived = string(v) != "null"
 		case "firmwareVersion":
 			if err := json.Unmarshal([]byte(v), &m.FirmwareVersion); err != nil {
 				return err
@@ -316,7 +316,7 @@ func (m *DataTransfer) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.VendorId); err != nil {
 				return err
 			}
-			vendorIdReceived = true
+			vendorIdReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -364,7 +364,7 @@ func (m *DiagnosticsStatusNotification) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -412,7 +412,7 @@ func (m *FirmwareStatusNotification) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -498,12 +498,12 @@ func (m *MeterValueItems) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.SampledValues); err != nil {
 				return err
 			}
-			sampledValueReceived = true
+			sampledValueReceived = string(v) != "null"
 		case "timestamp":
 			if err := json.Unmarshal([]byte(v), &m.Timestamp); err != nil {
 				return err
 			}
-			timestampReceived = true
+			timestampReceived = string(v) != "null"
 		}
 	}
 	// check if sampledValue (a required property) was received
@@ -580,12 +580,12 @@ func (m *MeterValues) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
 				return err
 			}
-			connectorIdReceived = true
+			connectorIdReceived = string(v) != "null"
 		case "meterValue":
 			if err := json.Unmarshal([]byte(v), &m.MeterValue); err != nil {
 				return err
 			}
-			meterValueReceived = true
+			meterValueReceived = string(v) != "null"
 		case "transactionId":
 			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
 				return err
@@ -743,7 +743,7 @@ func (m *SampledValue) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Value); err != nil {
 				return err
 			}
-			valueReceived = true
+			valueReceived = string(v) != "null"
 		}
 	}
 	// check if value (a required property) was received
@@ -844,17 +844,17 @@ func (m *StartTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
 				return err
 			}
-			connectorIdReceived = true
+			connectorIdReceived = string(v) != "null"
 		case "idTag":
 			if err := json.Unmarshal([]byte(v), &m.IdTag); err != nil {
 				return err
 			}
-			idTagReceived = true
+			idTagReceived = string(v) != "null"
 		case "meterStart":
 			if err := json.Unmarshal([]byte(v), &m.MeterStart); err != nil {
 				return err
 			}
-			meterStartReceived = true
+			meterStartReceived = string(v) != "null"
 		case "reservationId":
 			if err := json.Unmarshal([]byte(v), &m.ReservationId); err != nil {
 				return err
@@ -863,7 +863,7 @@ func (m *StartTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Timestamp); err != nil {
 				return err
 			}
-			timestampReceived = true
+			timestampReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1000,12 +1000,12 @@ func (m *StatusNotification) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
 				return err
 			}
-			connectorIdReceived = true
+			connectorIdReceived = string(v) != "null"
 		case "errorCode":
 			if err := json.Unmarshal([]byte(v), &m.ErrorCode); err != nil {
 				return err
 			}
-			errorCodeReceived = true
+			errorCodeReceived = string(v) != "null"
 		case "info":
 			if err := json.Unmarshal([]byte(v), &m.Info); err != nil {
 				return err
@@ -1014,7 +1014,7 @@ func (m *StatusNotification) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		case "timestamp":
 			if err := json.Unmarshal([]byte(v), &m.Timestamp); err != nil {
 				return err
@@ -1153,7 +1153,7 @@ func (m *StopTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.MeterStop); err != nil {
 				return err
 			}
-			meterStopReceived = true
+			meterStopReceived = string(v) != "null"
 		case "reason":
 			if err := json.Unmarshal([]byte(v), &m.Reason); err != nil {
 				return err
@@ -1162,7 +1162,7 @@ func (m *StopTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Timestamp); err != nil {
 				return err
 			}
-			timestampReceived = true
+			timestampReceived = string(v) != "null"
 		case "transactionData":
 			if err := json.Unmarshal([]byte(v), &m.TransactionData); err != nil {
 				return err
@@ -1171,7 +1171,7 @@ func (m *StopTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
 				return err
 			}
-			transactionIdReceived = true
+			transactionIdReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1241,12 +1241,12 @@ func (m *TransactionDataItems) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.SampledValues); err != nil {
 				return err
 			}
-			sampledValueReceived = true
+			sampledValueReceived = string(v) != "null"
 		case "timestamp":
 			if err := json.Unmarshal([]byte(v), &m.Timestamp); err != nil {
 				return err
 			}
-			timestampReceived = true
+			timestampReceived = string(v) != "null"
 		}
 	}
 	// check if sampledValue (a required property) was received
diff --git a/messages/v1x/cpresp/json_encode.go b/messages/v1x/cpresp/json_encode.go
index 7a28e8a..d491f7e 100644
--- a/messages/v1x/cpresp/json_encode.go
+++ b/messages/v1x/cpresp/json_encode.go
@@ -46,7 +46,7 @@ func (m *Authorize) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.IdTagInfo); err != nil {
 				return err
 			}
-			idTagInfoReceived = true
+			idTagInfoReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -122,17 +122,17 @@ func (m *BootNotification) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.CurrentTime); err != nil {
 				return err
 			}
-			currentTimeReceived = true
+			currentTimeReceived = string(v) != "null"
 		case "interval":
 			if err := json.Unmarshal([]byte(v), &m.Interval); err != nil {
 				return err
 			}
-			intervalReceived = true
+			intervalReceived = string(v) != "null"
 		case "status":
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -205,7 +205,7 @@ func (m *DataTransfer) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -301,7 +301,7 @@ func (m *Heartbeat) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.CurrentTime); err != nil {
 				return err
 			}
-			currentTimeReceived = true
+			currentTimeReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -367,7 +367,7 @@ func (m *IdTagInfo) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		}
 	}
 	// check if status (a required property) was received
@@ -453,12 +453,12 @@ func (m *StartTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.IdTagInfo); err != nil {
 				return err
 			}
-			idTagInfoReceived = true
+			idTagInfoReceived = string(v) != "null"
 		case "transactionId":
 			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
 				return err
 			}
-			transactionIdReceived = true
+			transactionIdReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index ebde71a..a1b8760 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -44,7 +44,7 @@ func (m *CancelReservation) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ReservationId); err != nil {
 				return err
 			}
-			reservationIdReceived = true
+			reservationIdReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -106,12 +106,12 @@ func (m *ChangeAvailability) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
 				return err
 			}
-			connectorIdReceived = true
+			connectorIdReceived = string(v) != "null"
 		case "type":
 			if err := json.Unmarshal([]byte(v), &m.Type); err != nil {
 				return err
 			}
-			typeReceived = true
+			typeReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -177,12 +177,12 @@ func (m *ChangeConfiguration) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Key); err != nil {
 				return err
 			}
-			keyReceived = true
+			keyReceived = string(v) != "null"
 		case "value":
 			if err := json.Unmarshal([]byte(v), &m.Value); err != nil {
 				return err
 			}
-			valueReceived = true
+			valueReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -335,22 +335,22 @@ func (m *ChargingProfile) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ChargingProfileId); err != nil {
 				return err
 			}
-			chargingProfileIdReceived = true
+			chargingProfileIdReceived = string(v) != "null"
 		case "chargingProfileKind":
 			if err := json.Unmarshal([]byte(v), &m.ChargingProfileKind); err != nil {
 				return err
 			}
-			chargingProfileKindReceived = true
+			chargingProfileKindReceived = string(v) != "null"
 		case "chargingProfilePurpose":
 			if err := json.Unmarshal([]byte(v), &m.ChargingProfilePurpose); err != nil {
 				return err
 			}
-			chargingProfilePurposeReceived = true
+			chargingProfilePurposeReceived = string(v) != "null"
 		case "chargingSchedule":
 			if err := json.Unmarshal([]byte(v), &m.ChargingSchedule); err != nil {
 				return err
 			}
-			chargingScheduleReceived = true
+			chargingScheduleReceived = string(v) != "null"
 		case "recurrencyKind":
 			if err := json.Unmarshal([]byte(v), &m.RecurrencyKind); err != nil {
 				return err
@@ -359,7 +359,7 @@ func (m *ChargingProfile) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.StackLevel); err != nil {
 				return err
 			}
-			stackLevelReceived = true
+			stackLevelReceived = string(v) != "null"
 		case "transactionId":
 			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
 				return err
@@ -584,7 +584,7 @@ func (m *DataTransfer) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.VendorId); err != nil {
 				return err
 			}
-			vendorIdReceived = true
+			vendorIdReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -663,12 +663,12 @@ func (m *GetCompositeSchedule) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
 				return err
 			}
-			connectorIdReceived = true
+			connectorIdReceived = string(v) != "null"
 		case "duration":
 			if err := json.Unmarshal([]byte(v), &m.Duration); err != nil {
 				return err
 			}
-			durationReceived = true
+			durationReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -790,7 +790,7 @@ func (m *GetDiagnostics) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Location); err != nil {
 				return err
 			}
-			locationReceived = true
+			locationReceived = string(v) != "null"
 		case "retries":
 			if err := json.Unmarshal([]byte(v), &m.Retries); err != nil {
 				return err
@@ -912,7 +912,7 @@ func (m *IdTagInfo) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		}
 	}
 	// check if status (a required property) was received
@@ -971,7 +971,7 @@ func (m *LocalAuthorizationListItems) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.IdTag); err != nil {
 				return err
 			}
-			idTagReceived = true
+			idTagReceived = string(v) != "null"
 		case "idTagInfo":
 			if err := json.Unmarshal([]byte(v), &m.IdTagInfo); err != nil {
 				return err
@@ -1036,7 +1036,7 @@ func (m *RemoteStartTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.IdTag); err != nil {
 				return err
 			}
-			idTagReceived = true
+			idTagReceived = string(v) != "null"
 		case "chargingProfile":
 			if err := json.Unmarshal([]byte(v), &m.ChargingProfile); err != nil {
 				return err
@@ -1087,7 +1087,7 @@ func (m *RemoteStopTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
 				return err
 			}
-			transactionIdReceived = true
+			transactionIdReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1190,17 +1190,17 @@ func (m *ReserveNow) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
 				return err
 			}
-			connectorIdReceived = true
+			connectorIdReceived = string(v) != "null"
 		case "expiryDate":
 			if err := json.Unmarshal([]byte(v), &m.ExpiryDate); err != nil {
 				return err
 			}
-			expiryDateReceived = true
+			expiryDateReceived = string(v) != "null"
 		case "idTag":
 			if err := json.Unmarshal([]byte(v), &m.IdTag); err != nil {
 				return err
 			}
-			idTagReceived = true
+			idTagReceived = string(v) != "null"
 		case "parentIdTag":
 			if err := json.Unmarshal([]byte(v), &m.ParentIdTag); err != nil {
 				return err
@@ -1209,7 +1209,7 @@ func (m *ReserveNow) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ReservationId); err != nil {
 				return err
 			}
-			reservationIdReceived = true
+			reservationIdReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1269,7 +1269,7 @@ func (m *Reset) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Type); err != nil {
 				return err
 			}
-			typeReceived = true
+			typeReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1344,7 +1344,7 @@ func (m *SendLocalList) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ListVersion); err != nil {
 				return err
 			}
-			listVersionReceived = true
+			listVersionReceived = string(v) != "null"
 		case "localAuthorizationList":
 			if err := json.Unmarshal([]byte(v), &m.LocalAuthorizationList); err != nil {
 				return err
@@ -1353,7 +1353,7 @@ func (m *SendLocalList) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.UpdateType); err != nil {
 				return err
 			}
-			updateTypeReceived = true
+			updateTypeReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1422,7 +1422,7 @@ func (m *TriggerMessage) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.RequestedMessage); err != nil {
 				return err
 			}
-			requestedMessageReceived = true
+			requestedMessageReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1518,12 +1518,12 @@ func (m *ChargingSchedule) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ChargingRateUnit); err != nil {
 				return err
 			}
-			chargingRateUnitReceived = true
+			chargingRateUnitReceived = string(v) != "null"
 		case "chargingSchedulePeriod":
 			if err := json.Unmarshal([]byte(v), &m.ChargingSchedulePeriod); err != nil {
 				return err
 			}
-			chargingSchedulePeriodReceived = true
+			chargingSchedulePeriodReceived = string(v) != "null"
 		case "duration":
 			if err := json.Unmarshal([]byte(v), &m.Duration); err != nil {
 				return err
@@ -1612,7 +1612,7 @@ func (m *ChargingSchedulePeriodItems) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Limit); err != nil {
 				return err
 			}
-			limitReceived = true
+			limitReceived = string(v) != "null"
 		case "numberPhases":
 			if err := json.Unmarshal([]byte(v), &m.NumberPhases); err != nil {
 				return err
@@ -1621,7 +1621,7 @@ func (m *ChargingSchedulePeriodItems) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.StartPeriod); err != nil {
 				return err
 			}
-			startPeriodReceived = true
+			startPeriodReceived = string(v) != "null"
 		}
 	}
 	// check if limit (a required property) was received
@@ -1781,22 +1781,22 @@ func (m *CsChargingProfiles) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ChargingProfileId); err != nil {
 				return err
 			}
-			chargingProfileIdReceived = true
+			chargingProfileIdReceived = string(v) != "null"
 		case "chargingProfileKind":
 			if err := json.Unmarshal([]byte(v), &m.ChargingProfileKind); err != nil {
 				return err
 			}
-			chargingProfileKindReceived = true
+			chargingProfileKindReceived = string(v) != "null"
 		case "chargingProfilePurpose":
 			if err := json.Unmarshal([]byte(v), &m.ChargingProfilePurpose); err != nil {
 				return err
 			}
-			chargingProfilePurposeReceived = true
+			chargingProfilePurposeReceived = string(v) != "null"
 		case "chargingSchedule":
 			if err := json.Unmarshal([]byte(v), &m.ChargingSchedule); err != nil {
 				return err
 			}
-			chargingScheduleReceived = true
+			chargingScheduleReceived = string(v) != "null"
 		case "recurrencyKind":
 			if err := json.Unmarshal([]byte(v), &m.RecurrencyKind); err != nil {
 				return err
@@ -1805,7 +1805,7 @@ func (m *CsChargingProfiles) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.StackLevel); err != nil {
 				return err
 			}
-			stackLevelReceived = true
+			stackLevelReceived = string(v) != "null"
 		case "transactionId":
 			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
 				return err
@@ -1895,12 +1895,12 @@ func (m *SetChargingProfile) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
 				return err
 			}
-			connectorIdReceived = true
+			connectorIdReceived = string(v) != "null"
 		case "csChargingProfiles":
 			if err := json.Unmarshal([]byte(v), &m.CsChargingProfiles); err != nil {
 				return err
 			}
-			csChargingProfilesReceived = true
+			csChargingProfilesReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1952,7 +1952,7 @@ func (m *UnlockConnector) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
 				return err
 			}
-			connectorIdReceived = true
+			connectorIdReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -2040,7 +2040,7 @@ func (m *UpdateFirmware) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Location); err != nil {
 				return err
 			}
-			locationReceived = true
+			locationReceived = string(v) != "null"
 		case "retries":
 			if err := json.Unmarshal([]byte(v), &m.Retries); err != nil {
 				return err
@@ -2049,7 +2049,7 @@ func (m *UpdateFirmware) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.RetrieveDate); err != nil {
 				return err
 			}
-			retrieveDateReceived = true
+			retrieveDateReceived = string(v) != "null"
 		case "retryInterval":
 			if err := json.Unmarshal([]byte(v), &m.RetryInterval); err != nil {
 				return err
diff --git a/messages/v1x/csresp/json_encode.go b/messages/v1x/csresp/json_encode.go
index 71ad6f0..0805095 100644
--- a/messages/v1x/csresp/json_encode.go
+++ b/messages/v1x/csresp/json_encode.go
@@ -44,7 +44,7 @@ func (m *CancelReservation) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -92,7 +92,7 @@ func (m *ChangeAvailability) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -140,7 +140,7 @@ func (m *ChangeConfiguration) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -238,12 +238,12 @@ func (m *ChargingSchedule) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ChargingRateUnit); err != nil {
 				return err
 			}
-			chargingRateUnitReceived = true
+			chargingRateUnitReceived = string(v) != "null"
 		case "chargingSchedulePeriod":
 			if err := json.Unmarshal([]byte(v), &m.ChargingSchedulePeriod); err != nil {
 				return err
 			}
-			chargingSchedulePeriodReceived = true
+			chargingSchedulePeriodReceived = string(v) != "null"
 		case "duration":
 			if err := json.Unmarshal([]byte(v), &m.Duration); err != nil {
 				return err
@@ -332,7 +332,7 @@ func (m *ChargingSchedulePeriodItems) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Limit); err != nil {
 				return err
 			}
-			limitReceived = true
+			limitReceived = string(v) != "null"
 		case "numberPhases":
 			if err := json.Unmarshal([]byte(v), &m.NumberPhases); err != nil {
 				return err
@@ -341,7 +341,7 @@ func (m *ChargingSchedulePeriodItems) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.StartPeriod); err != nil {
 				return err
 			}
-			startPeriodReceived = true
+			startPeriodReceived = string(v) != "null"
 		}
 	}
 	// check if limit (a required property) was received
@@ -391,7 +391,7 @@ func (m *ClearCache) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -439,7 +439,7 @@ func (m *ClearChargingProfile) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -514,12 +514,12 @@ func (m *ConfigurationKeyItems) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Key); err != nil {
 				return err
 			}
-			keyReceived = true
+			keyReceived = string(v) != "null"
 		case "readonly":
 			if err := json.Unmarshal([]byte(v), &m.Readonly); err != nil {
 				return err
 			}
-			readonlyReceived = true
+			readonlyReceived = string(v) != "null"
 		case "value":
 			if err := json.Unmarshal([]byte(v), &m.Value); err != nil {
 				return err
@@ -590,7 +590,7 @@ func (m *DataTransfer) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -688,7 +688,7 @@ func (m *GetCompositeSchedule) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -837,7 +837,7 @@ func (m *GetLocalListVersion) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ListVersion); err != nil {
 				return err
 			}
-			listVersionReceived = true
+			listVersionReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -885,7 +885,7 @@ func (m *RemoteStartTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -933,7 +933,7 @@ func (m *RemoteStopTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -981,7 +981,7 @@ func (m *ReserveNow) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1029,7 +1029,7 @@ func (m *Reset) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1077,7 +1077,7 @@ func (m *SendLocalList) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1125,7 +1125,7 @@ func (m *SetChargingProfile) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1173,7 +1173,7 @@ func (m *TriggerMessage) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1221,7 +1221,7 @@ func (m *UnlockConnector) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
-- 
2.43.0


From c05c4575a0828c51064ddcb9f627634665e912bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 20/29] fix: do not encode an unset parent id tag

---
 messages/v1x/cpresp/json_encode.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/messages/v1x/cpresp/json_encode.go b/messages/v1x/cpresp/json_encode.go
index d491f7e..3f34e3d 100644
--- a/messages/v1x/cpresp/json_encode.go
+++ b/messages/v1x/cpresp/json_encode.go
@@ -325,16 +325,18 @@ func (m *IdTagInfo) MarshalJSON() ([]byte, error) {
 		}
 		buf.WriteString(",")
 	}
-	buf.WriteString("\"parentIdTag\": ")
-	if tmp, err := json.Marshal(m.ParentIdTag); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ParentIdTag != "" {
+		buf.WriteString("\"parentIdTag\": ")
+		if tmp, err := json.Marshal(m.ParentIdTag); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		buf.WriteString(",")
 	}
 	// "Status" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "status" field
-	buf.WriteString(",")
 	buf.WriteString("\"status\": ")
 	if tmp, err := json.Marshal(m.Status); err != nil {
 		return nil, err
-- 
2.43.0


From 780a4192161cdee148909c87c344ce4a2abda194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:47 +0000
Subject: [PATCH 21/29] fix: encode the elements OCPP 1.5 requires in SOAP
 messages also when they are zero

---
 messages/v1x/cpreq/messages.go  | 30 +++++++++++++++---------------
 messages/v1x/cpresp/messages.go | 10 +++++-----
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/messages/v1x/cpreq/messages.go b/messages/v1x/cpreq/messages.go
index 3ad9bb2..25023d9 100644
--- a/messages/v1x/cpreq/messages.go
+++ b/messages/v1x/cpreq/messages.go
@@ -14,7 +14,7 @@ type Authorize struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ authorizeRequest"`
 
-	IdTag string `json:"idTag" xml:"idTag,omitempty"`
+	IdTag string `json:"idTag" xml:"idTag"`
 }
 
 // BootNotification
@@ -23,9 +23,9 @@ type BootNotification struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ bootNotificationRequest"`
 
 	ChargeBoxSerialNumber   string `json:"chargeBoxSerialNumber,omitempty" xml:"chargeBoxSerialNumber,omitempty"`
-	ChargePointModel        string `json:"chargePointModel" xml:"chargePointModel,omitempty"`
+	ChargePointModel        string `json:"chargePointModel" xml:"chargePointModel"`
 	ChargePointSerialNumber string `json:"chargePointSerialNumber,omitempty" xml:"chargePointSerialNumber,omitempty"`
-	ChargePointVendor       string `json:"chargePointVendor" xml:"chargePointVendor,omitempty"`
+	ChargePointVendor       string `json:"chargePointVendor" xml:"chargePointVendor"`
 	FirmwareVersion         string `json:"firmwareVersion,omitempty" xml:"firmwareVersion,omitempty"`
 	Iccid                   string `json:"iccid,omitempty" xml:"iccid,omitempty"`
 	Imsi                    string `json:"imsi,omitempty" xml:"imsi,omitempty"`
@@ -40,7 +40,7 @@ type DataTransfer struct {
 
 	Data      string `json:"data,omitempty" xml:"data,omitempty"`
 	MessageId string `json:"messageId,omitempty" xml:"messageId,omitempty"`
-	VendorId  string `json:"vendorId" xml:"vendorId,omitempty"`
+	VendorId  string `json:"vendorId" xml:"vendorId"`
 }
 
 // DiagnosticsStatusNotification
@@ -48,7 +48,7 @@ type DiagnosticsStatusNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ diagnosticsStatusNotificationRequest"`
 
-	Status string `json:"status" xml:"status,omitempty"`
+	Status string `json:"status" xml:"status"`
 }
 
 // FirmwareStatusNotification
@@ -56,7 +56,7 @@ type FirmwareStatusNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ firmwareStatusNotificationRequest"`
 
-	Status string `json:"status" xml:"status,omitempty"`
+	Status string `json:"status" xml:"status"`
 }
 
 // Heartbeat
@@ -77,7 +77,7 @@ type MeterValues struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ meterValuesRequest"`
 
-	ConnectorId int `json:"connectorId" xml:"connectorId,omitempty"`
+	ConnectorId int `json:"connectorId" xml:"connectorId"`
 	// MeterValue in OCPP v1.5 is values
 	MeterValue    []*MeterValueItems `json:"meterValue" xml:"values,omitempty"`
 	TransactionId int32              `json:"transactionId,omitempty" xml:"transactionId,omitempty"`
@@ -101,9 +101,9 @@ type StartTransaction struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ startTransactionRequest"`
 
-	ConnectorId   int       `json:"connectorId" xml:"connectorId,omitempty"`
-	IdTag         string    `json:"idTag" xml:"idTag,omitempty"`
-	MeterStart    int       `json:"meterStart" xml:"meterStart,omitempty"`
+	ConnectorId   int       `json:"connectorId" xml:"connectorId"`
+	IdTag         string    `json:"idTag" xml:"idTag"`
+	MeterStart    int       `json:"meterStart" xml:"meterStart"`
 	ReservationId int       `json:"reservationId,omitempty" xml:"reservationId,omitempty"`
 	Timestamp     time.Time `json:"timestamp" xml:"timestamp,omitempty"`
 }
@@ -113,10 +113,10 @@ type StatusNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ statusNotificationRequest"`
 
-	ConnectorId     int                `json:"connectorId" xml:"connectorId,omitempty"`
-	ErrorCode       cpstatus.ErrorCode `json:"errorCode" xml:"errorCode,omitempty"`
+	ConnectorId     int                `json:"connectorId" xml:"connectorId"`
+	ErrorCode       cpstatus.ErrorCode `json:"errorCode" xml:"errorCode"`
 	Info            string             `json:"info,omitempty" xml:"info,omitempty"`
-	Status          string             `json:"status" xml:"status,omitempty"`
+	Status          string             `json:"status" xml:"status"`
 	Timestamp       *time.Time         `json:"timestamp,omitempty" xml:"timestamp,omitempty"`
 	VendorErrorCode string             `json:"vendorErrorCode,omitempty" xml:"vendorErrorCode,omitempty"`
 	VendorId        string             `json:"vendorId,omitempty" xml:"vendorId,omitempty"`
@@ -128,11 +128,11 @@ type StopTransaction struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ stopTransactionRequest"`
 
 	IdTag           string                  `json:"idTag,omitempty" xml:"idTag,omitempty"`
-	MeterStop       int                     `json:"meterStop" xml:"meterStop,omitempty"`
+	MeterStop       int                     `json:"meterStop" xml:"meterStop"`
 	Reason          string                  `json:"reason,omitempty" xml:"reason,omitempty"`
 	Timestamp       time.Time               `json:"timestamp" xml:"timestamp,omitempty"`
 	TransactionData []*TransactionDataItems `json:"transactionData,omitempty" xml:"transactionData,omitempty"`
-	TransactionId   int                     `json:"transactionId" xml:"transactionId,omitempty"`
+	TransactionId   int                     `json:"transactionId" xml:"transactionId"`
 }
 
 // TransactionDataItems
diff --git a/messages/v1x/cpresp/messages.go b/messages/v1x/cpresp/messages.go
index 933a6ba..ae77795 100644
--- a/messages/v1x/cpresp/messages.go
+++ b/messages/v1x/cpresp/messages.go
@@ -18,11 +18,11 @@ type BootNotification struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ bootNotificationResponse"`
 
-	Status   string  `json:"status" xml:"status,omitempty"`
+	Status   string  `json:"status" xml:"status"`
 	CurrentTime time.Time `json:"currentTime" xml:"currentTime,omitempty"`
 
 	// Interval in 1.5 is heartbeatInterval
-	Interval float64 `json:"interval" xml:"heartbeatInterval,omitempty"`
+	Interval float64 `json:"interval" xml:"heartbeatInterval"`
 }
 
 // DataTransfer
@@ -31,7 +31,7 @@ type DataTransfer struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ dataTransferResponse"`
 
 	Data   string `json:"data,omitempty" xml:"data,omitempty"`
-	Status string `json:"status" xml:"status,omitempty"`
+	Status string `json:"status" xml:"status"`
 }
 
 // DiagnosticsStatusNotification
@@ -58,7 +58,7 @@ type Heartbeat struct {
 type IdTagInfo struct {
 	ExpiryDate  *time.Time `json:"expiryDate,omitempty" xml:"expiryDate,omitempty"`
 	ParentIdTag string     `json:"parentIdTag,omitempty" xml:"parentIdTag,omitempty"`
-	Status      string     `json:"status" xml:"status,omitempty"`
+	Status      string     `json:"status" xml:"status"`
 }
 
 // MeterValues
@@ -73,7 +73,7 @@ type StartTransaction struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ startTransactionResponse"`
 
 	IdTagInfo     *IdTagInfo `json:"idTagInfo" xml:"idTagInfo,omitempty"`
-	TransactionId int32      `json:"transactionId" xml:"transactionId,omitempty"`
+	TransactionId int32      `json:"transactionId" xml:"transactionId"`
 }
 
 // StatusNotification
-- 
2.43.0


From 30d14fd5a958a7670eb904f607049b6a3aa2a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 22/29] fix: encode the meter values of StopTransaction under
 the OCPP 1.5 names in SOAP messages

---
 messages/v1x/cpreq/messages.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/messages/v1x/cpreq/messages.go b/messages/v1x/cpreq/messages.go
index 25023d9..b977bd0 100644
--- a/messages/v1x/cpreq/messages.go
+++ b/messages/v1x/cpreq/messages.go
@@ -131,13 +131,13 @@ type StopTransaction struct {
 	MeterStop       int                     `json:"meterStop" xml:"meterStop"`
 	Reason          string                  `json:"reason,omitempty" xml:"reason,omitempty"`
 	Timestamp       time.Time               `json:"timestamp" xml:"timestamp,omitempty"`
-	TransactionData []*TransactionDataItems `json:"transactionData,omitempty" xml:"transactionData,omitempty"`
+	TransactionData []*TransactionDataItems `json:"transactionData,omitempty" xml:"transactionData>values"`
 	TransactionId   int                     `json:"transactionId" xml:"transactionId"`
 }
 
-// TransactionDataItems
+// TransactionDataItems, in OCPP v1.5 these are the values of the transaction data
 type TransactionDataItems struct {
-	SampledValues []*SampledValue `json:"sampledValue" xml:"sampledValue,omitempty"`
+	SampledValues []*SampledValue `json:"sampledValue" xml:"value,omitempty"`
 	Timestamp     time.Time       `json:"timestamp" xml:"timestamp,omitempty"`
 }
 
-- 
2.43.0


From f21b7ff1650b0176f15bd105c08f9f43d0563c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 23/29] fix: encode the list of SendLocalList under its OCPP
 1.5 name in SOAP messages

---
 messages/v1x/csreq/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/v1x/csreq/messages.go b/messages/v1x/csreq/messages.go
index b06c35d..e375e82 100644
--- a/messages/v1x/csreq/messages.go
+++ b/messages/v1x/csreq/messages.go
@@ -183,7 +183,7 @@ type SendLocalList struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ sendLocalListRequest"`
 
 	ListVersion            int                            `json:"listVersion" xml:"listVersion"`
-	LocalAuthorizationList []*LocalAuthorizationListItems `json:"localAuthorizationList,omitempty" xml:"localAuthorizationList,omitempty"`
+	LocalAuthorizationList []*LocalAuthorizationListItems `json:"localAuthorizationList,omitempty" xml:"localAuthorisationList,omitempty"`
 	UpdateType             string                         `json:"updateType" xml:"updateType"`
 }
 
-- 
2.43.0


From fac00432f421fe8c4a55bd08bda7e74d6dcb7cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 24/29] fix: leave out of SOAP messages what OCPP 1.5 does not
 have

---
 messages/v1x/cpreq/messages.go | 2 +-
 messages/v1x/csreq/messages.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/v1x/cpreq/messages.go b/messages/v1x/cpreq/messages.go
index b977bd0..a12b721 100644
--- a/messages/v1x/cpreq/messages.go
+++ b/messages/v1x/cpreq/messages.go
@@ -129,7 +129,7 @@ type StopTransaction struct {
 
 	IdTag           string                  `json:"idTag,omitempty" xml:"idTag,omitempty"`
 	MeterStop       int                     `json:"meterStop" xml:"meterStop"`
-	Reason          string                  `json:"reason,omitempty" xml:"reason,omitempty"`
+	Reason          string                  `json:"reason,omitempty" xml:"-"`
 	Timestamp       time.Time               `json:"timestamp" xml:"timestamp,omitempty"`
 	TransactionData []*TransactionDataItems `json:"transactionData,omitempty" xml:"transactionData>values"`
 	TransactionId   int                     `json:"transactionId" xml:"transactionId"`
diff --git a/messages/v1x/csreq/messages.go b/messages/v1x/csreq/messages.go
index e375e82..a09a625 100644
--- a/messages/v1x/csreq/messages.go
+++ b/messages/v1x/csreq/messages.go
@@ -145,7 +145,7 @@ type RemoteStartTransaction struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ remoteStartTransactionRequest"`
 
 	IdTag           string           `json:"idTag" xml:"idTag"`
-	ChargingProfile *ChargingProfile `json:"chargingProfile,omitempty" xml:"chargingProfile,omitempty"`
+	ChargingProfile *ChargingProfile `json:"chargingProfile,omitempty" xml:"-"`
 	ConnectorId     int32            `json:"connectorId,omitempty" xml:"connectorId,omitempty"`
 }
 
-- 
2.43.0


From 7917adbed16ced010ef388b56bba67704f3655bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:18 +0000
Subject: [PATCH 25/29] fix: decode SOAP data transfers of the central system
 service

---
 soap/marshal.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/soap/marshal.go b/soap/marshal.go
index 7f8717b..8a78e5c 100644
--- a/soap/marshal.go
+++ b/soap/marshal.go
@@ -10,6 +10,9 @@ import (
 	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
 )
 
+// namespace of the messages of the central system service
+const centralSystemNS = "urn://Ocpp/Cs/2012/06/"
+
 func Unmarshal(data []byte) (receivedEnvelope, error) {
 	parsed := receivedEnvelope{}
 	err := xml.Unmarshal(data, &parsed)
@@ -110,7 +113,12 @@ func (b *receivedBody) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 			case "cancelReservationRequest":
 				msg = new(csreq.CancelReservation)
 			case "dataTransferRequest":
-				msg = new(csreq.DataTransfer)
+				// both services have this message
+				if tt.Name.Space == centralSystemNS {
+					msg = new(cpreq.DataTransfer)
+				} else {
+					msg = new(csreq.DataTransfer)
+				}
 			case "getConfigurationRequest":
 				msg = new(csreq.GetConfiguration)
 			case "getLocalListVersionRequest":
@@ -142,7 +150,11 @@ func (b *receivedBody) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 			case "cancelReservationResponse":
 				msg = new(csresp.CancelReservation)
 			case "dataTransferResponse":
-				msg = new(csresp.DataTransfer)
+				if tt.Name.Space == centralSystemNS {
+					msg = new(cpresp.DataTransfer)
+				} else {
+					msg = new(csresp.DataTransfer)
+				}
 			case "getConfigurationResponse":
 				msg = new(csresp.GetConfiguration)
 			case "getLocalListVersionResponse":
-- 
2.43.0


From a6324f0146e1b82ed2ddd3c4eb11f537901a61d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:28 +0000
Subject: [PATCH 26/29] fix: do not drop empty strings from lists in SOAP
 messages

---
 messages/v1x/csreq/messages.go  | 2 +-
 messages/v1x/csresp/messages.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/v1x/csreq/messages.go b/messages/v1x/csreq/messages.go
index a09a625..bf6fc07 100644
--- a/messages/v1x/csreq/messages.go
+++ b/messages/v1x/csreq/messages.go
@@ -105,7 +105,7 @@ type GetConfiguration struct {
 	centralSystemRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ getConfigurationRequest"`
 
-	Key []string `json:"key,omitempty" xml:"key,omitempty"`
+	Key []string `json:"key,omitempty" xml:"key"`
 }
 
 // GetDiagnostics
diff --git a/messages/v1x/csresp/messages.go b/messages/v1x/csresp/messages.go
index 59c126a..b2c0e91 100644
--- a/messages/v1x/csresp/messages.go
+++ b/messages/v1x/csresp/messages.go
@@ -94,7 +94,7 @@ type GetConfiguration struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ getConfigurationResponse"`
 
 	ConfigurationKey []*ConfigurationKeyItems `json:"configurationKey,omitempty" xml:"configurationKey,omitempty"`
-	UnknownKey       []string                 `json:"unknownKey,omitempty" xml:"unknownKey,omitempty"`
+	UnknownKey       []string                 `json:"unknownKey,omitempty" xml:"unknownKey"`
 }
 
 // GetDiagnostics
-- 
2.43.0


From 4187d69407582e9b5e92b93125c0af5deb973b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:16 +0000
Subject: [PATCH 27/29] fix: percent-encode the identity in the URL a charge
 point dials

An identity with a question mark, a number sign or a percent sign was cut,
changed or refused; OCPP-J wants the identity encoded in the connection URL.
---
 ws/conn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws/conn.go b/ws/conn.go
index 704483d..a75f0b1 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"net/http"
+	"net/url"
 	"sync"
 	"time"
 
@@ -63,7 +64,7 @@ func Dial(identity, csURL string, version ocpp.Version) (*Conn, error) {
 	dialer := websocket.Dialer{
 		Subprotocols: []string{ocppVersionToProtocol(version)},
 	}
-	socket, _, err := dialer.Dial(csURL+"/"+identity, http.Header{})
+	socket, _, err := dialer.Dial(csURL+"/"+url.PathEscape(identity), http.Header{})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 04df6ea017893d5aee891f0bd83d7b39983e7c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:08 +0000
Subject: [PATCH 28/29] fix: log the text of an error as it is

The error logger was given the text as a format, and some errors were formatted
twice, so that a percent sign in an error came out as %!x(MISSING).
---
 cp/json.go          | 4 ++--
 cs/cs.go            | 4 ++--
 internal/log/log.go | 2 +-
 ws/conn.go          | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cp/json.go b/cp/json.go
index c2ef066..838bfca 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -95,14 +95,14 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 				log.Error(csreq.ErrorNotCentralSystemRequest.Error())
 				err := conn.SendError(req.MessageID, ws.NotSupported, csreq.ErrorNotCentralSystemRequest.Error())
 				if err != nil {
-					log.Error(err.Error())
+					log.Error("%w", err)
 				}
 				continue
 			}
 			cpresponse, err := cshandler(cprequest)
 			err = conn.SendResponse(req.MessageID, cpresponse, err)
 			if err != nil {
-				log.Error(err.Error())
+				log.Error("%w", err)
 			}
 		}
 	}
diff --git a/cs/cs.go b/cs/cs.go
index 1d6516a..544f5b4 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -148,7 +148,7 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 				log.Error(cpreq.ErrorNotChargePointRequest.Error())
 				err := conn.SendError(req.MessageID, ws.NotSupported, cpreq.ErrorNotChargePointRequest.Error())
 				if err != nil {
-					log.Error(err.Error())
+					log.Error("%w", err)
 				}
 				continue
 			}
@@ -158,7 +158,7 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 			})
 			err = conn.SendResponse(req.MessageID, cpresponse, err)
 			if err != nil {
-				log.Error(err.Error())
+				log.Error("%w", err)
 			}
 		case <-conn.WaitClose():
 			return
diff --git a/internal/log/log.go b/internal/log/log.go
index 8b065d4..9125b4f 100644
--- a/internal/log/log.go
+++ b/internal/log/log.go
@@ -19,5 +19,5 @@ func Debug(format string, v ...interface{}) {
 	debugLog.Printf(format, v...)
 }
 func Error(format string, v ...interface{}) {
-	errorLog.Printf(fmt.Errorf(format, v...).Error())
+	errorLog.Printf("%s", fmt.Errorf(format, v...).Error())
 }
\ No newline at end of file
diff --git a/ws/conn.go b/ws/conn.go
index a75f0b1..b15d24e 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -300,7 +300,7 @@ func (c *Conn) SendResponse(id MessageID, response messages.Response, err error)
 			err = errors.New("no response to the request")
 		}
 		if err != nil {
-			log.Error(err.Error())
+			log.Error("%w", err)
 		}
 	}
 	return c.sendMessage(unmarshalResponse(id, response, err))
-- 
2.43.0


From 2e0a0b0f158915e0cb9d2b674961d518426909e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:14 +0000
Subject: [PATCH 29/29] fix: limit the time a write on a websocket may take

A write to a peer that does not read blocked SendRequest (and everything
else that sends over the connection) for as long as the peer did not
read, as the request timeout only started after the write.
---
 ws/conn.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ws/conn.go b/ws/conn.go
index b15d24e..3121c06 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -102,15 +102,23 @@ func Handshake(w http.ResponseWriter, r *http.Request, supportedVersions []ocpp.
 func (c *Conn) WriteJSON(data interface{}) error {
 	c.sendMux.Lock()
 	defer c.sendMux.Unlock()
+	c.limitWrite()
 	return c.Conn.WriteJSON(data)
 }
 
 func (c *Conn) WriteMessage(messageType int, data []byte) error {
 	c.sendMux.Lock()
 	defer c.sendMux.Unlock()
+	c.limitWrite()
 	return c.Conn.WriteMessage(messageType, data)
 }
 
+// limitWrite makes the next write end after the request timeout,
+// even if the peer does not read. The caller holds sendMux.
+func (c *Conn) limitWrite() {
+	c.Conn.SetWriteDeadline(time.Now().Add(internal.DefaultRequestTimeout))
+}
+
 func (c *Conn) Close() error {
 	err := c.Conn.Close()
 	c.cancelCtx()
@@ -320,6 +328,7 @@ func (c *Conn) sendMessage(msg Message) error {
 		return fmt.Errorf("on marshalling message: %w", err)
 	}
 	log.Debug("Sending message [raw]: %v", string(bts))
+	c.limitWrite()
 	err = c.Conn.WriteMessage(websocket.TextMessage, bts)
 	if err != nil {
 		return fmt.Errorf("on sending message: %w", err)
@@ -346,6 +355,8 @@ func (c *Conn) SendRequest(request messages.Request) (messages.Response, error)
 	c.pending[id] = pending
 	c.pendingMux.Unlock()
 	defer c.takePending(id)
+	// writing the request is part of the time it may take
+	timeout := time.After(internal.DefaultRequestTimeout)
 	err = c.sendMessage(msg)
 	if err != nil {
 		return nil, err
@@ -356,7 +367,7 @@ func (c *Conn) SendRequest(request messages.Request) (messages.Response, error)
 			return nil, callResponse.err
 		}
 		return callResponse.response, nil
-	case <-time.After(internal.DefaultRequestTimeout):
+	case <-timeout:
 		return nil, fmt.Errorf("request timeout exceeded")
 	}
 }
-- 
2.43.0

