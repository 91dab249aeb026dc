#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                   observe_at=observe or [],hook_needed=None)))

p("C01","Hostile websocket input never crashes or stalls an endpoint",
 "Whatever bytes a peer sends as a websocket message, a central system or charge point never panics. A message that is not a well-formed OCPP-J frame (bad JSON, not an array, too short, wrongly typed fields, unknown message type) is reported as a read error and dropped without any reply or handler call. The connection stays open and later well-formed messages are handled as if the bad one had never arrived.",
 ["inputs","histories"],"every websocket message (arbitrary JSON document or non-JSON bytes), followed by a well-formed one",
 "The only negative input in the suite is the single string '[ab' written by one test; arrays that are too short, frames with mistyped fields and unknown message types are never sent.",
 ["ws/conn.go","cs/cs.go","cp/json.go"],
 [("frame parser","ws/conn.go UnmarshalMessage"),("reader","ws/conn.go ReadMessage"),("serve loops","cs/cs.go handleWebsocket, cp/json.go handleWebsocketConnection")],
 observe=["ws.UnmarshalMessage","replies on the wire","handler calls"])

p("C02","OCPP-J frames are built and parsed position by position",
 "A Call frame is [2, id, action, payload], a CallResult frame [3, id, payload] and a CallError frame [4, id, code, description, details]: every frame the library puts on a websocket has that exact shape, and parsing a frame of that shape yields exactly the id, action, payload, error code, description and details that stand in it. Parsing what was encoded gives back the same message, and a frame of one type is never taken for another.",
 ["inputs"],"all ids, actions, codes, descriptions (any string), payload/detail objects; all three message types",
 "The suite sends only Heartbeat and GetConfiguration with empty payloads and never looks at the frames, at errors or at their descriptions.",
 ["ws/message.go","ws/conn.go"],
 [("encoders","ws/message.go MarshalJSON methods"),("constructors","ws/message.go New*/UnmarshalRequest"),("parser","ws/conn.go UnmarshalMessage")],
 observe=["ws.UnmarshalMessage","json.Marshal of ws messages","bytes written to the websocket"])

p("C03","Each request gets the answer to itself",
 "When several requests are outstanding on one websocket connection, each Send returns exactly the response (or the call error, with its code, description and details visible in the error text) that the peer sent for the id of that request's own Call frame, decoded as the response type belonging to that request, whatever the order in which the replies come and however senders and reader interleave. Calls outstanding at the same time carry distinct ids, and each Send writes exactly one Call frame with the request's action and payload.",
 ["schedules","inputs"],"all interleavings of concurrent senders with the reader, all reply orders, all mixes of CallResult and CallError, all payload values",
 "The suite sends one request at a time per connection, so replies can never be out of order and no two requests are ever pending together.",
 ["ws/conn.go","internal/service/json.go"],
 [("pending table keyed by message id","ws/conn.go SendRequest/ReadMessage"),("fresh ids","ws/conn.go SendRequest"),("response typing","ws/conn.go callResultToResponse")],
 state=[("pending requests","requests sent and not yet answered, by id","ws/conn.go Conn")],
 observe=["return values of Send","frames on the wire"])

p("C04","Unsolicited, duplicate or late replies are harmless",
 "A CallResult or CallError whose id belongs to no outstanding request - never sent, already answered, or already timed out - is discarded: it panics nothing, blocks nothing, and completes no other request. After it, the connection goes on reading, answering calls and completing requests normally.",
 ["inputs","histories","schedules"],"all sequences of replies (any id, result or error, repeated any way within the bound) around pending, answered and timed-out requests, all interleavings with the sender",
 "No test sends a reply twice, late, or without a request; the failure shows only as a reader that stays blocked for ever.",
 ["ws/conn.go"],
 [("reply delivery","ws/conn.go ReadMessage"),("pending table clean-up","ws/conn.go SendRequest")],
 state=[("pending requests","requests sent and not yet answered, by id","ws/conn.go Conn")],
 observe=["return of ReadMessage","later requests and calls on the same connection"])

p("C05","The central system answers every Call exactly once",
 "For each well-formed Call a charge point sends over a websocket, the central system writes exactly one reply, and it carries the Call's id: a CallResult with the handler's response, a CallError InternalError carrying the handler's error text (also when the response cannot be encoded or is missing), NotSupported for an action that is unknown or is not a charge point request, or FormationViolation for a payload that does not decode. The handler is called exactly once for each Call that decodes to a charge point request, with that request and the identity from the connection URL, and never otherwise.",
 ["inputs","histories"],"all calls (any action string, any payload object), any handler outcome, sequences of calls on a connection",
 "The suite's handler only ever sees Heartbeat; unknown actions, wrong-direction actions, malformed payloads and handler errors are never exercised, and no test inspects a reply's id or error code.",
 ["cs/cs.go","ws/conn.go","ws/message.go","messages/req/actions.go"],
 [("dispatch loop","cs/cs.go handleWebsocket"),("call decoding","ws/conn.go callToRequest"),("reply building","ws/message.go unmarshalResponse, ws/conn.go SendResponse")],
 observe=["frames on the wire","arguments and number of handler calls"])

p("C06","The charge point answers every Call exactly once",
 "For each well-formed Call the central system sends over a websocket, the charge point writes exactly one reply, and it carries the Call's id: a CallResult with the handler's response, a CallError InternalError carrying the handler's error text (also when the response cannot be encoded or is missing), NotSupported for an action that is unknown or is not a central system request, or FormationViolation for a payload that does not decode. The handler is called exactly once for each Call that decodes to a central system request, with that request, and never otherwise (in particular never with a nil request).",
 ["inputs","histories"],"all calls (any action string, any payload object), any handler outcome, sequences of calls on a connection",
 "The suite's charge point handler only ever sees GetConfiguration; everything else on this path has no test.",
 ["cp/json.go","ws/conn.go","ws/message.go","messages/req/actions.go"],
 [("dispatch loop","cp/json.go handleWebsocketConnection"),("call decoding","ws/conn.go callToRequest"),("reply building","ws/message.go unmarshalResponse, ws/conn.go SendResponse")],
 observe=["frames on the wire","arguments and number of handler calls"])

p("C07","Concurrent use of connections and of the central system is race free",
 "Any number of goroutines may send requests, send responses, write raw messages and read on one connection, and look up, await, connect and disconnect charge points on one central system, at the same time: two websocket frames are never written concurrently, and no shared state is accessed without synchronisation (no data race, no concurrent map access, with or without a debug logger).",
 ["schedules"],"all interleavings of the public operations, within the stated number of goroutines",
 "The suite runs on one CPU because it already panics or hangs on several; a race needs a particular interleaving which a test run does not choose.",
 ["ws/conn.go","cs/cs.go","cp/cp.go","cp/json.go"],
 [("send mutex","ws/conn.go sendMux"),("connection registry mutex","cs/cs.go connMux")],
 state=[("pending requests","written by senders, read by the reader","ws/conn.go Conn"),("connection registry","written by connection handlers, read by the API","cs/cs.go centralSystem")],
 observe=["memory accesses","websocket writes"])

p("C08","The connection registry reflects the live connections",
 "After any history of websocket connects and disconnects, looking up a charge point for OCPP 1.6 succeeds exactly when at least one connection with that identity is still up, and commands sent through the result go to a connection that is still up (the most recent one); other identities are unaffected. The connect channel for an identity is closed exactly while it has a live connection, and the disconnect channel is open exactly while it has one. Looking up for OCPP 1.5 never needs a connection, and an unknown version is refused.",
 ["histories","schedules"],"all histories of connects and disconnects of several connections of one and of different identities, in any order, and all interleavings of their handlers",
 "The suite covers one order (old connection closes first) for two connections; other orders, more connections and overlapping handlers are left out.",
 ["cs/cs.go"],
 [("registration and clean-up","cs/cs.go handleWebsocket"),("lookups","cs/cs.go GetServiceOf, WaitConnect, WaitDisconnect")],
 state=[("registry","connection, connection count, connected flag and connect channel per identity","cs/cs.go centralSystem")],
 observe=["GetServiceOf","WaitConnect","WaitDisconnect","socket that receives a command"])

p("C09","Connects and disconnects are announced exactly once",
 "For every accepted websocket connection the connection listener is called exactly once, and once that connection has ended, for whatever reason, the disconnection listener is called exactly once, each with the identity taken from the URL path (everything after the first slash). A request that is not upgraded to a websocket triggers neither, and a slow or blocked listener does not keep connections from being served.",
 ["histories","inputs","fault_sequences"],"all identities, all ways a connection ends (close frame, network loss, local close), all histories of connects within the bound, listeners that return or block",
 "The tests wait for one notification per connect and cannot see a duplicate or a missing one in other endings.",
 ["cs/cs.go"],
 [("listener calls","cs/cs.go handleWebsocket"),("listener setters","cs/cs.go SetChargePointConnectionListener/SetChargePointDisconnectionListener")],
 observe=["listener calls and their arguments"])

p("C10","JSON encoding of every message round-trips",
 "For every OCPP message type (requests and responses of both directions) and every value whose required objects are set, encoding to JSON and decoding again gives an equal message: same strings, numbers, booleans, nested objects and lists, and instants equal to the second. Encoding never panics, and fails only when a required object is missing.",
 ["inputs"],"all field values of all 56 message types (strings, numbers, optional pointers present or absent, lists up to the bound)",
 "Only two message types are ever encoded by the tests, with no field set.",
 ["messages/v1x/cpreq/json_encode.go","messages/v1x/cpresp/json_encode.go","messages/v1x/csreq/json_encode.go","messages/v1x/csresp/json_encode.go"],
 [("hand-written codecs","messages/v1x/*/json_encode.go"),("struct tags","messages/v1x/*/messages.go")],
 observe=["json.Marshal / json.Unmarshal of messages"])

p("C11","JSON decoding accepts conforming payloads and rejects others",
 "Decoding a payload object into a request or response succeeds and stores every given field when all required fields of the OCPP 1.6 schema are present, every field is known and has the schema's JSON type. It fails when a required field is missing, a known field has the wrong JSON type, or the message has a field its schema does not define; and it never panics.",
 ["inputs"],"for every message type: all subsets of its fields, all values, one arbitrary extra field, and wrongly typed values",
 "No test decodes a payload with a missing, extra or mistyped field.",
 ["messages/v1x/cpreq/json_encode.go","messages/v1x/cpresp/json_encode.go","messages/v1x/csreq/json_encode.go","messages/v1x/csresp/json_encode.go"],
 [("hand-written decoders","messages/v1x/*/json_encode.go UnmarshalJSON")],
 observe=["json.Unmarshal of messages"])

p("C12","Encoded JSON messages conform to the OCPP 1.6 schemas",
 "The JSON object a message encodes to contains every field the OCPP 1.6 schema requires, only fields the schema defines, each under its schema name, with the schema's JSON type and with the value of the message field it stands for. An optional field that the caller left unset does not appear.",
 ["inputs"],"all field values of all message types",
 "The tests never look at encoded payloads.",
 ["messages/v1x/cpreq/json_encode.go","messages/v1x/cpresp/json_encode.go","messages/v1x/csreq/json_encode.go","messages/v1x/csresp/json_encode.go","ws/json"],
 [("hand-written encoders","messages/v1x/*/json_encode.go MarshalJSON"),("schemas","ws/json/*.json")],
 observe=["json.Marshal of messages"])

p("C13","Actions, requests and responses are paired correctly",
 "Every supported action name yields a fresh, empty request of the type of that name that reports the same action name, and every request type yields a fresh, empty response of its own name and of the answering side (central system requests are answered by charge point-side responses and vice versa); the response table agrees with it. Any other string, for all strings, yields nothing.",
 ["inputs"],"all strings as action names; all request types",
 "Two of 29 actions are used by the tests; the negative side is over all strings.",
 ["messages/req/actions.go","messages/res/actions.go","messages/v1x/cpreq/messages.go","messages/v1x/csreq/messages.go"],
 [("action tables","messages/req/actions.go, messages/res/actions.go"),("Action/GetResponse methods","messages/v1x/*/messages.go")],
 observe=["req.FromActionName","res.FromActionName","Action","GetResponse"])

p("C14","SOAP messages and faults round-trip",
 "For every OCPP 1.5 message and every value, marshalling it in a SOAP envelope and unmarshalling the result gives a message of the same type with equal content (instants equal, fields that OCPP 1.5 does not have left out), and an error marshalled as a Fault is received as a Fault whose error text is the original one. A message element is decoded by its local name into exactly the message type of that name.",
 ["inputs"],"all field values of all OCPP 1.5 messages (lists up to the bound), all error texts, all element names",
 "The two SOAP tests decode one fixed BootNotification and one fixed MeterValues; nothing is ever encoded, no response, fault or central-system message is decoded.",
 ["soap/marshal.go","soap/models.go","messages/v1x"],
 [("envelope marshalling","soap/marshal.go Marshal/Unmarshal"),("element dispatch","soap/marshal.go receivedBody.UnmarshalXML"),("xml tags","messages/v1x/*/messages.go, soap/models.go")],
 observe=["soap.Marshal","soap.Unmarshal"])

p("C15","SOAP messages use the names of the OCPP 1.5 WSDL",
 "In a marshalled SOAP message the body holds one element with the message's WSDL name in the WSDL namespace of its service, and its children and attributes are those the WSDL defines, under their WSDL names and holding the values of the message's fields; elements the WSDL requires are always present, and conversely each WSDL element is decoded into the field it stands for.",
 ["inputs"],"all field values (in particular zero values) of all OCPP 1.5 messages",
 "The tests decode two fixed documents and never look at encoded XML.",
 ["messages/v1x/cpreq/messages.go","messages/v1x/cpresp/messages.go","messages/v1x/csreq/messages.go","messages/v1x/csresp/messages.go","soap/wsdl"],
 [("xml tags","messages/v1x/*/messages.go"),("WSDL","soap/wsdl/*.wsdl")],
 observe=["soap.Marshal","soap.Unmarshal"])

p("C16","The SOAP server maps every request to a handler call and a reply",
 "For every HTTP body, SOAP handling never panics, and it calls the handler exactly once, with the decoded request and the charge box identity from the header (empty if there is none), if the body is an envelope holding a known request, and not at all otherwise. The reply body then is one envelope holding exactly the handler's response, or a Fault carrying the handler's error text and no message; headers describe the body truthfully (SOAP content type, no content encoding the body does not have). If the body is not such an envelope, an error is returned to the caller and no message is sent as if it had succeeded.",
 ["inputs"],"all request bodies (well-formed envelopes of any known message with any identity, with or without header, unknown or missing body element, malformed XML), all handler outcomes",
 "The SOAP server has no test at all.",
 ["soap/server.go","soap/marshal.go","cs/cs.go","cp/soap.go"],
 [("request handling","soap/server.go Handle"),("side-specific dispatch","cs/cs.go handleSoap, cp/soap.go ServeHTTP")],
 observe=["HTTP response","handler calls","returned error"])

p("C17","The SOAP client returns the peer's answer or an error",
 "A SOAP call POSTs one envelope whose action, destination, charge box identity and body are those of the call, to the configured URL. It returns nil with the response filled in exactly when the peer answers with an envelope holding that response type; for a Fault it returns an error with the fault's reason; for anything else - another message, an empty or undecodable body, a failed request, an error status without a body, no URL - it returns an error, and it never panics.",
 ["inputs","fault_sequences"],"all requests, all answers of the peer (any status, any body of the modelled shapes), transport failures",
 "The SOAP client has no test at all.",
 ["soap/client.go","soap/marshal.go","soap/models.go"],
 [("client call","soap/client.go Call"),("service wrapper","internal/service/soap.go Send")],
 observe=["HTTP request sent","returned error and response"])

p("C18","Send yields a response of the request's own type or an error",
 "Over both transports and in both directions, sending a request through the service of a peer returns either a non-nil response of exactly the response type belonging to that request, with the content the peer sent, and a nil error, or a nil response and a non-nil error; it never panics and never returns both or neither, whatever the peer answers.",
 ["inputs"],"all request types, both transports, both directions, all answers of the peer",
 "The suite sends Heartbeat and GetConfiguration over JSON to a well-behaved peer only.",
 ["internal/service/cp.go","internal/service/cs.go","internal/service/json.go","internal/service/soap.go","ws/conn.go","soap/client.go"],
 [("typed services","internal/service"),("response typing","ws/conn.go callResultToResponse, soap/client.go Call")],
 observe=["Send"])

p("C19","A request never waits beyond its timeout and leaves nothing behind",
 "Sending a request over a websocket returns at the latest when the 60 second request timeout expires: with the answer if the peer's reply arrives before that, with a timeout error otherwise, and with an error at once if the request cannot be written. However it ended, nothing is kept for that request afterwards: no table entry (a reply arriving later is treated as unsolicited) and no goroutine.",
 ["schedules","fault_sequences","histories"],"all reply delays (a symbolic clock), replies that never come, failed writes, connections that close while the request is pending",
 "The tests never let a request time out; waiting the real 60 seconds and counting what remains is not done.",
 ["ws/conn.go","internal/request_timeout.go"],
 [("timeout","ws/conn.go SendRequest"),("pending table clean-up","ws/conn.go SendRequest")],
 state=[("pending requests","requests sent and not yet answered","ws/conn.go Conn")],
 observe=["return value and time of Send","goroutines left"])

p("C20","A JSON charge point reconnects until cancelled, and never afterwards",
 "When its websocket connection ends while its context is live, a charge point keeps dialling the same URL and identity, five seconds apart, until it is connected again, and then serves calls and sends requests over the new connection. Once its context is cancelled it closes its connection and never dials, answers or announces again, also when the cancellation comes during a reconnect. Its connect channel is closed exactly while it is connected, and its disconnect channel is closed once the connection it was obtained for has ended.",
 ["fault_sequences","histories","schedules"],"all sequences of connection losses and failed dials within the bound, cancellation at any point, all interleavings with the API",
 "The suite reconnects in one way only (local close against a listening server), never with failing dials and never cancels while reconnecting.",
 ["cp/cp.go","cp/json.go"],
 [("connection loop","cp/json.go handleWebsocketConnection"),("dialling","cp/json.go getNewWebsocketConnection, ws/conn.go Dial")],
 state=[("connection","current websocket, service and connect channel","cp/cp.go chargePoint")],
 observe=["dials","Send","WaitConnect","WaitDisconnect"])

p("C21","Charge point construction and SOAP lifecycle",
 "Creating a JSON charge point fails, returning an error and leaving nothing running, if the central system cannot be reached; creating a SOAP charge point fails if no port is given. A SOAP charge point serves central system requests on its port until its context is cancelled; then it stops listening and leaves no goroutine behind.",
 ["configurations","fault_sequences"],"both transports, with and without a port, dial failures, cancellation at any point",
 "No test creates a SOAP charge point, and none creates a JSON one against an unreachable server.",
 ["cp/cp.go","cp/soap.go"],
 [("constructor","cp/cp.go New"),("SOAP server","cp/soap.go handleSoap")],
 observe=["New","listening socket","goroutines left"])

p("C22","One HTTP endpoint serves websockets, SOAP and visitors",
 "Every HTTP request to the central system is treated as exactly one of three things: a websocket upgrade request starts a JSON session for the identity in its path, any other GET request gets an HTML page stating the current number of connected JSON charge points, and every other request is handled as SOAP. The handler given to Run sees requests from both kinds of charge point with the right identity and HTTP request in the metadata.",
 ["inputs","configurations"],"all methods, all header combinations that do or do not ask for an upgrade, all paths, any number of connected charge points within the bound",
 "The tests only ever make websocket upgrade requests.",
 ["cs/cs.go","ws/ws.go"],
 [("HTTP dispatch","cs/cs.go Run")],
 observe=["HTTP responses","handler metadata"])

p("C23","Serving a connection leaks no goroutine",
 "While a websocket connection is up, the number of goroutines it uses does not grow with the number of messages it has exchanged; after it has ended, none of them remains. This holds for central systems and charge points, whatever mix of calls, replies and bad messages was exchanged and however the connection ended.",
 ["histories","fault_sequences"],"all sequences of messages within the bound and all ways the connection can end",
 "No test counts goroutines, and a leak of one goroutine per call shows only after long operation.",
 ["ws/conn.go","cs/cs.go","cp/json.go"],
 [("asynchronous reads","ws/conn.go ReadMessageAsync"),("serve loops","cs/cs.go handleWebsocket, cp/json.go handleWebsocketConnection")],
 observe=["goroutines of the library"])

p("C24","A charge point is known by the identity it was made with",
 "A charge point made with any identity is known to the central system by exactly that identity, over either transport: the metadata of each of its requests names it, the listeners for connections and disconnections get it, GetServiceOf and WaitConnect find the charge point by it and by no other name, requests sent to that service arrive at that charge point and no other, and Identity returns it. This stays so after the charge point has reconnected. (For websockets: identities whose path has no empty or dot segments; for SOAP: text that XML can carry.)",
 ["inputs","histories"],"all identities (any string, also with characters that are special in URLs), both transports, two charge points with different identities, reconnections",
 "The suite uses three or four identities made of digits and never reads them back at the other end.",
 ["ws/conn.go","cs/cs.go","cp/cp.go","cp/json.go","soap/client.go","soap/server.go"],
 [("dialled URL","ws/conn.go Dial"),("identity from the path","cs/cs.go handleWebsocket"),("identity header","soap/client.go Call, soap/server.go Handle"),("registry","cs/cs.go")],
 observe=["handler metadata","connection listeners","GetServiceOf","Identity"])

p("C25","Requests and answers travel unchanged from end to end",
 "Between a central system and a charge point of this library, over either transport and in either direction, every request given to Send arrives exactly once at the other end's handler as an equal message of the same type, and Send returns an equal response to the one the handler returned, or an error that carries the text of the handler's error (over SOAP: is that text). This holds for each of several requests sent at the same time in both directions, and for any number of requests one after another.",
 ["inputs","schedules","histories"],"all request and response types a transport supports, all field values within the bound, any error text, requests in both directions at the same time, long histories",
 "The suite sends two types of empty messages over websockets and none over SOAP, and never compares what arrives with what was sent.",
 ["cs/cs.go","cp/cp.go","cp/json.go","cp/soap.go","ws/conn.go","ws/message.go","soap/client.go","soap/server.go","soap/marshal.go","internal/service/json.go","internal/service/soap.go"],
 [("sending","internal/service, ws/conn.go SendRequest, soap/client.go Call"),("handling","cs/cs.go, cp/json.go, cp/soap.go, soap/server.go"),("codecs","messages/v1x, soap/marshal.go")],
 observe=["handler arguments","Send results"])

p("C26","Loggers hear what happens as it is, and change nothing",
 "Loggers installed with SetDebugLogger and SetErrorLogger only observe: calls, requests and errors are handled as without them. The debug logger is told the text of every websocket message as it came (line breaks in it apart) and as it is sent, and of every SOAP request as it came; the error logger is told the text of every error a SOAP handler returns; each as it is, whatever characters (percent signs, say) it holds.",
 ["inputs"],"all message and error texts, both transports, both ends",
 "No test installs a logger.",
 ["internal/log/log.go","ws/conn.go","soap/server.go","soap/client.go","cs/cs.go","cp/json.go","cp/soap.go"],
 [("loggers","internal/log/log.go"),("log calls","ws/conn.go, soap/server.go")],
 observe=["what the loggers are told","replies"])

p("C27","Calls of a connection are handled one at a time, in order",
 "The calls that arrive over one websocket connection are handled one at a time, in the order they came: the handler is not given a call before the previous one has been answered. Replies go out in the order of the calls, those to calls that are refused (unknown, of the wrong direction, with a bad payload) among them, however long handlers take, whatever pauses there are between calls, and whatever is sent in the other direction meanwhile. This holds for central systems and charge points.",
 ["inputs","schedules","histories"],"all sequences of calls of any kind within the bound, any time a handler takes, any pauses between calls, requests in the other direction, all interleavings",
 "The suite never has two calls outstanding on a connection.",
 ["ws/conn.go","cs/cs.go","cp/json.go"],
 [("reader","ws/conn.go ReadMessage, ReadMessageAsync"),("serve loops","cs/cs.go handleWebsocket, cp/json.go handleWebsocketConnection")],
 observe=["handler calls","order of replies"])

p("C28","A slow charge point holds up no other",
 "While one charge point takes its time (its request is being handled, by websocket or SOAP; a listener announced its connection or disconnection and has not returned; it has not answered a request; it does not read what it is sent; it is dialling a central system that does not answer or refuses), the others are served at once: their calls and SOAP requests are answered, their connections and disconnections are announced, they can be looked up, waited for and sent requests, visitors get their page, and new charge points can be made. What the slow one waits for is finished as usual afterwards.",
 ["schedules","fault_sequences","histories"],"all things a charge point can take its time with, combined with all operations of others, any time, all interleavings within the bound",
 "The suite runs one charge point at a time, and its handlers return at once.",
 ["cs/cs.go","cp/cp.go","cp/json.go","cp/soap.go","ws/conn.go","soap/client.go","soap/server.go"],
 [("registry lock","cs/cs.go connMux"),("listeners","cs/cs.go handleWebsocket"),("sending","ws/conn.go SendRequest, soap/client.go Call"),("reconnection","cp/json.go getNewWebsocketConnection")],
 observe=["replies","listener calls","lookups","Send results"])

p("C29","Messages belong to those who use the library",
 "A request given to Send and a response returned by a handler are not changed by the library, and may be used again, also at the same time and for several connections: each use sends the same content. Once Send has returned (with a response or an error) the library no longer touches the request. A request handed to a handler and a response returned by Send share nothing with other messages: later messages do not change them, and changing them does not change later messages. This holds for every message type, both transports and both directions.",
 ["inputs","schedules","histories"],"all request and response types a transport supports with all field values within the bound, sent again, at the same time, or changed by the application at any moment it may",
 "The suite sends fresh, empty messages once and throws them away.",
 ["ws/conn.go","ws/message.go","soap/client.go","soap/server.go","soap/marshal.go","internal/service/json.go","internal/service/soap.go","messages/req/actions.go","messages/v1x"],
 [("sending","ws/conn.go SendRequest, SendResponse; soap/client.go Call"),("decoding","ws/conn.go callToRequest, callResultToResponse; soap/server.go"),("fresh messages","messages/req/actions.go, GetResponse")],
 observe=["messages of the application before and after","data races"])

p("C30","A handler is told which charge point asks, by which HTTP request",
 "With every call a central system's handler is told the identity of the charge point that made it and the HTTP request it came by: the upgrade request of the websocket connection the call arrived over, or the SOAP request that holds it, with the method, path, query, host, remote address and headers it had. It is never told those of another charge point, of another connection of the same one (an earlier one that has ended, or one that lives beside it) or of another request handled at the same time; and what it was told stays as it was after it has returned.",
 ["inputs","schedules","histories"],"all identities and header texts, several connections and SOAP requests at a time with the same or other identities, calls in any order, reconnections between them, all interleavings within the bound",
 "The suite's handlers do not look at the metadata.",
 ["cs/cs.go","ws/conn.go","soap/server.go"],
 [("metadata of websocket calls","cs/cs.go handleWebsocket"),("metadata of SOAP calls","cs/cs.go handleSoap, soap/server.go Handle")],
 observe=["ChargePointID and HTTPRequest given to the handler, when it is called and later"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
