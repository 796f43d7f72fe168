#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,state,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

prop("C01","Engine.IO payloads survive encode/decode unchanged",
 "Any list of Engine.IO packets, of any valid packet type, text or binary, with any data of any length, encodes to the documented wire form and, written as a payload in either the text/base64 or the binary (XHR2) format and read back, decodes to exactly the same packets in the same order, without error and with the byte counts reported by both sides equal to the bytes on the wire. This holds no matter how the underlying stream splits the bytes across reads.",
 ["inputs","schedules"],"every packet list, data content and length, both payload formats, every chunking of the byte stream a reader may produce",
 "The tests encode and decode five fixed packets from one in-memory reader that always returns everything; lengths not divisible by three, bodies larger than a buffer and short reads are never seen.",
 ["engine/payload.go"],
 [("payload packets","ordered list of packets written or read","engine/payload.go Payload"),("reader position","bytes of the stream consumed so far","engine/payload.go decode")],
 [("length-prefixed packet encoding","engine/payload.go Packet.encodeHead, Packet.WriteTo, packet2.WriteTo"),("length-prefixed packet decoding","engine/payload.go decodeHead, decode, readFrom")],
 ["bytes written to the io.Writer","packets and counts returned by the reader side"])

prop("C02","Malformed payloads are rejected, never crash, never yield invented bytes",
 "For every byte stream and every read error, decoding a payload terminates by returning (it never panics) and the memory it asks for one packet is bounded by the bytes actually received. A payload is accepted only if the whole stream is a sequence of complete, well-formed packets; a bad length, a declared length that is too short for the packet type, corrupt base64 or a stream that ends inside a packet is reported as an error.",
 ["inputs","fault_sequences"],"every byte string offered by a remote peer, every point at which the stream may end or fail",
 "No test feeds malformed or truncated input; a remote peer controls every byte.",
 ["engine/payload.go","engine/polling.go"],
 [("declared length","decimal length announced in the packet head","engine/payload.go decodeHead")],
 [("head validation","engine/payload.go Packet.decodeHead, packet2.decodeHead"),("body read","engine/payload.go Packet.decode, packet2.decode")],
 ["error result of the payload reader","HTTP status of the polling POST"])

prop("C03","WebSocket frames carry exactly one packet each, both ways",
 "Writing a packet on a WebSocket connection sends exactly one message, of text kind for a string packet and of binary kind for a binary packet, whose content is the packet-type byte (ASCII digit in text, raw in binary) followed by exactly the packet data; reading such a message yields the same packet. Unknown message kinds, empty messages and transport errors are returned as errors and never produce a packet, and a packet whose write fails is reported as failed.",
 ["inputs","fault_sequences"],"every packet and every failure point of the underlying WebSocket writer/reader",
 "No test exercises the WebSocket transport at all.",
 ["engine/websocket.go"],
 [("WebSocket message","kind and content of the frame","engine/websocket.go")],
 [("frame writer","engine/websocket.go nextWriter, WritePacket"),("frame reader","engine/websocket.go ReadPacket")],
 ["messages on the wire","packet/error returned by ReadPacket"])

prop("C04","Polling connection: close, pause and deadlines are honoured",
 "After a polling connection is closed every read, write, deadline change and outgoing poll on it fails with the connection-closed error and transfers no packet, and closing again is harmless. An operation that reports an error (closed, paused, timed out, cancelled) has transferred no packet, an operation that succeeds has transferred exactly one, an already expired deadline fails without transferring anything, and an outgoing poll on a paused connection is answered with a no-op packet.",
 ["schedules","histories","inputs"],"every interleaving of close/pause/resume/deadline/read/write calls, every deadline",
 "One test walks a single timeline with a zero-size buffer and one goroutine per operation.",
 ["engine/polling.go"],
 [("inbound and outbound packet queues","packets travelling to the application and to the poll response","engine/polling.go pollingConn"),("closed/paused state","whether the connection accepts operations","engine/polling.go pollingConn")],
 [("queue operations guarded by closed/paused/deadline","engine/polling.go ReadPacket, WritePacket, ReadPacketOut, SetReadDeadline, SetWriteDeadline"),("idempotent close","engine/polling.go Close")],
 ["results of the connection's operations"])

prop("C05","A polling POST is delivered whole and in order, or not at all",
 "The packets of an accepted polling POST body are handed to the session exactly once each and in body order, and only then is the request answered with success. A POST with a wrong or unparsable content type, a text body whose charset is not UTF-8, or a malformed body is answered with an error status and delivers nothing; other HTTP methods are refused, and the body format decoded is the one the content type announces.",
 ["inputs","fault_sequences"],"every request method, content type, body, and every point at which the connection may be closed during delivery",
 "No test issues an HTTP request.",
 ["engine/polling.go","engine/payload.go"],
 [("inbound queue","packets delivered to the session","engine/polling.go pollingConn.in")],
 [("POST handling","engine/polling.go pollingConn.ServeHTTP")],
 ["HTTP status","sequence of packets read by the session"])

prop("C06","A polling GET delivers one queued packet in the negotiated encoding",
 "A polling GET consumes exactly one queued outgoing packet and writes exactly that packet, once, as the complete response body, in the encoding the request negotiated: JSONP when a callback index is given, base64/text when b64=1, binary otherwise, with the matching Content-Type actually sent to the client. A JSONP response is one syntactically valid script call whose only argument is the JSON string of the encoded packet and whose callback index consists of decimal digits only; when no packet is available because of an error nothing is consumed and an error status is sent.",
 ["inputs","fault_sequences"],"every packet, every query string, every outcome of the outgoing queue",
 "No test issues an HTTP request; the JSONP writer is never run.",
 ["engine/polling.go"],
 [("outbound queue","packets waiting for a poll","engine/polling.go pollingConn.out"),("response header/body","what the client sees","engine/polling.go")],
 [("GET handling","engine/polling.go pollingConn.ServeHTTP"),("response writers","engine/polling.go writeJSONP, writeXHR, writeXHR2")],
 ["HTTP status, headers and body"])

prop("C07","Requests are admitted only with a valid version, transport and session",
 "A request whose protocol version is not 3, whose transport name is unknown, or whose session id is not currently registered is refused with HTTP 400 and changes no server state: it creates no session and reaches no existing one. A request with no session id creates exactly one new session, and only after the transport accepted the connection (including its origin check); a request with a session id is served by exactly the session registered under that id, and changes its transport only through the upgrade handshake.",
 ["inputs","histories"],"every query string and every set of registered sessions",
 "No test issues an HTTP request to the server.",
 ["engine/server.go","engine/session.go","engine/transport.go"],
 [("session registry","sessions by id","engine/session.go sessionManager")],
 [("request admission","engine/server.go Server.ServeHTTP, getTransport"),("origin check","engine/transport.go pollingAcceptor.Accept, engine/server.go NewServer")],
 ["HTTP status","set of sessions, which session sees the request"])

prop("C08","Session registry is exact and session ids are well-formed and random",
 "Registering a session makes it, and only it, retrievable under its own id; removing an id removes exactly that session and leaves every other session retrievable; a session that has ended is no longer registered. Every session id is 26 characters of a URL-safe base-32 alphabet, derived injectively from a 48-bit millisecond timestamp and 80 bits read from the cryptographic random source.",
 ["histories","inputs","schedules"],"every sequence of register/lookup/remove calls, every clock value and random string",
 "No test covers sessions.",
 ["engine/session.go"],
 [("session table","id to session map","engine/session.go sessionManager")],
 [("locked map operations","engine/session.go Get, Remove, NewSession"),("id generation","engine/session.go generateSidBytes, newSession")],
 ["lookup results","session ids"])

prop("C09","Transport upgrade is all-or-nothing and loses no queued packet",
 "An upgrade switches a session to the new transport only after the new transport sent a probe ping, received the matching pong echo, and then sent an upgrade packet; in that case every packet still queued outbound on the old transport is written to the new one in order, every packet queued inbound is processed once in order, the old transport is closed, and the upgrade event fires once. In every other case the new transport is closed and the session keeps its old transport, resumed and usable. Whatever happens, the session's senders and readers are released again.",
 ["fault_sequences","histories","inputs"],"every packet sequence and every error the new transport may produce at each step, every content of the old queues",
 "No test performs an upgrade.",
 ["engine/server.go","engine/polling.go","engine/barrier.go"],
 [("session transport","the connection a session uses","engine/socket.go Socket.Conn"),("barrier","pauses the session's workers during a switch","engine/barrier.go")],
 [("upgrade handshake","engine/server.go Server.upgrade")],
 ["packets on old and new transport","session transport name","events fired"])

prop("C10","Each received packet has exactly its protocol effect",
 "On the server a ping is answered with exactly one pong carrying the same type of data and the same bytes, a message is delivered exactly once to the message handler with exactly its data, a close packet fires the close handler and closes the session, open/upgrade/no-op packets have no effect, and a packet of unknown type is reported as an error without any other effect; on the client messages and close packets behave likewise and no reply is ever sent. A handler registered for one event is called only for that event, and the latest registration wins.",
 ["inputs","histories"],"every packet, every set of registered handlers",
 "No test drives a session end to end.",
 ["engine/server.go","engine/client.go","engine/handle.go"],
 [("handler table","event to handler","engine/handle.go eventHandlers")],
 [("dispatch","engine/server.go Server.handle, engine/client.go Client.handle"),("handler lookup","engine/handle.go On, fire")],
 ["handler invocations","packets sent"])

prop("C11","Packets accepted for sending go out in order, once, even across a pause",
 "Emitting an event queues exactly one packet with the event's packet type, the given message type and exactly the given bytes (strings and byte slices verbatim, other values as JSON), events that have no wire form queue nothing, and after the session is closed emitting reports an error. Every queued packet is handed to the session's current transport in queue order and exactly once, a packet the transport refused because it was paused is offered again rather than dropped, and closing the session first flushes what was already queued.",
 ["schedules","histories","inputs"],"every sequence of emits, pauses, upgrades and close; every transport outcome",
 "No test sends through a session.",
 ["engine/socket.go","engine/emitter.go"],
 [("send queue","packets accepted and not yet written","engine/emitter.go emitter.packets")],
 [("emit","engine/socket.go Socket.Emit"),("queue and writer loop","engine/emitter.go submit, loop, flush, close")],
 ["packets written to the transport, their order","error from Emit"])

prop("C12","Handlers are never called under a lock; locks are released; tables stay guarded",
 "No user-supplied handler or callback is invoked while the library holds one of its own locks, so a handler may call back into the library without deadlocking. Every lock taken by a library function has been released when that function returns, on every path including error paths, and is never released without being held. The shared tables of sessions, handlers, sockets and pending acknowledgements, and a session's current transport, are read or written only while the lock that guards them is held.",
 ["schedules","fault_sequences"],"every path through every function that takes a lock or calls a handler",
 "Tests run one goroutine against these tables and never call back from a handler.",
 ["engine/handle.go","engine/session.go","engine/socket.go","engine/server.go","engine/emitter.go","socket.go","handle.go","server.go","client.go"],
 [("locks","mutexes guarding shared tables","engine/handle.go, engine/session.go, engine/socket.go, socket.go, handle.go, server.go")],
 [("lock/unlock pairs around table accesses","all functions using the mutexes")],
 ["deadlock, fatal concurrent map access, data race"])

prop("C13","Default encoder produces the Socket.IO revision-4 wire form",
 "For every packet the default encoder outputs: the type digit; for binary packets the attachment count and a dash; the namespace (with a leading slash, omitted when root) and a comma; the id in decimal when present; and the JSON of the data when present; followed, as separate attachments, by exactly the binary arguments in argument order. Every binary argument is replaced by a placeholder numbered by its position among the binary arguments, an event or acknowledgement with binary arguments is sent as the binary variant of its type, and a packet without binary arguments carries no attachment; data that cannot be encoded is reported as an error and nothing of it is sent. A binary argument is an element of the packet's argument list that implements encoding.BinaryMarshaler. On a connection the messages of one packet follow each other, the text first, however many goroutines emit at once.",
 ["inputs","schedules"],"every packet type, namespace, id and argument list; every interleaving of emits",
 "Tests compare eight fixed packets.",
 ["parser_default.go","packet.go"],
 [("packet being encoded","type, namespace, id, data, attachments","packet.go Packet")],
 [("preprocessing","parser_default.go preprocess"),("encoding","parser_default.go encodeTo, Encode"),("sending","socket.go emitPacket")],
 ["encoded bytes and attachments"])

prop("C14","Default decoder accepts exactly well-formed packets and never crashes",
 "For every sequence of text and binary messages the default decoder returns without panicking. A text of the documented form (a type digit 0 to 6; for the binary types an attachment count and a dash; optionally a namespace that begins with a slash and ends with a comma or the text; optionally a decimal 64-bit id; optionally data, which for events and acknowledgements is an array) yields a packet with exactly the written type, namespace path, id and data; anything with an unknown type, a non-numeric attachment count, a count that differs from the number of placeholders in the argument list, an id out of range, or event or acknowledgement data that does not begin an array is rejected. A packet that announces N attachments is released exactly when its N-th binary message arrives, carrying those N messages in arrival order; packets without attachments are released at once, a binary message with no packet waiting for it is rejected, and a rejected message leaves a partially received packet unchanged.",
 ["inputs","histories"],"every sequence of incoming messages and their contents",
 "Tests decode eight well-formed strings; no malformed message and no interleaving of text and binary messages is tried.",
 ["parser_default.go"],
 [("partial packet","packet waiting for attachments","parser_default.go defaultDecoder.lastp")],
 [("text decoding","parser_default.go decode"),("reassembly","parser_default.go Add, emit")],
 ["packets released by the decoder","error results"])

prop("C15","MessagePack packets and arguments decode safely and faithfully",
 "With the MessagePack parser, connect/disconnect/error packets are sent as JSON text and all others as one MessagePack map of type, namespace, data and id; decoding accepts fields in any order, ignores unknown fields, propagates every field error, defaults a missing or empty namespace to root and preserves type, namespace, id and the raw data (nothing for nil), and a message that is refused releases no packet. Extracting an event yields its name and an argument array one shorter with the remaining bytes unchanged, extracting an acknowledgement yields its array, and data that is not an array, or an event's whose first element is not a string, is rejected. Decoding arguments never panics (short of nesting that exhausts the stack) nor makes room for more elements than the message has bytes.",
 ["inputs"],"every packet and every byte string offered by a remote peer",
 "Tests round-trip a few well-formed values; no hostile length or malformed value is tried.",
 ["parser_msgp.go","packet.go"],
 [("packet fields","type, namespace, data, id","packet.go Packet")],
 [("field coding","packet.go EncodeMsg, DecodeMsg, MarshalMsg, UnmarshalMsg"),("parser","parser_msgp.go Encode, Add, ParseData, UnmarshalArgs, msgpUnmashalArg, msgpReadMap")],
 ["encoded bytes","decoded packets","errors"])

prop("C16","An acknowledgement callback fires at most once, for its own packet only",
 "Every emitted event that carries a callback goes out with an id that no other pending or past event of the same connection and namespace used since it was connected, and the callback is registered before the event is sent; an event without a callback carries no id. An incoming acknowledgement whose arguments decode runs the callback registered under exactly its namespace and id, at most once ever even if acknowledgements arrive concurrently or are repeated, and an acknowledgement with an unknown id, or for a namespace not connected, runs nothing.",
 ["schedules","histories","inputs"],"every history of emits and acknowledgements, every interleaving of concurrent acknowledgements",
 "No test emits with a callback.",
 ["handle.go","socket.go"],
 [("pending acknowledgements","id to callback, per namespace and connection","handle.go ackHandle, socket.go socket.acks")],
 [("registration","handle.go onAck, socket.go emit"),("firing","handle.go fireAck, socket.go fireAck")],
 ["ids on the wire","callback invocations"])

prop("C17","Server dispatches each packet to its own namespace, with one ack reply",
 "The server runs a handler only for the namespace and event name of the received packet: connect attaches the namespace, answers with a connect packet for it and runs its connect handler; disconnect detaches it and runs its disconnect handler; an event runs its handler once with the decoded arguments, or nothing when its data or arguments do not decode. An event with an id is answered, iff its name and arguments decode, by exactly one acknowledgement with the same id and namespace carrying the handler's results (none when no handler is registered for it) and none of the request's attachments; an event without an id is not answered; packets other than connect/disconnect for an unknown namespace are answered with an error packet for that namespace and run nothing, and failures are reported only to that namespace's error handler.",
 ["inputs","histories"],"every packet and every set of registered namespaces and handlers",
 "No test drives the server; the dispatch code is never executed by a test.",
 ["server.go","socket.go","handle.go"],
 [("namespace table","namespaces and their handlers","server.go Server.nsps")],
 [("dispatch","server.go process"),("event handler lookup","handle.go fireEvent"),("replies","socket.go ack, emitPacket, emitError")],
 ["handlers run and their arguments","packets sent"])

prop("C18","Client dispatches each packet to its own namespace, with one ack reply",
 "The client runs a handler only for the namespace and event name of the received packet, attaches a namespace when it receives its connect packet and detaches it on its disconnect packet, and ignores packets of namespaces it does not know without answering. An event runs its handler once with the decoded arguments, or nothing when its data or arguments do not decode; an event with an id is answered, iff its name and arguments decode, by exactly one acknowledgement with the same id and namespace carrying the handler's results (none when no handler is registered for it), and an event without an id is not answered. Acknowledgements and errors reach only the namespace they name.",
 ["inputs","histories"],"every packet and every set of registered namespaces and handlers",
 "No test drives the client.",
 ["client.go","socket.go","handle.go"],
 [("namespace table","namespaces and their handlers","client.go Client.nsps")],
 [("dispatch","client.go process"),("replies","socket.go ack, emitPacket")],
 ["handlers run and their arguments","packets sent"])

prop("C19","A lost connection disconnects every attached namespace exactly once",
 "When a connection ends, the disconnect handler of every namespace attached to it runs exactly once for that connection and no other namespace's handler runs, after which nothing is attached, sending on it fails, pending acknowledgements are dropped, and the server keeps nothing of it. Attaching and detaching a namespace on one connection affects only that namespace of that connection, and ending twice runs nothing twice.",
 ["histories","schedules"],"every set of attached namespaces, every history of attach/detach/close",
 "No test closes a connection.",
 ["socket.go","server.go","client.go"],
 [("attached namespaces","namespaces a connection joined","socket.go socket.acks")],
 [("attach/detach","socket.go attachnsp, detachnsp, detachall"),("close handling","server.go NewServer, client.go Dial")],
 ["disconnect handler invocations","errors from Emit"])

prop("C20","Event callbacks get every argument in its own place or are not called",
 "Registering something that is not a function, or a function with a channel, function or unsafe-pointer parameter, is refused at registration. When a callback runs, it receives exactly one value per parameter: the current connection in every connection-typed position and the decoded arguments, in order, in the others, with binary parameters taking the attachments in order (arguments or attachments that were not sent leave zero values); when decoding the arguments fails the callback is not run and the error is returned.",
 ["inputs","programs"],"every callback signature and every argument list",
 "Tests use four signatures with well-formed data.",
 ["callback.go","parser_default.go","parser_msgp.go"],
 [("callback signature","parameter types","callback.go callback")],
 [("registration","callback.go newCallback"),("invocation","callback.go Call"),("argument decoding","parser_default.go UnmarshalArgs, parser_msgp.go UnmarshalArgs")],
 ["values the callback receives","returned error"])

prop("C21","A session's headers are its own copy and survive an upgrade",
 "The headers a connection exposes are a deep copy of the request headers taken when it was accepted: later changes to the request's headers never show through, and changes on the session never reach the request. When a session moves to a new transport it keeps every header of the new transport unchanged and gains deep copies of exactly those headers of the old one that the new one lacks.",
 ["inputs","histories"],"every header set, every later mutation",
 "No test looks at headers.",
 ["engine/transport.go","engine/polling.go","engine/websocket.go"],
 [("header snapshot","headers of a connection","engine/polling.go pollingConn.header, engine/websocket.go websocketConn.header")],
 [("copying","engine/transport.go cloneHTTPHeader, copyHeaderFrom")],
 ["header values read through the session"])

prop("C22","Handshake parameters are transmitted and applied exactly",
 "A new server session announces, in its first packet, its own session id, the websocket upgrade and the configured ping interval and timeout in milliseconds, and is given a read timeout of interval plus timeout and a write timeout of the timeout. A client asks the server for protocol version 3 over websocket, keeping the rest of the URL's query, and accepts a connection only if the first packet is a valid open packet, adopts exactly the announced session id, and derives its read and write timeouts and ping period from the announced values in the same way; otherwise dialing reports an error and closes the connection it made. Every read and write of a session runs under a deadline derived from those timeouts.",
 ["configurations","inputs","fault_sequences"],"every interval and timeout, every first packet",
 "No test performs a handshake.",
 ["engine/server.go","engine/client.go","engine/socket.go","engine/emitter.go"],
 [("handshake parameters","sid, upgrades, pingInterval, pingTimeout","engine/protocol.go Parameters")],
 [("server handshake","engine/server.go NewServer, ServeHTTP"),("client handshake","engine/client.go Dial; engine/transport.go websocketTransport.Dial"),("deadlines","engine/socket.go Read, engine/emitter.go loop, flush")],
 ["open packet content","deadlines set on the transport"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
