"""Per-property configuration of check.py."""

TRUSTED = [
    "govc (/verif/govc): translation of go/ssa of the current source into verification conditions",
    "golang.org/x/tools/go/ssa v0.52.0 and the Go type checker",
    "z3 4.8.12, z3 5.3.2, cvc5 1.1.2",
    "sequence, slice and reference axioms of specs/prelude.smt2",
    "no object is larger than 2^48 bytes; memory allocation succeeds; no stack exhaustion",
    "sequential consistency within one function: shared memory that is not declared guarded is not changed by other goroutines during a call",
]

BAT = "bounded: the battery replays concrete inputs against the real code; it never discharges an obligation"

PROPS = {
    "C01": dict(note="Every obligation of encoder and decoder contracts, and the lemma that the documented wire form is decoded by the documented grammar to the same packets, is discharged for all inputs. Trusted: the translation, the reader/writer/base64 contracts listed in the evidence.", battery=["engine"], battery_note=BAT, assumptions=[
        "a reader is a fixed byte string delivered in arbitrary pieces, possibly ending in an arbitrary error (ghosts rdata, rpos, rgood)",
        "a writer appends what it accepts (ghost wout)",
        "base64.StdEncoding decodes what it encodes; lengths as documented",
        "packets have msgType string or binary and a packet type 0..6",
    ]),
    "C02": dict(note="Panic freedom, bounded allocation and acceptance of exactly the documented grammar are proved for all byte streams, piece sizes and read errors. Trusted: the translation and the reader/base64 contracts listed in the evidence.", battery=["engine"], battery_note=BAT, assumptions=[
        "a reader is a fixed byte string delivered in arbitrary pieces, possibly ending in an arbitrary error (ghosts rdata, rpos, rgood)",
        "bytes.Buffer grows by at most a constant factor of what is written to it (io.CopyN)",
    ]),
}

PROPS["C03"] = dict(note="Writer and reader of the WebSocket transport are proved for every packet, message and failure point against the assumed contracts of gorilla/websocket's connection and message writer/reader.", battery=["engine"], battery_note=BAT, assumptions=[
    "gorilla/websocket v1.4.2: a message writer sends its message when Close returns nil, sends nothing as a complete message once a write on it failed; NextReader yields the messages of the peer one by one, of kind text or binary",
    "WritePacket is not called concurrently on one connection (the emitter is the only caller)",
])
PROPS["C04"] = dict(note="Every operation of the polling connection is proved against its contract for every state of its channels, every deadline and every interference that closes channels meanwhile. Not proved: that a blocked operation returns (bounded battery).", battery=["engine"], battery_note=BAT, assumptions=[
    "Go channels, select, sync.Once and atomic.Value as modelled in govc/conc.go: a select commits to exactly one ready case; receiving from a signal channel succeeds only once it is closed; other goroutines may close channels at every select",
    "the clock does not go back between a caller's look at it and the operation (ghost now)",
    "Pause is not called twice without Resume in between (the session's barrier serialises it: C09)",
])

PROPS["C05"] = dict(note="ServeHTTP is proved for every request: what is handed to the session, in which order and with which contents, against the documented payload grammar (the contracts of C02 are re-proved here), and the status answered.", battery=["engine"], battery_note=BAT, assumptions=[
    "mime.ParseMediaType, strings.ToLower and http.Header.Get are functions of their arguments (mimeok, mimetype, mimecharset, lower, hval); a header is read and written through its methods only",
    "a hand-over is a completed send on the inbound channel; the session's reader takes packets in channel order",
    "the POST request owns its response; packets another request hands over meanwhile are not part of this request's trace",
])
PROPS["C06"] = dict(note="ServeHTTP and the response writers are proved for every request and every queue content, down to the bytes of the body, for writers that accept the whole response.", battery=["engine"], battery_note=BAT, assumptions=[
    "queued packets have a valid message type and less than 2^46 bytes (C11 queues no others)",
    "json.Marshal of a string yields its JSON string literal (jsonstr); strings.Map keeps exactly what its function returns; url.Values.Get is a function of the query (urlq)",
    "fmt.Fprintf with a constant format of %s and %d verbs writes the concatenation",
])

CONC = [
    "interleavings: shared fields declared guarded are arbitrary at every acquisition of their lock except for the invariants and relies listed; every other goroutine of the library obeys the same contracts",
    "Go channels, select, sync.Once, WaitGroup and RWMutex as modelled in govc/conc.go",
    "what a user's handler does is its own affair: calls it makes back into the library are not part of the caller's trace",
]
PROPS["C07"] = dict(note="ServeHTTP, both Accept methods, NewServer and the origin check it installs are proved for every request, registry content and interleaving.", battery=["engine"], battery_note=BAT, assumptions=CONC + [
    "url.Values.Get is a function of the query (urlq); gorilla/websocket's Upgrade accepts only what CheckOrigin allows and answers with an error status otherwise",
    "an origin checker's answer is a function of checker and request (originallowed, originok)",
])
PROPS["C08"] = dict(note="Registry operations and id generation are proved for every registry content and interleaving; that the random source is unpredictable is assumed.", battery=["engine"], battery_note=BAT, assumptions=CONC + [
    "crypto/rand.Reader delivers the bytes asked for (ghost rdata of rand.Reader); base32 encoding as documented (26 characters of the alphabet for 16 bytes, injective)",
    "the clock is before the year 10889 (48-bit milliseconds)",
])
PROPS["C09"] = dict(note="replace, upgrade, Read and the flush operations are proved for every transport behaviour, failure point and interleaving, against the contracts of the Conn interface.", battery=["engine"], battery_note=BAT, assumptions=CONC + [
    "contracts of the engine.Conn interface (socket.gvc): what a transport's operations do to its queues; pollingConn and websocketConn are proved against contracts of the same form (C03, C04, C05, C06, FlushIn and FlushOut here)",
    "relies: a session's transport is replaced only with the session's barrier held; only the session's reader takes packets out of pending; a session has a transport",
])
PROPS["C10"] = dict(note="Dispatch and the reader loops of server and client are proved for every packet, handler table and interleaving.", battery=["engine"], battery_note=BAT, assumptions=CONC)
PROPS["C11"] = dict(note="Emit, submit, the emitter's loop, its offering and flushing, and Close are proved for every packet, transport answer and interleaving. Liveness (a blocked sender is eventually served) is not proved.", battery=["engine"], battery_note=BAT, assumptions=CONC + [
    "json.Marshal is a function of its argument (jsonval)",
    "the emitter's goroutine is the only one that receives from its queue and the only one that writes packets to the session's transport outside an upgrade",
])
PROPS["C12"] = dict(note="Every function of both packages is checked: lock balance on every path, no lock of the library held where a handler is called, blocking operations, guarded fields accessed with their lock, no cycle of lock acquisition.", battery=["engine", "socketio"], race=True, battery_note=BAT + " (built with the race detector)", assumptions=CONC + [
    "locks are told apart by the type and field that holds them, not by object; two locks of one class are never held together",
    "a call through an interface or function value reaches the functions of that type that the library converts to it; user types reach user code, checked as handlers",
    "promoted methods of an embedded exported field that the library itself does not call are not checked (Socket.WritePacket called by a user, say)",
    "fields not declared guarded are not shared, or fixed before the object is published (locks.gvc lists the guarded ones)",
])
PROPS["C21"] = dict(note="Header copying, both Accept methods, the transports' header accessors, GetHeader/SetHeader and the upgrade are proved for every header map.", battery=["engine"], battery_note=BAT, assumptions=CONC + [
    "http.Header's Get and Set read and write the map they are called on",
])
PROPS["C22"] = dict(note="Handshake on both sides, the heartbeat goroutine and the deadlines of every read and write are proved for every configuration and first packet; periods are compared with the clock only in the battery.", battery=["engine"], battery_note=BAT, assumptions=CONC + [
    "json.Unmarshal into Parameters is a function of the text (jsid, jinterval, jtimeout); intervals announced by a server below 4e12 ms",
    "time.Time arithmetic on instants in nanoseconds without overflow (tns)",
])

REFL = [
    "reflection: a reflect.Value is a handle with the contracts of sio.gvc (ValueOf, Interface, Type, Kind, Elem, New, NumIn, In, Call, CallSlice); reflect.Call hands over exactly its arguments",
]
PROPS["C20"] = dict(note="Registration, invocation and both parsers' argument binding are proved for every signature, argument list and attachment list; which bytes decode to which value is left to encoding/json, msgp and the parameter's own UnmarshalBinary.", battery=["socketio"], battery_note=BAT, assumptions=REFL + [
    "json.Unmarshal into a list of pointers fills them in order, the i-th element into the i-th pointer, and reports an error when one of them cannot be decoded",
    "msgpUnmashalArg decodes one value from the front of its data and returns the rest (proved safe under C15)",
    "what a callback itself does is not part of the trace",
])

DISP = [
    "what a decoder does with a message is a function of decoder and message, recorded in ghosts (Add, Decoded, ParseData, UnmarshalArgs); what an encoder makes of a packet likewise (Encode); C13, C14 and C15 say what these functions are",
    "namespaces and their handlers are registered before packets are dispatched (their tables have no lock)",
]
PROPS["C16"] = dict(note="Numbering, registration before sending, and firing are proved for every argument list, table content and interleaving; concurrent acknowledgements are covered by the lock invariants, the battery replays them.", battery=["socketio"], race=True, battery_note=BAT + " (built with the race detector)", assumptions=CONC + REFL + DISP + [
    "atomic.AddUint64(p, 1) returns a number it has not returned for p before (fewer than 2^64 events)",
    "rely: an id is registered in a table only by the operation it was issued to",
])
PROPS["C17"] = dict(note="The dispatch of one packet, the sending of its answer, registration of handlers, and the way from the engine's message event to the dispatch are proved for every packet, handler table and failure.", battery=["socketio"], battery_note=BAT, assumptions=CONC + REFL + DISP)
PROPS["C18"] = dict(note="The dispatch of one packet, the sending of its answer, registration of handlers, and the way from the engine's message event to the dispatch are proved for every packet, handler table and failure.", battery=["socketio"], battery_note=BAT, assumptions=CONC + REFL + DISP)
PROPS["C19"] = dict(note="Attaching, detaching and the teardown of server and client connections are proved for every set of attached namespaces and every interleaving; that the engine reports the end of every session once its transport fails is C10 and C22 together with the battery.", battery=["socketio"], battery_note=BAT, assumptions=CONC + DISP + [
    "looking up a namespace is a function of the table and the name (nspknown, nspof)",
])

PROPS["C13"] = dict(note="Preprocessing, encoding down to the bytes of the text, the placeholder's own text, and the handing over of a packet's messages are proved for every packet and every failure of its arguments; the JSON text of values other than placeholders is left to encoding/json.", battery=["socketio"], battery_note=BAT, assumptions=CONC + [
    "json.Encoder writes the JSON text of the value it is given, calling MarshalJSON of what implements it, and does not change the value (ghosts jenc, jout)",
    "MarshalBinary of an argument changes nothing the encoder looks at (ghosts mb, mbout, mberr)",
    "packets have a type 0..6",
])

PROPS["C14"] = dict(note="Decoding of a text, reassembly, and the splitting of an event's data are proved for every message and every state of the decoder, down to what the three regular expressions match; what they match, and the JSON of names and of other data, is covered by the bounded battery only.", battery=["socketio"], battery_note=BAT, assumptions=[
    "regexp and encoding/json: number of matches, first match, replaced text, group and decoded value are functions of expression and text (rxn, rxhit, rxto, rxsub, rxexp, rxgrp, jok, jval, jsok, jsval); which texts the package's three expressions match is not proved (bounded: battery)",
    "the package's regular expressions compile and are never reassigned; the event expression has one group",
    "url.Parse is a function of its text (urlok, urlpath); strconv.ParseUint accepts exactly non-empty decimal texts below 2^64",
    "a decoder is used by one goroutine (the session's reader); a packet that waits for attachments belongs to its decoder alone; packets leave the decoder only through its channel, which nobody closes",
    "completeness (every well-formed text is accepted) is stated for announced counts up to the length of the text; a larger count cannot equal the number of placeholders",
])

PROPS["C15"] = dict(note="Writing and reading a packet (in memory and from a stream), the encoder's choice of form, the decoder's release of packets, the splitting of an event's data, and the decoding of arguments are proved for every packet and message: fields in any order, any number of unknown and repeated fields, every field's error, no panic, no more elements made than the message has bytes.", battery=["socketio"], battery_note=BAT, assumptions=[
    "tinylib/msgp v1.1.1: what can be read at a place of a message, its value and the place after it are functions of the place (mx*, sltok), for a slice and for a reader alike; what is left after reading is a proper suffix; Skip accepts only values that are there whole (mpwhole), and only those may be given to readers that make room first; appending keeps what was there",
    "a message is not changed while it is decoded, and a value is not changed while it is encoded",
    "encoding/json reads the fields of a packet's text as functions of the text (jpok, jh*, jp*) and writes a packet as jsonval of it; the struct tags of Packet are read by encoding/json only (bounded: battery)",
    "reflection as modelled in sio.smt2 and msgp.gvc; user types that implement msgp.Unmarshaler or msgp.Extension do not panic",
    "a value nested so deeply that decoding it exhausts the stack is out of reach (stack size is not modelled)",
    "a decoder's channel is closed by nobody",
])

NA = {
}
