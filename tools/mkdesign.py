import json,glob,os,re
V='/verif'
fig=dict(l.split(' ',1) for l in """C01 154/33/40/1498/19/2526
C02 49/8/12/1182/22/1870000
C03 22/3/5/196/0.2/2355
C04 54/9/18/276/0.6/6022
C05 182/34/42/2547/73/863
C06 182/34/42/1755/43/495
C07 104/11/22/543/3/239
C08 42/9/18/99/30/4540
C09 42/6/12/289/15/119
C10 91/11/22/856/11/131
C11 42/8/16/727/11/1250
C12 191/71/-/5153/47/19
C13 83/8/16/1769/33/4990
C14 53/8/15/5599/145/310155
C15 85/14/27/2836/59/55745
C16 91/11/22/1287/64/5203
C17 188/23/46/4075/31/414
C18 177/22/44/3941/28/240
C19 223/32/64/1991/60/57
C20 74/5/10/2273/43/9986
C21 66/12/24/305/27/460
C22 147/18/36/951/14/171""".splitlines())
D={}
D['C01']=("payload.gvc, roundtrip.gvc, payload.smt2",
"Contracts of both packets' WriteTo and decode, Payload.WriteTo, readFrom and ReadFrom: the writer appends exactly `wire(p)` (a recursive definition of the documented text), the reader accepts exactly the grammar `pok/pval/pend` over the bytes of the stream and reports the bytes consumed. 22 lemmas, by induction over digits, bytes and packets, show that the grammar applied to the wire form gives back the packets, for both formats. A reader is a fixed byte string delivered in arbitrary pieces, so chunking is universally quantified.",
"The round trip is a lemma over the contracts; no bound on number, type, length or chunking.")
D['C02']=("payload.gvc","decode, readFrom and ReadFrom for every stream and every error: `nopanic`, `atcall \"make\"` bounds what is asked for by what was received, and acceptance is an equivalence with the documented grammar.","Memory: constant factor of the bytes received for one packet (io.CopyN into a buffer is trusted for that).")
D['C03']=("websocket.gvc","WritePacket and ReadPacket against contracts of gorilla's NextWriter/NextReader/Write/Close/ReadAll: one message of the right kind with exactly type byte and data; every failure point is reported.","Statement restricted to what is returned with a nil error.")
D['C04']=("polling.gvc","Every operation of pollingConn for every state of its channels and deadlines, with other goroutines closing channels at any select: what was transferred (ghost counts on channels) in each result, precedence of an expired deadline, idempotent Close, Pause/Resume swapping the signal channels, the constructor.","That a blocked operation wakes up is bounded (battery with time limits).")
D['C05']=("pollhttp.gvc, http.gvc, payload.gvc","(*pollingConn).ServeHTTP for every request: the packets pushed are exactly the decoded list, in order, each by a completed send, before the answer; on every refused path nothing is pushed. The payload contracts are proved again here, so the format decoded is the announced one.","")
D['C06']=("pollhttp.gvc, http.gvc, payload.gvc","Same function, GET side: exactly one receive from the outbound queue, its bytes written once as the body in the negotiated form, Content-Type set before the first byte (header snapshot ghost), the JSONP frame as a byte-exact sequence with json.Marshal's literal, the index filter.","For writers that accept the response; a poll whose client goes away loses its packet, as the protocol does.")
D['C07']=("admission.gvc","Server.ServeHTTP, both Accept methods, NewServer's configuration and the origin check closure: result status, the registry ghost, which session serves, and the order accept-then-register, for every request and interleaving.","")
D['C08']=("session.gvc, session.smt2","Get, Remove and NewSession as map operations under the lock (whole map stated, not only the key touched); generateSidBytes byte by byte from 48 bits of time and 80 bits of the random source; the alphabet and length of the encoded id; that the alphabet is 32 distinct URL-safe characters is proved of the package initialiser.","Unpredictability of crypto/rand is assumed.")
D['C09']=("socket.gvc","Server.replace and upgrade, Socket.Read, FlushOut/FlushIn: a trace of what each transport was given, for every behaviour of both transports (all Conn operations may fail at any point): switch iff probe/echo/upgrade packet, outbound queue written in order to the new transport, inbound queue kept for processing in order, old closed and event once; otherwise new closed, old resumed; barrier released on all paths (also on panics of handlers).","Socket.Conn is written only with the session's barrier held (`heldat`, whole program).")
D['C10']=("socket.gvc","Server.handle, Client.handle, eventHandlers.On/fire and both reader loops: the calls made and packets emitted as a function of the packet, for every handler table.","")
D['C11']=("socket.gvc, socket.smt2","Emit (packet bytes for string/[]byte/JSON), submit, emitter.write/flush/loop/close, newEmitter, Socket.Close: the sequence handed to the transport equals the sequence received from the queue; a packet refused with ErrPaused is offered again; close flushes what was queued before.","Liveness of senders is not proved; packets queued concurrently with Close are outside the statement.")
D['C12']=("locks.gvc, guards next to the contracts, lockcheck.go","All 71 functions of both packages, under contract or not: path-sensitive lock balance (also when callees panic, also deferred), no lock where a handler value or user interface is called, guarded fields only with their lock, no blocking channel operation under a lock that its counterpart needs, acyclic acquisition order over the call graph, `heldat` for the fields that a `sync.Once` or barrier protects.","Locks are told apart by type and field; interface calls by rapid type analysis. The race detector runs over the battery.")
D['C13']=("codec.gvc, sio.smt2","preprocess (recursion over the argument list: placeholders numbered, attachments in order, type changed to the binary variant), encodeTo byte by byte, Encode, placeholder.MarshalJSON, Bytes.MarshalBinary, socket.emitPacket (message order under the lock, one packet at a time).","JSON text of other values is json's.")
D['C14']=("decode.gvc, decode.smt2","decode (type, count, namespace, id, data positions as a grammar over the text, both directions: what is accepted and what must be accepted), Add (state machine of the partial packet, frame for rejected messages), extractAttachments, extractEvent, ParseData, the constructor and Decoded.","What the three regular expressions match is bounded (battery, 310 000 texts incl. all short ones over a small alphabet).")
D['C15']=("packet.gvc, packet.smt2, msgp.gvc, sio.gvc","UnmarshalMsg/DecodeMsg as a fold over the map's fields (any order, repeats, unknown fields, each field's error), MarshalMsg/EncodeMsg/Msgsize, Encode's choice of form, Add's release, ParseData's splitting, msgpUnmashalArg and msgpReadMap (no panic, room made bounded by bytes left).","The bytes of msgp's primitives are msgp's; what is read at a place is a function of the place.")
D['C16']=("dispatch.gvc","newid, onAck, ackHandle.fireAck, socket.fireAck, socket.emit: id fresh, registered before emitPacket is called (`atcall`), removed before the callback is called, whole table stated otherwise unchanged.","Concurrent repeats are covered by the guard: lookup and removal are one critical section.")
D['C17']=("dispatch.gvc, sio.gvc","Server.process on every packet and table as an equality of traces (handlers run, packets emitted, attach/detach, errors reported) with the documented one; getnsp, fireEvent (inlined), registration (OnEvent, OnConnect, …), NewServer's closures that lead from engine messages to process.","")
D['C18']=("dispatch.gvc, sio.gvc","Client.process likewise, and Dial with its closures.","")
D['C19']=("dispatch.gvc, socket.gvc","attachnsp, detachnsp, detachall (every attached namespace's handler once; range over a map in any order), the close closures of server and client, NewServer$1 (open), Client.Close, the table of connections.","")
D['C20']=("sio.gvc, sio.smt2, msgp.gvc","newCallback (which signatures are refused), Call (argument vector position by position), both UnmarshalArgs.","Bytes to values is encoding/json's, msgp's and UnmarshalBinary's.")
D['C21']=("header.gvc","cloneHTTPHeader, copyHeaderFrom and the transports' methods over header maps with slices as values (fresh backing arrays: no aliasing), GetHeader/SetHeader, both Accept methods, the copy in replace.","")
D['C22']=("socket.gvc, admission.gvc, session.gvc","newSession/NewSession (open packet and timeouts), Server.ServeHTTP, engine.Dial and its goroutines (first packet, adoption of parameters, ping ticker), Socket.Read and emitter.write (deadline set before each operation, from the timeouts).","Clock behaviour in the battery only.")
props={json.loads(l)['id']:json.loads(l)['title'] for l in open(V+'/properties.jsonl')}
out=[]
for k in sorted(D):
    f,s,b=D[k]
    seeds=sorted(os.path.basename(x)[4:] for x in glob.glob(V+'/seeded/'+k+'-*'))
    a=fig[k].split('/')
    out.append(f"### {k} {props[k]}\n\n*Where*: {f}. {s}" + (f" *Bounds*: {b}" if b else "") + f"\n*Figures*: {a[0]} obligations / {a[1]} functions and lemmas / {a[2]} vacuity checks / {a[3]} queries / {a[4]} s / {a[5]} cases. *Catches*: {', '.join(seeds) or '-'}.\n")
h=open(V+'/tools/design_head.md').read(); t=open(V+'/tools/design_tail.md').read()
rows=[]
for s in sorted(glob.glob(V+'/seeded/*')):
    m=json.load(open(s+'/meta.json')); rows.append(f"| {os.path.basename(s)} | {m['needs']} | {m['what_it_breaks']} |")
open(V+'/DESIGN.md','w').write(h+'\n'.join(out)+t+"| id | needs | breaks |\n|---|---|---|\n"+'\n'.join(rows)+'\n')
