# ---- a session's transport: C09 (upgrade), C11 (send queue), C10 (dispatch) ----
# What this operation did with connection c: the packets it offered (tried) and took (took), what it
# flushed out of the outgoing and incoming queues, whether it closed it (down) or paused it (stopped),
# and the connection whose request headers it took over.
ghost tried : [ref]bytes
ghost took : [ref]bytes
ghost flout : [ref]bytes
ghost flin : [ref]bytes
ghost down : [ref]bool
ghost stopped : [ref]bool
ghost headersof : [ref]int
# packets offered to a transport that did not refuse them for being paused
ghost taken : bytes
# packets read from any transport
ghost ntook : int
ghost lasttook : int
# the transport being read
ghost reader : int
ghost lastread : int
ghost nread : int
# the last connection paused
ghost pausing : int

extern "(engine.PacketReader).ReadPacket" (c) (p, err)
modifies took[c], ntook, lasttook
ensures err == nil ==> lasttook == p
ensures err == nil ==> ntook == old(ntook) + 1
ensures err != nil ==> ntook == old(ntook)
ensures err == nil ==> p != nil && fresh(p) && took[c] == old(took[c]) ++ bunit(p) && p.pktType == rtype(p) && p.msgType == rmsg(p) && bytes(p.data) == rdat(p) && 0 <= p.msgType && p.msgType <= 1
ensures err != nil ==> took[c] == old(took[c])

extern "(engine.PacketWriter).WritePacket" (c, p) (err)
modifies tried[c], taken
ensures tried[c] == old(tried[c]) ++ bunit(p)
ensures err == engine.ErrPollingConnPaused ==> taken == old(taken)
ensures err != engine.ErrPollingConnPaused ==> taken == old(taken) ++ bunit(p)
flag noalloc

# the deadlines in force on a transport
ghost rdeadline : [ref]int
ghost rdasked : [ref]int
ghost wdeadline : [ref]int
extern "(engine.Conn).SetReadDeadline" (c, t) (err)
modifies reader, rdeadline[c], rdasked[c]
ensures reader == c && rdasked[c] == tns(t) && (err == nil ==> rdeadline[c] == tns(t))
flag noalloc
extern "(engine.Conn).SetWriteDeadline" (c, t) (err)
modifies wdeadline[c]
ensures wdeadline[c] == tns(t)
flag noalloc

extern "(io.Closer).Close" (c) (err)
modifies down[c]
ensures down[c]
flag noalloc

extern "(engine.Conn).Pause" (c) (err)
modifies stopped[c], pausing
ensures pausing == c && (err == nil ==> stopped[c]) && (err != nil ==> stopped[c] == old(stopped[c]))
flag noalloc

extern "(engine.Conn).Resume" (c) (err)
modifies stopped[c]
ensures !stopped[c]
flag noalloc

extern "(engine.Conn).FlushOut" (c) (ps)
modifies flout[c]
ensures flout[c] == old(flout[c]) ++ seq(ps) && (forall i int {seq(ps)[i]} :: 0 <= i && i < len(ps) ==> seq(ps)[i] != nil)

extern "(engine.Conn).FlushIn" (c) (ps)
modifies flin[c]
ensures flin[c] == old(flin[c]) ++ seq(ps) && (forall i int {seq(ps)[i]} :: 0 <= i && i < len(ps) ==> seq(ps)[i] != nil)

extern "(engine.Conn).copyHeaderFrom" (c, d)
modifies headersof[c]
ensures headersof[c] == d
flag noalloc

extern "(engine.Conn).LocalAddr" (c) (a)
extern "(engine.Conn).RemoteAddr" (c) (a)

# at the beginning of an operation it has not done anything yet
define untouched() = (forall c int {took[c]} :: len(took[c]) == 0) && (forall c int {tried[c]} :: len(tried[c]) == 0) && (forall c int {stopped[c]} :: !stopped[c]) && (forall c int {down[c]} :: !down[c]) && (forall c int {flout[c]} :: len(flout[c]) == 0) && (forall c int {flin[c]} :: len(flin[c]) == 0)

spec "(*engine.Server).replace" (s, b, name, nc) (p)
prop C09 C21 C22
flag nopanic
requires s != nil && b != nil && nc != nil && psock(b)
requires untouched()
modifies any(took), ntook, lasttook, reader, any(rdeadline), any(rdasked), any(wdeadline), any(tried), taken, any(flout), any(flin), any(down), any(stopped), pausing, headersof[nc], now, b.Conn, b.transportName, b.pending, any(heap("M.p.engine.Packet"))
let up = took[nc]
ensures[probe] p != nil ==> len(took[nc]) == 2 && rtype(took[nc][0]) == 2
ensures[completed by upgrade] p != nil ==> p == took[nc][1] && rtype(p) == 5 && p.msgType == rmsg(p) && bytes(p.data) == rdat(p)
ensures[switched] p != nil ==> b.Conn == nc && b.transportName == name && !down[nc] && headersof[nc] == pausing
ensures[old transport closed] p != nil ==> down[pausing] && stopped[pausing]
ensures[outgoing kept] p != nil ==> tried[nc] == bunit(took[nc][0]) ++ flout[pausing]
ensures[incoming kept] p != nil ==> seq(b.pending) == atlock("engine.Socket.RWMutex", seq(b.pending)) ++ flin[pausing]
ensures[failed closes the new transport] p == nil ==> down[nc]
ensures[failed keeps the transport] p == nil && !locked("engine.Socket.RWMutex") ==> b.Conn == old(b.Conn) && b.transportName == old(b.transportName) && seq(b.pending) == old(seq(b.pending))
ensures[failed keeps the transport] p == nil && locked("engine.Socket.RWMutex") ==> b.Conn == atlock("engine.Socket.RWMutex", b.Conn) && b.transportName == atlock("engine.Socket.RWMutex", b.transportName) && seq(b.pending) == atlock("engine.Socket.RWMutex", seq(b.pending))
ensures[failed leaves the old transport usable] p == nil ==> (forall c int {stopped[c]} :: !stopped[c]) && (forall c int {down[c]} :: c != nc ==> !down[c]) && (forall c int {flout[c]} :: len(flout[c]) == 0 && len(flin[c]) == 0)
ensures[senders and readers released] !held("engine.Barrier") && !held("engine.Socket.RWMutex")
atcall[senders and readers held back] "(engine.PacketReader).ReadPacket" (c) c == nc && held("engine.Barrier")
atcall[pong echo] "(engine.PacketWriter).WritePacket" (c, q) c == nc && held("engine.Barrier") && (len(tried[nc]) == 0 ==> len(took[nc]) == 1 && q == took[nc][0] && rtype(q) == 2 && q.pktType == 3 && q.msgType == rmsg(q) && bytes(q.data) == rdat(q))
atcall[C09,C22:read timeout] "(engine.PacketReader).ReadPacket" (c) rdasked[c] == now + b.readTimeout
atcall[C09,C22:write timeout] "(engine.PacketWriter).WritePacket" (c, q) wdeadline[c] == now + b.writeTimeout
atcall[the current transport] "(engine.Conn).Pause" (c) c == atlock("engine.Socket.RWMutex", b.Conn) && held("engine.Barrier")
atcall[paused before the upgrade] "(engine.Conn).FlushOut" (c) c == pausing && stopped[c] && down[c] && len(took[nc]) == 2 && held("engine.Socket.RWMutex")
atcall[paused before the upgrade] "(engine.Conn).FlushIn" (c) c == pausing && stopped[c] && down[c] && len(took[nc]) == 2 && held("engine.Socket.RWMutex")
ensures[the transport paused is the one replaced] p != nil ==> pausing == atlock("engine.Socket.RWMutex", b.Conn)
rely[a session has a transport, and it is not one that has just been accepted] "engine.Socket.RWMutex" (t) t.Conn != nil && t.Conn != nc
rely[a transport is replaced only with the session's barrier held] "engine.Socket.RWMutex" (t) locked("engine.Socket.RWMutex") && held("engine.Barrier") ==> t.Conn == old(t.Conn)
cand (i int, ps []*engine.Packet) :: 0 <= i + 1 && i + 1 <= len(ps) && tried[nc] == bunit(took[nc][0]) ++ seq(ps)[0:i+1]
cand (i int, ps []*engine.Packet) :: 0 <= i && i <= len(ps) && tried[nc] == bunit(took[nc][0]) ++ seq(ps)[0:i]

spec "(*engine.Server).upgrade" (s, b, name, nc)
prop C09
flag inline
requires s != nil && psock(b) && nc != nil && untouched() && s.eventHandlers != nil && len(called) == 0
noframe
define lockedeh() = locked("engine.eventHandlers.RWMutex")
ensures[event once] lockedeh() ==> down[pausing] && len(took[nc]) == 2 && firedonce(s.eventHandlers, "upgrade", b, rmsg(took[nc][1]), rdat(took[nc][1]))
ensures[no event on failure] !lockedeh() ==> down[nc] && called == old(called)

# the handler of event ev, and no other, was called once, if there was one when it was looked up
define ehd(e) = atlock("engine.eventHandlers.RWMutex", mapdom(e.handlers))
define ehv(e) = atlock("engine.eventHandlers.RWMutex", mapval(e.handlers))
define firedonce(e, ev, b, t, d) = locked("engine.eventHandlers.RWMutex") && (!(ev in ehd(e)) ==> called == old(called)) && (ev in ehd(e) ==> called == old(called) ++ bunit(ehv(e)[ev]) && cso == old(cso) ++ bunit(b) && ctyp == old(ctyp) ++ bunit(t) && cdat[len(old(called))] == d)

spec "(*engine.eventHandlers).fire" (e, so, ev, t, d)
prop C10
flag nopanic inline
requires e != nil
modifies called, cso, ctyp, cdat[len(called)]
ensures[its own handler once] firedonce(e, ev, so, t, bytes(d))
ensures[no lock held] !held("engine.eventHandlers.RWMutex")

spec "(*engine.eventHandlers).On" (e, ev, h)
prop C10
flag nopanic
requires e != nil && h != nil
modifies map(e.handlers), evcount
assumes evcount == with(old(evcount), ev, old(evcount)[ev] + 1)
ghost evcount : strmap
ensures[registered] ev in mapdom(e.handlers) && mapval(e.handlers)[ev] == h
ensures[others] forall k bytes {mapval(e.handlers)[k]} :: k != ev ==> (k in mapdom(e.handlers) <==> k in ehd(e)) && mapval(e.handlers)[k] == ehv(e)[k]

# ---- the send queue ----
define queue(b) = sent[b.emitter.packets]
define wireevent(e) = e == "open" || e == "message" || e == "close" || e == "ping" || e == "pong"
define wirecode(e, c) = (e == "open" ==> c == 0) && (e == "close" ==> c == 1) && (e == "ping" ==> c == 2) && (e == "pong" ==> c == 3) && (e == "message" ==> c == 4)
define argdata(a, d) = (typeof(a, "[]byte") ==> d == bytes(as(unboxs(a), "[]byte"))) && (typeof(a, "string") ==> d == unboxb(a)) && (!typeof(a, "[]byte") && !typeof(a, "string") ==> d == jsonval(a))

spec "(*engine.emitter).submit" (e, p) (err)
prop C11
flag nopanic
requires e != nil && e.packets != nil && e.done != nil && p != nil
modifies sent[e.packets], any(closed)
ensures[queued] err == nil ==> sent[e.packets] == old(sent[e.packets]) ++ bunit(p)
ensures[refused] err != nil ==> sent[e.packets] == old(sent[e.packets]) && closed[e.done]
ensures[closed] old(closed[e.done]) ==> err != nil
atcall[released by close] "wait" (c) c == e.done

spec "(*engine.Socket).Emit" (s, ev, mt, args) (err)
prop C11
flag nopanic
requires psock(s)
modifies sent[s.emitter.packets], any(closed)
ensures[no wire form] !wireevent(ev) ==> queue(s) == old(queue(s)) && err == nil
ensures[one packet] err == nil && wireevent(ev) ==> len(queue(s)) == len(old(queue(s))) + 1 && queue(s)[0:len(old(queue(s)))] == old(queue(s))
ensures[C13:kept] forall k int {queue(s)[k]} :: 0 <= k && k < len(old(queue(s))) ==> queue(s)[k] == old(queue(s))[k]
ensures[type] err == nil && wireevent(ev) ==> wirecode(ev, pkref(queue(s)[len(old(queue(s)))]).pktType) && pkref(queue(s)[len(old(queue(s)))]).msgType == mt
ensures[data] err == nil && wireevent(ev) ==> argdata(args, bytes(pkref(queue(s)[len(old(queue(s)))]).data))
ensures[refused] err != nil ==> queue(s) == old(queue(s))
ensures[closed] old(closed[s.emitter.done]) && wireevent(ev) ==> err != nil
ensures[text and bytes are never refused] err != nil && (typeof(args, "[]byte") || typeof(args, "string")) ==> closed[s.emitter.done]

spec "(*engine.emitter).write" (e, p)
prop C11 C22
flag nopanic
requires e != nil && psock(e.so) && p != nil
modifies any(tried), taken, any(wdeadline), now, any(heap("F.engine.Socket.Conn")), any(heap("F.engine.Socket.transportName")), any(heap("F.engine.Socket.pending"))
atcall[C22:write timeout] "(engine.PacketWriter).WritePacket" (c, q) wdeadline[c] == now + e.so.writeTimeout
ensures[C11:offered until accepted] taken == old(taken) ++ bunit(p)
atcall[C11:the current transport] "(engine.PacketWriter).WritePacket" (c, q) q == p && c == atlock("engine.Socket.RWMutex", e.so.Conn) && held("engine.Socket.RWMutex") && taken == old(taken)
rely[a session has a transport] "engine.Socket.RWMutex" (t) t.Conn != nil
cand taken == old(taken)
cand (r error) :: r == engine.ErrPollingConnPaused && taken == old(taken) || r != engine.ErrPollingConnPaused && taken == old(taken) ++ bunit(p)

spec "(*engine.emitter).flush" (e)
prop C11
flag nopanic
requires e != nil && psock(e.so) && e.packets != nil
modifies any(tried), taken, any(wdeadline), now, any(heap("F.engine.Socket.Conn")), any(heap("F.engine.Socket.transportName")), any(heap("F.engine.Socket.pending")), recvd[e.packets], emptied[e.packets], any(closed)
ensures[all of the queue] emptied[e.packets]
ensures[in order, once] taken == old(taken) ++ grown(recvd[e.packets], old(recvd[e.packets])) && recvd[e.packets] == old(recvd[e.packets]) ++ grown(recvd[e.packets], old(recvd[e.packets]))
cand taken == old(taken) ++ grown(recvd[e.packets], old(recvd[e.packets])) && recvd[e.packets] == old(recvd[e.packets]) ++ grown(recvd[e.packets], old(recvd[e.packets]))
# what a sequence has grown by
define grown(a, b) = a[len(b):len(a)]

# waited[g]: wait group g was waited for
ghost waited : [ref]bool
extern "(*sync.WaitGroup).Wait" (g)
modifies waited[g]
ensures waited[g]
flag noalloc

spec "(*engine.emitter).loop" (e)
prop C11
flag nopanic
requires e != nil && psock(e.so) && e.packets != nil && e.done != nil
modifies any(tried), taken, any(wdeadline), now, any(heap("F.engine.Socket.Conn")), any(heap("F.engine.Socket.transportName")), any(heap("F.engine.Socket.pending")), recvd[e.packets], emptied[e.packets], any(closed)
ensures[ends when closed] closed[e.done]
ensures[in order, once] taken == old(taken) ++ grown(recvd[e.packets], old(recvd[e.packets])) && recvd[e.packets] == old(recvd[e.packets]) ++ grown(recvd[e.packets], old(recvd[e.packets]))
atcall[flushed before it is done] "(*sync.WaitGroup).Done" (g) g == addr(e.wg) && emptied[e.packets]
atcall[closed before it is done] "(*sync.WaitGroup).Done" (g) closed[e.done]
atcall[released by close] "wait" (c) c == e.done
cand taken == old(taken) ++ grown(recvd[e.packets], old(recvd[e.packets])) && recvd[e.packets] == old(recvd[e.packets]) ++ grown(recvd[e.packets], old(recvd[e.packets]))

ghost started : [ref]bool
spec "engine.newEmitter" (so, n) (e)
prop C11
requires so != nil && n >= 0
ensures[new] fresh(e) && e.so == so && e.packets != nil && e.done != nil && !closed[e.done] && len(sent[e.packets]) == 0
atcall[counted before it starts] "go" (f) started[addr(f.wg)]
atcall[its own loop] "go (*engine.emitter).loop" (f) fresh(f)

before[only Close closes it] "engine.Socket.once" (s) !closed[s.emitter.done]
monitor[closed] "engine.Socket.once" (s) closed[s.emitter.done]

spec "(*engine.emitter).close" (e)
prop C11
flag nopanic
requires e != nil && e.done != nil && !closed[e.done]
modifies any(closed), waited[addr(e.wg)]
ensures[closed] closed[e.done]
ensures[waits for the queue] waited[addr(e.wg)]

spec "(*engine.Socket).Close" (s) (err)
prop C11
flag nopanic
requires psock(s)
modifies any(closed), any(waited), oncedone[addr(s.once)], any(down), any(heap("F.engine.Socket.Conn")), any(heap("F.engine.Socket.transportName")), any(heap("F.engine.Socket.pending"))
ensures[closed] oncedone[addr(s.once)] && closed[s.emitter.done]
atcall[flushed before the transport is closed] "(io.Closer).Close" (c) waited[addr(s.emitter.wg)] && c == atlock("engine.Socket.RWMutex", s.Conn)
rely[a session has a transport] "engine.Socket.RWMutex" (t) t.Conn != nil

spec "(*engine.Socket).Read" (s) (p, err)
prop C09 C10 C22
flag nopanic
requires psock(s)
modifies any(took), ntook, lasttook, reader, any(rdeadline), any(rdasked), any(wdeadline), now, any(heap("F.engine.Socket.Conn")), any(heap("F.engine.Socket.transportName")), any(heap("F.engine.Socket.pending")), lastread, nread
rely[a session has a transport] "engine.Socket.RWMutex" (t) t.Conn != nil
rely[only the reader takes packets out of pending] "engine.Socket.RWMutex" (t) locked("engine.Socket.RWMutex") ==> len(t.pending) >= len(old(t.pending)) && seq(t.pending)[0:len(old(t.pending))] == old(seq(t.pending))
ensures[C09:pending first] err == nil && ntook == old(ntook) ==> p == atlock("engine.Socket.RWMutex", seq(s.pending))[0] && len(atlock("engine.Socket.RWMutex", s.pending)) > 0 && seq(s.pending) == atlock("engine.Socket.RWMutex", seq(s.pending))[1:len(atlock("engine.Socket.RWMutex", s.pending))]
ensures[C09:nothing dropped] err != nil || ntook != old(ntook) ==> seq(s.pending) == atlock("engine.Socket.RWMutex", seq(s.pending))
ensures[C09:not ended by a transport switch] err != nil && s.Conn != reader ==> err == engine.ErrPollingConnPaused
ensures[C08,C09,C10,C19:a packet] err == nil ==> p != nil
assumes err == nil ==> lastread == p && nread == old(nread) + 1
assumes err != nil ==> nread == old(nread)
atcall[C22:read timeout] "(engine.PacketReader).ReadPacket" (c) now + s.readTimeout == rdeadline[c]
atcall[C09:from the current transport] "(engine.PacketReader).ReadPacket" (c) c == atlock("engine.Socket.RWMutex", s.Conn) && len(atlock("engine.Socket.RWMutex", s.pending)) == 0
monitor[packets] "engine.Socket.RWMutex" (s) forall i int {backing(s.pending)[i]} :: off(s.pending) <= i && i < off(s.pending) + len(s.pending) ==> backing(s.pending)[i] != nil

spec "(*engine.pollingConn).FlushOut" (p) (ps)
prop C09
flag nopanic
requires p != nil && p.out != nil
modifies recvd[p.out], emptied[p.out], any(closed)
ensures[everything queued] emptied[p.out]
ensures[in order] recvd[p.out] == old(recvd[p.out]) ++ seq(ps)
cand (ps []*engine.Packet) :: recvd[p.out] == old(recvd[p.out]) ++ seq(ps)

spec "(*engine.pollingConn).FlushIn" (p) (ps)
prop C09
flag nopanic
requires p != nil && p.in != nil
modifies recvd[p.in], emptied[p.in], any(closed)
ensures[everything queued] emptied[p.in]
ensures[in order] recvd[p.in] == old(recvd[p.in]) ++ seq(ps)
cand (ps []*engine.Packet) :: recvd[p.in] == old(recvd[p.in]) ++ seq(ps)

spec "(*engine.websocketConn).Pause" (c) (err)
prop C09
flag nopanic
ensures[not supported] err != nil

# ---- dispatch ----
define reply(b) = pkref(queue(b)[len(old(queue(b)))])
define noevent() = called == old(called) && cso == old(cso) && ctyp == old(ctyp)

spec "(*engine.Server).handle" (s, b, p) (err)
prop C10
flag nopanic
requires s != nil && psock(b) && p != nil && s.eventHandlers != nil
modifies called, cso, ctyp, any(cdat), sent[b.emitter.packets], any(closed), any(waited), oncedone[addr(b.once)], any(down), any(heap("F.engine.Socket.Conn")), any(heap("F.engine.Socket.transportName")), any(heap("F.engine.Socket.pending")), nhandled
ensures[ping answered once] p.pktType == 2 && err == nil ==> len(queue(b)) == len(old(queue(b))) + 1 && queue(b)[0:len(old(queue(b)))] == old(queue(b)) && reply(b).pktType == 3 && reply(b).msgType == p.msgType && bytes(reply(b).data) == bytes(p.data)
ensures[ping not answered] p.pktType == 2 && err != nil ==> queue(b) == old(queue(b)) && closed[b.emitter.done]
ensures[ping event] p.pktType == 2 ==> firedonce(s.eventHandlers, "ping", b, p.msgType, bytes(p.data))
ensures[no other reply] p.pktType != 2 ==> queue(b) == old(queue(b))
ensures[message] p.pktType == 4 ==> firedonce(s.eventHandlers, "message", b, p.msgType, bytes(p.data)) && err == nil
ensures[pong] p.pktType == 3 ==> firedonce(s.eventHandlers, "pong", b, p.msgType, bytes(p.data)) && err == nil
ensures[close] p.pktType == 1 ==> firedonce(s.eventHandlers, "close", b, p.msgType, bytes(p.data)) && oncedone[addr(b.once)] && closed[b.emitter.done]
ensures[no effect] p.pktType == 0 || p.pktType == 5 || p.pktType == 6 ==> noevent() && err == nil
ensures[unknown] p.pktType > 6 ==> noevent() && err != nil
ensures[not closed] p.pktType != 1 ==> oncedone[addr(b.once)] == old(oncedone[addr(b.once)])
assumes nhandled == old(nhandled) + 1
ghost nhandled : int

spec "(*engine.Client).handle" (c, b, p) (err)
prop C10
flag nopanic
requires c != nil && psock(b) && p != nil && c.eventHandlers != nil
modifies called, cso, ctyp, any(cdat), any(closed), any(waited), oncedone[addr(b.once)], any(down), any(heap("F.engine.Socket.Conn")), any(heap("F.engine.Socket.transportName")), any(heap("F.engine.Socket.pending")), nhandled
ensures[no reply] queue(b) == old(queue(b))
ensures[message] p.pktType == 4 ==> firedonce(c.eventHandlers, "message", b, p.msgType, bytes(p.data)) && err == nil
ensures[close] p.pktType == 1 ==> firedonce(c.eventHandlers, "close", b, p.msgType, bytes(p.data)) && oncedone[addr(b.once)] && closed[b.emitter.done]
ensures[no effect] p.pktType <= 6 && p.pktType != 1 && p.pktType != 4 ==> noevent() && err == nil
ensures[unknown] p.pktType > 6 ==> noevent() && err != nil
ensures[not closed] p.pktType != 1 ==> oncedone[addr(b.once)] == old(oncedone[addr(b.once)])
assumes nhandled == old(nhandled) + 1

# what a received packet's handler gets: called with no lock held, see C12; the reader hands every packet it read to the dispatch, once, before it reads the next
spec "engine.NewServer$2$1" (b:*engine.Socket, s:*engine.Server)
prop C08 C10 C19
flag nopanic
requires psock(b) && s != nil && s.eventHandlers != nil && s.sessionManager != nil
requires nread == nhandled
noframe
atcall[C10:every packet is handled] "(*engine.Server).handle" (s2, b2, p) s2 == s && b2 == b && p == lastread && nread == nhandled + 1
atcall[C10:before the next is read] "(*engine.Socket).Read" (b2) b2 == b && nread == nhandled
ensures[C19:session closed] oncedone[addr(b.once)] && closed[b.emitter.done]
ensures[C08,C19:removed from the registry] locked("engine.sessionManager.RWMutex") && !(b.id in atunlock("engine.sessionManager.RWMutex", mapdom(s.sessionManager.ß)))
ensures[C19:close event] locked("engine.eventHandlers.RWMutex")
cand nread == nhandled

# ---- client ----
# what the JSON text of the handshake says
extern "json.Unmarshal" (d, v) (err)
modifies *as(unboxi(v), "*engine.Parameters")
modifies[C14:targets] *as(unboxi(v), "*interface{}"), *as(unboxi(v), "*string")
modifies[C15:targets] *as(unboxi(v), "*socketio.Packet")
modifies[C13,C20:targets] *as(unboxi(v), "*[]interface{}"), *as(unboxi(v), "*interface{}"), *as(unboxi(v), "*string"), mem(*as(unboxi(v), "*[]interface{}"))
modifies[C13,C14,C15,C20:trace] jtext, jinto, jerr
ensures[C13,C14,C15,C20:trace] jtext == bytes(d) && jerr == err
ensures[C13,C14,C15,C20:list] (typeof(v, "*[]interface{}") ==> jinto == old(seq(*as(unboxi(v), "*[]interface{}"))))
ensures[C14:value] typeof(v, "*interface{}") ==> ((err == nil) <==> jok(bytes(d))) && (err == nil ==> *as(unboxi(v), "*interface{}") == jval(bytes(d)))
ensures[C14:string] typeof(v, "*string") ==> ((err == nil) <==> jsok(bytes(d))) && (err == nil ==> *as(unboxi(v), "*string") == jsval(bytes(d)))
ensures[C15:packet] typeof(v, "*socketio.Packet") ==> (err == nil <==> jpok(bytes(d)))
define jtgt(v) = as(unboxi(v), "*socketio.Packet")
ensures[C15:packet] typeof(v, "*socketio.Packet") && err == nil ==> (jhty(bytes(d)) ==> jtgt(v).Type == jpty(bytes(d))) && (!jhty(bytes(d)) ==> jtgt(v).Type == old(jtgt(v).Type)) && (jhns(bytes(d)) ==> jtgt(v).Namespace == jpns(bytes(d))) && (!jhns(bytes(d)) ==> jtgt(v).Namespace == old(jtgt(v).Namespace)) && (jhda(bytes(d)) ==> jtgt(v).Data == jpda(bytes(d))) && (!jhda(bytes(d)) ==> jtgt(v).Data == old(jtgt(v).Data))
ensures[C15:packet] typeof(v, "*socketio.Packet") && err == nil ==> (jhid(bytes(d)) ==> ((jtgt(v).ID == nil) <==> jpidnil(bytes(d))) && (jtgt(v).ID != nil ==> *jtgt(v).ID == jpid(bytes(d)))) && (!jhid(bytes(d)) ==> jtgt(v).ID == old(jtgt(v).ID))
ensures typeof(v, "*engine.Parameters") && err == nil ==> as(unboxi(v), "*engine.Parameters").SID == jsid(bytes(d)) && as(unboxi(v), "*engine.Parameters").PingInterval == jinterval(bytes(d)) && as(unboxi(v), "*engine.Parameters").PingTimeout == jtimeout(bytes(d))

ghost dialed : int
extern "(engine.Dialer).Dial" (d, u, h) (c, err)
modifies dialed
ensures (err == nil ==> dialed == c) && (err != nil ==> dialed == 0)
ensures err == nil ==> c != nil && fresh(c) && len(took[c]) == 0 && len(tried[c]) == 0

spec "engine.newSocket" (conn, rt, wt, id) (s)
prop C22
flag inline
requires conn != nil
ensures[parameters] fresh(s) && s.Conn == conn && s.readTimeout == rt && s.writeTimeout == wt && s.id == id && psock(s)

spec "engine.Dial" (u, h, d) (c, err)
prop C22
flag nopanic
requires d != nil
modifies any(took), ntook, lasttook, any(down), dialed
let MS = 1000000
ensures[nothing left behind] err != nil && dialed != 0 ==> down[dialed]
ensures[handshake first] err == nil ==> c != nil && fresh(c) && psock(c.Socket) && len(took[c.Socket.Conn]) == 1 && rtype(took[c.Socket.Conn][0]) == 0
ensures[assigned id] err == nil ==> c.Socket.id == jsid(rdat(took[c.Socket.Conn][0]))
ensures[read timeout] err == nil && sane(rdat(took[c.Socket.Conn][0])) ==> c.Socket.readTimeout == (jinterval(rdat(took[c.Socket.Conn][0])) + jtimeout(rdat(took[c.Socket.Conn][0]))) * MS
ensures[write timeout] err == nil && sane(rdat(took[c.Socket.Conn][0])) ==> c.Socket.writeTimeout == jtimeout(rdat(took[c.Socket.Conn][0])) * MS
define sane(d) = 0 <= jinterval(d) && jinterval(d) <= 4000000000000 && 0 <= jtimeout(d) && jtimeout(d) <= 4000000000000
atcall[heartbeat] "go engine.Dial$1" (f) captured(f, "ß").Conn != nil && (sane(rdat(lasttook)) ==> captured(f, "pingInterval") == jinterval(rdat(lasttook)) * MS)

# the heartbeat: a ping every interval
spec "engine.Dial$1" (closeChan:chan struct{}, i:time.Duration, b:*engine.Socket)
prop C22
requires psock(b)
noframe
atcall[pings] "(*engine.Socket).Emit" (b2, ev, mt, a) b2 == b && ev == "ping" && mt == 0
atcall[every interval] "time.After" (d) d == i

spec "engine.Dial$2" (closeChan:chan struct{}, b:*engine.Socket, c:*engine.Client)
prop C10 C19
flag nopanic
requires psock(b) && c != nil && c.eventHandlers != nil
requires nread == nhandled
noframe
atcall[C10:every packet is handled] "(*engine.Client).handle" (c2, b2, p) c2 == c && b2 == b && p == lastread && nread == nhandled + 1
atcall[C10:before the next is read] "(*engine.Socket).Read" (b2) b2 == b && nread == nhandled
ensures[C19:session closed] oncedone[addr(b.once)] && closed[b.emitter.done]
ensures[C19:close event] locked("engine.eventHandlers.RWMutex")
cand nread == nhandled

spec "(*engine.Client).Close" (c) (err)
prop C19
flag nopanic
requires c != nil && psock(c.Socket) && c.closeChan != nil
modifies any(closed), oncedone[addr(c.once)], any(down), any(heap("F.engine.Socket.Conn")), any(heap("F.engine.Socket.transportName")), any(heap("F.engine.Socket.pending"))
rely[a session has a transport] "engine.Socket.RWMutex" (t) t.Conn != nil
ensures[closed] oncedone[addr(c.once)] && closed[c.closeChan]
ensures[transport closed] !old(oncedone[addr(c.once)]) && locked("engine.Socket.RWMutex") ==> down[atlock("engine.Socket.RWMutex", c.Socket.Conn)]
before[only Close closes it] "engine.Client.once" (c) !closed[c.closeChan]
monitor[closed] "engine.Client.once" (c) closed[c.closeChan]

spec "(*engine.Server).Close" (s) (err)
prop C19
flag nopanic
requires s != nil && s.done != nil
modifies any(closed), oncedone[addr(s.once)]
ensures[stopped] closed[s.done] && err == nil
before[only Close closes it] "engine.Server.once" (s) !closed[s.done]
monitor[closed] "engine.Server.once" (s) closed[s.done]

# the server's worker: opens each new session
ghost lastopen : int
ghost nopened : int
extern "dyn:func(*engine.Socket)" (f, b)
flag handler
modifies lastopen, nopened
ensures lastopen == b && nopened == old(nopened) + 1
spec "engine.NewServer$2" (s:*engine.Server, interval:time.Duration, timeout:time.Duration, done:chan struct{})
prop C10 C17 C19 C22
requires s != nil && s.ßchan != nil && interval >= 0 && timeout >= 0
noframe
atcall[open packet] "(*engine.Socket).Emit" (b, ev, mt, a) b == as(recvd[s.ßchan][len(recvd[s.ßchan])-1], "*engine.Socket") && ev == "open" && mt == 0 && typeof(a, "*engine.Parameters") && par(a).SID == b.id && par(a).PingInterval == interval / 1000000 && par(a).PingTimeout == timeout / 1000000 && len(par(a).Upgrades) == 1 && par(a).Upgrades[0] == "websocket"
define par(a) = as(unboxi(a), "*engine.Parameters")
atcall[C10,C17,C19:opened before anything of it is read] "go engine.NewServer$2$1" (f) captured(f, "ß") == lastopen
atcall[reader of the session] "go engine.NewServer$2$1" (f) captured(f, "ß") == as(recvd[s.ßchan][len(recvd[s.ßchan])-1], "*engine.Socket") && captured(f, "s") == s
atcall[announced] "dyn:func(*engine.Socket)" (f, b) b == as(recvd[s.ßchan][len(recvd[s.ßchan])-1], "*engine.Socket")
chaninv[a session is complete] "*engine.Socket" (b) psock(b)
