# ---- request admission: C07 ----
guard engine.Socket.Conn by RWMutex
guard engine.Socket.transportName by RWMutex
guard engine.Socket.pending by RWMutex

# handled[r]: the handlers request r was passed to; accfor[c]: the request connection c was accepted for
ghost handled : [ref]bytes
ghost accfor : [ref]int

extern "(http.Handler).ServeHTTP" (h, w, r)
modifies handled[r], status[w], wout[w], any(hval)
ensures handled[r] == old(handled[r]) ++ bunit(h)

# originok(f, r): the origin check f lets request r pass
extern "dyn:func(*http.Request)(bool)" (f, r) (ok)
ensures ok <==> originok(f, r)

extern "(*websocket.Upgrader).Upgrade" (u, w, r, h) (c, err)
modifies status[w], wout[w], any(hval)
ensures err != nil ==> status[w] >= 400
ensures err == nil ==> c != nil && fresh(c) && (u.CheckOrigin != nil ==> originok(u.CheckOrigin, r))

spec "(*engine.websocketTransport).Accept" (t, w, r) (conn, err)
prop C07 C21
flag nopanic
requires t != nil && w != nil && r != nil
modifies status[w], wout[w], any(hval), t.Upgrader.CheckOrigin
ensures[connection] err == nil ==> conn != nil && fresh(conn)
ensures[refused] err != nil ==> status[w] >= 400
ensures[origin] err == nil && old(t.Upgrader.CheckOrigin) != nil ==> originok(old(t.Upgrader.CheckOrigin), r)
ensures[check kept] old(t.Upgrader.CheckOrigin) != nil ==> t.Upgrader.CheckOrigin == old(t.Upgrader.CheckOrigin)
ensures[C21:own copy of the headers] err == nil ==> typeof(conn, "*engine.websocketConn") && snapshot(as(unboxi(conn), "*engine.websocketConn").header, r.Header)
assumes err == nil ==> accfor[conn] == r

spec "(engine.pollingAcceptor).Accept" (p, w, r) (conn, err)
prop C07 C21
flag nopanic
requires w != nil && r != nil && status[w] == 0 && len(wout[w]) == 0
modifies status[w], wout[w], any(hval)
ensures[connection] err == nil ==> conn != nil && fresh(conn) && status[w] == 0 && len(wout[w]) == 0
ensures[origin] err == nil && p.CheckOrigin != nil ==> originok(p.CheckOrigin, r)
ensures[refused] err != nil ==> status[w] == 403
ensures[C21:own copy of the headers] err == nil ==> typeof(conn, "*engine.pollingConn") && snapshot(as(unboxi(conn), "*engine.pollingConn").header, r.Header)
assumes err == nil ==> accfor[conn] == r

# what a client asks for
extern "(*websocket.Dialer).Dial" (d, u, h) (c, resp, err)
ensures err == nil ==> c != nil && fresh(c)

spec "(*engine.websocketTransport).Dial" (t, u, h) (conn, err)
prop C22 C21
flag nopanic
requires t != nil
atcall[asks for version 3 over websocket] "(*websocket.Dialer).Dial" (d, u2, h2) squery(u2) == with(with(squery(u), "EIO", "3"), "transport", "websocket") && h2 == h
ensures[connection] err == nil ==> conn != nil && fresh(conn) && typeof(conn, "*engine.websocketConn") && as(unboxi(conn), "*engine.websocketConn").conn != nil
ensures[C21:own copy of the headers] err == nil ==> snapshot(as(unboxi(conn), "*engine.websocketConn").header, h)

define wsorigin(s) = s.websocketTransport.Upgrader.CheckOrigin
define plorigin(s) = s.pollingTransport.pollingAcceptor.CheckOrigin
define sameregistry(m) = (locked("engine.sessionManager.RWMutex") ==> mapdom(m.ß) == regd(m) && mapval(m.ß) == regv(m)) && (!locked("engine.sessionManager.RWMutex") ==> mapdom(m.ß) == old(mapdom(m.ß)) && mapval(m.ß) == old(mapval(m.ß)))
define refused(s, w, r) = status[w] == 400 && sameregistry(s.sessionManager) && sent[s.ßchan] == old(sent[s.ßchan]) && handled[r] == old(handled[r])

define rsess(m, k) = as(regv(m)[k], "*engine.Socket")
define newsess(b, m, r) = b != nil && fresh(b) && b.id in mapdom(m.ß) && mapval(m.ß)[b.id] == b && sid(b.id) && (forall k bytes {mapval(m.ß)[k]} :: k != b.id ==> (k in mapdom(m.ß) <==> k in regd(m)) && mapval(m.ß)[k] == regv(m)[k]) && accfor[atlock("engine.sessionManager.RWMutex", b.Conn)] == r

# the origin check of a server asks every checker it was given
extern "(engine.OriginChecker).CheckOrigin" (c, r) (ok)
flag handler
ensures ok <==> originallowed(c, r)

spec "engine.NewServer$1" (r, oc:[]engine.OriginChecker) (ok)
prop C07
flag nopanic
ensures[every checker allows] ok <==> (forall i int {backing(oc)[i]} :: off(oc) <= i && i < off(oc) + len(oc) ==> backing(oc)[i] == nil || originallowed(backing(oc)[i], r))
cand (i int) :: forall j int {backing(oc)[j]} :: off(oc) <= j && j <= off(oc) + i ==> backing(oc)[j] == nil || originallowed(backing(oc)[j], r)
cand (i int) :: forall j int {backing(oc)[j]} :: off(oc) <= j && j < off(oc) + i ==> backing(oc)[j] == nil || originallowed(backing(oc)[j], r)

spec "engine.NewServer" (interval, timeout, onOpen, oc) (s, err)
prop C07 C22
ensures[created] err == nil && s != nil && fresh(s) && s.sessionManager != nil && s.ßchan != nil && s.done != nil && !closed[s.done] && s.eventHandlers != nil
ensures[no sessions] mapdom(s.sessionManager.ß) == emptydom(s.sessionManager.ß)
ensures[C07:origin check wired] isclosure(wsorigin(s), "engine.NewServer$1") && captured(wsorigin(s), "oc") == oc && isclosure(plorigin(s), "engine.NewServer$1") && captured(plorigin(s), "oc") == oc
ensures[C22:heartbeat parameters] s.pingInterval == interval && s.pingTimeout == timeout
atcall[worker] "go engine.NewServer$2" (f) captured(f, "s") != nil && captured(f, "interval") == interval && captured(f, "timeout") == timeout && captured(f, "onOpen") == onOpen

spec "(*engine.Server).ServeHTTP" (s, w, r)
prop C07 C22
flag nopanic
requires s != nil && s.sessionManager != nil && s.ßchan != nil && s.done != nil && s.eventHandlers != nil && w != nil && r != nil && r.URL != nil
requires wsorigin(s) != nil && plorigin(s) != nil
requires status[w] == 0 && len(wout[w]) == 0 && randok(16) && untouched()
let v = urlq[r.URL]["EIO"]
let tr = urlq[r.URL]["transport"]
let id = urlq[r.URL]["sid"]
let m = s.sessionManager
let admitted = v == "3" && (tr == "websocket" || tr == "polling")
modifies status[w], wout[w], any(hval), handled[r], s.websocketTransport.Upgrader.CheckOrigin, map(m.ß), sent[s.ßchan], rpos[rand.Reader], any(heap("F.engine.Socket.Conn")), any(heap("F.engine.Socket.transportName")), any(heap("F.engine.Socket.pending")), any(heap("M.p.engine.Packet")), any(closed), any(took), ntook, lasttook, reader, any(rdeadline), any(rdasked), any(wdeadline), any(tried), taken, any(flout), any(flin), any(down), any(stopped), pausing, any(headersof), called, cso, ctyp, any(cdat)
ensures[version] v != "3" ==> refused(s, w, r)
ensures[transport] tr != "websocket" && tr != "polling" ==> refused(s, w, r)
ensures[looked up] admitted && len(id) > 0 ==> locked("engine.sessionManager.RWMutex") && sameregistry(m) && sent[s.ßchan] == old(sent[s.ßchan])
ensures[new session] admitted && len(id) == 0 && locked("engine.sessionManager.RWMutex") && sent[s.ßchan] != old(sent[s.ßchan]) ==> newsess(as(sent[s.ßchan][len(old(sent[s.ßchan]))], "*engine.Socket"), m, r)
ensures[one session] admitted && len(id) == 0 && sent[s.ßchan] != old(sent[s.ßchan]) ==> locked("engine.sessionManager.RWMutex") && len(sent[s.ßchan]) == len(old(sent[s.ßchan])) + 1 && sent[s.ßchan][0:len(old(sent[s.ßchan]))] == old(sent[s.ßchan])
ensures[served by the new session] admitted && len(id) == 0 && handled[r] != old(handled[r]) ==> sent[s.ßchan] != old(sent[s.ßchan]) && handled[r] == old(handled[r]) ++ bunit(atlock("engine.Socket.RWMutex", as(sent[s.ßchan][len(old(sent[s.ßchan]))], "*engine.Socket").Conn))
ensures[no session] admitted && len(id) == 0 && sent[s.ßchan] == old(sent[s.ßchan]) ==> handled[r] == old(handled[r]) && (closed[s.done] || sameregistry(m) && status[w] >= 400)
ensures[its own session] admitted && len(id) > 0 && handled[r] != old(handled[r]) ==> id in regd(m) && handled[r] == old(handled[r]) ++ bunit(atlock("engine.Socket.RWMutex", rsess(m, id).Conn))
ensures[served] admitted && len(id) > 0 && id in regd(m) && handled[r] == old(handled[r]) ==> locked("engine.Socket.RWMutex") && (!typeof(atlock("engine.Socket.RWMutex", rsess(m, id).Conn), "*engine.pollingConn") || atlock("engine.Socket.RWMutex", rsess(m, id).transportName) != tr)
atcall[C22:session deadlines] "(*engine.sessionManager).NewSession" (m2, c, rt, wt) m2 == m && rt == wraps(s.pingTimeout + s.pingInterval, 9223372036854775808) && wt == s.pingTimeout
atcall[only to change the transport] "(*engine.websocketTransport).Accept" (t, w2, r2) r2 == r && admitted && tr == "websocket" && (len(id) > 0 ==> id in regd(m) && atlock("engine.Socket.RWMutex", rsess(m, id).transportName) != tr)
atcall[only to change the transport] "(engine.pollingAcceptor).Accept" (t, w2, r2) r2 == r && admitted && tr == "polling" && (len(id) > 0 ==> id in regd(m) && atlock("engine.Socket.RWMutex", rsess(m, id).transportName) != tr)
atcall[upgrade of the session named] "(*engine.Server).replace" (s2, b, n, c) s2 == s && len(id) > 0 && id in regd(m) && b == rsess(m, id) && n == tr && fresh(c) && accfor[c] == r
ensures[unknown session] admitted && len(id) > 0 && !(id in regd(m)) ==> refused(s, w, r)
