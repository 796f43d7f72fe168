# ---- C21: header snapshots ----
# the headers of a connection
ghost hdr : [ref]int
define headers(c) = as(hdr[c], "http.Header")
extern "(engine.Conn).httpHeader" (c) (h)
ensures h == hdr[c] && hown[h] == 0
flag noalloc

define same(v, w) = len(v) == len(w) && (forall i int {elemref(v, i)} :: 0 <= i && i < len(v) ==> v[i] == w[i])

spec "engine.cloneHTTPHeader" (h) (h2)
prop C21
flag nopanic
ensures[new] fresh(h2) && h2 != nil
ensures[same keys] forall k bytes {k in mapdom(h2)} :: k in mapdom(h2) <==> k in mapdom(h)
ensures[same values] forall k bytes {mapval(h2)[k]} :: k in mapdom(h2) ==> same(as(mapval(h2)[k], "[]string"), as(mapval(h)[k], "[]string"))
ensures[own copies] forall k bytes {mapval(h2)[k]} :: k in mapdom(h2) ==> fresh(mapval(h2)[k])
cand (g http.Header) :: forall k bytes {k in mapdom(g)} {visited()[k]} :: k in mapdom(g) <==> visited()[k]
cand forall k bytes {visited()[k]} :: visited()[k] ==> k in mapdom(h)
cand (g http.Header) :: forall k bytes {mapval(g)[k]} :: k in mapdom(g) ==> fresh(mapval(g)[k])
cand (g http.Header) :: forall k bytes {mapval(g)[k]} :: k in mapdom(g) ==> same(as(mapval(g)[k], "[]string"), as(mapval(h)[k], "[]string"))

# header map h2 holds its own copy of what map h holds
define snapshot(h2, h) = h2 != nil && fresh(h2) && (forall k bytes {k in mapdom(h2)} :: k in mapdom(h2) <==> k in mapdom(h)) && (forall k bytes {mapval(h2)[k]} :: k in mapdom(h2) ==> fresh(mapval(h2)[k]) && same(as(mapval(h2)[k], "[]string"), as(mapval(h)[k], "[]string")))

spec "engine.copyHeaderFrom" (header, conn)
prop C21
flag nopanic
requires header != nil && conn != nil
modifies map(header)
define had(k) = k in old(mapdom(header))
ensures[own headers kept] forall k bytes {mapval(header)[k]} :: had(k) ==> k in mapdom(header) && mapval(header)[k] == old(mapval(header))[k]
ensures[exactly the missing ones] forall k bytes {k in mapdom(header)} :: k in mapdom(header) <==> had(k) || k in old(mapdom(headers(conn)))
ensures[copies] forall k bytes {mapval(header)[k]} :: !had(k) && k in mapdom(header) ==> fresh(mapval(header)[k]) && same(as(mapval(header)[k], "[]string"), as(old(mapval(headers(conn)))[k], "[]string"))
cand forall k bytes {k in mapdom(header)} {visited()[k]} :: k in mapdom(header) <==> had(k) || visited()[k]
cand forall k bytes {visited()[k]} :: visited()[k] ==> k in old(mapdom(headers(conn)))
cand forall k bytes {mapval(header)[k]} :: had(k) ==> mapval(header)[k] == old(mapval(header))[k]
cand forall k bytes {mapval(header)[k]} :: !had(k) && k in mapdom(header) ==> fresh(mapval(header)[k])
cand forall k bytes {mapval(header)[k]} :: !had(k) && k in mapdom(header) ==> same(as(mapval(header)[k], "[]string"), as(old(mapval(headers(conn)))[k], "[]string"))

spec "(*engine.pollingConn).copyHeaderFrom" (p, conn)
prop C21
flag nopanic
requires p != nil && p.header != nil && conn != nil
modifies map(p.header)
ensures[own headers kept] forall k bytes {mapval(p.header)[k]} :: k in old(mapdom(p.header)) ==> k in mapdom(p.header) && mapval(p.header)[k] == old(mapval(p.header))[k]
ensures[exactly the missing ones] forall k bytes {k in mapdom(p.header)} :: k in mapdom(p.header) <==> k in old(mapdom(p.header)) || k in old(mapdom(headers(conn)))
ensures[copies] forall k bytes {mapval(p.header)[k]} :: !(k in old(mapdom(p.header))) && k in mapdom(p.header) ==> fresh(mapval(p.header)[k]) && same(as(mapval(p.header)[k], "[]string"), as(old(mapval(headers(conn)))[k], "[]string"))

spec "(*engine.websocketConn).copyHeaderFrom" (p, conn)
prop C21
flag nopanic
requires p != nil && p.header != nil && conn != nil
modifies map(p.header)
ensures[own headers kept] forall k bytes {mapval(p.header)[k]} :: k in old(mapdom(p.header)) ==> k in mapdom(p.header) && mapval(p.header)[k] == old(mapval(p.header))[k]
ensures[exactly the missing ones] forall k bytes {k in mapdom(p.header)} :: k in mapdom(p.header) <==> k in old(mapdom(p.header)) || k in old(mapdom(headers(conn)))
ensures[copies] forall k bytes {mapval(p.header)[k]} :: !(k in old(mapdom(p.header))) && k in mapdom(p.header) ==> fresh(mapval(p.header)[k]) && same(as(mapval(p.header)[k], "[]string"), as(old(mapval(headers(conn)))[k], "[]string"))

spec "(*engine.pollingConn).httpHeader" (p) (h)
prop C21
requires p != nil
ensures[its own] h == p.header

spec "(*engine.websocketConn).httpHeader" (p) (h)
prop C21
requires p != nil
ensures[its own] h == p.header

spec "(*engine.Socket).GetHeader" (s, key) (val)
prop C21
flag nopanic
requires psock(s)
modifies any(heap("F.engine.Socket.Conn")), any(heap("F.engine.Socket.transportName")), any(heap("F.engine.Socket.pending"))
rely[a session has a transport] "engine.Socket.RWMutex" (t) t.Conn != nil
atcall[of the current transport] "(http.Header).Get" (h, k) k == key && h == hdr[atlock("engine.Socket.RWMutex", s.Conn)] && held("engine.Socket.RWMutex")

spec "(*engine.Socket).SetHeader" (s, key, val)
prop C21
requires psock(s)
noframe
rely[a session has a transport] "engine.Socket.RWMutex" (t) t.Conn != nil
atcall[of the current transport] "(http.Header).Set" (h, k, v) k == key && v == val && h == hdr[atlock("engine.Socket.RWMutex", s.Conn)] && held("engine.Socket.RWMutex")
