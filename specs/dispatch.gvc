# ---- attached namespaces, acknowledgements and dispatch: C16, C17, C18, C19 (and the order of a packet's messages: C13) ----
monitor[C16,C17,C18,C19:attached] "socketio.socket.mutex" (s) s.acks != nil && (forall k bytes {s.acks[k]} :: k in s.acks ==> s.acks[k] != nil && s.acks[k].ackmap != nil)
monitor[C16,C17,C18,C19:pending] "socketio.ackHandle.mutex" (a) a.ackmap != nil && (forall i int {a.ackmap[i]} :: i in a.ackmap ==> a.ackmap[i] != nil)
# the parts of a connection
define ssock(s) = s != nil && psock(s.ß) && s.encoder != nil && s.decoder != nil
define sq(s) = sent[s.ß.emitter.packets]

spec "socketio.newSocket" (b, parser) (s)
prop C17 C18 C19
flag nopanic
requires psock(b) && parser != nil
ensures[complete] fresh(s) && s.ß == b && ssock(s) && s.acks != nil && fresh(s.acks) && mapdom(s.acks) == emptydom(s.acks)
extern "(socketio.Parser).Encoder" (p) (e)
ensures e != nil
extern "(socketio.Parser).Decoder" (p) (d)
ensures d != nil

# ---- sending a packet ----
define et(n) = as(etext[n], "[]byte")
define eb(n) = as(ebin[n], "[][]byte")
spec "(*socketio.socket).emitPacket" (s, p) (err)
prop C13 C16 C17 C18
flag nopanic
requires ssock(s) && p != nil
modifies p.Type, p.Namespace, p.attachments, p.buffer, mem(as(unboxs(p.Data), "[]interface{}")), etyp, ensp[len(etyp)], ehas, eid, edat, eargs[len(etyp)], etext[len(etyp)], ebin[len(etyp)], eerr[len(etyp)], sent[s.ß.emitter.packets], any(closed), senderr
assumes senderr == err
ghost senderr : int
let n = len(old(etyp))
let q = len(old(sq(s)))
ensures[encoded once] etyp == old(etyp) ++ bunit(old(p.Type)) && ensp[n] == old(p.Namespace) && edat == old(edat) ++ bunit(p.Data)
ensures[its id] (p.ID == nil ==> ehas == old(ehas) ++ bunit(0) && eid == old(eid) ++ bunit(0)) && (p.ID != nil ==> ehas == old(ehas) ++ bunit(1) && eid == old(eid) ++ bunit(*p.ID))
ensures[its arguments] typeof(p.Data, "[]interface{}") ==> eargs[n] == old(seq(as(unboxs(p.Data), "[]interface{}")))
ensures[namespace kept] slashed(old(p.Namespace)) ==> p.Namespace == old(p.Namespace)
ensures[not encoded] eerr[n] != nil ==> err == eerr[n] && sq(s) == old(sq(s))
ensures[C13:text message first] err == nil && et(n) != nil ==> len(sq(s)) > q && pkref(sq(s)[q]).msgType == 0 && pkref(sq(s)[q]).pktType == 4 && bytes(pkref(sq(s)[q]).data) == bytes(et(n))
ensures[C13:all of it] err == nil && et(n) != nil ==> len(sq(s)) == q + 1 + len(eb(n))
ensures[C13:all of it] err == nil && et(n) == nil ==> len(sq(s)) == q + len(eb(n))
ensures[C13:attachments in order] err == nil && et(n) != nil ==> (forall k int {sq(s)[k]} :: q + 1 <= k && k < len(sq(s)) ==> sentbin(sq(s)[k], eb(n)[k - q - 1]))
ensures[C13:attachments in order] err == nil && et(n) == nil ==> (forall k int {sq(s)[k]} :: q <= k && k < len(sq(s)) ==> sentbin(sq(s)[k], eb(n)[k - q]))
ensures[nothing else] sq(s)[0:q] == old(sq(s)) && len(sq(s)) >= q
define sentbin(x, d) = pkref(x).msgType == 1 && pkref(x).pktType == 4 && bytes(pkref(x).data) == bytes(d)
atcall[C13:the messages of a packet stay together] "(*engine.Socket).Emit" (b, ev, mt, a) b == s.ß && held("socketio.socket.sending") && atlock("socketio.socket.sending", len(sq(s))) == q
cand (i ivar) :: sq(s)[0:q] == old(sq(s)) && len(sq(s)) >= q
cand (i ivar) :: et(n) != nil ==> len(sq(s)) == q + 2 + i
cand (i ivar) :: et(n) == nil ==> len(sq(s)) == q + 1 + i
cand (i ivar) :: et(n) != nil ==> pkref(sq(s)[q]).msgType == 0
cand (i ivar) :: et(n) != nil ==> pkref(sq(s)[q]).pktType == 4
cand (i ivar) :: et(n) != nil ==> bytes(pkref(sq(s)[q]).data) == bytes(et(n))
cand (i ivar) :: et(n) != nil ==> (forall k int {sq(s)[k]} :: q + 1 <= k && k < len(sq(s)) ==> pkref(sq(s)[k]).msgType == 1)
cand (i ivar) :: et(n) != nil ==> (forall k int {sq(s)[k]} :: q + 1 <= k && k < len(sq(s)) ==> pkref(sq(s)[k]).pktType == 4)
cand (i ivar) :: et(n) != nil ==> (forall k int {sq(s)[k]} :: q + 1 <= k && k < len(sq(s)) ==> bytes(pkref(sq(s)[k]).data) == bytes(eb(n)[k - q - 1]))
cand (i ivar) :: et(n) == nil ==> (forall k int {sq(s)[k]} :: q <= k && k < len(sq(s)) ==> sentbin(sq(s)[k], eb(n)[k - q]))

# ---- attaching and detaching a namespace (the trace: 1 attached, 2 detached, and the name) ----
ghost nstk : bytes
ghost nstn : [ref]bytes
define acksd(s) = atlock("socketio.socket.mutex", mapdom(s.acks))
define acksv(s) = atlock("socketio.socket.mutex", mapval(s.acks))
define newd(s) = atunlock("socketio.socket.mutex", mapdom(s.acks))
define newv(s) = atunlock("socketio.socket.mutex", mapval(s.acks))
define othersame(s, n) = forall k bytes {k in newd(s)} :: k != n ==> (k in newd(s) <==> k in acksd(s)) && newv(s)[k] == acksv(s)[k]
spec "(*socketio.socket).attachnsp" (s, nsp)
prop C16 C17 C18 C19
flag nopanic
requires s != nil
modifies any(map(s.acks)), nstk, nstn[len(nstk)]
ensures[attached] locked("socketio.socket.mutex") && nsp in newd(s)
ensures[C16,C19:nothing pending] fresh(as(newv(s)[nsp], "*socketio.ackHandle")) && mapdom(as(newv(s)[nsp], "*socketio.ackHandle").ackmap) == emptydom(as(newv(s)[nsp], "*socketio.ackHandle").ackmap)
ensures[only it] othersame(s, nsp)
assumes nstk == old(nstk) ++ bunit(1) && nstn[len(old(nstk))] == nsp

spec "(*socketio.socket).detachnsp" (s, nsp)
prop C16 C17 C18 C19
flag nopanic
requires s != nil
modifies any(map(s.acks)), nstk, nstn[len(nstk)]
ensures[detached] locked("socketio.socket.mutex") && !(nsp in newd(s))
ensures[only it] othersame(s, nsp)
assumes nstk == old(nstk) ++ bunit(2) && nstn[len(old(nstk))] == nsp

# ---- acknowledgements ----
# issued: the id an operation was given and has not registered yet; it registers no other (rely: nobody else registers it)
ghost issued : int
ghost nhand : int
extern "atomic.AddUint64" (p, d) (n)
modifies issued, lastids[p]
ensures issued == n && lastids[p] == old(lastids[p]) ++ bunit(n)
ensures forall k int {old(lastids[p])[k]} :: 0 <= k && k < len(old(lastids[p])) ==> old(lastids[p])[k] != n
requires[ids do not repeat] d == 1
flag noalloc
ghost lastids : [ref]bytes

define pd(a) = atlock("socketio.ackHandle.mutex", mapdom(a.ackmap))
define pv(a) = atlock("socketio.ackHandle.mutex", mapval(a.ackmap))
define pnd(a) = atunlock("socketio.ackHandle.mutex", mapdom(a.ackmap))
define pnv(a) = atunlock("socketio.ackHandle.mutex", mapval(a.ackmap))
define alocked() = locked("socketio.ackHandle.mutex")
spec "(*socketio.ackHandle).onAck" (a, fn) (id)
prop C16
flag nopanic
panics vkind(rvof(fn)) != 19 || (exists i int {rtin(rvt(rvof(fn)), i)} :: 0 <= i && i < rnumin(rvt(rvof(fn))) && badparam(rtin(rvt(rvof(fn)), i)))
requires a != nil
modifies map(a.ackmap), nhand, issued, lastids[addr(a.id)]
rely[an id is registered only by the operation it was issued to] "socketio.ackHandle.mutex" (b) !(issued in b.ackmap)
assumes nhand == old(nhand) + 1
ensures[a new id] id == issued && lastids[addr(a.id)] == old(lastids[addr(a.id)]) ++ bunit(id)
ensures[registered under its own id] alocked() && id in pnd(a) && !(id in pd(a))
ensures[its own callback] *as(pnv(a)[id], "*socketio.callback").fn == rvof(fn)
ensures[others] forall i int {i in pnd(a)} :: i != id ==> (i in pnd(a) <==> i in pd(a)) && pnv(a)[i] == pv(a)[i]

spec "(*socketio.ackHandle).fireAck" (a, so, id, data, buffer, au) (err)
prop C16
flag nopanic
requires a != nil && au != nil
modifies map(a.ackmap), acked
modifies ran, rin[len(ran)], rspread[len(ran)], rout[len(ran)], unmd, uerr[len(unmd)], utyp[len(unmd)], udat[len(unmd)], ubin[len(unmd)], uval[len(unmd)]
define mine(a, id) = as(pv(a)[id], "*socketio.callback")
ensures[taken out] alocked() && !(id in pnd(a))
ensures[others] forall i int {i in pnd(a)} :: i != id ==> (i in pnd(a) <==> i in pd(a)) && pnv(a)[i] == pv(a)[i]
ensures[unknown runs nothing] !(id in pd(a)) ==> ran == old(ran) && unmd == old(unmd) && err == nil
ensures[its own callback once] id in pd(a) && err == nil ==> ran == old(ran) ++ bunit(*mine(a, id).fn)
ensures[not run on an error] id in pd(a) && err != nil ==> ran == old(ran)
ensures[its arguments] id in pd(a) ==> unmd == old(unmd) ++ bunit(au) && utyp[len(old(unmd))] == seq(mine(a, id).args) && udat[len(old(unmd))] == bytes(data) && ubin[len(old(unmd))] == buffer

assumes acked == old(acked) ++ bunit(a)
ghost acked : bytes

# the acknowledgements passed on: namespace, id
ghost ackid : bytes
ghost ackns : [ref]bytes
ghost ackon : bytes
spec "(*socketio.socket).fireAck" (s, nsp, id, data, buffer, au) (err)
prop C16 C17 C18
flag nopanic
requires s != nil && au != nil
modifies any(map(as(mapval(s.acks)[""], "*socketio.ackHandle").ackmap)), ackid, ackns[len(ackid)], ackon, acked
modifies ran, rin[len(ran)], rspread[len(ran)], rout[len(ran)], unmd, uerr[len(unmd)], utyp[len(unmd)], udat[len(unmd)], ubin[len(unmd)], uval[len(unmd)]
ensures[C16:namespace not attached] locked("socketio.socket.mutex") && (!(nsp in acksd(s)) ==> ran == old(ran) && unmd == old(unmd) && err == nil)
atcall[C16:its own namespace and id] "(*socketio.ackHandle).fireAck" (a, so, i, d, b, u) nsp in acksd(s) && a == acksv(s)[nsp] && i == id && d == data && b == buffer && u == au && typeof(so, "*socketio.nspSock") && as(unboxi(so), "*socketio.nspSock").socket == s && as(unboxi(so), "*socketio.nspSock").name == nsp
ensures[C16:passed on once] locked("socketio.socket.mutex") && (nsp in acksd(s) ==> acked == old(acked) ++ bunit(acksv(s)[nsp])) && (!(nsp in acksd(s)) ==> acked == old(acked))
assumes ackid == old(ackid) ++ bunit(id) && ackns[len(old(ackid))] == nsp && ackon == old(ackon) ++ bunit(s)

# ---- C16: emitting an event ----
extern "reflect.TypeOf" (x) (t)
ensures (t == nil <==> x == nil) && (x != nil ==> t == rvt(rvof(x)))
flag noalloc
spec "socketio.newid" (id) (p)
flag inline
spec "(*socketio.socket).emit" (s, nsp, event, args) (err)
prop C16 C19
flag nopanic hard
requires ssock(s)
panics exists i int {args[i]} :: 0 <= i && i < len(args) && args[i] != nil && badcb(args[i])
define badcb(f) = vkind(rvof(f)) != 19 || (exists i int {rtin(rvt(rvof(f)), i)} :: 0 <= i && i < rnumin(rvt(rvof(f))) && badparam(rtin(rvt(rvof(f)), i)))
noframe
let n = len(etyp)
let k = dcnt(old(seq(args)), len(args))
ensures[namespace not attached] locked("socketio.socket.mutex") && (!(nsp in acksd(s)) ==> err != nil && etyp == old(etyp) && sq(s) == old(sq(s)) && issued == old(issued))
ensures[C16:sent once] nsp in acksd(s) ==> etyp == old(etyp) ++ bunit(2) && ensp[n] == nsp
ensures[C16:no callback no id] nsp in acksd(s) && k == len(args) ==> ehas == old(ehas) ++ bunit(0)
ensures[C16:with its id] nsp in acksd(s) && k < len(args) ==> ehas == old(ehas) ++ bunit(1) && eid == old(eid) ++ bunit(issued)
ensures[C16:name and arguments] nsp in acksd(s) ==> len(eargs[n]) == 1 + k && eargs[n][0] == box(event) && (forall i int {old(seq(args))[i]} :: 0 <= i && i < len(args) && !isfn(old(seq(args))[i]) ==> eargs[n][1 + dcnt(old(seq(args)), i)] == old(seq(args))[i])
atcall[C16:registered before it is sent] "(*socketio.socket).emitPacket" (s2, p) p.ID != nil ==> nhand > old(nhand) && *p.ID == issued
atcall[C16:its own callback in its own namespace] "(*socketio.ackHandle).onAck" (a, fn) nsp in acksd(s) && a == acksv(s)[nsp] && isfn(fn)
define eA(args) = old(seq(args))
cand (i ivar) :: tick(i + 1) ==> dcnt(eA(args), i + 1) <= i + 1 && dcnt(eA(args), i + 1) >= 0
cand (i ivar, p *socketio.Packet) :: tick(i + 1) && dcnt(eA(args), i + 1) == i + 1 ==> p.ID == nil
cand (i ivar, p *socketio.Packet) :: tick(i + 1) && dcnt(eA(args), i + 1) < i + 1 ==> p.ID != nil
cand (p *socketio.Packet) :: p.ID != nil ==> *p.ID == issued
cand (p *socketio.Packet) :: p.ID != nil ==> nhand > old(nhand)
cand (p *socketio.Packet) :: p.ID != nil ==> fresh(p.ID)
cand nhand >= old(nhand)
cand (i ivar, data []interface{}) :: tick(i + 1) ==> len(data) == 1 + dcnt(eA(args), i + 1)
cand (i ivar, data []interface{}) :: forall j int {eA(args)[j]} :: 0 <= j && j <= i && !isfn(eA(args)[j]) ==> 0 <= dcnt(eA(args), j) && 1 + dcnt(eA(args), j) < len(data) && seq(data)[1 + dcnt(eA(args), j)] == eA(args)[j]
cand (data []interface{}) :: seq(data)[0] == box(event)

# ---- C19: the end of a connection ----
# looking up a namespace: a function of the store and the name (both stores look into their table: getnsp below)
extern "(socketio.nspStore).getnsp" (s, nsp) (n, ok)
ensures (ok <==> nspknown(s, nsp)) && n == nspof(s, nsp) && (ok ==> n != nil)
flag noalloc
define nsd(s, k) = as(nspof(s, k), "*socketio.namespace").onDisconnect
define tobedone(s, so, k) = k in acksd(so) && nspknown(s, k) && nsd(s, k) != nil
spec "socketio.detachall" (s, sock)
prop C19
flag nopanic hard
requires s != nil && sock != nil
modifies sock.acks, hfn, hso, harg, hcount, hlast, ndetach, lastdet
ensures[nothing is attached] locked("socketio.socket.mutex") && newd(sock) == emptydom(sock.acks) && fresh(atunlock("socketio.socket.mutex", sock.acks))
ensures[each attached namespace once] locked("socketio.socket.mutex") && (forall k bytes {hcount[k]} :: tobedone(s, sock, k) ==> hcount[k] == old(hcount)[k] + 1 && hlast[k] == nsd(s, k))
ensures[no other] locked("socketio.socket.mutex") && (forall k bytes {hcount[k]} :: !tobedone(s, sock, k) ==> hcount[k] == old(hcount)[k])
atcall[its own connection] "dyn:func(socketio.Socket)" (f, so) typeof(so, "*socketio.nspSock") && as(unboxi(so), "*socketio.nspSock").socket == sock && !held("socketio.socket.mutex")
cand forall k bytes {hcount[k]} {visited()[k]} :: visited()[k] && tobedone(s, sock, k) ==> hcount[k] == old(hcount)[k] + 1 && hlast[k] == nsd(s, k)
cand forall k bytes {hcount[k]} {visited()[k]} :: !(visited()[k] && tobedone(s, sock, k)) ==> hcount[k] == old(hcount)[k]
cand forall k bytes {visited()[k]} :: visited()[k] ==> k in acksd(sock)
assumes ndetach == old(ndetach) + 1 && lastdet == sock
ghost ndetach : int
ghost lastdet : int

spec "(*socketio.Server).getnsp" (s, nsp) (n, ok)
prop C19 C17
flag nopanic inline
requires s != nil
ensures[looked up] (ok <==> nsp in s.nsps) && (ok ==> n == s.nsps[nsp])
spec "(*socketio.Client).getnsp" (c, nsp) (n, ok)
prop C19 C18
flag nopanic inline
requires c != nil
ensures[looked up] (ok <==> nsp in c.nsps) && (ok ==> n == c.nsps[nsp])

monitor[C17,C19:sockets] "socketio.Server.sockLock" (s) s.sockets != nil && (forall b int {s.sockets[b]} :: b in s.sockets ==> ssock(s.sockets[b]) && s.sockets[b].ß == b)
define slock() = locked("socketio.Server.sockLock")
define ssd(s) = atlock("socketio.Server.sockLock", mapdom((*s).sockets))
define ssv(s) = atlock("socketio.Server.sockLock", mapval((*s).sockets))
define snd(s) = atunlock("socketio.Server.sockLock", mapdom((*s).sockets))
define snv(s) = atunlock("socketio.Server.sockLock", mapval((*s).sockets))
spec "socketio.NewServer$3" (b:*engine.Socket, server:**socketio.Server)
prop C19
flag nopanic
requires server != nil && *server != nil && b != nil
noframe
ensures[forgotten] slock() && !(b in snd(server)) && (forall k int {k in snd(server)} :: k != b ==> (k in snd(server) <==> k in ssd(server)) && snv(server)[k] == ssv(server)[k])
ensures[at most once] ndetach <= old(ndetach) + 1 && (ndetach != old(ndetach) ==> oncedone[addr(b.once)] && closed[b.emitter.done])
ensures[a known connection is detached] ndetach == old(ndetach) ==> !(b in ssd(server))
atcall[its own connection] "socketio.detachall" (st, so) typeof(st, "*socketio.Server") && unboxi(st) == *server && so.ß == b
spec "(*socketio.Client).Dial$2" (socket:**socketio.socket, c:**socketio.Client)
prop C19
flag nopanic
requires socket != nil && *socket != nil && c != nil && *c != nil && psock((*socket).ß)
noframe
ensures[closed and detached once] ndetach == old(ndetach) + 1 && lastdet == *socket && oncedone[addr((*socket).ß.once)] && closed[(*socket).ß.emitter.done]
atcall[its own connection] "socketio.detachall" (st, so) typeof(st, "*socketio.Client") && unboxi(st) == *c && so == *socket

# ---- C17, C18: dispatch of one packet ----
# T: the packet's type, N: its namespace, D: what the namespace's table says of N
define nsat(c, p) = as(mapval(c.nsps)[p.Namespace], "*socketio.namespace")
define tables(c) = forall k bytes {mapval(c.nsps)[k]} :: k in c.nsps ==> mapval(c.nsps)[k] != nil && as(mapval(c.nsps)[k], "*socketio.namespace").callbacks != nil && (forall e bytes {mapval(as(mapval(c.nsps)[k], "*socketio.namespace").callbacks)[e]} :: e in as(mapval(c.nsps)[k], "*socketio.namespace").callbacks ==> mapval(as(mapval(c.nsps)[k], "*socketio.namespace").callbacks)[e] != nil)
define isnsp(so, sock, n) = typeof(so, "*socketio.nspSock") && as(unboxi(so), "*socketio.nspSock").socket == sock && as(unboxi(so), "*socketio.nspSock").name == n
define cbof(ns, e) = as(mapval(ns.callbacks)[e], "*socketio.callback")
spec "(*socketio.Server).process" (s, sock, p)
assumes nproc == old(nproc) + 1
prop C17
flag nopanic
requires s != nil && ssock(sock) && p != nil && tables(s)
modifies p.Type, p.Namespace, p.Data, p.attachments, p.buffer, any(heap("M.iface")), any(map(sock.acks)), any(map(as(mapval(sock.acks)[""], "*socketio.ackHandle").ackmap)), nstk, any(nstn), any(closed), sent[sock.ß.emitter.packets], senderr, nproc
modifies ran, any(rin), any(rspread), any(rout), unmd, any(uerr), any(utyp), any(udat), any(ubin), any(uval), parsed, pdec, any(perr), any(pev), any(pdat), any(pbin), ackid, any(ackns), ackon, acked
modifies etyp, any(ensp), ehas, eid, edat, any(eargs), any(etext), any(ebin), any(eerr), hfn, hso, harg, hcount, hlast
let T = p.Type
let N = p.Namespace
let known = N in s.nsps
let ns = nsat(s, p)
let id = p.ID
let idv = *p.ID
let ne = len(etyp)
let np = len(parsed)
let nu = len(unmd)
let nr = len(ran)
let isev = T == 2 || T == 5
let isack = T == 3 || T == 6
let nh = len(hfn)
ensures[unknown runs nothing] !known ==> hfn == old(hfn) && ran == old(ran) && unmd == old(unmd) && nstk == old(nstk) && ackid == old(ackid) && parsed == old(parsed)
ensures[unknown answered with an error] !known && T > 1 ==> etyp == old(etyp) ++ bunit(4) && ensp[ne] == N && ehas == old(ehas) ++ bunit(0)
ensures[unknown connect and disconnect not answered] !known && T <= 1 ==> etyp == old(etyp)
ensures[connect] known && T == 0 ==> nstk == old(nstk) ++ bunit(1) && nstn[len(old(nstk))] == N
ensures[connect answered] known && T == 0 ==> etyp == old(etyp) ++ bunit(0) && ensp[ne] == N && ehas == old(ehas) ++ bunit(0)
ensures[connect handler] known && T == 0 ==> hfn == old(hfn) ++ bopt(senderr != nil && ns.onError != nil, ns.onError) ++ bopt(ns.onConnect != nil, ns.onConnect)
atcall[attached and answered first] "dyn:func(socketio.Socket)" (f, so) T == 0 ==> len(nstk) > len(old(nstk)) && len(etyp) > ne
ensures[disconnect] known && T == 1 ==> nstk == old(nstk) ++ bunit(2) && nstn[len(old(nstk))] == N && etyp == old(etyp) && hfn == old(hfn) ++ bopt(ns.onDisconnect != nil, ns.onDisconnect)
atcall[detached first] "dyn:func(socketio.Socket)" (f, so) T == 1 ==> len(nstk) > len(old(nstk))
ensures[attached and detached by their packets only] T > 1 ==> nstk == old(nstk)
ensures[parsed once] known && (isev || isack && id != nil) ==> parsed == old(parsed) ++ bunit(p) && pdec == old(pdec) ++ bunit(sock.decoder)
ensures[parsed when there is something to parse] !(known && (isev || isack && id != nil)) ==> parsed == old(parsed)
ensures[event name] known && isev && perr[np] == nil && pev[np] in ns.callbacks && pev[np] != "" ==> unmd == old(unmd) ++ bunit(sock.decoder) && utyp[nu] == seq(cbof(ns, pev[np]).args) && udat[nu] == pdat[np] && ubin[nu] == pbin[np]
ensures[event handler once] known && isev && perr[np] == nil && pev[np] in ns.callbacks && pev[np] != "" && uerr[nu] == nil ==> ran == old(ran) ++ bunit(*cbof(ns, pev[np]).fn)
ensures[no handler on an error] known && isev && perr[np] == nil && pev[np] in ns.callbacks && pev[np] != "" && uerr[nu] != nil ==> ran == old(ran)
ensures[no handler of another event] known && isev && (perr[np] != nil || !(pev[np] in ns.callbacks) || pev[np] == "") ==> ran == old(ran) && unmd == old(unmd)
ensures[events run event handlers only] !isev && !isack ==> ran == old(ran) && unmd == old(unmd)
define decodedServer(ns, np, nu) = perr[np] == nil && pev[np] != "" && (pev[np] in ns.callbacks ==> uerr[nu] == nil)
ensures[answered once] known && isev && decodedServer(ns, np, nu) && id != nil ==> etyp == old(etyp) ++ bunit(3) && ensp[ne] == N && ehas == old(ehas) ++ bunit(1) && eid == old(eid) ++ bunit(idv)
ensures[with the handler's results] known && isev && decodedServer(ns, np, nu) && id != nil && pev[np] in ns.callbacks ==> len(eargs[ne]) == len(rout[nr]) && (forall j int {eargs[ne][j]} :: 0 <= j && j < len(eargs[ne]) ==> eargs[ne][j] == rvi(rout[nr][j]))
ensures[with no results] known && isev && decodedServer(ns, np, nu) && id != nil && !(pev[np] in ns.callbacks) ==> len(eargs[ne]) == 0
ensures[not answered] known && isev && (!decodedServer(ns, np, nu) || id == nil) ==> etyp == old(etyp)
ensures[nothing but events and connects answered] known && T != 0 && !isev ==> etyp == old(etyp)
ensures[event failure] known && isev && perr[np] != nil ==> hfn == old(hfn) ++ bopt(ns.onError != nil, ns.onError) && (ns.onError != nil ==> harg[len(harg)-1] == perr[np])
ensures[event failure] known && isev && perr[np] == nil && pev[np] != "" && pev[np] in ns.callbacks && uerr[nu] != nil ==> hfn == old(hfn) ++ bopt(ns.onError != nil, ns.onError) && (ns.onError != nil ==> harg[len(harg)-1] == uerr[nu])
ensures[answer failure] known && isev && decodedServer(ns, np, nu) && id != nil ==> hfn == old(hfn) ++ bopt(senderr != nil && ns.onError != nil, ns.onError) && (senderr != nil && ns.onError != nil ==> harg[len(harg)-1] == senderr)
ensures[no failure] known && isev && (perr[np] == nil && pev[np] == "" || decodedServer(ns, np, nu) && id == nil) ==> hfn == old(hfn)
ensures[acknowledgement passed on] known && isack && id != nil && perr[np] == nil ==> ackid == old(ackid) ++ bunit(idv) && ackns[len(old(ackid))] == N && ackon == old(ackon) ++ bunit(sock) && hfn == old(hfn)
ensures[acknowledgement failure] known && isack && id != nil && perr[np] != nil ==> ackid == old(ackid) && hfn == old(hfn) ++ bopt(ns.onError != nil, ns.onError)
ensures[acknowledgement without an id] known && isack && id == nil ==> ackid == old(ackid) && hfn == old(hfn)
ensures[no other acknowledgement] !isack ==> ackid == old(ackid)
ensures[error packet] known && T == 4 ==> hfn == old(hfn) ++ bopt(ns.onError != nil, ns.onError) && (ns.onError != nil ==> harg[len(harg)-1] == old(p.Data))
ensures[unknown type] known && T > 6 ==> hfn == old(hfn) ++ bopt(ns.onError != nil, ns.onError)
atcall[its own connection and namespace] "dyn:func(socketio.Socket)" (f, so) isnsp(so, sock, N) && (T == 0 && f == ns.onConnect || T == 1 && f == ns.onDisconnect)
atcall[its own connection and namespace] "dyn:func(socketio.Socket,...interface{})" (f, so, e) (isnsp(so, sock, N) || !slashed(N) && len(etyp) > ne) && f == ns.onError
atcall[its own connection and namespace] "(*socketio.callback).Call" (cb, so, au, d, b) isnsp(so, sock, N) && cb == cbof(ns, pev[np]) && au == sock.decoder
atcall[its own connection] "(*socketio.socket).fireAck" (s2, n, i, d, b, au) s2 == sock && bytes(d) == pdat[np] && b == pbin[np] && au == sock.decoder
atcall[its own connection] "(*socketio.socket).emitPacket" (s2, q2) s2 == sock
cand (i ivar, d []interface{}) :: forall j int {backing(d)[j]} :: 0 <= j && j <= i ==> backing(d)[j] == rvi(rout[nr][j])
spec "(*socketio.Client).process" (s, sock, p)
assumes nproc == old(nproc) + 1
prop C18
flag nopanic
requires s != nil && ssock(sock) && p != nil && tables(s)
modifies p.Type, p.Namespace, p.Data, p.attachments, p.buffer, any(heap("M.iface")), any(map(sock.acks)), any(map(as(mapval(sock.acks)[""], "*socketio.ackHandle").ackmap)), nstk, any(nstn), any(closed), sent[sock.ß.emitter.packets], senderr, nproc
modifies ran, any(rin), any(rspread), any(rout), unmd, any(uerr), any(utyp), any(udat), any(ubin), any(uval), parsed, pdec, any(perr), any(pev), any(pdat), any(pbin), ackid, any(ackns), ackon, acked
modifies etyp, any(ensp), ehas, eid, edat, any(eargs), any(etext), any(ebin), any(eerr), hfn, hso, harg, hcount, hlast
let T = p.Type
let N = p.Namespace
let known = N in s.nsps
let ns = nsat(s, p)
let id = p.ID
let idv = *p.ID
let ne = len(etyp)
let np = len(parsed)
let nu = len(unmd)
let nr = len(ran)
let isev = T == 2 || T == 5
let isack = T == 3 || T == 6
let nh = len(hfn)
ensures[unknown runs nothing] !known ==> hfn == old(hfn) && ran == old(ran) && unmd == old(unmd) && nstk == old(nstk) && ackid == old(ackid) && parsed == old(parsed)
ensures[connect] known && T == 0 ==> nstk == old(nstk) ++ bunit(1) && nstn[len(old(nstk))] == N && etyp == old(etyp)
ensures[connect handler] known && T == 0 ==> hfn == old(hfn) ++ bopt(ns.onConnect != nil, ns.onConnect)
ensures[unknown not answered] !known ==> etyp == old(etyp)
atcall[attached first] "dyn:func(socketio.Socket)" (f, so) T == 0 ==> len(nstk) > len(old(nstk))
ensures[disconnect] known && T == 1 ==> nstk == old(nstk) ++ bunit(2) && nstn[len(old(nstk))] == N && etyp == old(etyp) && hfn == old(hfn) ++ bopt(ns.onDisconnect != nil, ns.onDisconnect)
atcall[detached first] "dyn:func(socketio.Socket)" (f, so) T == 1 ==> len(nstk) > len(old(nstk))
ensures[attached and detached by their packets only] T > 1 ==> nstk == old(nstk)
ensures[parsed once] known && (isev || isack && id != nil) ==> parsed == old(parsed) ++ bunit(p) && pdec == old(pdec) ++ bunit(sock.decoder)
ensures[parsed when there is something to parse] !(known && (isev || isack && id != nil)) ==> parsed == old(parsed)
ensures[event name] known && isev && perr[np] == nil && pev[np] in ns.callbacks && pev[np] != "" ==> unmd == old(unmd) ++ bunit(sock.decoder) && utyp[nu] == seq(cbof(ns, pev[np]).args) && udat[nu] == pdat[np] && ubin[nu] == pbin[np]
ensures[event handler once] known && isev && perr[np] == nil && pev[np] in ns.callbacks && pev[np] != "" && uerr[nu] == nil ==> ran == old(ran) ++ bunit(*cbof(ns, pev[np]).fn)
ensures[no handler on an error] known && isev && perr[np] == nil && pev[np] in ns.callbacks && pev[np] != "" && uerr[nu] != nil ==> ran == old(ran)
ensures[no handler of another event] known && isev && (perr[np] != nil || !(pev[np] in ns.callbacks) || pev[np] == "") ==> ran == old(ran) && unmd == old(unmd)
ensures[events run event handlers only] !isev && !isack ==> ran == old(ran) && unmd == old(unmd)
define decodedClient(ns, np, nu) = perr[np] == nil && pev[np] != "" && (pev[np] in ns.callbacks ==> uerr[nu] == nil)
ensures[answered once] known && isev && decodedClient(ns, np, nu) && id != nil ==> etyp == old(etyp) ++ bunit(3) && ensp[ne] == N && ehas == old(ehas) ++ bunit(1) && eid == old(eid) ++ bunit(idv)
ensures[with the handler's results] known && isev && decodedClient(ns, np, nu) && id != nil && pev[np] in ns.callbacks ==> len(eargs[ne]) == len(rout[nr]) && (forall j int {eargs[ne][j]} :: 0 <= j && j < len(eargs[ne]) ==> eargs[ne][j] == rvi(rout[nr][j]))
ensures[with no results] known && isev && decodedClient(ns, np, nu) && id != nil && !(pev[np] in ns.callbacks) ==> len(eargs[ne]) == 0
ensures[not answered] known && isev && (!decodedClient(ns, np, nu) || id == nil) ==> etyp == old(etyp)
ensures[nothing but events and connects answered] known && T != 0 && !isev ==> etyp == old(etyp)
ensures[event failure] known && isev && perr[np] != nil ==> hfn == old(hfn) ++ bopt(ns.onError != nil, ns.onError) && (ns.onError != nil ==> harg[len(harg)-1] == perr[np])
ensures[event failure] known && isev && perr[np] == nil && pev[np] != "" && pev[np] in ns.callbacks && uerr[nu] != nil ==> hfn == old(hfn) ++ bopt(ns.onError != nil, ns.onError) && (ns.onError != nil ==> harg[len(harg)-1] == uerr[nu])
ensures[answer failure] known && isev && decodedClient(ns, np, nu) && id != nil ==> hfn == old(hfn) ++ bopt(senderr != nil && ns.onError != nil, ns.onError) && (senderr != nil && ns.onError != nil ==> harg[len(harg)-1] == senderr)
ensures[no failure] known && isev && (perr[np] == nil && pev[np] == "" || decodedClient(ns, np, nu) && id == nil) ==> hfn == old(hfn)
ensures[acknowledgement passed on] known && isack && id != nil && perr[np] == nil ==> ackid == old(ackid) ++ bunit(idv) && ackns[len(old(ackid))] == N && ackon == old(ackon) ++ bunit(sock) && hfn == old(hfn)
ensures[acknowledgement failure] known && isack && id != nil && perr[np] != nil ==> ackid == old(ackid) && hfn == old(hfn) ++ bopt(ns.onError != nil, ns.onError)
ensures[acknowledgement without an id] known && isack && id == nil ==> ackid == old(ackid) && hfn == old(hfn)
ensures[no other acknowledgement] !isack ==> ackid == old(ackid)
ensures[error packet] known && T == 4 ==> hfn == old(hfn) ++ bopt(ns.onError != nil, ns.onError) && (ns.onError != nil ==> harg[len(harg)-1] == old(p.Data))
ensures[unknown type] known && T > 6 ==> hfn == old(hfn) ++ bopt(ns.onError != nil, ns.onError)
atcall[its own connection and namespace] "dyn:func(socketio.Socket)" (f, so) isnsp(so, sock, N) && (T == 0 && f == ns.onConnect || T == 1 && f == ns.onDisconnect)
atcall[its own connection and namespace] "dyn:func(socketio.Socket,...interface{})" (f, so, e) (isnsp(so, sock, N) || !slashed(N) && len(etyp) > ne) && f == ns.onError
atcall[its own connection and namespace] "(*socketio.callback).Call" (cb, so, au, d, b) isnsp(so, sock, N) && cb == cbof(ns, pev[np]) && au == sock.decoder
atcall[its own connection] "(*socketio.socket).fireAck" (s2, n, i, d, b, au) s2 == sock && bytes(d) == pdat[np] && b == pbin[np] && au == sock.decoder
atcall[its own connection] "(*socketio.socket).emitPacket" (s2, q2) s2 == sock
cand (i ivar, d []interface{}) :: forall j int {backing(d)[j]} :: 0 <= j && j <= i ==> backing(d)[j] == rvi(rout[nr][j])

# ---- C17, C18: from the engine's events to the dispatch ----
# what a decoder was given; what was reported to the global error handlers
ghost addd : bytes
ghost addt : bytes
ghost adda : [ref]bytes
ghost adderr : int
ghost gerr : bytes
extern "(socketio.Decoder).Add" (d, mt, data) (err)
modifies addd, addt, adda[len(addd)], adderr
ensures addd == old(addd) ++ bunit(d) && addt == old(addt) ++ bunit(mt) && adda[len(old(addd))] == bytes(data) && adderr == err
extern "(socketio.Decoder).Decoded" (d) (c)
ensures c == decchan(d) && c != nil
flag noalloc
extern "dyn:func(error)" (f, e)
flag handler noalloc
modifies gerr
ensures gerr == old(gerr) ++ bunit(e)
extern "dyn:func(interface{})" (f, e)
flag handler noalloc
modifies gerr
ensures gerr == old(gerr) ++ bunit(e)
define dchan(so) = recvd[decchan(so.decoder)]
define ssat(s, b) = as(ssv(s)[b], "*socketio.socket")
spec "socketio.NewServer$1" (b:*engine.Socket, parser:*socketio.Parser, server:**socketio.Server)
prop C17 C19
flag nopanic
requires parser != nil && *parser != nil && psock(b) && server != nil && *server != nil && (*server).nsps != nil && tables(*server)
noframe
let ne = len(etyp)
ensures[C19:remembered] slock() && b in snd(server) && as(snv(server)[b], "*socketio.socket").ß == b && fresh(as(snv(server)[b], "*socketio.socket"))
ensures[C19:others] slock() && (forall k int {k in snd(server)} :: k != b ==> (k in snd(server) <==> k in ssd(server)) && snv(server)[k] == ssv(server)[k])
ensures[C17:root attached] nstk == old(nstk) ++ bunit(1) && nstn[len(old(nstk))] == "/"
ensures[C17:root connect packet] etyp == old(etyp) ++ bunit(0) && ensp[ne] == "/" && ehas == old(ehas) ++ bunit(0)
atcall[C17:attached, announced and remembered first] "dyn:func(socketio.Socket)" (f, so) len(nstk) > len(old(nstk)) && len(etyp) > ne && slock() && b in snd(server) && unboxi(so) == snv(server)[b] && f == rootns(server).onConnect && "/" in (*server).nsps
atcall[C17:its own connection] "dyn:func(socketio.Socket,...interface{})" (f, so, e) unboxi(so) != nil && as(unboxi(so), "*socketio.socket").ß == b && f == rootns(server).onError && senderr != nil
define rootns(server) = as(mapval((*server).nsps)["/"], "*socketio.namespace")
ensures[C17:connect handler once] hfn == old(hfn) ++ bopt(senderr != nil && rootns(server).onError != nil, rootns(server).onError) ++ bopt(rootns(server).onConnect != nil, rootns(server).onConnect)

spec "socketio.NewServer$2" (b:*engine.Socket, mt:engine.MessageType, data:[]byte, server:**socketio.Server)
prop C17
flag nopanic
requires server != nil && *server != nil && tables(*server)
noframe
ensures[an unknown connection] slock() && (!(b in ssd(server)) ==> addd == old(addd) && nproc == old(nproc) && gerr == old(gerr))
ensures[given to its own decoder once] slock() && b in ssd(server) && mt <= 1 ==> addd == old(addd) ++ bunit(ssat(server, b).decoder) && addt == old(addt) ++ bunit(mt) && adda[len(old(addd))] == bytes(data)
ensures[neither text nor binary] mt > 1 ==> addd == old(addd) && nproc == old(nproc)
ensures[error reported once] slock() && b in ssd(server) && mt <= 1 ==> gerr == old(gerr) ++ bopt(adderr != nil && (*server).onError != nil, adderr)
ensures[each packet dispatched once] slock() && b in ssd(server) && mt <= 1 ==> (len(dchan(ssat(server, b))) == len(old(dchan(ssat(server, b)))) ==> nproc == old(nproc)) && nproc <= old(nproc) + 1
atcall[its own packet] "(*socketio.Server).process" (s, so, p) s == *server && so == ssat(server, b) && len(dchan(so)) > 0 && p == dchan(so)[len(dchan(so)) - 1]
ghost nproc : int
spec "(*socketio.Client).Dial$1" (b:*engine.Socket, mt:engine.MessageType, data:[]byte, socket:**socketio.socket, c:**socketio.Client)
prop C18
flag nopanic
requires socket != nil && ssock(*socket) && c != nil && *c != nil && tables(*c)
noframe
ensures[given to its decoder once] mt <= 1 ==> addd == old(addd) ++ bunit((*socket).decoder) && addt == old(addt) ++ bunit(mt) && adda[len(old(addd))] == bytes(data)
ensures[neither text nor binary] mt > 1 ==> addd == old(addd) && nproc == old(nproc)
ensures[error reported once] mt <= 1 ==> gerr == old(gerr) ++ bopt(adderr != nil && (*c).onError != nil, adderr)
ensures[each packet dispatched once] mt <= 1 ==> (len(dchan(*socket)) == len(old(dchan(*socket))) ==> nproc == old(nproc)) && nproc <= old(nproc) + 1
atcall[its own packet] "(*socketio.Client).process" (c2, so, p) c2 == *c && so == *socket && len(dchan(so)) > 0 && p == dchan(so)[len(dchan(so)) - 1]
# wiring: the engine calls these closures, and no others, for the events of its sessions
spec "socketio.NewServer" (interval, timeout, parser, oc) (server, err)
prop C17 C19
requires parser != nil
noframe
atcall[sessions] "engine.NewServer" (i, t, f, c) i == interval && t == timeout && c == oc && isclosure(f, "socketio.NewServer$1")
ensures[created] err == nil ==> server != nil && fresh(server) && server.engine != nil && server.sockets != nil && mapdom(server.sockets) == emptydom(server.sockets) && server.nsps != nil && mapdom(server.nsps) == emptydom(server.nsps)
atcall[events] "(*engine.eventHandlers).On" (e, ev, h) (ev == "message" ==> isclosure(h, "socketio.NewServer$2")) && (ev == "close" ==> isclosure(h, "socketio.NewServer$3"))
ensures[messages and ends are handled] err == nil ==> evcount["message"] == old(evcount)["message"] + 1 && evcount["close"] == old(evcount)["close"] + 1
spec "(*socketio.Client).Dial" (c, rawurl, header, dialer, parser) (err)
prop C18 C19
requires c != nil && parser != nil && dialer != nil
noframe
atcall[events] "(*engine.eventHandlers).On" (e, ev, h) (ev == "message" ==> isclosure(h, "(*socketio.Client).Dial$1")) && (ev == "close" ==> isclosure(h, "(*socketio.Client).Dial$2"))
ensures[messages and ends are handled] err == nil ==> evcount["message"] == old(evcount)["message"] + 1 && evcount["close"] == old(evcount)["close"] + 1
ensures[connected] err == nil ==> c.engine != nil && ssock(c.socket) && c.socket.ß == c.engine.Socket
ensures[refused] err != nil ==> evcount == old(evcount) && c.engine == old(c.engine) && c.socket == old(c.socket)

# ---- C17, C18: registering handlers ----
spec "(*socketio.namespace).OnEvent" (e, event, cb) (r)
prop C17 C18
flag nopanic
panics badcb(cb)
requires e != nil && e.callbacks != nil
modifies map(e.callbacks)
ensures[registered under its name] event in e.callbacks && fresh(cbof(e, event)) && *cbof(e, event).fn == rvof(cb)
ensures[others] forall k bytes {k in mapdom(e.callbacks)} :: k != event ==> (k in mapdom(e.callbacks) <==> k in old(mapdom(e.callbacks))) && mapval(e.callbacks)[k] == old(mapval(e.callbacks))[k]
ensures[chained] typeof(r, "*socketio.namespace") && unboxi(r) == e
spec "(*socketio.namespace).OnConnect" (e, fn) (r)
prop C17 C18
flag nopanic
requires e != nil
modifies e.onConnect
ensures[registered] e.onConnect == fn && unboxi(r) == e
spec "(*socketio.namespace).OnDisconnect" (e, fn) (r)
prop C17 C18 C19
flag nopanic
requires e != nil
modifies e.onDisconnect
ensures[registered] e.onDisconnect == fn && unboxi(r) == e
spec "(*socketio.namespace).OnError" (e, fn) (r)
prop C17 C18
flag nopanic
requires e != nil
modifies e.onError
ensures[registered] e.onError == fn && unboxi(r) == e
spec "(*socketio.Server).Namespace" (s, nsp) (r)
prop C17
flag nopanic
requires s != nil && s.nsps != nil && tables(s)
modifies map(s.nsps)
ensures[its own table] nsp in s.nsps && typeof(r, "*socketio.namespace") && unboxi(r) == mapval(s.nsps)[nsp]
ensures[kept] old(nsp in s.nsps) ==> mapval(s.nsps)[nsp] == old(mapval(s.nsps))[nsp]
ensures[new and empty] !old(nsp in s.nsps) ==> fresh(as(mapval(s.nsps)[nsp], "*socketio.namespace")) && mapdom(as(mapval(s.nsps)[nsp], "*socketio.namespace").callbacks) == emptydom(as(mapval(s.nsps)[nsp], "*socketio.namespace").callbacks)
ensures[others] forall k bytes {k in mapdom(s.nsps)} :: k != nsp ==> (k in mapdom(s.nsps) <==> k in old(mapdom(s.nsps))) && mapval(s.nsps)[k] == old(mapval(s.nsps))[k]
ensures[complete] tables(s)
spec "(*socketio.Client).Namespace" (s, nsp) (r)
prop C18
flag nopanic
requires s != nil && s.nsps != nil && tables(s)
modifies map(s.nsps)
ensures[its own table] nsp in s.nsps && typeof(r, "*socketio.namespace") && unboxi(r) == mapval(s.nsps)[nsp]
ensures[kept] old(nsp in s.nsps) ==> mapval(s.nsps)[nsp] == old(mapval(s.nsps))[nsp]
ensures[new and empty] !old(nsp in s.nsps) ==> fresh(as(mapval(s.nsps)[nsp], "*socketio.namespace")) && mapdom(as(mapval(s.nsps)[nsp], "*socketio.namespace").callbacks) == emptydom(as(mapval(s.nsps)[nsp], "*socketio.namespace").callbacks)
ensures[others] forall k bytes {k in mapdom(s.nsps)} :: k != nsp ==> (k in mapdom(s.nsps) <==> k in old(mapdom(s.nsps))) && mapval(s.nsps)[k] == old(mapval(s.nsps))[k]
ensures[complete] tables(s)
