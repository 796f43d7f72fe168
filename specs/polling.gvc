# ---- polling connection: C04 ----
define rdl(p) = aval[addr(p.readDeadline)]
define wdl(p) = aval[addr(p.writeDeadline)]
define pausech(p) = aval[addr(p.paused)]
define expired(d) = d != nil && !tzero(unboxi(d)) && tns(unboxi(d)) <= now
define hasdl(d) = d != nil && !tzero(unboxi(d))
# the function run by p.once has closed p.closed
monitor[closed] "engine.pollingConn.once" (p) closed[p.closed]

define pconn(p) = p != nil && p.closed != nil && typeof(pausech(p), "chan struct{}") && unboxi(pausech(p)) != 0 && (rdl(p) != nil ==> typeof(rdl(p), "time.Time")) && (wdl(p) != nil ==> typeof(wdl(p), "time.Time"))

spec "(*engine.pollingConn).ReadPacket" (p) (pkt, err)
prop C04
flag nopanic
requires pconn(p)
modifies recvd[p.in], emptied[p.in], any(closed), now
ensures[closed] old(closed[p.closed]) ==> err == engine.ErrPollingConnClosed
ensures[expired] old(expired(rdl(p))) ==> err != nil
ensures[one] err == nil ==> pkt != nil && recvd[p.in] == old(recvd[p.in]) ++ bunit(pkt)
ensures[none] err != nil ==> recvd[p.in] == old(recvd[p.in]) && pkt == nil
ensures[reason] err != nil ==> err == engine.ErrPollingConnClosed && closed[p.closed] || err == engine.ErrPollingConnPaused && closed[unboxi(pausech(p))] || err == engine.ErrPollingConnReadTimeout && hasdl(rdl(p))
atcall[released by close] "wait" (c) c == p.closed
atcall[released by pause] "wait" (c) c == unboxi(pausech(p))
atcall[released by deadline] "wait" (c) hasdl(rdl(p)) ==> c != nil && istimer[c] && (tns(unboxi(rdl(p))) <= now + 9223372036854775807 ==> fires[c] <= tns(unboxi(rdl(p))))

spec "(*engine.pollingConn).ReadPacketOut" (p, ctx) (pkt, err)
prop C04
flag nopanic
requires pconn(p) && ctx != nil
modifies recvd[p.out], emptied[p.out], any(closed), now
ensures[closed] old(closed[p.closed]) ==> err == engine.ErrPollingConnClosed
ensures[one] err == nil && recvd[p.out] != old(recvd[p.out]) ==> pkt != nil && recvd[p.out] == old(recvd[p.out]) ++ bunit(pkt)
ensures[noop] err == nil && recvd[p.out] == old(recvd[p.out]) ==> pkt != nil && fresh(pkt) && pkt.msgType == 0 && pkt.pktType == 6 && len(pkt.data) == 0 && closed[unboxi(pausech(p))]
ensures[none] err != nil ==> recvd[p.out] == old(recvd[p.out]) && pkt == nil
ensures[reason] err != nil ==> err == engine.ErrPollingConnClosed && closed[p.closed] || err == engine.ErrPollingRequestCanceled && closed[ctxdone[ctx]]
atcall[released by close] "wait" (c) c == p.closed
atcall[released by pause] "wait" (c) c == unboxi(pausech(p))
atcall[released by cancellation] "wait" (c) c == ctxdone[ctx]

spec "(*engine.pollingConn).WritePacket" (p, pkt) (err)
prop C04
flag nopanic
requires pconn(p) && pkt != nil
modifies sent[p.out], any(closed), now
ensures[closed] old(closed[p.closed]) ==> err == engine.ErrPollingConnClosed
ensures[expired] old(expired(wdl(p))) ==> err != nil
ensures[one] err == nil ==> sent[p.out] == old(sent[p.out]) ++ bunit(pkt)
ensures[none] err != nil ==> sent[p.out] == old(sent[p.out])
ensures[reason] err != nil ==> err == engine.ErrPollingConnClosed && closed[p.closed] || err == engine.ErrPollingConnPaused && closed[unboxi(pausech(p))] || err == engine.ErrPollingConnWriteTimeout && hasdl(wdl(p))
atcall[released by close] "wait" (c) c == p.closed
atcall[released by pause] "wait" (c) c == unboxi(pausech(p))
atcall[released by deadline] "wait" (c) hasdl(wdl(p)) ==> c != nil && istimer[c] && (tns(unboxi(wdl(p))) <= now + 9223372036854775807 ==> fires[c] <= tns(unboxi(wdl(p))))

spec "(*engine.pollingConn).SetReadDeadline" (p, t) (err)
prop C04
flag nopanic
requires pconn(p)
modifies aval[addr(p.readDeadline)], any(closed)
ensures[closed] old(closed[p.closed]) ==> err != nil
ensures[paused] old(closed[unboxi(pausech(p))]) ==> err != nil
ensures[set] err == nil ==> rdl(p) == box(t, "time.Time")
ensures[unchanged] err != nil ==> rdl(p) == old(rdl(p))
ensures[reason] err != nil ==> err == engine.ErrPollingConnClosed && closed[p.closed] || err == engine.ErrPollingConnPaused && closed[unboxi(pausech(p))]

spec "(*engine.pollingConn).SetWriteDeadline" (p, t) (err)
prop C04
flag nopanic
requires pconn(p)
modifies aval[addr(p.writeDeadline)], any(closed)
ensures[closed] old(closed[p.closed]) ==> err != nil
ensures[paused] old(closed[unboxi(pausech(p))]) ==> err != nil
ensures[set] err == nil ==> wdl(p) == box(t, "time.Time")
ensures[unchanged] err != nil ==> wdl(p) == old(wdl(p))
ensures[reason] err != nil ==> err == engine.ErrPollingConnClosed && closed[p.closed] || err == engine.ErrPollingConnPaused && closed[unboxi(pausech(p))]

spec "(*engine.pollingConn).Close" (p) (err)
prop C04
flag nopanic
requires pconn(p) && (closed[p.closed] ==> oncedone[addr(p.once)])
modifies any(closed), oncedone[addr(p.once)]
ensures[closed] closed[p.closed] && err == nil

spec "(*engine.pollingConn).Pause" (p) (err)
prop C04
flag nopanic
requires pconn(p) && !closed[unboxi(pausech(p))]
modifies closed[unboxi(pausech(p))]
ensures[paused] err == nil && closed[unboxi(pausech(p))]

spec "(*engine.pollingConn).Resume" (p) (err)
prop C04
flag nopanic
requires p != nil
modifies aval[addr(p.paused)]
ensures[resumed] err == nil && typeof(pausech(p), "chan struct{}") && unboxi(pausech(p)) != 0 && !closed[unboxi(pausech(p))] && fresh(unboxi(pausech(p)))

spec "engine.newPollingConn" (n, la, ra, h) (p)
prop C04 C21
ensures[C21:own copy of the headers] snapshot(p.header, h)
requires n >= 0
ensures[new] fresh(p) && pconn(p) && !closed[p.closed] && !closed[unboxi(pausech(p))] && rdl(p) == nil && wdl(p) == nil && p.in != p.out && chancap[p.in] == n && chancap[p.out] == n && !oncedone[addr(p.once)]
