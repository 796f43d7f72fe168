# ---- WebSocket transport: C03 ----
# Messages completely handed to the network by connection c: wsn[c] of them, kind and content of
# message i in wsk[c][i], wsd[c][i].  A writer wcc[w] == c belongs to one message; wcbad[w]: a write failed.
ghost wsn : [ref]int
ghost wsk : [ref]intmap
ghost wsd : [ref]bytesmap
ghost wcc : [ref]int
ghost wck : [ref]int
ghost wcbad : [ref]bool
ghost wcopen : [ref]bool
ghost wsopen : [ref]int
# Messages arriving on connection c: kind rsk[c][i], content rsd[c][i]; rsn[c] of them have been taken;
# rsgood[c]: the network does not fail.
ghost rsn : [ref]int
ghost rsk : [ref]intmap
ghost rsd : [ref]bytesmap
ghost rsgood : [ref]bool

extern "(*websocket.Conn).NextWriter" (c, m) (w, err)
requires wsopen[c] == 0
modifies wsopen[c]
ensures err == nil ==> w != nil && fresh(w) && wcc[w] == c && wck[w] == m && !wcbad[w] && wcopen[w] && len(wout[w]) == 0 && wsopen[c] == w
ensures err != nil ==> wsopen[c] == 0

extern "(io.WriteCloser).Write" (w, p) (n, err)
modifies wout[w], wcbad[w]
ensures 0 <= n && n <= len(p) && (err == nil ==> n == len(p)) && (n < len(p) ==> err != nil)
ensures wout[w] == old(wout[w]) ++ bytes(p)[0:n]
ensures n == len(p) ==> wout[w] == old(wout[w]) ++ bytes(p)
ensures wcbad[w] == (old(wcbad[w]) || err != nil)

extern "(io.WriteCloser).Close" (w) (err)
requires wcopen[w]
let c = wcc[w]
modifies wcopen[w], wsopen[wcc[w]], wsn[wcc[w]], wsk[wcc[w]], wsd[wcc[w]]
ensures !wcopen[w] && wsopen[c] == 0
ensures wcbad[w] ==> err != nil
ensures err == nil ==> wsn[c] == old(wsn[c]) + 1 && wsk[c] == with(old(wsk[c]), old(wsn[c]), wck[w]) && wsd[c] == with(old(wsd[c]), old(wsn[c]), wout[w])
ensures err != nil ==> wsn[c] == old(wsn[c]) && wsk[c] == old(wsk[c]) && wsd[c] == old(wsd[c])

extern "(*websocket.Conn).WriteMessage" (c, m, d) (err)
requires wsopen[c] == 0
modifies wsn[c], wsk[c], wsd[c]
ensures err == nil ==> wsn[c] == old(wsn[c]) + 1 && wsk[c] == with(old(wsk[c]), old(wsn[c]), m) && wsd[c] == with(old(wsd[c]), old(wsn[c]), bytes(d))
ensures err != nil ==> wsn[c] == old(wsn[c]) && wsk[c] == old(wsk[c]) && wsd[c] == old(wsd[c])

extern "(*websocket.Conn).NextReader" (c) (m, r, err)
modifies rsn[c]
ensures err == nil ==> rsn[c] == old(rsn[c]) + 1 && m == rsk[c][old(rsn[c])] && (m == 1 || m == 2)
ensures err == nil ==> r != nil && fresh(r) && rdata[r] == rsd[c][old(rsn[c])] && rpos[r] == 0 && (rsgood[c] ==> rgood[r])
ensures rsgood[c] ==> err == nil

extern "(*websocket.Conn).ReadMessage" (c) (m, d, err)
modifies rsn[c]
ensures err == nil ==> rsn[c] == old(rsn[c]) + 1 && m == rsk[c][old(rsn[c])] && (m == 1 || m == 2) && bytes(d) == rsd[c][old(rsn[c])] && fresh(d)
ensures rsgood[c] ==> err == nil

# content of the message that carries a packet
define wsmsg(mt, pt, d) = bunit((pt + 48 * (1 - mt)) % 256) ++ d

spec "(*engine.websocketConn).WritePacket" (w, p) (err)
prop C03
flag nopanic
requires w.conn != nil && p != nil && wsopen[w.conn] == 0
let c = w.conn
modifies wsopen[c], wsn[c], wsk[c], wsd[c]
ensures[sent] err == nil ==> wsn[c] == old(wsn[c]) + 1 && wsd[c] == with(old(wsd[c]), old(wsn[c]), wsmsg(old(p.msgType), old(p.pktType), old(bytes(p.data))))
ensures[kind] err == nil ==> p.msgType <= 1 && wsk[c] == with(old(wsk[c]), old(wsn[c]), 1 + old(p.msgType))
ensures[failed] err != nil ==> wsn[c] == old(wsn[c]) && wsk[c] == old(wsk[c]) && wsd[c] == old(wsd[c])
ensures[closed] wsopen[c] == 0

spec "(*engine.websocketConn).ReadPacket" (w) (p, err)
prop C03
flag nopanic
requires w.conn != nil
let c = w.conn
let k = rsk[c][rsn[c]]
let d = rsd[c][rsn[c]]
modifies rsn[c]
ensures[one] err == nil ==> rsn[c] == old(rsn[c]) + 1 && p != nil && fresh(p)
ensures[fields] err == nil ==> (k == 1 || k == 2) && len(d) > 0 && p.msgType == k - 1 && p.pktType == (d[0] + 256 - 48 * (2 - k)) % 256 && bytes(p.data) == d[1:len(d)]
ensures[complete] rsgood[c] && len(d) > 0 ==> err == nil

# reading the message written for a packet yields the packet
lemma wsroundtrip(mt int, pt int, d bytes)
prop C03
hyp 0 <= mt && mt <= 1 && 0 <= pt && pt <= 255
let m = wsmsg(mt, pt, d)
goal len(m) > 0 && (m[0] + 256 - 48 * (2 - (1 + mt))) % 256 == pt && m[1:len(m)] == d && (1 + mt) - 1 == mt
