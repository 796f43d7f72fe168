# ---- Engine.IO payloads: C01, C02 ----

lemma dvge(s bytes, i int, a int)
prop C01 C02
hyp a >= 0
goal dv(s, i, a) >= a
induct len(s) - i
trigger dv(s, i, a)
use s[i]

lemma ndge(s bytes, i int)
prop C01 C02
goal nd(s, i) >= i
induct len(s) - i
trigger nd(s, i)
use s[i]

lemma rndge(s bytes, i int)
prop C01 C02
goal rnd(s, i) >= i
induct len(s) - i
trigger rnd(s, i)
use s[i]

lemma rdvge(s bytes, i int, a int)
prop C01 C02
hyp a >= 0
goal rdv(s, i, a) >= a
induct len(s) - i
trigger rdv(s, i, a)
use s[i]

spec "(*engine.Packet).decode" (p, pr) (n, err)
prop C01 C02
flag nopanic
requires pr != nil && len(rdata[pr]) <= maxlen && 0 <= rpos[pr] && rpos[pr] <= len(rdata[pr])
let s = rdata[pr]
let i = rpos[pr]
modifies *p, rpos[pr]
ensures[count] n == rpos[pr] - i && i <= rpos[pr] && rpos[pr] <= len(s)
ensures[sound] err == nil ==> pwf(false, s, i) && rpos[pr] == pend(false, s, i)
ensures[fields] err == nil ==> p.msgType == pmt(false, s, i) && p.pktType == ppt(false, s, i) && bytes(p.data) == pdat(false, s, i)
ensures[complete] rgood[pr] && pwf(false, s, i) ==> err == nil
ensures[eof] err == io.EOF ==> n == 0 && i == len(s)
ensures[end] rgood[pr] && i == len(s) ==> err == io.EOF
atcall[C02:memory] "make" (l, c) c <= rpos[pr] - i
cand nd(s, rpos[pr]) == nd(s, i) && i <= rpos[pr] && rpos[pr] <= len(s)
cand (l int) :: dv(s, rpos[pr], l) == dv(s, i, 0) && 0 <= l && l <= 9223372036854775807
cand (l int) :: l == rpos[pr] - i

spec "(*engine.packet2).decode" (p, pr) (n, err)
prop C01 C02
flag nopanic
requires pr != nil && len(rdata[pr]) <= maxlen && 0 <= rpos[pr] && rpos[pr] <= len(rdata[pr])
let s = rdata[pr]
let i = rpos[pr]
modifies *p, rpos[pr]
ensures[count] n == rpos[pr] - i && i <= rpos[pr] && rpos[pr] <= len(s)
ensures[sound] err == nil ==> pwf(true, s, i) && rpos[pr] == pend(true, s, i)
ensures[fields] err == nil ==> p.msgType == pmt(true, s, i) && p.pktType == ppt(true, s, i) && bytes(p.data) == pdat(true, s, i)
ensures[complete] rgood[pr] && pwf(true, s, i) ==> err == nil
ensures[eof] err == io.EOF ==> n == 0 && i == len(s)
ensures[end] rgood[pr] && i == len(s) ==> err == io.EOF
atcall[C02:memory] "make" (l, c) c <= rpos[pr] - i
cand rnd(s, rpos[pr]) == rnd(s, i + 1) && i + 1 <= rpos[pr] && rpos[pr] <= len(s)
cand (l int) :: rdv(s, rpos[pr], l) == rdv(s, i + 1, 0) && 0 <= l && l <= 9223372036854775807
cand (l int) :: l == rpos[pr] - i

spec "(*engine.Payload).readFrom" (p, r) (n, err)
prop C01 C02
flag nopanic
requires r != nil && len(rdata[r]) <= maxlen && 0 <= rpos[r] && rpos[r] <= len(rdata[r])
let s = rdata[r]
let i = rpos[r]
let x = p.xhr2
let k0 = len(p.packets)
modifies p.packets, rpos[r], mem(p.packets)
ensures[count] n == rpos[r] - i && i <= rpos[r] && rpos[r] <= len(s)
ensures[sound] err == nil ==> pall(x, s, i) && rpos[r] == len(s)
ensures[complete] rgood[r] && pall(x, s, i) ==> err == nil
ensures[number] k0 == 0 ==> ppos(x, s, i, len(p.packets)) == rpos[r] || err != nil
ensures[fields] k0 == 0 ==> (forall j int {elemref(p.packets, j)} :: 0 <= j && j < len(p.packets) ==> pwf(x, s, ppos(x, s, i, j)) && p.packets[j].msgType == pmt(x, s, ppos(x, s, i, j)) && p.packets[j].pktType == ppt(x, s, ppos(x, s, i, j)) && bytes(p.packets[j].data) == pdat(x, s, ppos(x, s, i, j)))
ensures[never eof] err != io.EOF
cand (m int64) :: m == rpos[r] - i
cand i <= rpos[r] && rpos[r] <= len(s)
cand pall(x, s, i) <==> pall(x, s, rpos[r])
cand k0 == 0 ==> tick(len(p.packets)) && ppos(x, s, i, len(p.packets)) == rpos[r]
cand k0 == 0 ==> (forall j int {elemref(p.packets, j)} :: 0 <= j && j < len(p.packets) ==> pwf(x, s, ppos(x, s, i, j)) && p.packets[j].msgType == pmt(x, s, ppos(x, s, i, j)) && p.packets[j].pktType == ppt(x, s, ppos(x, s, i, j)) && bytes(p.packets[j].data) == pdat(x, s, ppos(x, s, i, j)))

spec "(*engine.Payload).ReadFrom" (p, r) (n, err)
prop C01 C02
flag nopanic
requires r != nil && len(rdata[r]) <= maxlen && rpos[r] == 0 && len(p.packets) == 0
let s = rdata[r]
let x = p.xhr2
modifies p.packets, rpos[r], mem(p.packets)
ensures[sound] err == nil ==> pall(x, s, 0) && n == len(s)
ensures[complete] rgood[r] && pall(x, s, 0) ==> err == nil
ensures[number] err == nil ==> ppos(x, s, 0, len(p.packets)) == len(s)
ensures[fields] (forall j int {elemref(p.packets, j)} :: 0 <= j && j < len(p.packets) ==> pwf(x, s, ppos(x, s, 0, j)) && p.packets[j].msgType == pmt(x, s, ppos(x, s, 0, j)) && p.packets[j].pktType == ppt(x, s, ppos(x, s, 0, j)) && bytes(p.packets[j].data) == pdat(x, s, ppos(x, s, 0, j)))

spec "(*engine.Packet).WriteTo" (p, w) (n, err)
prop C01
flag nopanic
requires w != nil && p.msgType <= 1 && len(p.data) <= 70368744177664
reveal len(bytes(p.data))
modifies wout[w]
ensures[wire] err == nil ==> wout[w] == old(wout[w]) ++ wire(false, old(p.msgType), old(p.pktType), old(bytes(p.data)))
ensures[count] err == nil ==> n == len(wire(false, old(p.msgType), old(p.pktType), old(bytes(p.data))))
ensures[complete] wgood[w] ==> err == nil

spec "(*engine.packet2).WriteTo" (p, w) (n, err)
prop C01
flag nopanic
requires w != nil && p.msgType <= 1 && len(p.data) <= 70368744177664
reveal len(bytes(p.data))
let L = len(p.data) + 1
modifies wout[w]
ensures[wire] err == nil ==> wout[w] == old(wout[w]) ++ wire(true, old(p.msgType), old(p.pktType), old(bytes(p.data)))
ensures[count] err == nil ==> n == len(wire(true, old(p.msgType), old(p.pktType), old(bytes(p.data))))
ensures[complete] wgood[w] ==> err == nil
cand (l int, b []byte) :: tick(l) && l >= 0 && (l > 0 ==> ditoa(L) == ditoa(l) ++ rev(bytes(b))) && (l == 0 ==> ditoa(L) == rev(bytes(b)))
cand (b []byte, lb []byte, i int) :: 0 <= i && i <= len(lb) && bytes(b) == rev(bytes(lb)[i:len(lb)])
cand (b []byte, lb []byte, i int) :: 0 <= i + 1 && i + 1 <= len(lb) && bytes(b) == rev(bytes(lb)[i + 1:len(lb)])

spec "(engine.Payload).WriteTo" (p, w) (n, err)
prop C01
flag nopanic
requires w != nil
requires forall j int {elemref(p.packets, j)} :: 0 <= j && j < len(p.packets) ==> p.packets[j].msgType <= 1 && len(p.packets[j].data) <= 70368744177664
let H1 = heap("F.engine.Packet.msgType")
let H2 = heap("F.engine.Packet.pktType")
let H3 = heap("F.engine.Packet.data")
let HM = heap("M.byte")
let W = pw(p.xhr2, H1, H2, H3, HM, base(p.packets), off(p.packets), len(p.packets))
let W0 = wout[w]
let N = len(p.packets)
modifies wout[w]
ensures[wire] err == nil ==> wout[w] == old(wout[w]) ++ W
ensures[count] err == nil && len(W) <= maxlen ==> n == len(W)
ensures[complete] wgood[w] ==> err == nil
cand (k int) :: tick(k) && 0 <= k && k <= N && wout[w] == W0 ++ pw(p.xhr2, H1, H2, H3, HM, base(p.packets), off(p.packets), k)
cand (k int) :: tick(k + 1) && 0 <= k + 1 && k + 1 <= N && wout[w] == W0 ++ pw(p.xhr2, H1, H2, H3, HM, base(p.packets), off(p.packets), k + 1)
cand (n int64) :: len(wout[w]) - len(W0) <= maxlen ==> n == len(wout[w]) - len(W0)
