# ---- polling requests: C05 (POST), C06 (GET) ----
define ctype(r) = hval[r.Header]["Content-Type"]
define xhr2(r) = mimetype(ctype(r)) == "application/octet-stream"
define accepts(r) = mimeok(ctype(r)) && (xhr2(r) || mimetype(ctype(r)) == "text/plain" && lower(mimecharset(ctype(r))) == "utf-8")
define pkref(q) = as(q, "*engine.Packet")
define pbody(x, q) = wire(x, pkref(q).msgType, pkref(q).pktType, bytes(pkref(q).data))
define qget(r, k) = urlq[r.URL][k]
define resp(w) = status[w] == 0 || status[w] == 200
# o is the script call ___eio[digits]("...") whose argument is the JSON string of b
define stail(b) = "](" ++ jsonstr(b) ++ ");"
define script(o, b) = len(o) >= 7 + len(stail(b)) && o[0:7] == "___eio[" && o[len(o)-len(stail(b)):len(o)] == stail(b) && (forall i int {o[i]} :: 7 <= i && i < len(o) - len(stail(b)) ==> 48 <= o[i] && o[i] <= 57)

spec "(*engine.pollingConn).ServeHTTP" (p, w, r)
prop C05 C06
flag nopanic
requires pconn(p) && w != nil && r != nil && r.Body != nil && r.URL != nil
requires status[w] == 0 && len(wout[w]) == 0 && hown[r.Header] == 0
requires len(rdata[r.Body]) <= maxlen && rpos[r.Body] == 0
requires forall q ref {pkref(q).msgType} :: pkref(q).msgType <= 1
requires forall q ref {pkref(q).data} :: len(pkref(q).data) <= 70368744177664
let s = rdata[r.Body]
let x = xhr2(r)
let ok = accepts(r)
let S0 = sent[p.in]
let R0 = recvd[p.out]
let wasclosed = closed[p.closed]
let GET = r.Method == "GET"
let POST = r.Method == "POST"
let jp = qget(r, "j")
let b64 = qget(r, "b64")
modifies status[w], wout[w], any(hval), sent[p.in], recvd[p.out], emptied[p.out], any(closed), now, rpos[r.Body]
ensures[C05:not a POST] !POST ==> sent[p.in] == S0
ensures[C05:refused] POST && !ok ==> sent[p.in] == S0 && status[w] >= 400
ensures[C05:malformed] POST && !pall(x, s, 0) ==> sent[p.in] == S0 && status[w] >= 400
ensures[C05:closed] POST && wasclosed ==> sent[p.in] == S0 && status[w] >= 400
ensures[C05:answered] POST ==> status[w] == 200 || status[w] >= 400
ensures[C05:prefix] POST ==> len(sent[p.in]) >= len(S0) && sent[p.in][0:len(S0)] == S0
ensures[C05:all] POST && status[w] == 200 ==> ok && ppos(x, s, 0, len(sent[p.in]) - len(S0)) == len(s)
ensures[C05:each] POST ==> (forall j int {sent[p.in][j]} :: len(S0) <= j && j < len(sent[p.in]) ==> pwf(x, s, ppos(x, s, 0, j - len(S0))) && pkref(sent[p.in][j]).msgType == pmt(x, s, ppos(x, s, 0, j - len(S0))) && pkref(sent[p.in][j]).pktType == ppt(x, s, ppos(x, s, 0, j - len(S0))) && bytes(pkref(sent[p.in][j]).data) == pdat(x, s, ppos(x, s, 0, j - len(S0))))
ensures[C05:nothing else] POST ==> recvd[p.out] == R0
ensures[C05:method] !GET && !POST ==> status[w] >= 400 && recvd[p.out] == R0
ensures[C06:method] !GET ==> recvd[p.out] == R0
ensures[C06:refused] GET && !resp(w) ==> status[w] >= 400 && recvd[p.out] == R0
ensures[C06:closed] GET && wasclosed ==> !resp(w)
ensures[C06:one packet] GET && resp(w) && recvd[p.out] != R0 ==> len(recvd[p.out]) == len(R0) + 1 && recvd[p.out][0:len(R0)] == R0
ensures[C06:binary body] GET && resp(w) && wgood[w] && recvd[p.out] != R0 && jp == "" && b64 != "1" ==> wout[w] == pbody(true, recvd[p.out][len(R0)])
ensures[C06:text body] GET && resp(w) && wgood[w] && recvd[p.out] != R0 && jp == "" && b64 == "1" ==> wout[w] == pbody(false, recvd[p.out][len(R0)])
ensures[C06:script body] GET && resp(w) && wgood[w] && recvd[p.out] != R0 && jp != "" ==> script(wout[w], pbody(false, recvd[p.out][len(R0)]))
ensures[C06:noop when paused] GET && resp(w) && wgood[w] && recvd[p.out] == R0 ==> closed[unboxi(pausech(p))] && (jp == "" && b64 != "1" ==> wout[w] == wire(true, 0, 6, "")) && (jp == "" && b64 == "1" ==> wout[w] == wire(false, 0, 6, "")) && (jp != "" ==> script(wout[w], wire(false, 0, 6, "")))
ensures[C06:content type] GET && resp(w) ==> (jp != "" ==> hval[hof[w]]["Content-Type"] == "text/javascript; charset=UTF-8") && (jp == "" && b64 == "1" ==> hval[hof[w]]["Content-Type"] == "text/plain; charset=UTF-8") && (jp == "" && b64 != "1" ==> hval[hof[w]]["Content-Type"] == "application/octet-stream")
atcall[C06:callback index is digits] "strings.Map" (c) 48 <= c && c <= 57
cand (i int) :: 0 <= i + 1 && tick(i + 1) && len(sent[p.in]) == len(S0) + i + 1
cand (i int) :: 0 <= i && tick(i) && len(sent[p.in]) == len(S0) + i
cand len(sent[p.in]) >= len(S0) && sent[p.in][0:len(S0)] == S0
cand (pl *engine.Payload) :: forall j int {sent[p.in][j]} :: len(S0) <= j && j < len(sent[p.in]) ==> sent[p.in][j] == elemref(pl.packets, j - len(S0))
cand (ps []engine.Packet) :: forall j int {sent[p.in][j]} :: len(S0) <= j && j < len(sent[p.in]) ==> sent[p.in][j] == elemref(ps, j - len(S0))
