# ==== the socket.io layer ====
# ---- user code: the trace of the handlers called (function, socket given, argument given) ----
ghost hfn : bytes
ghost hso : bytes
ghost harg : bytes
# how often, and with which function last, a handler was called for a connection under a namespace's name
ghost hcount : strmap
ghost hlast : strmap
define soname(so) = as(unboxi(so), "*socketio.nspSock").name
extern "dyn:func(socketio.Socket)" (f, so)
flag handler noalloc
modifies hfn, hso, harg, hcount, hlast
ensures hcount == with(old(hcount), soname(so), old(hcount)[soname(so)] + 1) && hlast == with(old(hlast), soname(so), f)
ensures hfn == old(hfn) ++ bunit(f) && hso == old(hso) ++ bunit(so) && harg == old(harg) ++ bunit(0)
extern "dyn:func(socketio.Socket,...interface{})" (f, so, e)
flag handler noalloc
requires[one argument] len(e) == 1
modifies hfn, hso, harg
ensures hfn == old(hfn) ++ bunit(f) && hso == old(hso) ++ bunit(so) && harg == old(harg) ++ bunit(e[0])

# ---- reflection: a reflect.Value is a handle; rvi(v) is the value in it, rvk its kind, rvt its type ----
extern "reflect.ValueOf" (x) (v)
ensures v == rvof(x) && rvi(v) == x && (typeof(x, "string") ==> tkind(rvt(v)) == 24)
flag noalloc
extern "(reflect.Value).Interface" (v) (x)
ensures x == rvi(v)
flag noalloc
extern "(reflect.Value).Type" (v) (t)
ensures t == rvt(v) && t != nil
flag noalloc
extern "(reflect.Type).IsVariadic" (t) (b)
ensures b <==> rvariadic(t)
flag noalloc
# the calls through reflection: function value, arguments, whether the last argument is the variadic list; the results
ghost ran : bytes
ghost rin : [ref]bytes
ghost rspread : [ref]int
ghost rout : [ref]bytes
extern "(reflect.Value).Call" (v, in) (out)
flag handler
modifies ran, rin[len(ran)], rspread[len(ran)], rout[len(ran)]
ensures ran == old(ran) ++ bunit(v) && rspread[len(old(ran))] == 0 && rin[len(old(ran))] == seq(in) && rout[len(old(ran))] == seq(out)
extern "(reflect.Value).CallSlice" (v, in) (out)
flag handler
modifies ran, rin[len(ran)], rspread[len(ran)], rout[len(ran)]
ensures ran == old(ran) ++ bunit(v) && rspread[len(old(ran))] == 1 && rin[len(old(ran))] == seq(in) && rout[len(old(ran))] == seq(out)

# ---- what a parser's encoder and decoder are asked and answer ----
# the packets given to an encoder
ghost etyp : bytes
ghost ensp : [ref]bytes
ghost ehas : bytes
ghost eid : bytes
ghost edat : bytes
ghost eargs : [ref]bytes
# its answers: the text, the attachments, the error
ghost etext : [ref]slice
ghost ebin : [ref]slice
ghost eerr : [ref]int
extern "(socketio.Encoder).Encode" (e, p) (text, bin, err)
requires p != nil
modifies p.Type, p.Namespace, p.attachments, p.buffer, mem(as(unboxs(p.Data), "[]interface{}"))
ensures slashed(old(p.Namespace)) ==> p.Namespace == old(p.Namespace)
define slashed(n) = n == "" || n[0] == 47
modifies etext[len(etyp)], ebin[len(etyp)], eerr[len(etyp)]
ensures etext[len(old(etyp))] == text && ebin[len(old(etyp))] == bin && eerr[len(old(etyp))] == err
modifies etyp, ensp[len(etyp)], ehas, eid, edat, eargs[len(etyp)]
ensures etyp == old(etyp) ++ bunit(old(p.Type)) && ensp[len(old(etyp))] == old(p.Namespace) && edat == old(edat) ++ bunit(p.Data)
ensures (p.ID == nil ==> ehas == old(ehas) ++ bunit(0)) && (p.ID != nil ==> ehas == old(ehas) ++ bunit(1))
ensures p.ID != nil ==> eid == old(eid) ++ bunit(*p.ID)
ensures p.ID == nil ==> eid == old(eid) ++ bunit(0)
ensures typeof(p.Data, "[]interface{}") ==> eargs[len(old(etyp))] == old(seq(as(unboxs(p.Data), "[]interface{}")))

# the packets given to a decoder for parsing, and its answers
ghost parsed : bytes
ghost pdec : bytes
ghost pev : [ref]bytes
ghost pdat : [ref]bytes
ghost pbin : [ref]slice
extern "(socketio.Decoder).ParseData" (d, p) (event, data, bin, err)
requires p != nil
modifies parsed, pdec, perr[len(parsed)], pev[len(parsed)], pdat[len(parsed)], pbin[len(parsed)]
ensures parsed == old(parsed) ++ bunit(p) && pdec == old(pdec) ++ bunit(d) && perr[len(old(parsed))] == err
ensures pev[len(old(parsed))] == event && pdat[len(old(parsed))] == bytes(data) && pbin[len(old(parsed))] == bin
ghost perr : [ref]int
# the argument lists decoded: the parameter types, the data, the attachments, the values
ghost unmd : bytes
ghost uerr : [ref]int
ghost utyp : [ref]bytes
ghost udat : [ref]bytes
ghost ubin : [ref]slice
ghost uval : [ref]bytes
extern "(socketio.ArgsUnmarshaler).UnmarshalArgs" (d, args, data, bin) (in, err)
modifies unmd, uerr[len(unmd)], utyp[len(unmd)], udat[len(unmd)], ubin[len(unmd)], uval[len(unmd)]
ensures unmd == old(unmd) ++ bunit(d) && uerr[len(old(unmd))] == err && utyp[len(old(unmd))] == seq(args) && udat[len(old(unmd))] == bytes(data) && ubin[len(old(unmd))] == bin
ensures err == nil ==> len(in) == len(args) && uval[len(old(unmd))] == seq(in) && fresh(in)

# ---- C20: callbacks ----
define issock(t) = t == socketio.socketType
spec "(*socketio.callback).Call" (e, so, au, data, buffer) (out, err)
prop C20
flag nopanic
requires e != nil && au != nil
modifies ran, rin[len(ran)], rspread[len(ran)], rout[len(ran)]
modifies unmd, uerr[len(unmd)], utyp[len(unmd)], udat[len(unmd)], ubin[len(unmd)], uval[len(unmd)]
ensures[arguments decoded once] unmd == old(unmd) ++ bunit(au) && utyp[len(old(unmd))] == seq(e.args) && udat[len(old(unmd))] == bytes(data) && ubin[len(old(unmd))] == buffer
ensures[error returned] err == unmerr(old(unmd)) && (err != nil ==> out == nil)
ensures[not run on an error] err != nil ==> ran == old(ran)
ensures[run once] err == nil ==> ran == old(ran) ++ bunit(*e.fn) && seq(out) == rout[len(old(ran))]
ensures[spread] err == nil ==> (rspread[len(old(ran))] == 1 <==> rvariadic(rvt(*e.fn)))
ensures[one value per parameter] err == nil ==> len(rin[len(old(ran))]) == len(e.args)
ensures[connection] err == nil ==> (forall i int {rin[len(old(ran))][i]} :: 0 <= i && i < len(e.args) && issock(seq(e.args)[i]) ==> rin[len(old(ran))][i] == rvof(so))
ensures[others] err == nil ==> (forall i int {rin[len(old(ran))][i]} :: 0 <= i && i < len(e.args) && !issock(seq(e.args)[i]) ==> rin[len(old(ran))][i] == uval[len(old(unmd))][i])
define unmerr(u) = uerr[len(u)]
cand (i ivar, in []reflect.Value) :: forall j int {backing(in)[j]} :: off(in) <= j && j <= off(in) + i && issock(seq(e.args)[j - off(in)]) ==> backing(in)[j] == rvof(so)
cand (i ivar, in []reflect.Value) :: forall j int {backing(in)[j]} :: off(in) <= j && j < off(in) + len(in) && (!issock(seq(e.args)[j - off(in)]) || j - off(in) > i) ==> backing(in)[j] == uval[len(old(unmd))][j - off(in)]

extern "(reflect.Value).Kind" (v) (k)
ensures k == vkind(v)
flag noalloc
extern "(reflect.Type).Kind" (t) (k)
ensures k == tkind(t)
flag noalloc
extern "(reflect.Type).Elem" (t) (u)
requires tkind(t) == 22 || tkind(t) == 17 || tkind(t) == 18 || tkind(t) == 21 || tkind(t) == 23
ensures u == telem(t) && u != nil
flag noalloc
extern "(reflect.Type).NumIn" (t) (n)
requires tkind(t) == 19
ensures n == rnumin(t) && n >= 0
flag noalloc
extern "(reflect.Type).In" (t, i) (u)
requires tkind(t) == 19 && 0 <= i && i < rnumin(t)
ensures u == rtin(t, i) && u != nil
flag noalloc
extern "(reflect.Type).String" (t) (s)
flag noalloc
globalfact[C20:connections] forall t int {isconn(t)} :: isconn(t) <==> issock(t)

spec "socketio.newCallback" (fn) (e)
prop C20
flag nopanic
panics vkind(rvof(fn)) != 19 || (exists i int {rtin(rvt(rvof(fn)), i)} :: 0 <= i && i < rnumin(rvt(rvof(fn))) && badparam(rtin(rvt(rvof(fn)), i)))
define badparam(t) = tkind(t) == 0 || tkind(t) == 18 || tkind(t) == 19 || tkind(t) == 26
ensures[a function] vkind(rvof(fn)) == 19
ensures[no unusable parameter] forall i int {rtin(rvt(rvof(fn)), i)} :: 0 <= i && i < rnumin(rvt(rvof(fn))) ==> !badparam(rtin(rvt(rvof(fn)), i))
ensures[registered] e != nil && fresh(e) && *e.fn == rvof(fn) && len(e.args) == rnumin(rvt(rvof(fn)))
ensures[parameter types] forall i int {seq(e.args)[i]} :: 0 <= i && i < len(e.args) ==> seq(e.args)[i] == rtin(rvt(rvof(fn)), i)
cand (i int, t reflect.Type) :: forall j int {rtin(t, j)} :: 0 <= j && j < i ==> !badparam(rtin(t, j))
cand (i int, t reflect.Type, args []reflect.Type) :: forall j int {seq(args)[j]} :: 0 <= j && j < i ==> seq(args)[j] == rtin(t, j)
cand (i ivar, t reflect.Type) :: forall j int {rtin(t, j)} :: 0 <= j && j <= i ==> !badparam(rtin(t, j))
cand (i ivar, t reflect.Type, args []reflect.Type) :: forall j int {seq(args)[j]} :: 0 <= j && j <= i ==> seq(args)[j] == rtin(t, j)

# what json decodes into a list of pointers
ghost jtext : bytes
ghost jinto : bytes
ghost jerr : int
# what was unmarshalled from binary data: receiver and data
ghost bun : bytes
ghost bund : [ref]slice
ghost bunerr : [ref]int
extern "(encoding.BinaryUnmarshaler).UnmarshalBinary" (b, d) (err)
modifies bun, bund[len(bun)], bunerr[len(bun)]
ensures bun == old(bun) ++ bunit(b) && bund[len(old(bun))] == d && bunerr[len(old(bun))] == err
extern "reflect.New" (t) (v)
ensures vkind(v) == 22 && unboxi(rvi(v)) != nil && telem(rvt(v)) == t && (forall w int {rassign(rvt(v), w)} :: tkind(w) == 22 && telem(w) == t ==> rassign(rvt(v), w))
ensures rnewof(v) == t && (implements(rvi(v), "encoding.BinaryUnmarshaler") <==> isbin(t)) && rvi(v) != nil
extern "(reflect.Value).Elem" (v) (u)
requires (vkind(v) == 22 || vkind(v) == 20) && rvi(v) != nil
ensures raddr(u) == v && (vkind(v) == 22 ==> rvt(u) == telem(rvt(v)) && rsettable(u) && rassign(rvt(u), rvt(u)))
flag noalloc

spec "(socketio.defaultDecoder).UnmarshalArgs" (d, args, data, buffer) (in, err)
prop C20
flag nopanic hard
requires forall i int {backing(args)[i]} :: off(args) <= i && i < off(args) + len(args) ==> backing(args)[i] != nil
modifies jtext, jinto, jerr, bun, any(bund), any(bunerr)
let n = len(bun)
let nb = bcnt(old(seq(args)), len(args))
define upar(args, i) = old(seq(args))[i]
define uhold(args, in, i) = pholder(old(seq(args))[i], seq(in)[i])
ensures[one value per parameter] err == nil ==> len(in) == len(args)
ensures[no error is lost] err == nil ==> jerr == nil && (forall k int {bunerr[k]} :: n <= k && k < len(bun) ==> bunerr[k] == nil)
ensures[own type] err == nil ==> (forall i int {seq(in)[i]} :: 0 <= i && i < len(args) && !isconn(upar(args, i)) ==> rnewof(uhold(args, in, i)) == pbase(upar(args, i)))
ensures[text arguments in order] err == nil ==> jtext == bytes(data) && len(jinto) == tcnt(old(seq(args)), len(args)) && (forall i int {seq(in)[i]} :: 0 <= i && i < len(args) && partext(upar(args, i)) ==> jinto[tcnt(old(seq(args)), i)] == rvi(uhold(args, in, i)))
ensures[as many attachments as there are] err == nil ==> (nb <= len(buffer) ==> len(bun) == n + nb) && (nb > len(buffer) ==> len(bun) == n + len(buffer))
ensures[attachments in order] err == nil ==> (forall i int {seq(in)[i]} :: 0 <= i && i < len(args) && parbin(upar(args, i)) && bcnt(old(seq(args)), i) < len(buffer) ==> bun[n + bcnt(old(seq(args)), i)] == rvi(uhold(args, in, i)) && bund[n + bcnt(old(seq(args)), i)] == old(buffer[bcnt(old(seq(args)), i)]))
define bhold(args, in, i) = pholder(old(seq(args))[i], backing(in)[i])
define uA(args) = old(seq(args))
# while the values are made
cand len(bun) >= n
cand (i ivar, in []reflect.Value) :: forall j int {backing(in)[j]} :: 0 <= j && j <= i && !isconn(upar(args, j)) ==> vkind(backing(in)[j]) == 22 && rvi(backing(in)[j]) != nil && rnewof(backing(in)[j]) == pbase(upar(args, j))
cand (i ivar, argv []interface{}) :: tick(i + 1) ==> len(argv) == tcnt(uA(args), i + 1)
cand (i ivar, in []reflect.Value, argv []interface{}) :: forall j int {backing(in)[j]} :: 0 <= j && j <= i && partext(upar(args, j)) ==> 0 <= tcnt(uA(args), j) && tcnt(uA(args), j) < len(argv) && seq(argv)[tcnt(uA(args), j)] == rvi(backing(in)[j])
cand (buf [][]byte) :: len(buf) == old(len(buffer)) - (len(bun) - n) && base(buf) == old(base(buffer)) && off(buf) == old(off(buffer)) + (len(bun) - n)
cand (i ivar) :: tick(i + 1) && bcnt(uA(args), i + 1) <= old(len(buffer)) ==> len(bun) == n + bcnt(uA(args), i + 1)
cand (i ivar) :: tick(i + 1) && bcnt(uA(args), i + 1) > old(len(buffer)) ==> len(bun) == n + old(len(buffer))
cand (i ivar, in []reflect.Value) :: forall j int {backing(in)[j]} :: 0 <= j && j <= i && parbin(upar(args, j)) && bcnt(uA(args), j) < old(len(buffer)) ==> 0 <= bcnt(uA(args), j) && n + bcnt(uA(args), j) < len(bun) && bun[n + bcnt(uA(args), j)] == rvi(backing(in)[j]) && bund[n + bcnt(uA(args), j)] == old(buffer[bcnt(uA(args), j)])
cand forall k int {bunerr[k]} :: n <= k && k < len(bun) ==> bunerr[k] == nil
# while they are taken out of their holders
cand (i ivar, in []reflect.Value) :: forall j int {backing(in)[j]} :: i < j && j < len(args) && !isconn(upar(args, j)) ==> vkind(backing(in)[j]) == 22 && rvi(backing(in)[j]) != nil && rnewof(backing(in)[j]) == pbase(upar(args, j))
cand (i ivar, in []reflect.Value) :: forall j int {backing(in)[j]} :: i < j && j < len(args) && partext(upar(args, j)) ==> jinto[tcnt(uA(args), j)] == rvi(backing(in)[j])
cand (i ivar, in []reflect.Value) :: forall j int {backing(in)[j]} :: i < j && j < len(args) && parbin(upar(args, j)) && bcnt(uA(args), j) < old(len(buffer)) ==> bun[n + bcnt(uA(args), j)] == rvi(backing(in)[j]) && bund[n + bcnt(uA(args), j)] == old(buffer[bcnt(uA(args), j)])
cand (i ivar, in []reflect.Value) :: forall j int {backing(in)[j]} :: 0 <= j && j <= i && !isconn(upar(args, j)) ==> rnewof(bhold(args, in, j)) == pbase(upar(args, j))
cand (i ivar, in []reflect.Value) :: forall j int {backing(in)[j]} :: 0 <= j && j <= i && partext(upar(args, j)) ==> jinto[tcnt(uA(args), j)] == rvi(bhold(args, in, j))
cand (i ivar, in []reflect.Value) :: forall j int {backing(in)[j]} :: 0 <= j && j <= i && parbin(upar(args, j)) && bcnt(uA(args), j) < old(len(buffer)) ==> bun[n + bcnt(uA(args), j)] == rvi(bhold(args, in, j)) && bund[n + bcnt(uA(args), j)] == old(buffer[bcnt(uA(args), j)])

# ---- MessagePack arguments ----
spec "(socketio.msgpackDecoder).UnmarshalArgs" (d, args, data, buffer) (in, err)
prop C15 C20
flag nopanic hard
requires forall i int {backing(args)[i]} :: off(args) <= i && i < off(args) + len(args) ==> backing(args)[i] != nil
modifies mdec, any(mfrom), any(mto), any(merr)
modifies any(heap("C.bool")), any(heap("C.float32")), any(heap("C.float64")), any(heap("C.complex64")), any(heap("C.complex128")), any(heap("C.uint8")), any(heap("C.uint16")), any(heap("C.uint32")), any(heap("C.uint64")), any(heap("C.uint")), any(heap("C.int8")), any(heap("C.int16")), any(heap("C.int32")), any(heap("C.int64")), any(heap("C.int")), any(heap("C.time.Duration")), any(heap("C.time.Time")), any(heap("C.string")), any(heap("M.byte")), any(heap("C._LJ_byte")), any(heap("C.map_LstringJ_interface__")), any(heap("C.iface"))
let n = len(mdec)
ensures[C20:one value per parameter] err == nil ==> len(in) == len(args) && len(mdec) == n + ncnt(uA(args), len(args))
ensures[no error is lost] err == nil ==> (forall k int {merr[k]} :: n <= k && k < len(mdec) ==> merr[k] == nil)
ensures[C20:own type, in order] err == nil ==> (forall i int {seq(in)[i]} :: 0 <= i && i < len(args) && !isconn(upar(args, i)) ==> rnewof(uhold(args, in, i)) == pbase(upar(args, i)) && mdec[n + ncnt(uA(args), i)] == uhold(args, in, i))
ensures[one after the other] err == nil ==> (len(mdec) > n ==> mfrom[n] == mpafter(data)) && (forall k int {mfrom[k]} :: n < k && k < len(mdec) ==> mfrom[k] == mto[k - 1])
cand len(mdec) >= n
cand (i ivar) :: tick(i + 1) ==> len(mdec) == n + ncnt(uA(args), i + 1)
cand forall k int {merr[k]} :: n <= k && k < len(mdec) ==> merr[k] == nil
cand (i ivar, in []reflect.Value) :: forall j int {backing(in)[j]} :: 0 <= j && j <= i && !isconn(upar(args, j)) ==> rnewof(bhold(args, in, j)) == pbase(upar(args, j)) && mdec[n + ncnt(uA(args), j)] == bhold(args, in, j) && 0 <= ncnt(uA(args), j) && n + ncnt(uA(args), j) < len(mdec)
cand (at []byte) :: len(mdec) == n ==> at == mpafter(data)
cand (at []byte) :: len(mdec) > n ==> mfrom[n] == mpafter(data) && at == mto[len(mdec) - 1]
cand forall k int {mfrom[k]} :: n < k && k < len(mdec) ==> mfrom[k] == mto[k - 1]
