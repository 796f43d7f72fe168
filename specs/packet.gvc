# ==== MessagePack packets: C15 ====
globalfact[C15:field names] forall t int {mfk(t)} :: 0 <= mfk(t) && mfk(t) <= 4 && (mxkey(t) == "type" <==> mfk(t) == 0) && (mxkey(t) == "nsp" <==> mfk(t) == 1) && (mxkey(t) == "data" <==> mfk(t) == 2) && (mxkey(t) == "id" <==> mfk(t) == 3)
extern "msgp.UnsafeString" (b) (s)
ensures s == bytes(b)
flag noalloc
extern "msgp.IsNil" (b) (v)
ensures v <==> mxnil(sltok(b))
flag noalloc
extern "msgp.ReadNilBytes" (b) (rest, err)
ensures mxnil(sltok(b)) ==> err == nil
ensures err == nil ==> mpsuffix(rest, b) && sltok(rest) == mxaftnil(sltok(b))
flag noalloc
extern "msgp.ReadByteBytes" (b) (v, rest, err)
ensures err == nil <==> mx8ok(sltok(b))
ensures err == nil ==> mpsuffix(rest, b) && v == mx8(sltok(b)) && sltok(rest) == mxaft8(sltok(b))
flag noalloc
extern "(*msgp.Raw).UnmarshalMsg" (r, b) (rest, err)
modifies *r
ensures err == nil <==> mxrawok(sltok(b))
ensures err == nil ==> mpsuffix(rest, b) && bytes(*r) == mxraw(sltok(b)) && sltok(rest) == mxaftraw(sltok(b))
extern "msgp.NextType" (b) (t)
ensures t == mxtype(sltok(b))
flag noalloc

# what the fields of a message say, the first of them at position t, n of them
define fields(z, t, n, ty, ns, da, id, idv) = (mlast(t, n, 0) < 0 ==> z.Type == ty) && (mlast(t, n, 0) >= 0 ==> z.Type == mx8(mfval(t, n, 0))) && (mlast(t, n, 1) < 0 ==> z.Namespace == ns) && (mlast(t, n, 1) >= 0 ==> z.Namespace == mxstr(mfval(t, n, 1))) && (mlast(t, n, 2) < 0 ==> z.Data == da) && (mlast(t, n, 2) >= 0 ==> typeof(z.Data, "[]byte") && bytes(as(unboxs(z.Data), "[]byte")) == mxraw(mfval(t, n, 2))) && (mlast(t, n, 3) < 0 ==> z.ID == id && (id != nil ==> *z.ID == idv)) && (mlast(t, n, 3) >= 0 && mxnil(mfval(t, n, 3)) ==> z.ID == nil) && (mlast(t, n, 3) >= 0 && !mxnil(mfval(t, n, 3)) ==> z.ID != nil && *z.ID == mx64(mfval(t, n, 3)))
# a message whose first n fields are in order has its first k fields in order
lemma mallpre(t int, k int, n int)
prop C15
hyp 0 <= k && k <= n && mall(t, n)
goal mall(t, k)
induct n - k
trigger mall(t, k), mall(t, n)
use n > k ==> mall(t, n - 1)
use tick(n)
spec "(*socketio.Packet).UnmarshalMsg" (z, b) (o, err)
prop C15
flag nopanic
requires z != nil
modifies z.Type, z.Namespace, z.Data, z.ID, *z.ID
let T = sltok(b)
let F = mxaftmap(sltok(b))
let N = mxmap(sltok(b))
let ty = z.Type
let ns = z.Namespace
let da = z.Data
let id = z.ID
let idv = *z.ID
ensures[no error is lost, no other is made] err == nil <==> mxmapok(T) && mall(F, N)
ensures[fields in any order] err == nil ==> fields(z, F, N, ty, ns, da, id, idv)
ensures[what follows] err == nil ==> sltok(o) == mpos(F, N)
cand (k uint32) :: k <= N
cand (k uint32) :: tick(N - k) ==> mall(F, N - k)
cand (k uint32, d []byte) :: tick(N - k) ==> sltok(d) == mpos(F, N - k)
cand (k uint32) :: tick(N - k) ==> fields(z, F, N - k, ty, ns, da, id, idv)
cand (k uint32) :: k > 0 && tick(N - k + 1) && mall(F, N) ==> mall(F, N - k + 1)
cand (k uint32) :: z.ID == id || z.ID == nil || fresh(z.ID)

# the same from a stream: the position a reader is at
ghost mrd : [ref]int
extern "(*msgp.Reader).ReadMapHeader" (r) (n, err)
modifies mrd[r]
ensures (err == nil <==> mxmapok(old(mrd[r]))) && (err == nil ==> n == mxmap(old(mrd[r])) && mrd[r] == mxaftmap(old(mrd[r])))
extern "(*msgp.Reader).ReadMapKeyPtr" (r) (b, err)
modifies mrd[r]
ensures (err == nil <==> mxkeyok(old(mrd[r]))) && (err == nil ==> bytes(b) == mxkey(old(mrd[r])) && mrd[r] == mxaftkey(old(mrd[r])))
extern "(*msgp.Reader).ReadByte" (r) (v, err)
modifies mrd[r]
ensures (err == nil <==> mx8ok(old(mrd[r]))) && (err == nil ==> v == mx8(old(mrd[r])) && mrd[r] == mxaft8(old(mrd[r])))
extern "(*msgp.Reader).ReadString" (r) (v, err)
modifies mrd[r]
ensures (err == nil <==> mxstrok(old(mrd[r]))) && (err == nil ==> v == mxstr(old(mrd[r])) && mrd[r] == mxaftstr(old(mrd[r])))
extern "(*msgp.Reader).IsNil" (r) (v)
ensures v <==> mxnil(mrd[r])
extern "(*msgp.Reader).ReadNil" (r) (err)
modifies mrd[r]
ensures mxnil(old(mrd[r])) ==> err == nil
ensures err == nil ==> mrd[r] == mxaftnil(old(mrd[r]))
extern "(*msgp.Reader).ReadUint64" (r) (v, err)
modifies mrd[r]
ensures (err == nil <==> mx64ok(old(mrd[r]))) && (err == nil ==> v == mx64(old(mrd[r])) && mrd[r] == mxaft64(old(mrd[r])))
extern "(*msgp.Reader).Skip" (r) (err)
modifies mrd[r]
ensures (err == nil <==> mxrawok(old(mrd[r]))) && (err == nil ==> mrd[r] == mxaftraw(old(mrd[r])))
extern "(*msgp.Raw).DecodeMsg" (r, d) (err)
modifies *r, mrd[d]
ensures (err == nil <==> mxrawok(old(mrd[d]))) && (err == nil ==> bytes(*r) == mxraw(old(mrd[d])) && mrd[d] == mxaftraw(old(mrd[d])))
spec "(*socketio.Packet).DecodeMsg" (z, dc) (err)
prop C15
flag nopanic
requires z != nil
modifies z.Type, z.Namespace, z.Data, z.ID, *z.ID, mrd[dc]
let T = mrd[dc]
let F = mxaftmap(mrd[dc])
let N = mxmap(mrd[dc])
let ty = z.Type
let ns = z.Namespace
let da = z.Data
let id = z.ID
let idv = *z.ID
ensures[no error is lost, no other is made] err == nil <==> mxmapok(T) && mall(F, N)
ensures[fields in any order] err == nil ==> fields(z, F, N, ty, ns, da, id, idv)
ensures[what follows] err == nil ==> mrd[dc] == mpos(F, N)
cand (k uint32) :: k <= N
cand (k uint32) :: tick(N - k) ==> mall(F, N - k)
cand (k uint32) :: tick(N - k) ==> mrd[dc] == mpos(F, N - k)
cand (k uint32) :: tick(N - k) ==> fields(z, F, N - k, ty, ns, da, id, idv)
cand (k uint32) :: k > 0 && tick(N - k + 1) && mall(F, N) ==> mall(F, N - k + 1)
cand (k uint32) :: z.ID == id || z.ID == nil || fresh(z.ID)

# writing: the last value of any type that was written, its encoding, and the error
ghost mival : int
ghost miout : bytes
ghost mierr : int
define apnd(o, b, x) = bytes(o) == old(bytes(b)) ++ x && (base(o) == base(b) || fresh(base(o)))
extern "msgp.Require" (b, n) (o)
ensures bytes(o) == bytes(b) && (base(o) == base(b) || fresh(base(o)))
extern "msgp.GuessSize" (v) (n)
ensures 0 <= n
extern "msgp.AppendByte" (b, v) (o)
modifies mem(b)
ensures apnd(o, b, me8(v))
extern "msgp.AppendString" (b, s) (o)
modifies mem(b)
ensures apnd(o, b, mestr(s))
extern "msgp.AppendIntf" (b, v) (o, err)
modifies mem(b), mival, miout, mierr
ensures mival == v && mierr == err && (err == nil ==> apnd(o, b, miout))
ensures base(o) == base(b) || fresh(base(o))
extern "msgp.AppendNil" (b) (o)
modifies mem(b)
ensures apnd(o, b, bunit(192))
extern "msgp.AppendUint64" (b, v) (o)
modifies mem(b)
ensures apnd(o, b, me64(v))
extern "msgp.AppendArrayHeader" (b, n) (o)
modifies mem(b)
ensures apnd(o, b, mearr(n))
# 0x84 "type" ... "nsp" ... "data" ... "id" ...
define encoded(pre, z, out) = pre ++ (bunit(132) ++ bunit(164) ++ bunit(116) ++ bunit(121) ++ bunit(112) ++ bunit(101)) ++ me8(z.Type) ++ (bunit(163) ++ bunit(110) ++ bunit(115) ++ bunit(112)) ++ mestr(z.Namespace) ++ (bunit(164) ++ bunit(100) ++ bunit(97) ++ bunit(116) ++ bunit(97)) ++ out ++ (bunit(162) ++ bunit(105) ++ bunit(100)) ++ bif(z.ID == nil, bunit(192), me64(*z.ID))
spec "(*socketio.Packet).MarshalMsg" (z, b) (o, err)
prop C15
flag nopanic
requires z != nil
modifies mem(b), mival, miout, mierr
ensures[a map of type, namespace, data and id] err == nil ==> mival == z.Data && bytes(o) == encoded(old(bytes(b)), z, miout)
ensures[only the data can be refused] err == mierr && mival == z.Data
spec "(*socketio.Packet).Msgsize" (z) (s)
prop C15
flag nopanic
requires z != nil

# what was written to a stream
ghost mwr : [ref]bytes
extern "(*msgp.Writer).Append" (w, b) (err)
modifies mwr[w]
ensures err == nil ==> mwr[w] == old(mwr[w]) ++ bytes(b)
extern "(*msgp.Writer).WriteByte" (w, v) (err)
modifies mwr[w]
ensures err == nil ==> mwr[w] == old(mwr[w]) ++ me8(v)
extern "(*msgp.Writer).WriteString" (w, s) (err)
modifies mwr[w]
ensures err == nil ==> mwr[w] == old(mwr[w]) ++ mestr(s)
extern "(*msgp.Writer).WriteIntf" (w, v) (err)
modifies mwr[w], mival, miout
ensures mival == v && (err == nil ==> mwr[w] == old(mwr[w]) ++ miout)
extern "(*msgp.Writer).WriteNil" (w) (err)
modifies mwr[w]
ensures err == nil ==> mwr[w] == old(mwr[w]) ++ bunit(192)
extern "(*msgp.Writer).WriteUint64" (w, v) (err)
modifies mwr[w]
ensures err == nil ==> mwr[w] == old(mwr[w]) ++ me64(v)
spec "(*socketio.Packet).EncodeMsg" (z, en) (err)
prop C15
flag nopanic
requires z != nil
modifies mwr[en], mival, miout
ensures[a map of type, namespace, data and id] err == nil ==> mival == z.Data && mwr[en] == encoded(old(mwr[en]), z, miout)

# ---- the parser ----
define textual(t) = t == 0 || t == 1 || t == 4
spec "(socketio.msgpackEncoder).Encode" (e, p) (text, bins, err)
prop C15
flag nopanic
requires p != nil
modifies mival, miout, mierr
ensures[connect, disconnect and error as JSON] textual(p.Type) && err == nil ==> len(bins) == 0 && bytes(text) == jsonval(box(p, "*socketio.Packet"))
ensures[all others as one binary message] !textual(p.Type) && err == nil ==> base(text) == 0 && len(bins) == 1 && mival == p.Data && bytes(bins[0]) == encoded("", p, miout)
ensures[no error is lost] !textual(p.Type) ==> err == mierr

spec "socketio.newMsgpackDecoder" (n) (d)
prop C15
flag nopanic
requires n >= 0
ensures[nothing is waiting] d != nil && fresh(d) && d.packets != nil && fresh(d.packets) && !closed[d.packets] && sent[d.packets] == ""
spec "(*socketio.msgpackDecoder).Decoded" (m) (c)
prop C15
flag nopanic
requires m != nil
ensures[the packets] c == m.packets

define nsnorm(s) = bif(len(s) == 0, "/", s)
spec "(*socketio.msgpackDecoder).Add" (m, mt, data) (err)
prop C15
flag nopanic
requires m != nil && m.packets != nil && !closed[m.packets]
modifies sent[m.packets], jtext, jinto, jerr
let c = m.packets
let t = bytes(data)
let M = sltok(data)
let F = mxaftmap(sltok(data))
let N = mxmap(sltok(data))
define lastpkt(c) = as(sent[c][len(sent[c]) - 1], "*socketio.Packet")
ensures[nothing is released with an error] err != nil ==> sent[c] == old(sent[c])
ensures[one packet for a message] err == nil ==> len(sent[c]) == len(old(sent[c])) + 1 && sent[c][0:len(old(sent[c]))] == old(sent[c]) && lastpkt(c) != nil && fresh(lastpkt(c))
ensures[every field in order, every error reported] mt == 1 ==> (err == nil <==> mxmapok(M) && mall(F, N))
ensures[what the message says] mt == 1 && err == nil ==> mfields(lastpkt(c), F, N)
define mfields(p, t, n) = (mlast(t, n, 0) < 0 ==> p.Type == 0) && (mlast(t, n, 0) >= 0 ==> p.Type == mx8(mfval(t, n, 0))) && (mlast(t, n, 1) < 0 ==> p.Namespace == "/") && (mlast(t, n, 1) >= 0 ==> p.Namespace == nsnorm(mxstr(mfval(t, n, 1)))) && (mlast(t, n, 2) < 0 ==> p.Data == nil) && (mlast(t, n, 2) >= 0 ==> typeof(p.Data, "[]byte") && bytes(as(unboxs(p.Data), "[]byte")) == mxraw(mfval(t, n, 2))) && (mlast(t, n, 3) < 0 || mxnil(mfval(t, n, 3)) ==> p.ID == nil) && (mlast(t, n, 3) >= 0 && !mxnil(mfval(t, n, 3)) ==> p.ID != nil && *p.ID == mx64(mfval(t, n, 3)))
ensures[a text's errors are reported] mt == 0 ==> (err == nil <==> jpok(t))
ensures[what the text says] mt == 0 && err == nil ==> jfields(lastpkt(c), t)
define jfields(p, t) = (jhty(t) ==> p.Type == jpty(t)) && (!jhty(t) ==> p.Type == 0) && (jhns(t) ==> p.Namespace == nsnorm(jpns(t))) && (!jhns(t) ==> p.Namespace == "/") && (jhda(t) ==> p.Data == jpda(t)) && (!jhda(t) ==> p.Data == nil) && (jhid(t) && !jpidnil(t) ==> p.ID != nil && *p.ID == jpid(t)) && (!jhid(t) || jpidnil(t) ==> p.ID == nil)

define mrest(b) = bytes(as(mpafterstr(mpafter(b)), "[]byte"))
define israwm(v) = typeof(v, "[]byte")
define raw(v) = as(unboxs(v), "[]byte")
define evtyp(t) = t == 2 || t == 5
# the values after the header of an array, and after the name that comes first
spec "(socketio.msgpackDecoder).ParseData" (d, p) (event, data, bin, err)
prop C15
flag nopanic
requires p != nil
ensures[nothing to extract] textual(p.Type) ==> err == nil && event == "" && len(data) == 0 && len(bin) == 0
ensures[only an array of arguments] !textual(p.Type) && err == nil ==> israwm(p.Data) && mxtype(sltok(raw(p.Data))) == 4
ensures[the name of an event] evtyp(p.Type) && err == nil ==> mxarr(sltok(raw(p.Data))) > 0 && mxtype(mxaftarr(sltok(raw(p.Data)))) == 1 && mxstrok(mxaftarr(sltok(raw(p.Data)))) && event == mxstr(mxaftarr(sltok(raw(p.Data))))
ensures[the arguments of an event] evtyp(p.Type) && err == nil ==> bytes(data) == mearr(mxarr(sltok(raw(p.Data))) - 1) ++ mrest(raw(p.Data))
ensures[the arguments of an ack] (p.Type == 3 || p.Type == 6) && err == nil ==> bytes(data) == bytes(raw(p.Data)) && event == ""
ensures[every event] evtyp(p.Type) && israwm(p.Data) && mxtype(sltok(raw(p.Data))) == 4 && mxarrok(sltok(raw(p.Data))) && mxarr(sltok(raw(p.Data))) > 0 && mxtype(mxaftarr(sltok(raw(p.Data)))) == 1 && mxstrok(mxaftarr(sltok(raw(p.Data)))) ==> err == nil
ensures[every ack] (p.Type == 3 || p.Type == 6) && israwm(p.Data) && mxtype(sltok(raw(p.Data))) == 4 && mxarrok(sltok(raw(p.Data))) ==> err == nil
