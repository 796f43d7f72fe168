# ==== the default encoder: C13 ====
globalfact[C13:binary arguments] forall x int {isbm(x)} :: isbm(x) <==> implements(x, "encoding.BinaryMarshaler")
# the values marshalled to binary, and what they gave
ghost mb : bytes
ghost mbout : [ref]slice
ghost mberr : [ref]int
extern "(encoding.BinaryMarshaler).MarshalBinary" (b) (d, err)
modifies mb, mbout[len(mb)], mberr[len(mb)]
ensures mberr[len(old(mb))] == err
ensures mb == old(mb) ++ bunit(b) && mbout[len(old(mb))] == d
# the values put into JSON: the value, the elements of a list, the text it gave, the error
ghost jenc : bytes
ghost jencargs : [ref]bytes
ghost jout : [ref]bytes
ghost jencerr : [ref]int
extern "json.NewEncoder" (w) (e)
ensures e != nil && jwof(e) == w
extern "(*json.Encoder).Encode" (e, v) (err)
modifies wout[jwof(e)], jenc, jencargs[len(jenc)], jout[len(jenc)], jencerr[len(jenc)]
ensures jenc == old(jenc) ++ bunit(v) && jencerr[len(old(jenc))] == err && (typeof(v, "[]interface{}") ==> jencargs[len(old(jenc))] == seq(as(unboxs(v), "[]interface{}")))
ensures err == nil ==> wout[jwof(e)] == old(wout[jwof(e)]) ++ jout[len(old(jenc))]
extern "(io.ByteWriter).WriteByte" (w, c) (err)
modifies wout[w]
ensures err == nil ==> wout[w] == old(wout[w]) ++ bunit(c)
ensures wgood[w] ==> err == nil
flag noalloc
extern "strconv.Itoa" (v) (s)
ensures v >= 0 ==> s == itoa(v)
flag noalloc
extern "strconv.FormatUint" (v, b) (s)
ensures b == 10 ==> s == itoa(v)
flag noalloc

define dargs(p) = as(unboxs(p.Data), "[]interface{}")
define olda(p) = old(seq(dargs(p)))
spec "(socketio.defaultEncoder).preprocess" (d, p) (err)
prop C13
flag nopanic
requires p != nil
modifies p.Type, p.Namespace, p.attachments, p.buffer, mem(dargs(p)), mb, any(mbout), any(mberr)
let n = len(mb)
let islist = typeof(p.Data, "[]interface{}")
let k = len(dargs(p))
ensures[leading slash] err == nil ==> p.Namespace == slash(old(p.Namespace))
define slash(x) = bif(x == "" || x[0] == 47, x, "/" ++ x)
ensures[no list, no attachment] err == nil && !islist ==> p.attachments == 0 && len(p.buffer) == 0 && mb == old(mb)
ensures[as many attachments as binary arguments] err == nil && islist ==> p.attachments == bmcnt(olda(p), k) && len(p.buffer) == p.attachments && len(mb) == n + p.attachments
ensures[numbered placeholders] err == nil && islist ==> (forall i int {seq(dargs(p))[i]} :: 0 <= i && i < k && isbm(olda(p)[i]) ==> typeof(seq(dargs(p))[i], "*socketio.placeholder") && as(unboxi(seq(dargs(p))[i]), "*socketio.placeholder").num == bmcnt(olda(p), i))
ensures[other arguments as they were] err == nil && islist ==> (forall i int {seq(dargs(p))[i]} :: 0 <= i && i < k && !isbm(olda(p)[i]) ==> seq(dargs(p))[i] == olda(p)[i])
ensures[attachments in argument order] err == nil && islist ==> (forall i int {olda(p)[i]} :: 0 <= i && i < k && isbm(olda(p)[i]) ==> 0 <= bmcnt(olda(p), i) && bmcnt(olda(p), i) < len(p.buffer) && mb[n + bmcnt(olda(p), i)] == olda(p)[i] && p.buffer[bmcnt(olda(p), i)] == mbout[n + bmcnt(olda(p), i)])
ensures[no failure is lost] err == nil ==> (forall j int {mberr[j]} :: n <= j && j < len(mb) ==> mberr[j] == nil)
ensures[binary variant] err == nil ==> p.Type == bintype(old(p.Type), p.attachments)
ensures[fails only when an argument does] err != nil ==> len(mb) > n && err == mberr[len(mb) - 1]
cand forall j int {mberr[j]} :: n <= j && j < len(mb) ==> mberr[j] == nil
cand (i ivar) :: p.attachments >= 0
cand (i ivar) :: tick(i + 1) ==> p.attachments == bmcnt(olda(p), i + 1)
cand (i ivar) :: len(p.buffer) == p.attachments && len(mb) == n + p.attachments
cand (i ivar) :: forall j int {backing(dargs(p))[j]} :: i < j - off(dargs(p)) && j < off(dargs(p)) + k ==> backing(dargs(p))[j] == olda(p)[j - off(dargs(p))]
cand (i ivar) :: forall j int {backing(dargs(p))[j]} :: off(dargs(p)) <= j && j - off(dargs(p)) <= i && !isbm(olda(p)[j - off(dargs(p))]) ==> backing(dargs(p))[j] == olda(p)[j - off(dargs(p))]
cand (i ivar) :: forall j int {backing(dargs(p))[j]} :: off(dargs(p)) <= j && j - off(dargs(p)) <= i && isbm(olda(p)[j - off(dargs(p))]) ==> typeof(backing(dargs(p))[j], "*socketio.placeholder")
cand (i ivar) :: forall j int {backing(dargs(p))[j]} :: off(dargs(p)) <= j && j - off(dargs(p)) <= i && isbm(olda(p)[j - off(dargs(p))]) ==> as(unboxi(backing(dargs(p))[j]), "*socketio.placeholder").num == bmcnt(olda(p), j - off(dargs(p)))
cand (i ivar) :: forall j int {olda(p)[j]} :: 0 <= j && j <= i && isbm(olda(p)[j]) ==> 0 <= bmcnt(olda(p), j) && bmcnt(olda(p), j) < len(p.buffer) && mb[n + bmcnt(olda(p), j)] == olda(p)[j]
cand (i ivar) :: forall j int {olda(p)[j]} :: 0 <= j && j <= i && isbm(olda(p)[j]) ==> p.buffer[bmcnt(olda(p), j)] == mbout[n + bmcnt(olda(p), j)]

# the text of a packet
define ptext(p) = bunit(p.Type + 48) ++ bif(p.attachments > 0, itoa(p.attachments) ++ "-", "") ++ bif(p.Namespace != "" && p.Namespace != "/", p.Namespace ++ ",", "") ++ bif(p.ID != nil, itoa(*p.ID), "")
define encfail(e, m, j, p) = (len(mb) > len(m) && e == mberr[len(mb) - 1]) || (p.Data != nil && e == jencerr[len(j)])
define jn(j) = len(j)
spec "(socketio.defaultEncoder).encodeTo" (d, w, p) (err)
prop C13
flag nopanic
requires p != nil && w != nil && p.Type <= 6
modifies p.Type, p.Namespace, p.attachments, p.buffer, mem(dargs(p)), mb, any(mbout), any(mberr), wout[w], jenc, any(jencargs), any(jout), any(jencerr)
let n = len(mb)
let islist = typeof(p.Data, "[]interface{}")
let k = len(dargs(p))
ensures[leading slash] err == nil ==> p.Namespace == slash(old(p.Namespace))
ensures[no list, no attachment] err == nil && !islist ==> p.attachments == 0 && len(p.buffer) == 0 && mb == old(mb)
ensures[as many attachments as binary arguments] err == nil && islist ==> p.attachments == bmcnt(olda(p), k) && len(p.buffer) == p.attachments && len(mb) == n + p.attachments
ensures[numbered placeholders] err == nil && islist ==> (forall i int {seq(dargs(p))[i]} :: 0 <= i && i < k && isbm(olda(p)[i]) ==> typeof(seq(dargs(p))[i], "*socketio.placeholder") && as(unboxi(seq(dargs(p))[i]), "*socketio.placeholder").num == bmcnt(olda(p), i))
ensures[other arguments as they were] err == nil && islist ==> (forall i int {seq(dargs(p))[i]} :: 0 <= i && i < k && !isbm(olda(p)[i]) ==> seq(dargs(p))[i] == olda(p)[i])
ensures[attachments in argument order] err == nil && islist ==> (forall i int {olda(p)[i]} :: 0 <= i && i < k && isbm(olda(p)[i]) ==> 0 <= bmcnt(olda(p), i) && bmcnt(olda(p), i) < len(p.buffer) && mb[n + bmcnt(olda(p), i)] == olda(p)[i] && p.buffer[bmcnt(olda(p), i)] == mbout[n + bmcnt(olda(p), i)])
ensures[no failure is lost] err == nil ==> (forall j int {mberr[j]} :: n <= j && j < len(mb) ==> mberr[j] == nil)
ensures[binary variant] err == nil ==> p.Type == bintype(old(p.Type), p.attachments)
ensures[text] err == nil ==> wout[w] == old(wout[w]) ++ ptext(p) ++ bif(p.Data != nil, jout[jn(old(jenc))], "")
ensures[fails only with its writer or its data] err != nil && wgood[w] ==> encfail(err, old(mb), old(jenc), p)
ensures[data encoded once] err == nil ==> jenc == old(jenc) ++ bopt(p.Data != nil, p.Data)
ensures[as it stands after the replacement] err == nil && p.Data != nil && typeof(p.Data, "[]interface{}") ==> jencargs[jn(old(jenc))] == seq(dargs(p))
spec "(socketio.defaultEncoder).Encode" (d, p) (text, bin, err)
prop C13
flag nopanic
requires p != nil && p.Type <= 6
modifies p.Type, p.Namespace, p.attachments, p.buffer, mem(dargs(p)), mb, any(mbout), any(mberr), jenc, any(jencargs), any(jout), any(jencerr)
let n = len(mb)
let islist = typeof(p.Data, "[]interface{}")
let k = len(dargs(p))
ensures[leading slash] err == nil ==> p.Namespace == slash(old(p.Namespace))
ensures[no list, no attachment] err == nil && !islist ==> p.attachments == 0 && len(p.buffer) == 0 && mb == old(mb)
ensures[as many attachments as binary arguments] err == nil && islist ==> p.attachments == bmcnt(olda(p), k) && len(p.buffer) == p.attachments && len(mb) == n + p.attachments
ensures[numbered placeholders] err == nil && islist ==> (forall i int {seq(dargs(p))[i]} :: 0 <= i && i < k && isbm(olda(p)[i]) ==> typeof(seq(dargs(p))[i], "*socketio.placeholder") && as(unboxi(seq(dargs(p))[i]), "*socketio.placeholder").num == bmcnt(olda(p), i))
ensures[other arguments as they were] err == nil && islist ==> (forall i int {seq(dargs(p))[i]} :: 0 <= i && i < k && !isbm(olda(p)[i]) ==> seq(dargs(p))[i] == olda(p)[i])
ensures[attachments in argument order] err == nil && islist ==> (forall i int {olda(p)[i]} :: 0 <= i && i < k && isbm(olda(p)[i]) ==> 0 <= bmcnt(olda(p), i) && bmcnt(olda(p), i) < len(p.buffer) && mb[n + bmcnt(olda(p), i)] == olda(p)[i] && p.buffer[bmcnt(olda(p), i)] == mbout[n + bmcnt(olda(p), i)])
ensures[no failure is lost] err == nil ==> (forall j int {mberr[j]} :: n <= j && j < len(mb) ==> mberr[j] == nil)
ensures[binary variant] err == nil ==> p.Type == bintype(old(p.Type), p.attachments)
ensures[text] err == nil ==> bytes(text) == ptext(p) ++ bif(p.Data != nil, jout[jn(old(jenc))], "") && len(text) > 0
ensures[the attachments] err == nil ==> bin == p.buffer
ensures[fails only with its data] err != nil ==> encfail(err, old(mb), old(jenc), p) && len(bin) == 0 && len(text) == 0
ensures[data encoded once] err == nil ==> jenc == old(jenc) ++ bopt(p.Data != nil, p.Data)
ensures[as it stands after the replacement] err == nil && p.Data != nil && typeof(p.Data, "[]interface{}") ==> jencargs[jn(old(jenc))] == seq(dargs(p))
# what stands for a binary argument in the text
spec "(socketio.placeholder).MarshalJSON" (b) (out, err)
prop C13
flag nopanic
requires b.num >= 0
ensures[placeholder] err == nil && bytes(out) == "{\"_placeholder\":true,\"num\":" ++ itoa(b.num) ++ "}"
# the binary value the library brings along
spec "(socketio.Bytes).MarshalBinary" (b) (out, err)
prop C13
flag nopanic
ensures[its bytes] err == nil && bytes(out) == bytes(b.Data)
