# ==== the default decoder: C14 ====
extern "strconv.ParseUint" (s, b, n) (v, err)
ensures b == 10 && n == 64 ==> ((err == nil) <==> (len(s) > 0 && digits(s, 0, len(s)) && dnum(s, 0, len(s)) < 18446744073709551616))
ensures b == 10 && n == 64 && err == nil ==> v == dnum(s, 0, len(s))
flag noalloc
extern "url.Parse" (s) (u, err)
ensures (err == nil <==> urlok(s)) && (err == nil ==> u != nil && fresh(u) && u.Path == urlpath(s) && urlq[u] == squery(s))
extern "(*regexp.Regexp).FindAllSubmatch" (r, b, n) (m)
ensures n == -1 ==> len(m) == rxn(r, bytes(b))
extern "(*regexp.Regexp).ReplaceAllLiteral" (r, b, x) (o)
ensures fresh(base(o)) && bytes(o) == rxsub(r, bytes(b), bytes(x))
extern "(*regexp.Regexp).ReplaceAll" (r, b, x) (o)
ensures fresh(base(o)) && bytes(o) == rxexp(r, bytes(b), bytes(x))
extern "(*regexp.Regexp).FindIndex" (r, b) (loc)
ensures (base(loc) != 0 <==> rxhit(r, bytes(b))) && (rxhit(r, bytes(b)) ==> len(loc) == 2 && loc[1] == rxto(r, bytes(b)) && 0 <= loc[0] && loc[0] <= loc[1] && loc[1] <= len(b))
extern "(*regexp.Regexp).FindSubmatch" (r, b) (m)
ensures (base(m) != 0 <==> rxhit(r, bytes(b))) && (rxhit(r, bytes(b)) ==> len(m) == 1 + rxgroups(r) && (rxgroups(r) >= 1 ==> bytes(m[1]) == rxgrp(r, bytes(b))))
globalfact[C14:regular expressions] socketio.placeholderExp != nil && socketio.leadingPlaceholderExp != nil && socketio.eventExp != nil && rxgroups(socketio.eventExp) == 1

# the form of a packet's text: what may follow where
define inform(s) = len(s) >= 1 && 0 <= ptyp(s) && ptyp(s) <= 6 && (isbinp(s) ==> digits(s, 1, cend(s))) && (hasns(s) ==> urlok(nstext(s))) && (hasid(s) ==> idnum(s) < 18446744073709551616) && (hasdata(s) && (ptyp(s) == 2 || ptyp(s) == 3 || isbinp(s)) ==> s[iend(s)] == 91) && (hasdata(s) && !(ptyp(s) == 2 || ptyp(s) == 3 || isbinp(s)) ==> jok(dattext(s)))
define held0(b) = rxsub(socketio.placeholderExp, b, "")
define nholders(b) = rxn(socketio.placeholderExp, b)
# the placeholders of a text: the ones after a comma, and the one that comes first
define lead(b) = rxhit(socketio.leadingPlaceholderExp, held0(b))
define unheld(b) = bif(lead(b), "[" ++ held0(b)[rxto(socketio.leadingPlaceholderExp, held0(b)):len(held0(b))], held0(b))
define counted(n, b) = (lead(b) && n == nholders(b) + 1) || (!lead(b) && n == nholders(b))
# what a packet made from a text says
define says(p, s) = p.Type == ptyp(s) && (hasns(s) ==> p.Namespace == urlpath(nstext(s))) && (!hasns(s) ==> p.Namespace == "/") && (hasid(s) ==> p.ID != nil && *p.ID == idnum(s)) && (!hasid(s) ==> p.ID == nil) && (isbinp(s) ==> true)
define listtyp(s) = ptyp(s) == 2 || ptyp(s) == 3
define isbytes(v, b) = typeof(v, "[]byte") && bytes(as(unboxs(v), "[]byte")) == b
define holds(p, s) = (!hasdata(s) ==> p.Data == nil) && (hasdata(s) && listtyp(s) ==> isbytes(p.Data, dattext(s))) && (hasdata(s) && isbinp(s) ==> isbytes(p.Data, unheld(dattext(s)))) && (hasdata(s) && !listtyp(s) && !isbinp(s) ==> p.Data == jval(dattext(s)))
define room(p, s) = (hasdata(s) && isbinp(s) ==> counted(len(p.buffer), dattext(s))) && (!(hasdata(s) && isbinp(s)) ==> len(p.buffer) == 0)

# a number grows with its digits
lemma dnumup(s bytes, i int, j int, k int)
prop C14
hyp 0 <= i && i <= j && j <= k && digits(s, i, k)
goal 0 <= dnum(s, i, j) && dnum(s, i, j) <= dnum(s, i, k)
induct k - i
trigger dnum(s, i, j), dnum(s, i, k)
use dnum(s, i, k - 1)
use dnum(s, i, j - 1)
use s[k - 1]
use s[j - 1]
use tick(k)
use tick(j)

spec "(socketio.defaultDecoder).decode" (d, s) (p, err)
prop C14
flag nopanic
requires len(s) <= 281474976710656
requires len(s) > 0 ==> bytes(s)[0] == s[0]
requires len(s) > 1 ==> bytes(s)[1] == s[1]
modifies jtext, jinto, jerr
let t = bytes(s)
ensures[only well-formed texts] err == nil ==> inform(t)
ensures[every well-formed text] inform(t) && natt(t) <= len(t) ==> err == nil
ensures[type, namespace, id] err == nil ==> p != nil && fresh(p) && says(p, t)
ensures[data] err == nil ==> holds(p, t)
ensures[count] err == nil ==> p.attachments == natt(t) && p.attachments >= 0
ensures[room for the announced] err == nil ==> room(p, t)
ensures[text as it was] bytes(s) == t
cand (j int) :: 1 <= j && j <= len(s)
cand (j int) :: j <= len(s)
cand (j int) :: j < len(s) ==> bytes(s)[j] == s[j]
cand (j int) :: j + 1 < len(s) ==> bytes(s)[j + 1] == s[j + 1]
# the count
cand (p *socketio.Packet, j int) :: tick(j) ==> p.attachments == dnum(bytes(s), 1, j)
cand (p *socketio.Packet, j int) :: 0 <= p.attachments && p.attachments <= 10 * len(s) + 9
cand (j int) :: digits(bytes(s), 1, j)
cand (j int) :: j <= fnd(bytes(s), 1, 45)
# the namespace
cand (j int) :: hasns(bytes(s)) && npos(bytes(s)) < j && j <= nend(bytes(s))
# the id
cand (j int) :: hasid(bytes(s)) && ipos(bytes(s)) < j && j <= iend(bytes(s))

spec "socketio.extractAttachments" (b) (buffer, left)
prop C14
flag nopanic
requires len(b) <= 281474976710656
ensures[one place per placeholder] counted(len(buffer), bytes(b)) && (len(buffer) > 0 ==> fresh(base(buffer)))
ensures[placeholders taken out] bytes(left) == unheld(bytes(b))
ensures[text as it was] bytes(b) == old(bytes(b))

# reassembly: a packet that is waited for still misses attachments, and has a place for each of them
define waits(d) = d.lastp != nil ==> 0 < d.lastp.attachments && d.lastp.attachments <= len(d.lastp.buffer)
define awaited(q) = len(q.buffer) - q.attachments
define fits(s) = inform(s) && natt(s) <= len(s) && (hasdata(s) && isbinp(s) ==> counted(natt(s), dattext(s))) && (!(hasdata(s) && isbinp(s)) ==> natt(s) == 0)
define lastsent(c) = sent[c][len(sent[c]) - 1]
spec "(*socketio.defaultDecoder).Add" (d, mt, data) (err)
prop C14
flag nopanic
requires d != nil && d.packets != nil && !closed[d.packets] && waits(d) && len(data) <= 281474976710656
modifies d.lastp, d.lastp.attachments, mem(d.lastp.buffer), sent[d.packets], jtext, jinto, jerr
let t = bytes(data)
let text = mt == 0
let q = d.lastp
let c = d.packets
let n = len(d.lastp.buffer)
let left = d.lastp.attachments
ensures[the next message finds the decoder in order] waits(d) && d.packets == c
ensures[at most one packet at a time] sent[c] == old(sent[c]) || (len(sent[c]) == len(old(sent[c])) + 1 && sent[c][0:len(old(sent[c]))] == old(sent[c]))
# a text
ensures[every well-formed text] text && fits(t) ==> err == nil
ensures[only well-formed texts] text && err == nil ==> inform(t) && (hasdata(t) && isbinp(t) ==> counted(natt(t), dattext(t))) && (!(hasdata(t) && isbinp(t)) ==> natt(t) == 0)
ensures[released at once without attachments] text && err == nil && natt(t) == 0 ==> len(sent[c]) == len(old(sent[c])) + 1 && d.lastp == nil && says(as(lastsent(c), "*socketio.Packet"), t) && holds(as(lastsent(c), "*socketio.Packet"), t) && len(as(lastsent(c), "*socketio.Packet").buffer) == 0
ensures[held back for its attachments] text && err == nil && natt(t) != 0 ==> sent[c] == old(sent[c]) && fresh(d.lastp) && says(d.lastp, t) && holds(d.lastp, t) && d.lastp.attachments == natt(t) && len(d.lastp.buffer) == natt(t)
# an attachment
ensures[an attachment nobody waits for] !text && q == nil ==> err != nil
ensures[an attachment that is waited for] !text && q != nil ==> err == nil && len(q.buffer) == n && (forall i int {q.buffer[i]} :: 0 <= i && i < n && i != n - left ==> q.buffer[i] == old(q.buffer[i])) && q.buffer[n - left] == data && q.attachments == left - 1
ensures[released with its last attachment] !text && q != nil && left == 1 ==> sent[c] == old(sent[c]) ++ bunit(q) && d.lastp == nil
ensures[not released before] !text && q != nil && left != 1 ==> sent[c] == old(sent[c]) && d.lastp == q
# a refusal
ensures[a refused message changes nothing] err != nil ==> d.lastp == q && sent[c] == old(sent[c]) && (q != nil ==> q.attachments == left && len(q.buffer) == n && (forall i int {q.buffer[i]} :: 0 <= i && i < n ==> q.buffer[i] == old(q.buffer[i])))

spec "socketio.newDefaultDecoder" () (d)
prop C14
flag nopanic
ensures[nothing is waited for] d != nil && fresh(d) && d.lastp == nil && d.packets != nil && fresh(d.packets) && !closed[d.packets] && sent[d.packets] == ""

spec "(*socketio.defaultDecoder).Decoded" (d) (c)
prop C14
flag nopanic
requires d != nil
ensures[where packets are released] c == d.packets

# what an event's data says
spec "socketio.extractEvent" (b) (event, left, match)
prop C14
flag nopanic
modifies jtext, jinto, jerr
define evname(b) = rxgrp(socketio.eventExp, b)
ensures[a name in front] match <==> rxhit(socketio.eventExp, bytes(b)) && jsok(evname(bytes(b)))
ensures[its name] match ==> event == jsval(evname(bytes(b)))
ensures[the other arguments] match ==> bytes(left) == rxexp(socketio.eventExp, bytes(b), "[")

spec "(socketio.defaultDecoder).ParseData" (d, p) (event, data, bin, err)
prop C14
flag nopanic
requires p != nil
modifies jtext, jinto, jerr
let isb = typeof(p.Data, "[]byte")
let b = bytes(as(unboxs(p.Data), "[]byte"))
let evt = p.Type == 2 || p.Type == 5
let hit = rxhit(socketio.eventExp, b) && jsok(evname(b))
ensures[no text] !isb ==> err != nil
ensures[an event without a name] isb && evt && !hit ==> err != nil
ensures[an event] isb && evt && hit ==> err == nil && event == jsval(evname(b)) && bytes(data) == rxexp(socketio.eventExp, b, "[")
ensures[an acknowledgement] isb && (p.Type == 3 || p.Type == 6) ==> err == nil && event == "" && bytes(data) == b
ensures[the attachments] err == nil && (p.Type == 5 || p.Type == 6) ==> bin == p.buffer
ensures[no attachments] p.Type != 5 && p.Type != 6 ==> len(bin) == 0
