# ---- C01: what is written reads back unchanged (lemmas over the contracts of WriteTo and ReadFrom) ----

# extending the stream at its end does not change what was parsed from it
lemma ndcat(s bytes, t bytes, i int)
prop C01
local
from ndge
hyp 0 <= i && nd(s, i) < len(s)
goal nd(s ++ t, i) == nd(s, i)
induct len(s) - i
trigger nd(s ++ t, i)
use s[i]
use (s ++ t)[i]

lemma dvcat(s bytes, t bytes, i int, a int)
prop C01
local
from ndge
hyp 0 <= i && nd(s, i) < len(s)
goal dv(s ++ t, i, a) == dv(s, i, a)
induct len(s) - i
trigger dv(s ++ t, i, a)
use s[i]
use (s ++ t)[i]

lemma rndcat(s bytes, t bytes, i int)
prop C01
local
from rndge
hyp 0 <= i && rnd(s, i) < len(s)
goal rnd(s ++ t, i) == rnd(s, i)
induct len(s) - i
trigger rnd(s ++ t, i)
use s[i]
use (s ++ t)[i]

lemma rdvcat(s bytes, t bytes, i int, a int)
prop C01
local
from rndge
hyp 0 <= i && rnd(s, i) < len(s)
goal rdv(s ++ t, i, a) == rdv(s, i, a)
induct len(s) - i
trigger rdv(s ++ t, i, a)
use s[i]
use (s ++ t)[i]

lemma subcat(s bytes, t bytes, l int, h int)
prop C01
local
from -
hyp 0 <= l && l <= h && h <= len(s)
goal (s ++ t)[l:h] == s[l:h]
trigger (s ++ t)[l:h]

lemma pwfcat(x bool, s bytes, t bytes, i int)
prop C01
local
from ndge rndge dvge rdvge ndcat dvcat rndcat rdvcat subcat
hyp pwf(x, s, i)
goal pwf(x, s ++ t, i) && pend(x, s ++ t, i) == pend(x, s, i) && pmt(x, s ++ t, i) == pmt(x, s, i) && ppt(x, s ++ t, i) == ppt(x, s, i) && pdat(x, s ++ t, i) == pdat(x, s, i)
trigger pend(x, s ++ t, i)
use nd(s, i)
use rnd(s, i + 1)

# a decimal number in the stream is scanned and valued as itself
lemma ndlen(n int)
prop C01
local
from -
hyp n >= 0
goal len(itoa(n)) >= 1 && len(ditoa(n)) >= 1
trigger itoa(n), ditoa(n)
use tick(n)

lemma nditoa(s bytes, i int, n int)
prop C01
local
from ndlen
hyp n >= 0 && 0 <= i && i + len(itoa(n)) <= len(s) && s[i:i + len(itoa(n))] == itoa(n)
goal nd(s, i) == nd(s, i + len(itoa(n))) && dv(s, i, 0) == dv(s, i + len(itoa(n)), n)
induct n
trigger nd(s, i), itoa(n)
use tick(n)
use n >= 10 ==> s[i:i + len(itoa(n / 10))] == itoa(n / 10)
use n >= 10 ==> s[i + len(itoa(n / 10))] == 48 + n % 10
use n < 10 ==> s[i] == 48 + n
use n >= 10 ==> nd(s, i) == nd(s, i + len(itoa(n / 10)))

lemma rnditoa(s bytes, i int, n int)
prop C01
local
from ndlen
hyp n >= 0 && 0 <= i && i + len(ditoa(n)) <= len(s) && s[i:i + len(ditoa(n))] == ditoa(n)
goal rnd(s, i) == rnd(s, i + len(ditoa(n))) && rdv(s, i, 0) == rdv(s, i + len(ditoa(n)), n)
induct n
trigger rnd(s, i), ditoa(n)
use tick(n)
use n >= 10 ==> s[i:i + len(ditoa(n / 10))] == ditoa(n / 10)
use n >= 10 ==> s[i + len(ditoa(n / 10))] == n % 10
use n < 10 ==> s[i] == n
use n >= 10 ==> rnd(s, i) == rnd(s, i + len(ditoa(n / 10)))

lemma numend(s bytes, i int, n int)
prop C01
local
from nditoa ndlen
hyp n >= 0 && 0 <= i && i + len(itoa(n)) < len(s) && s[i:i + len(itoa(n))] == itoa(n) && s[i + len(itoa(n))] == 58
goal nd(s, i) == i + len(itoa(n)) && dv(s, i, 0) == n
trigger nd(s, i), itoa(n)
use s[i + len(itoa(n))]

lemma rnumend(s bytes, i int, n int)
prop C01
local
from rnditoa ndlen
hyp n >= 0 && 0 <= i && i + len(ditoa(n)) < len(s) && s[i:i + len(ditoa(n))] == ditoa(n) && s[i + len(ditoa(n))] == 255
goal rnd(s, i) == i + len(ditoa(n)) && rdv(s, i, 0) == n
trigger rnd(s, i), ditoa(n)
use s[i + len(ditoa(n))]

# a sequence in the middle
lemma mid(s bytes, a bytes, b bytes)
prop C01
local
from -
goal (s ++ (a ++ b))[len(s):len(s) + len(a)] == a && (s ++ (a ++ b)) == (s ++ a) ++ b
trigger s ++ (a ++ b)

# a packet at the end of the stream is parsed as itself
lemma wire1str(s bytes, pt int, d bytes)
prop C01
local
from numend ndlen mid
hyp 0 <= pt && pt <= 6
goal pwf(false, s ++ wire(false, 0, pt, d), len(s)) && pend(false, s ++ wire(false, 0, pt, d), len(s)) == len(s ++ wire(false, 0, pt, d)) && pmt(false, s ++ wire(false, 0, pt, d), len(s)) == 0 && ppt(false, s ++ wire(false, 0, pt, d), len(s)) == pt && pdat(false, s ++ wire(false, 0, pt, d), len(s)) == d
trigger pend(false, s ++ wire(false, 0, pt, d), len(s))
use tick(len(d))
use wire(false, 0, pt, d) == itoa(1 + len(d)) ++ (bunit(58) ++ (bunit(48 + pt) ++ d))
use (s ++ wire(false, 0, pt, d))[len(s) + len(itoa(1 + len(d)))] == 58
use (s ++ wire(false, 0, pt, d))[len(s) + len(itoa(1 + len(d))) + 1] == 48 + pt
use (s ++ wire(false, 0, pt, d))[len(s):len(s) + len(itoa(1 + len(d)))] == itoa(1 + len(d))
use nd(s ++ wire(false, 0, pt, d), len(s)) == len(s) + len(itoa(1 + len(d))) && dv(s ++ wire(false, 0, pt, d), len(s), 0) == 1 + len(d)
use (s ++ wire(false, 0, pt, d))[len(s) + len(itoa(1 + len(d))) + 2:len(s) + len(itoa(1 + len(d))) + 2 + len(d)] == d

lemma wire1bin(s bytes, pt int, d bytes)
prop C01
local
from numend ndlen mid
hyp 0 <= pt && pt <= 6
goal pwf(false, s ++ wire(false, 1, pt, d), len(s)) && pend(false, s ++ wire(false, 1, pt, d), len(s)) == len(s ++ wire(false, 1, pt, d)) && pmt(false, s ++ wire(false, 1, pt, d), len(s)) == 1 && ppt(false, s ++ wire(false, 1, pt, d), len(s)) == pt && pdat(false, s ++ wire(false, 1, pt, d), len(s)) == d
trigger pend(false, s ++ wire(false, 1, pt, d), len(s))
use tick(len(d))
use wire(false, 1, pt, d) == itoa(2 + len(b64enc(d))) ++ (bunit(58) ++ (bunit(98) ++ (bunit(48 + pt) ++ b64enc(d))))
use (s ++ wire(false, 1, pt, d))[len(s) + len(itoa(2 + len(b64enc(d))))] == 58
use (s ++ wire(false, 1, pt, d))[len(s) + len(itoa(2 + len(b64enc(d)))) + 1] == 98
use (s ++ wire(false, 1, pt, d))[len(s) + len(itoa(2 + len(b64enc(d)))) + 2] == 48 + pt
use (s ++ wire(false, 1, pt, d))[len(s):len(s) + len(itoa(2 + len(b64enc(d))))] == itoa(2 + len(b64enc(d)))
use nd(s ++ wire(false, 1, pt, d), len(s)) == len(s) + len(itoa(2 + len(b64enc(d)))) && dv(s ++ wire(false, 1, pt, d), len(s), 0) == 2 + len(b64enc(d))
use (s ++ wire(false, 1, pt, d))[len(s) + len(itoa(2 + len(b64enc(d)))) + 3:len(s) + len(itoa(2 + len(b64enc(d)))) + 3 + len(b64enc(d))] == b64enc(d)

lemma wire2end(s bytes, mt int, pt int, d bytes)
prop C01
local
from rnumend ndlen mid
hyp 0 <= mt && mt <= 1 && 0 <= pt && pt <= 6
goal pwf(true, s ++ wire(true, mt, pt, d), len(s)) && pend(true, s ++ wire(true, mt, pt, d), len(s)) == len(s ++ wire(true, mt, pt, d)) && pmt(true, s ++ wire(true, mt, pt, d), len(s)) == mt && ppt(true, s ++ wire(true, mt, pt, d), len(s)) == pt && pdat(true, s ++ wire(true, mt, pt, d), len(s)) == d
trigger pend(true, s ++ wire(true, mt, pt, d), len(s))
use tick(len(d))
use wire(true, mt, pt, d) == bunit(mt) ++ (ditoa(1 + len(d)) ++ (bunit(255) ++ (bunit(pt + 48 * (1 - mt)) ++ d)))
use (s ++ wire(true, mt, pt, d))[len(s)] == mt
use (s ++ wire(true, mt, pt, d))[len(s) + 1 + len(ditoa(1 + len(d)))] == 255
use (s ++ wire(true, mt, pt, d))[len(s) + 1 + len(ditoa(1 + len(d))) + 1] == pt + 48 * (1 - mt)
use (s ++ wire(true, mt, pt, d))[len(s) + 1:len(s) + 1 + len(ditoa(1 + len(d)))] == ditoa(1 + len(d))
use rnd(s ++ wire(true, mt, pt, d), len(s) + 1) == len(s) + 1 + len(ditoa(1 + len(d))) && rdv(s ++ wire(true, mt, pt, d), len(s) + 1, 0) == 1 + len(d)
use (s ++ wire(true, mt, pt, d))[len(s) + 1 + len(ditoa(1 + len(d))) + 2:len(s) + 1 + len(ditoa(1 + len(d))) + 2 + len(d)] == d

lemma wireend(x bool, s bytes, mt int, pt int, d bytes)
prop C01
local
from wire1str wire1bin wire2end
hyp 0 <= mt && mt <= 1 && 0 <= pt && pt <= 6
goal pwf(x, s ++ wire(x, mt, pt, d), len(s)) && pend(x, s ++ wire(x, mt, pt, d), len(s)) == len(s ++ wire(x, mt, pt, d)) && pmt(x, s ++ wire(x, mt, pt, d), len(s)) == mt && ppt(x, s ++ wire(x, mt, pt, d), len(s)) == pt && pdat(x, s ++ wire(x, mt, pt, d), len(s)) == d
trigger pend(x, s ++ wire(x, mt, pt, d), len(s))
use x == false && mt == 0 ==> pend(false, s ++ wire(false, 0, pt, d), len(s)) == len(s ++ wire(false, 0, pt, d))
use x == false && mt == 1 ==> pend(false, s ++ wire(false, 1, pt, d), len(s)) == len(s ++ wire(false, 1, pt, d))
use x == true ==> pend(true, s ++ wire(true, mt, pt, d), len(s)) == len(s ++ wire(true, mt, pt, d))

lemma pposcat(x bool, s bytes, t bytes, k int)
prop C01
local
from pwfcat
hyp k >= 0 && (forall j int {ppos(x, s, 0, j)} :: 0 <= j && j < k ==> pwf(x, s, ppos(x, s, 0, j)))
goal ppos(x, s ++ t, 0, k) == ppos(x, s, 0, k)
induct k
trigger ppos(x, s ++ t, 0, k)
use tick(k)
use k > 0 ==> ppos(x, s ++ t, 0, k - 1) == ppos(x, s, 0, k - 1)
use k > 0 ==> pwf(x, s, ppos(x, s, 0, k - 1))
use k > 0 ==> pend(x, s ++ t, ppos(x, s, 0, k - 1)) == pend(x, s, ppos(x, s, 0, k - 1))

# the payload written for n packets is parsed as exactly these packets, in order
lemma written(x bool, a intmap, b intmap, c slmap, m bytesmap, q int, o int, n int, k int)
prop C01
local
from pposcat pwfcat wireend
hyp 0 <= k && k <= n && (forall e int {elem(q, e)} :: o <= e && e < o + n ==> 0 <= a[elem(q, e)] && a[elem(q, e)] <= 1 && 0 <= b[elem(q, e)] && b[elem(q, e)] <= 6)
goal ppos(x, pw(x, a, b, c, m, q, o, n), 0, k) == len(pw(x, a, b, c, m, q, o, k)) && (k < n ==> pwf(x, pw(x, a, b, c, m, q, o, n), ppos(x, pw(x, a, b, c, m, q, o, n), 0, k)) && pmt(x, pw(x, a, b, c, m, q, o, n), ppos(x, pw(x, a, b, c, m, q, o, n), 0, k)) == a[elem(q, o + k)] && ppt(x, pw(x, a, b, c, m, q, o, n), ppos(x, pw(x, a, b, c, m, q, o, n), 0, k)) == b[elem(q, o + k)] && pdat(x, pw(x, a, b, c, m, q, o, n), ppos(x, pw(x, a, b, c, m, q, o, n), 0, k)) == slb(m, c[elem(q, o + k)]))
induct n
trigger ppos(x, pw(x, a, b, c, m, q, o, n), 0, k)
use tick(n)
use tick(k)
let S = pw(x, a, b, c, m, q, o, n - 1)
let M = a[elem(q, o + n - 1)]
let P = b[elem(q, o + n - 1)]
let D = slb(m, c[elem(q, o + n - 1)])
use n > 0 ==> pw(x, a, b, c, m, q, o, n) == S ++ wire(x, M, P, D)
use n > 0 && k < n ==> ppos(x, S, 0, k) == len(pw(x, a, b, c, m, q, o, k))
use n > 0 ==> ppos(x, S, 0, n - 1) == len(S)
use n > 0 && k < n ==> (forall j int {ppos(x, S, 0, j)} :: 0 <= j && j < n - 1 ==> pwf(x, S, ppos(x, S, 0, j)))
use n > 0 && k < n ==> ppos(x, S ++ wire(x, M, P, D), 0, k) == ppos(x, S, 0, k)
use n > 0 && k < n - 1 ==> pend(x, S ++ wire(x, M, P, D), ppos(x, S, 0, k)) == pend(x, S, ppos(x, S, 0, k))
use n > 0 ==> pend(x, S ++ wire(x, M, P, D), len(S)) == len(S ++ wire(x, M, P, D))
use n > 0 ==> ppos(x, S ++ wire(x, M, P, D), 0, n - 1) == len(S)

lemma pallpos(x bool, s bytes, k int, n int)
prop C01
local
from -
hyp 0 <= k && k <= n && ppos(x, s, 0, n) == len(s) && (forall j int {ppos(x, s, 0, j)} :: 0 <= j && j < n ==> pwf(x, s, ppos(x, s, 0, j)))
goal pall(x, s, ppos(x, s, 0, k))
induct n - k
trigger ppos(x, s, 0, k), ppos(x, s, 0, n)
use tick(k + 1)
use k < n ==> pwf(x, s, ppos(x, s, 0, k))
use k < n ==> ppos(x, s, 0, k + 1) == pend(x, s, ppos(x, s, 0, k))
use k < n ==> pall(x, s, ppos(x, s, 0, k + 1))

lemma pendgt(x bool, s bytes, i int)
prop C01
local
from ndge rndge dvge rdvge
hyp pwf(x, s, i)
goal pend(x, s, i) > i
trigger pend(x, s, i)

lemma pposmono(x bool, s bytes, j int, k int)
prop C01
local
from pendgt
hyp 0 <= j && j < k && (forall i int {ppos(x, s, 0, i)} :: 0 <= i && i < k ==> pwf(x, s, ppos(x, s, 0, i)))
goal ppos(x, s, 0, j) < ppos(x, s, 0, k)
induct k
trigger ppos(x, s, 0, j), ppos(x, s, 0, k)
use tick(k)
use j < k - 1 ==> ppos(x, s, 0, j) < ppos(x, s, 0, k - 1)
use pwf(x, s, ppos(x, s, 0, k - 1))
use ppos(x, s, 0, k - 1) < pend(x, s, ppos(x, s, 0, k - 1))

# C01: reading back what WriteTo wrote succeeds and yields the same number of packets (their fields: lemma written)
lemma roundtrip(x bool, a intmap, b intmap, c slmap, m bytesmap, q int, o int, n int, r int)
prop C01
local
from written pallpos pposmono
hyp 0 <= n && 0 <= r && (forall e int {elem(q, e)} :: o <= e && e < o + n ==> 0 <= a[elem(q, e)] && a[elem(q, e)] <= 1 && 0 <= b[elem(q, e)] && b[elem(q, e)] <= 6)
hyp ppos(x, pw(x, a, b, c, m, q, o, n), 0, r) == len(pw(x, a, b, c, m, q, o, n)) && (forall j int {ppos(x, pw(x, a, b, c, m, q, o, n), 0, j)} :: 0 <= j && j < r ==> pwf(x, pw(x, a, b, c, m, q, o, n), ppos(x, pw(x, a, b, c, m, q, o, n), 0, j)))
let W = pw(x, a, b, c, m, q, o, n)
goal pall(x, W, 0) && r == n
use ppos(x, W, 0, n) == len(W)
use ppos(x, W, 0, 0) == 0
use (forall j int {ppos(x, W, 0, j)} :: 0 <= j && j < n ==> pwf(x, W, ppos(x, W, 0, j)))
use pall(x, W, 0)
