# ---- sessions: C08 (registry, ids), C07 (admission) ----
# the cryptographic random source does not fail
define randok(n) = rgood[rand.Reader] && 0 <= rpos[rand.Reader] && rpos[rand.Reader] + n <= len(rdata[rand.Reader])
guard engine.sessionManager.ß by RWMutex fixed
# every registered session is registered under its own id
monitor[own id] "engine.sessionManager.RWMutex" (m) m.ß != nil && (forall k bytes {m.ß[k]} :: k in m.ß ==> m.ß[k] != nil && m.ß[k].id == k && psock(m.ß[k]))
# the parts of a session
define psock(s) = s != nil && s.emitter != nil && s.barrier != nil && s.emitter.so == s && s.emitter.packets != nil && s.emitter.done != nil
define regv(m) = atlock("engine.sessionManager.RWMutex", mapval(m.ß))
define regd(m) = atlock("engine.sessionManager.RWMutex", mapdom(m.ß))

spec "(*engine.sessionManager).Get" (s, id) (b, ok)
prop C08
flag nopanic inline
requires s != nil
ensures[registered] locked("engine.sessionManager.RWMutex") && (ok <==> id in regd(s))
ensures[the session] ok ==> b == regv(s)[id] && b != nil && b.id == id
ensures[unchanged] mapdom(s.ß) == regd(s) && mapval(s.ß) == regv(s)

spec "(*engine.sessionManager).Remove" (s, id)
prop C08
flag nopanic inline
requires s != nil
modifies map(s.ß)
ensures[gone] !(id in atunlock("engine.sessionManager.RWMutex", mapdom(s.ß)))
ensures[others] forall k bytes {k in mapdom(s.ß)} :: k != id ==> (k in atunlock("engine.sessionManager.RWMutex", mapdom(s.ß)) <==> k in regd(s)) && atunlock("engine.sessionManager.RWMutex", mapval(s.ß))[k] == regv(s)[k]

spec "(*engine.sessionManager).NewSession" (s, conn, rt, wt) (b)
prop C08
flag nopanic inline
requires s != nil && conn != nil && randok(16)
modifies map(s.ß), rpos[rand.Reader], now
ensures[registered] fresh(b) && b.id in mapdom(s.ß) && mapval(s.ß)[b.id] == b
ensures[only it] forall k bytes {k in mapdom(s.ß)} :: k != b.id ==> (k in mapdom(s.ß) <==> k in regd(s)) && mapval(s.ß)[k] == regv(s)[k]
ensures[id] sid(b.id)

# ---- session ids ----
# unb32(s) are the bytes that s spells in base 32; the session alphabet is a URL-safe one of 32 distinct characters
define sid(s) = len(s) == 26 && (forall i int {s[i]} :: 0 <= i && i < 26 ==> sidchar(s[i]))
define sidchar(c) = 48 <= c && c <= 57 || 65 <= c && c <= 90 || 97 <= c && c <= 122 || c == 45 || c == 95

extern "(time.Time).UnixNano" (t) (n)
ensures 0 - 9223372036854775808 <= tns(t) - epoch && tns(t) - epoch <= 9223372036854775807 ==> n == tns(t) - epoch
flag noalloc

extern "(*base32.Encoding).EncodeToString" (e, src) (s)
requires[the session alphabet] e == engine.b32enc
ensures len(s) == (len(src) * 8 + 4) / 5 && unb32(s) == bytes(src)
ensures forall i int {s[i]} :: 0 <= i && i < len(s) ==> sidchar(s[i])
flag noalloc

spec "engine.generateSidBytes" (n) (k)
prop C08
flag nopanic
requires n > 6 && n <= 4096 && randok(n)
modifies now, rpos[rand.Reader]
ensures[fresh] fresh(k) && len(k) == n
ensures[time] now - epoch >= 0 && now - epoch <= 9223372036854775807 ==> be48(bytes(k)) == ((now - epoch) / 1000000) % 281474976710656
ensures[random] bytes(k)[6:n] == rdata[rand.Reader][old(rpos[rand.Reader]):old(rpos[rand.Reader]) + n - 6]
ensures[random taken] rpos[rand.Reader] == old(rpos[rand.Reader]) + n - 6
define be48(b) = b[0] * 1099511627776 + b[1] * 4294967296 + b[2] * 16777216 + b[3] * 65536 + b[4] * 256 + b[5]

spec "engine.newSession" (conn, rt, wt) (s)
prop C08
flag nopanic
requires conn != nil && randok(16)
modifies now, rpos[rand.Reader]
ensures[new] fresh(s) && s.Conn == conn && s.readTimeout == rt && s.writeTimeout == wt && psock(s)
ensures[id] sid(s.id)
ensures[time] now - epoch >= 0 && now - epoch <= 9223372036854775807 ==> be48(unb32(s.id)) == ((now - epoch) / 1000000) % 281474976710656
ensures[random] unb32(s.id)[6:16] == rdata[rand.Reader][old(rpos[rand.Reader]):old(rpos[rand.Reader]) + 10] && len(unb32(s.id)) == 16
ensures[random taken] rpos[rand.Reader] == old(rpos[rand.Reader]) + 10

# the alphabet of the session ids
spec "engine.init" ()
noframe
prop C08
atcall[session alphabet] "base32.NewEncoding" (a) len(a) == 32 && (forall i int {a[i]} :: 0 <= i && i < 32 ==> sidchar(a[i])) && (forall i int, j int {a[i], a[j]} :: 0 <= i && i < j && j < 32 ==> a[i] != a[j])
atcall[no padding] "(base32.Encoding).WithPadding" (e, p) p == 0 - 1

# ---- event handlers ----
guard engine.eventHandlers.handlers by RWMutex fixed
monitor[handlers] "engine.eventHandlers.RWMutex" (e) e.handlers != nil && (forall k bytes {e.handlers[k]} :: k in e.handlers ==> e.handlers[k] != nil)

# a handler is called (the trace of the calls is called, cso, ctyp, cdat); what it does is outside the contracts
ghost called : bytes
ghost cso : bytes
ghost ctyp : bytes
ghost cdat : [ref]bytes
extern "(engine.Callable).Call" (h, so, t, d)
flag handler noalloc
modifies called, cso, ctyp, cdat[len(called)]
ensures called == old(called) ++ bunit(h) && cso == old(cso) ++ bunit(so) && ctyp == old(ctyp) ++ bunit(t) && cdat[len(old(called))] == bytes(d)
