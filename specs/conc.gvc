# ---- channels, sync.Once, atomic.Value, time, contexts ----
# closed[c]: channel c has been closed (by anyone; never undone).  sent[c], recvd[c]: the values this
# operation put into and took out of c, in order.  emptied[c]: c was found empty since the last receive.
ghost closed : [ref]bool
ghost sent : [ref]bytes
ghost recvd : [ref]bytes
ghost emptied : [ref]bool
ghost chancap : [ref]int
ghost oncedone : [ref]bool of sync.Once
ghost aval : [ref]int of atomic.Value
# the clock, in nanoseconds; it never goes back
ghost now : int

extern "time.Until" (t) (d)
modifies now
ensures now >= old(now)
ensures d <= 0 <==> tns(t) <= now
ensures d == tns(t) - now || tns(t) - now > 9223372036854775807 || tns(t) - now < 0 - 9223372036854775807
flag noalloc

extern "time.Now" () (t)
modifies now
ensures now >= old(now) && tns(t) == now && !tzero(t)
flag noalloc

extern "(time.Time).IsZero" (t) (z)
ensures z == tzero(t)
flag noalloc

extern "(time.Time).Add" (t, d) (u)
ensures tns(u) == tns(t) + d
flag noalloc

# fires[c]: a timer sends on c at the latest at this instant
ghost fires : [ref]int
ghost istimer : [ref]bool
extern "time.After" (d) (c)
ensures c != nil && fresh(c) && istimer[c] && fires[c] == now + d

# ctxdone[c]: the channel that is closed when context c ends
ghost ctxdone : [ref]int
extern "(context.Context).Done" (c) (d)
ensures d == ctxdone[c]
flag noalloc

# started[g]: something was added to the wait group
extern "(*sync.WaitGroup).Add" (g, n)
modifies started[g]
ensures started[g]
flag noalloc
extern "(*sync.WaitGroup).Done" (g)
flag noalloc
