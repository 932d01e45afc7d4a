---------------------------- MODULE CacheTrace ----------------------------
(* Trace acceptor: every line of the file IOEnv.TRACE is one history        *)
(* recorded from the real code,                                             *)
(*     {"hdr": {...}, "ev": [event, ...]}                                   *)
(* It is accepted iff it is a behaviour of CacheCore (plus the memory       *)
(* guarantees below, for traces that carry addresses).  A step that is not  *)
(* allowed prints <<"FAIL", trace, event, label>> and the trace gets stuck; *)
(* a completely explained trace prints <<"ACCEPTED", trace>>.               *)
(*                                                                          *)
(* hdr: nk keys, kl key lengths, bl lengths of blobs, isz item header,      *)
(*      page, np pages, bh block header, evict, addr (addresses recorded),  *)
(*      stats (count statistics), nd (time may tick inside an operation)    *)
(*      tmax: end of time (in the units of this trace)                      *)
EXTENDS CacheCore, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr,      \* which trace
          i,       \* next event
          items,   \* [1..nk -> entry]
          used,    \* tokens seen so far
          recent,  \* key protected by its last access, 0 = none
          hot,     \* [k, n, left, run]: repeatedly read key and evictions it must survive;
                   \* run: keys of the page-filling items stored in a row
          pgs,     \* <<lowest, highest>> page number seen
          cnt      \* statistics counters
vars == <<tr, i, items, used, recent, hot, pgs, cnt>>

H == Traces[tr].hdr
Ev == Traces[tr].ev

Chk(label, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", tr, i, label>>) /\ FALSE

\* times and time-to-lives are counted in units of one or many seconds; the clock ends at tmax
TtlIn(ttl, t) == IF ttl >= H.tmax - t THEN INF ELSE ttl

-----------------------------------------------------------------------------
\* sizes: bytes 0..255 are single bytes, 1000.. are blobs, 2000000+k is the 8-byte stamp of key k

PieceLen(x) == IF x < 1000 THEN 1 ELSE IF x >= 2000000 THEN 8 ELSE H.bl[x - 999]

RECURSIVE SumLen(_, _)
SumLen(v, n) == IF n = 0 THEN 0 ELSE PieceLen(v[n]) + SumLen(v, n - 1)
VLen(v) == SumLen(v, Len(v))

ItemSize(k, v) == H.isz + H.kl[k] + VLen(v)
MaxItem == H.page - H.bh

Keys == 1..H.nk
Present == {k \in Keys : items[k].p}

-----------------------------------------------------------------------------
\* memory layout (only meaningful if H.addr)

SizeAt(m, k) == ItemSize(k, m[k].v)

Disjoint(o1, s1, o2, s2) == o1 + s1 <= o2 \/ o2 + s2 <= o1

\* the area of a new item of size sz placed at <<pg, off>> given the other items in m
AreaOK(m, pg, off, sz, except) ==
    /\ Chk("align", off % 8 = 0)
    /\ Chk("page-cross", off + sz <= H.page)
    /\ Chk("overlap", \A k \in Keys \ except :
            (m[k].p /\ m[k].pg = pg) => Disjoint(m[k].off, SizeAt(m, k), off, sz))
    /\ Chk("arena", LET lo == IF pgs[1] < pg THEN pgs[1] ELSE pg
                        hi == IF pgs[2] > pg THEN pgs[2] ELSE pg
                    IN hi - lo < H.np)

NewPgs(pg) == << IF pgs[1] < pg THEN pgs[1] ELSE pg, IF pgs[2] > pg THEN pgs[2] ELSE pg >>

\* is there certainly a free area of `bytes' bytes within one page?
BigGap(m, bytes) ==
    /\ H.addr
    /\ \A k \in Keys : m[k].p => m[k].pg >= 0
    /\ LET pres == {k \in Keys : m[k].p}
           occ  == {m[k].pg : k \in pres}
       IN \/ Cardinality(occ) < H.np /\ bytes <= H.page
          \/ \E g \in occ :
               LET on == {k \in pres : m[k].pg = g}
               IN \/ \A k \in on : m[k].off >= bytes
                  \/ \E k \in on :
                       LET end == m[k].off + SizeAt(m, k)
                       IN /\ end + bytes <= H.page
                          /\ \A j \in on : m[j].off > m[k].off => m[j].off >= end + bytes

\* twice what is needed, plus the bounded slack of neighbouring blocks
Roomy(sz) == 2 * sz + 320

\* a completely free page serves every allowed item; decided when no other free area exists:
\* all items fill their pages (but for less than the smallest block)
FreePage(m, sz) ==
    /\ H.addr /\ sz <= MaxItem
    /\ \A k \in Keys : m[k].p => m[k].pg >= 0 /\ SizeAt(m, k) >= MaxItem - 32
    /\ Cardinality({k \in Keys : m[k].p}) < H.np

Room(m, sz) == BigGap(m, Roomy(sz)) \/ FreePage(m, sz)

-----------------------------------------------------------------------------
\* evictions reported during one operation: ev is a sequence of [k, val, fl, pg, off]

EvKeys(e) == {e.ev[j].k : j \in 1..Len(e.ev)}

\* once 2N page-filling items were stored in a row, the oldest one makes room for the next
PageFill(e, sz) == e.o = "store" /\ e.verb = "set" /\ ~items[e.k].p /\ sz >= MaxItem - 32
InTurn(e, sz) ==
    (PageFill(e, sz) /\ Len(hot.run) >= 2 * H.np)
        => EvKeys(e) \subseteq {hot.run[Len(hot.run) - H.np + 1]}

EvictionsOK(e, sz, protected) ==
    IF Len(e.ev) = 0 THEN TRUE ELSE
    /\ Chk("evict-disabled", H.evict)
    /\ Chk("evict-unknown-key", \A j \in 1..Len(e.ev) : e.ev[j].k \in Keys)
    /\ Chk("evict-twice", Cardinality(EvKeys(e)) = Len(e.ev))
    /\ Chk("evict-absent", \A j \in 1..Len(e.ev) : items[e.ev[j].k].p)
    /\ Chk("evict-content", \A j \in 1..Len(e.ev) :
             items[e.ev[j].k].v = e.ev[j].val /\ items[e.ev[j].k].f = e.ev[j].fl)
    /\ Chk("evict-many-pages", H.addr => \A j \in 1..Len(e.ev) : e.ev[j].pg = e.ev[1].pg)
    \* (an arithmetic operation touches the page of its own item first, which may demote another page)
    /\ Chk("evict-recent", e.o = "arith" \/ recent \notin EvKeys(e))
    /\ Chk("evict-protected", protected \cap EvKeys(e) = {})
    /\ Chk("evict-hot", hot.left > 0 => hot.k \notin EvKeys(e))
    /\ Chk("evict-in-turn", InTurn(e, sz))
    /\ Chk("evict-needless", ~Room(items, sz))

AfterEvict(e) == IF Len(e.ev) = 0 THEN items
                 ELSE [k \in Keys |-> IF k \in EvKeys(e) THEN None ELSE items[k]]

-----------------------------------------------------------------------------
\* statistics

Bump(names, nev, nalloc, nfail) ==
    IF ~H.stats THEN cnt ELSE
    [c \in CounterNames |->
        cnt[c] + (IF c \in names THEN 1 ELSE 0)
               + (IF c = "evictions" THEN nev ELSE 0)
               + (IF c = "num_malloc" THEN nalloc ELSE 0)
               + (IF c = "num_alloc_errors" THEN nfail ELSE 0)]

BumpN(n1, a, n2, b, n3, c) ==
    IF ~H.stats THEN cnt ELSE
    [x \in CounterNames |-> cnt[x] + (IF x = n1 THEN a ELSE 0) + (IF x = n2 THEN b ELSE 0)
                                   + (IF x = n3 THEN c ELSE 0)]

-----------------------------------------------------------------------------
Unprotect == recent' = 0
CoolDown  == hot' = [k |-> 0, n |-> 0, left |-> 0, run |-> <<>>]
Same == UNCHANGED <<items, used, pgs>>

TokenOK(tok) == Chk("token-reused", tok = 0 \/ tok \notin used)
AddTok(tok) == IF tok = 0 THEN used ELSE used \cup {tok}

\* the C API shows only "failed" when the caller passed no error structure
Says(e, res) ==
    \/ e.r = res
    \/ e.r = "err_any" /\ res \in {"err_key", "err_big", "err_oom", "err_num"}
    \/ e.r = "not_stored_or_err" /\ res \in {"not_stored", "not_found", "err_key", "err_big", "err_oom", "err_num"}

Refused(e, r) ==
    /\ Chk("refused-" \o r, ~e.made /\ Says(e, r))
    /\ Chk("refused-evicted", Len(e.ev) = 0)
    /\ Same /\ Unprotect /\ CoolDown

\* does the presented token match the entry? (unknown token: may match if never seen elsewhere)
CasMatches(e, old) ==
    IF e.verb # "cas" THEN {FALSE}
    ELSE IF old.tok # 0 THEN {e.cas = old.tok}
    ELSE IF e.cas \in used THEN {FALSE} ELSE {TRUE, FALSE}

\* memory of the process ran out (a denied allocation): refused, and nothing but evictions happened
NoMemory(e, sz) ==
    /\ Chk("no-memory", "flt" \in DOMAIN e /\ e.flt /\ ~H.stats)
    /\ EvictionsOK(e, sz, {})
    /\ items' = AfterEvict(e)
    /\ used' = IF e.o = "store" THEN AddTok(e.tok) ELSE used
    /\ UNCHANGED <<pgs, cnt>> /\ Unprotect /\ CoolDown

Extends(e) == e.verb \in {"append", "prepend"}

DoStore(e) ==
    LET sz == ItemSize(e.k, e.val) IN
    IF e.r = "err_sys" THEN NoMemory(e, sz)
    ELSE IF H.kl[e.k] > 250 THEN Refused(e, "err_key") /\ UNCHANGED cnt
    ELSE IF sz > MaxItem THEN Refused(e, "err_big") /\ UNCHANGED cnt
    ELSE IF ~e.made THEN
        /\ Chk("oom-result", Says(e, "err_oom"))
        /\ Chk("oom-with-eviction", ~H.evict)
        /\ Chk("oom-evicted", Len(e.ev) = 0)
        /\ Chk("oom-room", ~Room(items, sz))
        /\ Same /\ Unprotect /\ CoolDown
        /\ cnt' = Bump({}, 0, 1, 1)
    ELSE
    \E t \in e.t0..e.t1, u \in e.t0..e.t1 :
        LET m    == AfterEvict(e)
            old  == m[e.k]
            new  == Entry(e.val, e.fl, ExpAt(TtlIn(e.ttl, u), u), e.tok, e.pg, e.off)
            nsz  == IF old.p THEN ItemSize(e.k, old.v \o e.val) ELSE 0
            big  == Extends(e) /\ Live(old, t) /\ nsz > MaxItem
            oom  == Extends(e) /\ Live(old, t) /\ ~big /\ e.r # "stored"
        IN
        /\ EvictionsOK(e, sz, {})
        /\ TokenOK(e.tok)
        /\ IF e.pg >= 0 THEN AreaOK(m, e.pg, e.off, sz, {}) ELSE TRUE
        /\ \E match \in CasMatches(e, old) :
             LET out == StoreOut(e.verb, old, new, t, match)
                 res == IF big THEN "err_big" ELSE IF oom THEN "err_oom" ELSE out.r
                 it  == IF big \/ oom THEN old ELSE out.it
             IN
             /\ Chk("result-" \o e.verb, Says(e, res))
             /\ Chk("extend-oom-room", oom => ~BigGap(m, Roomy(nsz + sz + 64)))
             /\ items' = [m EXCEPT ![e.k] = it]
             /\ used' = AddTok(e.tok)
             /\ pgs' = IF e.pg >= 0 THEN NewPgs(e.pg) ELSE pgs
             /\ recent' = IF res = "stored" /\ (Extends(e) \/ ~Live(old, t)) THEN e.k ELSE 0
             /\ IF PageFill(e, sz)
                THEN hot' = [hot EXCEPT !.left = IF @ > 0 THEN @ - 1 ELSE 0, !.n = 0, !.run = Append(@, e.k)]
                ELSE CoolDown
             /\ cnt' = Bump(StoreCounters(e.verb, old, t, res), Len(e.ev),
                            IF Extends(e) /\ Live(old, t) /\ ~big THEN 2 ELSE 1,
                            IF oom THEN 1 ELSE 0)

\* observation of an entry by a read: value, flags, token (0 = not shown), address
Observe(e, it, label) ==
    /\ Chk(label \o "-value", e.val = it.v)
    /\ Chk(label \o "-flags", e.fl = it.f)
    /\ Chk(label \o "-token", (e.tok # 0 /\ it.tok # 0) => e.tok = it.tok)
    /\ Chk(label \o "-token-reused", (e.tok # 0 /\ it.tok = 0) => e.tok \notin used)
    /\ Chk(label \o "-moved", (e.pg >= 0 /\ it.pg >= 0) => (e.pg = it.pg /\ e.off = it.off))
    /\ IF e.pg >= 0 /\ it.pg < 0
       THEN AreaOK(items, e.pg, e.off, ItemSize(e.k, it.v), {e.k}) ELSE TRUE

Seen(e, it) ==
    [it EXCEPT !.tok = IF @ = 0 THEN e.tok ELSE @,
               !.pg = IF @ < 0 THEN e.pg ELSE @,
               !.off = IF it.pg < 0 THEN e.off ELSE @]

DoGet(e) ==
    \E t \in e.t0..e.t1 :
    LET out == GetOut(items[e.k], t) IN
    /\ Chk("get-" \o out.r, e.hit = (out.r = "hit"))
    /\ IF e.hit
       THEN /\ Observe(e, out.it, "get")
            /\ Chk("get-ttl", e.ttl >= 0 =>
                   \/ e.ttl \in {IF out.it.e = INF THEN 0 ELSE out.it.e - x : x \in e.t0..e.t1}
                   \* recorded time-to-lives are capped at 1500000000
                   \/ out.it.e - e.t1 > 1400000000 /\ (e.ttl > 1400000000 \/ e.ttl = 0))
            /\ LET now == Seen(e, out.it)
               IN items' = IF now = items[e.k] THEN items ELSE [items EXCEPT ![e.k] = now]
            /\ used' = AddTok(e.tok)
            /\ pgs' = IF e.pg >= 0 THEN NewPgs(e.pg) ELSE pgs
            /\ recent' = e.k
            /\ LET n == IF hot.k = e.k THEN hot.n + 1 ELSE 1
               IN hot' = [k |-> e.k, n |-> n, left |-> IF n >= H.np THEN H.np - 2 ELSE 0, run |-> <<>>]
       ELSE /\ items' = IF items[e.k].p THEN [items EXCEPT ![e.k] = None] ELSE items
            /\ UNCHANGED <<used, pgs>> /\ Unprotect /\ CoolDown
    /\ cnt' = Bump({"cmd_get", IF e.hit THEN "get_hits" ELSE "get_misses"}, 0, 0, 0)

DoDel(e) ==
    \E t \in e.t0..e.t1 :
    LET out == DelOut(items[e.k], t) IN
    /\ Chk("result-delete", e.r = out.r)
    /\ items' = [items EXCEPT ![e.k] = out.it]
    /\ UNCHANGED <<used, pgs>> /\ Unprotect /\ CoolDown
    /\ cnt' = Bump({"cmd_delete", IF e.r = "deleted" THEN "delete_hits" ELSE "delete_misses"}, 0, 0, 0)

DoTouch(e) ==
    \E t \in e.t0..e.t1, u \in e.t0..e.t1 :
    LET out == TouchOut(items[e.k], TtlIn(e.ttl, u), t, u) IN
    /\ Chk("result-touch", e.r = out.r)
    /\ items' = [items EXCEPT ![e.k] = out.it]
    /\ recent' = IF e.r = "touched" THEN e.k ELSE 0
    /\ UNCHANGED <<used, pgs>> /\ CoolDown
    /\ cnt' = Bump({"cmd_touch", IF e.r = "touched" THEN "touch_hits" ELSE "touch_misses"}, 0, 0, 0)

DoArith(e) ==
    IF e.r = "err_sys" THEN NoMemory(e, H.page) ELSE
    \E t \in e.t0..e.t1 :
    LET out  == ArithOut(e.op, items[e.k], e.d, t)
        big  == out.r = "stored" /\ ItemSize(e.k, out.it.v) > MaxItem
        oom  == out.r = "stored" /\ e.r # "stored" /\ ~big
        res  == IF big THEN "err_big" ELSE IF oom THEN "err_oom" ELSE out.r
        m    == AfterEvict(e)
    IN
    /\ Chk("arith-evicts", out.r = "stored" \/ Len(e.ev) = 0)
    /\ EvictionsOK(e, ItemSize(e.k, out.it.v), {e.k})
    /\ Chk("result-arith", Says(e, res))
    /\ Chk("arith-oom", oom => ~H.evict /\ Len(e.ev) = 0 /\ ~Room(items, ItemSize(e.k, out.it.v)))
    /\ Chk("arith-number", res = "stored" => (e.n = out.n \/ (e.n = <<>> /\ ~e.want)))
    /\ items' = [m EXCEPT ![e.k] = IF oom \/ big THEN items[e.k] ELSE out.it]
    /\ recent' = IF res = "stored" THEN e.k ELSE 0
    /\ UNCHANGED <<used, pgs>> /\ CoolDown
    /\ cnt' = Bump(IF e.op = "incr"
                   THEN {"cmd_incr"} \cup (IF out.r = "stored" THEN {"incr_hits"} ELSE IF res = "not_found" THEN {"incr_misses"} ELSE {})
                   ELSE {"cmd_decr"} \cup (IF out.r = "stored" THEN {"decr_hits"} ELSE IF res = "not_found" THEN {"decr_misses"} ELSE {}),
                   Len(e.ev), IF out.r = "stored" /\ ~big THEN 1 ELSE 0, IF oom THEN 1 ELSE 0)

DoFlush(e) ==
    \E t \in e.t0..e.t1 :
    /\ items' = [k \in Keys |-> FlushOut(items[k], t)]
    /\ UNCHANGED <<used, pgs>> /\ Unprotect /\ CoolDown
    /\ cnt' = Bump({"cmd_flush"}, 0, 0, 0)

\* an item was created and destroyed without being stored
DoDiscard(e) ==
    LET sz == ItemSize(e.k, e.val) IN
    IF H.kl[e.k] > 250 THEN Refused(e, "err_key") /\ UNCHANGED cnt
    ELSE IF sz > MaxItem THEN Refused(e, "err_big") /\ UNCHANGED cnt
    ELSE IF ~e.made THEN
        /\ Chk("oom-result", Says(e, "err_oom"))
        /\ Chk("oom-with-eviction", ~H.evict /\ Len(e.ev) = 0 /\ ~Room(items, sz))
        /\ Same /\ Unprotect /\ CoolDown
        /\ cnt' = Bump({}, 0, 1, 1)
    ELSE
        /\ EvictionsOK(e, sz, {})
        /\ Chk("result-discard", e.r = "discarded")
        /\ IF e.pg >= 0 THEN AreaOK(AfterEvict(e), e.pg, e.off, sz, {}) ELSE TRUE
        /\ TokenOK(e.tok)
        /\ items' = AfterEvict(e)
        /\ used' = AddTok(e.tok)
        /\ UNCHANGED pgs /\ Unprotect /\ CoolDown
        /\ cnt' = Bump({}, Len(e.ev), 1, 0)

\* keys lo..hi were set to their stamps, all without eviction
DoFill(e) ==
    /\ Chk("fill", e.r = "stored" /\ Len(e.ev) = 0)
    /\ items' = [k \in Keys |-> IF k \in e.lo..e.hi THEN Entry(<<2000000 + k>>, 0, INF, 0, -1, 0) ELSE items[k]]
    /\ UNCHANGED <<used, pgs>> /\ Unprotect /\ CoolDown
    /\ LET old == Cardinality({k \in e.lo..e.hi : Live(items[k], e.t0)})
           all == e.hi - e.lo + 1
       IN cnt' = IF ~H.stats THEN cnt
                 ELSE [c \in CounterNames |-> cnt[c] + (CASE c \in {"cmd_set", "num_malloc"} -> all
                        [] c = "set_new" -> all - old [] c = "set_existing" -> old [] OTHER -> 0)]

\* keys lo..hi were read; vals[n] is the value found (<<-1>> = miss)
DoSweep(e) ==
    /\ \A n \in 1..(e.hi - e.lo + 1) :
         LET it == items[e.lo + n - 1]
         IN IF Live(it, e.t0) THEN Chk("sweep-value", e.vals[n] = it.v)
                              ELSE Chk("sweep-miss", e.vals[n] = <<-1>>)
    /\ items' = IF \E k \in e.lo..e.hi : items[k].p /\ ~Live(items[k], e.t0)
                THEN [k \in Keys |-> IF k \in e.lo..e.hi THEN Reap(items[k], e.t0) ELSE items[k]]
                ELSE items
    /\ UNCHANGED <<used, pgs>> /\ Unprotect /\ CoolDown
    /\ LET h == Cardinality({k \in e.lo..e.hi : Live(items[k], e.t0)})
       IN cnt' = BumpN("cmd_get", e.hi - e.lo + 1, "get_hits", h, "get_misses", e.hi - e.lo + 1 - h)

\* keys lo..hi were deleted; n were found
DoDelAll(e) ==
    LET h == Cardinality({k \in e.lo..e.hi : Live(items[k], e.t0)}) IN
    /\ Chk("delete-all", e.n = h)
    /\ items' = [k \in Keys |-> IF k \in e.lo..e.hi THEN None ELSE items[k]]
    /\ UNCHANGED <<used, pgs>> /\ Unprotect /\ CoolDown
    /\ cnt' = BumpN("cmd_delete", e.hi - e.lo + 1, "delete_hits", h, "delete_misses", e.hi - e.lo + 1 - h)

RECURSIVE SumSizes(_, _)
SumSizes(lo, hi) ==
    IF lo > hi THEN 0
    ELSE IF lo = hi THEN (IF items[lo].p THEN ItemSize(lo, items[lo].v) + H.bh ELSE 0)
    ELSE LET m == (lo + hi) \div 2 IN SumSizes(lo, m) + SumSizes(m + 1, hi)

\* statistics snapshot
DoStat(e) ==
    LET pres == Present
        n == Cardinality(pres)
    IN
    /\ Chk("stat-curr_items", ("curr" \in DOMAIN e) => e.curr = n)
    /\ IF "used" \in DOMAIN e THEN
         LET base == SumSizes(1, H.nk) IN
         /\ Chk("stat-used_memory-low", e.used >= base)
         /\ Chk("stat-used_memory-high", e.used <= base + 100 * n)
       ELSE TRUE
    /\ Chk("stat-limit", ("limit" \in DOMAIN e) => (e.limit = H.page * H.np /\ e.pagesize = H.page))
    /\ IF "c" \in DOMAIN e
       THEN /\ \A c \in CounterNames : Chk("stat-" \o c, e.c[c] = cnt[c])
            /\ Chk("stat-num_free", e.c["num_malloc"] - e.c["num_alloc_errors"] - e.c["evictions"] - e.num_free = n)
       ELSE TRUE
    /\ UNCHANGED <<items, used, pgs, recent, hot, cnt>>

-----------------------------------------------------------------------------
Init ==
    /\ tr \in 1..Len(Traces)
    /\ i = 1
    /\ items = [k \in 1..Traces[tr].hdr.nk |-> None]
    /\ used = {}
    /\ recent = 0
    /\ hot = [k |-> 0, n |-> 0, left |-> 0, run |-> <<>>]
    /\ pgs = <<1000000, -1000000>>
    /\ cnt = [c \in CounterNames |-> 0]

\* eviction callbacks registered one after the other ("0" = none, "-" = as before), each followed by overfilling;
\* exactly the one registered last is told, about every item that is gone
RECURSIVE CurrentCb(_, _)
CurrentCb(steps, j) == IF j = 0 THEN "0" ELSE IF steps[j].cb = "-" THEN CurrentCb(steps, j - 1) ELSE steps[j].cb
DoCallbacks(e) ==
    /\ \A j \in 1..Len(e.steps) :
         LET s == e.steps[j]
             cb == CurrentCb(e.steps, j)
         IN /\ Chk("callback-stored", s.ok = 30)
            /\ Chk("callback-A", s.a = IF cb = "A" THEN s.gone ELSE 0)
            /\ Chk("callback-B", s.b = IF cb = "B" THEN s.gone ELSE 0)
    /\ UNCHANGED <<items, used, recent, hot, pgs, cnt>>

Step(e) ==
    CASE e.o = "store"   -> DoStore(e)
      [] e.o = "get"     -> DoGet(e)
      [] e.o = "del"     -> DoDel(e)
      [] e.o = "touch"   -> DoTouch(e)
      [] e.o = "arith"   -> DoArith(e)
      [] e.o = "flush"   -> DoFlush(e)
      [] e.o = "discard" -> DoDiscard(e)
      [] e.o = "fill"    -> DoFill(e)
      [] e.o = "sweep"   -> DoSweep(e)
      [] e.o = "delall"  -> DoDelAll(e)
      [] e.o = "stat"    -> DoStat(e)
      [] e.o = "cb"      -> DoCallbacks(e)
      [] OTHER           -> Chk("event", FALSE) /\ UNCHANGED vars

Next ==
    \/ /\ i <= Len(Ev)
       /\ Step(Ev[i])
       /\ i' = i + 1
       /\ UNCHANGED tr
       /\ i = Len(Ev) => PrintT(<<"ACCEPTED", tr>>)

Spec == Init /\ [][Next]_vars

\* histories without nondeterminism have one state per event
TraceView == IF H.nd THEN <<tr, i, items, used, recent, hot, pgs, cnt>> ELSE <<tr, i>>
===========================================================================
