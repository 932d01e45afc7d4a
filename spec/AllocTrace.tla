---------------------------- MODULE AllocTrace ----------------------------
(* Acceptor of histories recorded from the real memalloc (see PageAlloc     *)
(* for the design): the contract of the allocator, independent of the       *)
(* placement policy.                                                        *)
(* hdr: page, np, bh (block header)                                         *)
(* events: [o, id, sz, evict, ok, pg, off, act, ev, bad, used]              *)
(*   ev: ids reported as evicted, in order; bad: ids whose content changed; *)
(*   used: used-memory statistic; act: actual size including the header     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, i,
          live,    \* [id -> [pg, off, sz, act]] of live allocations
          recent,  \* id used by the last operation, 0 = none
          hot,     \* [id, n, left]
          pgs      \* lowest and highest page seen
vars == <<tr, i, live, recent, hot, pgs>>

H == Traces[tr].hdr
Ev == Traces[tr].ev
Chk(label, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", tr, i, label>>) /\ FALSE

Ids == DOMAIN live
\* the whole block: header and memory
Lo(a) == a.off - H.bh
Hi(a) == a.off - H.bh + a.act

Disjoint(a, b) == a.pg # b.pg \/ Hi(a) <= Lo(b) \/ Hi(b) <= Lo(a)

AreaOK(a, others) ==
    /\ Chk("align", a.off % 8 = 0)
    /\ Chk("page-cross", Lo(a) >= 0 /\ Hi(a) <= H.page)
    /\ Chk("too-small", a.act >= a.sz + H.bh)
    /\ Chk("overlap", \A j \in others : Disjoint(a, live[j]))
    /\ Chk("arena", (IF a.pg > pgs[2] THEN a.pg ELSE pgs[2]) - (IF a.pg < pgs[1] THEN a.pg ELSE pgs[1]) < H.np)

NewPgs(pg) == << IF pgs[1] < pg THEN pgs[1] ELSE pg, IF pgs[2] > pg THEN pgs[2] ELSE pg >>

RECURSIVE SumAct(_, _)
SumAct(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x].act + SumAct(f, S \ {x})

Pages == {live[j].pg : j \in Ids}
\* a free area of `bytes' bytes certainly exists within one page
BigGap(bytes) ==
    \/ Cardinality(Pages) < H.np /\ bytes <= H.page
    \/ \E g \in Pages :
         LET on == {j \in Ids : live[j].pg = g}
         IN \/ \A j \in on : Lo(live[j]) >= bytes
            \/ \E j \in on : LET end == Hi(live[j])
                             IN end + bytes <= H.page /\ \A k \in on : Lo(live[k]) > Lo(live[j]) => Lo(live[k]) >= end + bytes

\* an allocation of `sz' bytes must be possible without eviction
MustFit(sz) ==
    \/ BigGap(2 * sz + 2 * H.bh + 320)
    \/ /\ sz <= H.page - H.bh
       /\ \A j \in Ids : live[j].act = H.page
       /\ Cardinality(Pages) < H.np

Cool == hot' = [id |-> 0, n |-> 0, left |-> 0]
Put(id, a) == [j \in Ids \cup {id} |-> IF j = id THEN a ELSE live[j]]
Drop(S) == [j \in Ids \ S |-> live[j]]

Common(e) == Chk("content", e.bad = <<>>)

DoAlloc(e) ==
    LET a == [pg |-> e.pg, off |-> e.off, sz |-> e.sz, act |-> e.act]
        evs == {e.ev[j] : j \in 1..Len(e.ev)}
    IN
    /\ IF e.ok THEN
          IF Len(e.ev) = 0 THEN
             /\ AreaOK(a, Ids)
             /\ live' = Put(e.id, a)
          ELSE
             /\ Chk("evict-disabled", e.evict)
             /\ Chk("evict-twice", Cardinality(evs) = Len(e.ev))
             /\ Chk("evict-unknown", evs \subseteq Ids)
             /\ Chk("evict-page", \A j \in Ids : (live[j].pg = e.pg) <=> (j \in evs))
             /\ Chk("evict-needless", ~MustFit(e.sz))
             /\ Chk("evict-recent", recent \notin evs)
             /\ Chk("evict-hot", hot.left > 0 => hot.id \notin evs)
             /\ AreaOK(a, Ids \ evs)
             /\ live' = [j \in (Ids \ evs) \cup {e.id} |-> IF j = e.id THEN a ELSE live[j]]
       ELSE
          /\ Chk("alloc-fail-evict", ~e.evict)
          /\ Chk("alloc-fail-evicted", Len(e.ev) = 0)
          /\ Chk("alloc-fail-room", ~MustFit(e.sz))
          /\ UNCHANGED live
    /\ pgs' = IF e.ok THEN NewPgs(e.pg) ELSE pgs
    /\ recent' = IF e.ok THEN e.id ELSE 0
    /\ IF hot.left > 0 /\ e.ok /\ e.sz >= H.page - H.bh - 32 THEN hot' = [hot EXCEPT !.left = @ - 1, !.n = 0] ELSE Cool

DoFree(e) == live' = Drop({e.id}) /\ recent' = 0 /\ Cool /\ UNCHANGED pgs

DoTouch(e) ==
    /\ recent' = e.id
    /\ LET n == IF hot.id = e.id THEN hot.n + 1 ELSE 1
       IN hot' = [id |-> e.id, n |-> n, left |-> IF n >= H.np THEN H.np - 2 ELSE 0]
    /\ UNCHANGED <<live, pgs>>

DoRealloc(e) ==
    LET old == live[e.id]
        a == [pg |-> e.pg, off |-> e.off, sz |-> IF e.ok THEN e.sz ELSE old.sz, act |-> e.act]
    IN
    /\ Chk("realloc-moved", e.pg = old.pg /\ e.off = old.off)
    /\ Chk("realloc-shrink", e.sz <= old.act - H.bh => e.ok)
    /\ Chk("realloc-failed-changes", ~e.ok => e.act = old.act)
    /\ AreaOK(a, Ids \ {e.id})
    /\ live' = Put(e.id, a)
    /\ recent' = 0 /\ Cool /\ UNCHANGED pgs

Step(e) ==
    /\ Common(e)
    /\ CASE e.o = "alloc" -> DoAlloc(e)
         [] e.o = "free" -> DoFree(e)
         [] e.o = "touch" -> DoTouch(e)
         [] e.o = "realloc" -> DoRealloc(e)
         [] OTHER -> Chk("event", FALSE) /\ UNCHANGED vars
    /\ Chk("used-memory", e.used = SumAct(live', DOMAIN live'))

Init ==
    /\ tr \in 1..Len(Traces)
    /\ i = 1
    /\ live = << >>
    /\ recent = 0
    /\ hot = [id |-> 0, n |-> 0, left |-> 0]
    /\ pgs = <<1000000, -1000000>>

Next ==
    /\ i <= Len(Ev)
    /\ Step(Ev[i])
    /\ i' = i + 1
    /\ UNCHANGED tr
    /\ i = Len(Ev) => PrintT(<<"ACCEPTED", tr>>)

Spec == Init /\ [][Next]_vars
TraceView == <<tr, i>>
===========================================================================
