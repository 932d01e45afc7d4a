----------------------------- MODULE DictTrace -----------------------------
(* Acceptor of histories recorded from the real dict and hash_table: they   *)
(* have to be histories of a plain map (RobinHood proves that the design    *)
(* is one).  Value 0 = absent.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, map, n
vars == <<tr, i, map, n>>

Ev == Traces[tr].ev
Chk(label, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", tr, i, label>>) /\ FALSE
Count(m) == Cardinality({k \in DOMAIN m : m[k] # 0})

Step(e) ==
    /\ CASE e.o = "get" -> /\ Chk("hit", e.hit = (map[e.k] # 0))
                           /\ Chk("value", e.v = map[e.k])
                           /\ UNCHANGED <<map, n>>
         [] e.o = "has" -> Chk("contains", e.hit = (map[e.k] # 0)) /\ UNCHANGED <<map, n>>
         [] e.o = "put" -> /\ Chk("new", e.new = (map[e.k] = 0))
                           /\ Chk("position", e.pos)
                           /\ map' = [map EXCEPT ![e.k] = e.v]
                           /\ n' = n + (IF map[e.k] = 0 THEN 1 ELSE 0)
         [] e.o = "fill" -> /\ Chk("fill", e.ok)
                            /\ map' = [k \in DOMAIN map |-> IF k \in e.a..e.b THEN e.v + k ELSE map[k]]
                            /\ n' = Count(map')
         [] e.o = "del" -> /\ Chk("deleted", e.r = (map[e.k] # 0))
                           /\ map' = IF map[e.k] = 0 THEN map ELSE [map EXCEPT ![e.k] = 0]
                           /\ n' = n - (IF map[e.k] = 0 THEN 0 ELSE 1)
         [] e.o = "rmif" -> /\ map' = [k \in DOMAIN map |-> IF map[k] % e.m = 0 THEN 0 ELSE map[k]]
                            /\ n' = Count(map')
         \* refused for want of memory: only when memory was in fact denied, and without any effect
         [] e.o = "nomem" -> Chk("refused", e.flt) /\ UNCHANGED <<map, n>>
         [] e.o = "clear" -> map' = [k \in DOMAIN map |-> 0] /\ n' = 0
         [] e.o = "all" -> Chk("content", e.c = map) /\ UNCHANGED <<map, n>>
    /\ Chk("size", e.n = n' /\ (e.e <=> n' = 0))

Init == /\ tr \in 1..Len(Traces) /\ i = 1 /\ n = 0
        /\ map = [k \in 1..Traces[tr].hdr.nk |-> 0]
Next == /\ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1 /\ UNCHANGED tr
        /\ i = Len(Ev) => PrintT(<<"ACCEPTED", tr>>)
Spec == Init /\ [][Next]_vars
TraceView == <<tr, i>>
===========================================================================
