---------------------------- MODULE IoBufTrace ----------------------------
(* Acceptor of histories recorded from the real io_buffer and slice.         *)
EXTENDS IoBuf, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i, old, new, cap, rsv, wsv
vars == <<tr, i, old, new, cap, rsv, wsv>>
H == Traces[tr].hdr
Ev == Traces[tr].ev
Chk(label, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", tr, i, label>>) /\ FALSE

Numbers(e) ==
    /\ Chk("non-read", e.nr = Size(new'))
    /\ Chk("size", e.size = Size(old') + Size(new'))
    /\ Chk("available", e.av = e.cap - e.size)
    /\ Chk("capacity", e.cap <= H.max /\ e.cap >= e.size /\ e.cap = cap')

Reads(e, n) ==      \* n bytes are read and returned
    /\ Chk("content", e.d = Take(new, n))
    /\ old' = Cat(old, Take(new, n)) /\ new' = Drop(new, n) /\ UNCHANGED <<rsv, wsv>> /\ cap' = cap

Step(e) ==
    CASE e.o \in {"write", "ensure"} ->
           LET used == Size(old) + Size(new) IN
           /\ Chk("refusal", e.thrown = (used + e.need > H.max))
           /\ Chk("growth", IF e.thrown THEN e.cap = cap ELSE e.cap >= cap /\ e.cap - used >= e.need)
           /\ cap' = e.cap
           /\ new' = Cat(new, e.d) /\ UNCHANGED <<old, rsv, wsv>>
      \* refused for want of memory: only when memory was in fact denied, and without any effect
      [] e.o = "nomem" -> Chk("denied", e.flt) /\ UNCHANGED <<old, new, cap, rsv, wsv>>
      [] e.o = "read" -> Reads(e, e.n)
      [] e.o = "all" -> Reads(e, Size(new))
      [] e.o = "until" -> LET n == Until(new, e.t) IN Reads(e, IF n < 0 THEN 0 ELSE n)
      [] e.o = "look" -> Chk("content", e.d = new) /\ UNCHANGED <<old, new, cap, rsv, wsv>>
      [] e.o = "rsave" -> rsv' = Append(rsv, Size(old)) /\ UNCHANGED <<old, new, cap, wsv>>
      [] e.o = "wsave" -> wsv' = Append(wsv, Size(old) + Size(new)) /\ UNCHANGED <<old, new, cap, rsv>>
      [] e.o = "rback" -> LET x == rsv[Len(rsv)]
                              all == Cat(old, new)
                          IN /\ old' = Take(all, x) /\ new' = Drop(all, x)
                             /\ rsv' = SubSeq(rsv, 1, Len(rsv) - 1) /\ UNCHANGED <<cap, wsv>>
      [] e.o = "wback" -> /\ new' = Take(new, wsv[Len(wsv)] - Size(old))
                          /\ wsv' = SubSeq(wsv, 1, Len(wsv) - 1) /\ UNCHANGED <<old, cap, rsv>>
      [] e.o = "compact" -> old' = <<>> /\ rsv' = <<>> /\ wsv' = <<>> /\ UNCHANGED <<new, cap>>
      [] e.o = "reset" -> old' = <<>> /\ new' = <<>> /\ rsv' = <<>> /\ wsv' = <<>> /\ UNCHANGED cap

-----------------------------------------------------------------------------
\* slices are plain byte sequences
At(a, b, k) == k + Len(b) - 1 <= Len(a) /\ SubSeq(a, k, k + Len(b) - 1) = b
First(a, b) == LET S == {k \in 1..Len(a) : At(a, b, k)} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
SliceOp(e) ==
    LET k == First(e.a, e.b) IN
    CASE e.o = "search" -> Chk("search", IF k = 0 THEN e.at = -1 ELSE e.at = k - 1 /\ e.n = Len(e.b))
      [] e.o \in {"split", "splitc"} ->
            Chk("split", IF k = 0 THEN e.x = e.a /\ e.y = <<>>
                         ELSE e.x = SubSeq(e.a, 1, k - 1) /\ e.y = SubSeq(e.a, k + Len(e.b), Len(e.a)))
      [] e.o = "starts" -> Chk("startswith", e.r = At(e.a, e.b, 1))
      [] e.o = "ends"   -> Chk("endswith", e.r = (Len(e.b) <= Len(e.a) /\ At(e.a, e.b, Len(e.a) - Len(e.b) + 1)))
      [] e.o = "has"    -> Chk("contains", e.r = (k # 0))
      [] e.o = "eq"     -> Chk("equal", e.r = (e.a = e.b))
      [] e.o = "trim"   -> Chk("rtrim_n", e.x = SubSeq(e.a, 1, Len(e.a) - Len(e.b)))

Init == /\ tr \in 1..Len(Traces) /\ i = 0 /\ old = <<>> /\ new = <<>> /\ rsv = <<>> /\ wsv = <<>>
        /\ cap = IF Traces[tr].hdr.slices THEN 0 ELSE Traces[tr].hdr.cap
Start == /\ i = 0 /\ i' = 1
         /\ IF H.slices THEN TRUE ELSE Chk("construction", H.thrown = (H.init > H.max) /\ (H.thrown \/ (cap >= H.init /\ cap <= H.max)))
         /\ UNCHANGED <<tr, old, new, cap, rsv, wsv>>
         /\ Len(Ev) = 0 => PrintT(<<"ACCEPTED", tr>>)
Next == \/ Start
        \/ /\ i > 0 /\ i <= Len(Ev)
           /\ IF H.slices THEN SliceOp(Ev[i]) /\ UNCHANGED <<old, new, cap, rsv, wsv>> ELSE Step(Ev[i]) /\ Numbers(Ev[i])
           /\ i' = i + 1 /\ UNCHANGED tr
           /\ i = Len(Ev) => PrintT(<<"ACCEPTED", tr>>)
Spec == Init /\ [][Next]_vars
=============================================================================
