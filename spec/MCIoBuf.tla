------------------------------ MODULE MCIoBuf ------------------------------
(* Design of io_buffer.h (an array with a read and a write position that     *)
(* grows on demand and is compacted) refines the two sequences of IoBuf.     *)
EXTENDS IoBuf
CONSTANTS Max, MaxOps, Bytes, Step, SafeGrow

VARIABLES mem, cap, rp, wp,          \* the design: array content, capacity, positions
          old, new, rsv, wsv,        \* the abstraction, and savepoints (positions) that are still valid
          lost, n
vars == <<mem, cap, rp, wp, old, new, rsv, wsv, lost, n>>

Init == mem = [i \in 1..Max |-> 0] /\ cap = 0 /\ rp = 0 /\ wp = 0 /\ old = <<>> /\ new = <<>> /\ rsv = {} /\ wsv = {} /\ lost = FALSE /\ n = 0

Run(s) == LET RECURSIVE Go(_)
              Go(k) == IF k = 0 THEN <<>> ELSE Cat(Go(k - 1), << <<s[k], 1>> >>)
          IN Go(Len(s))
Advice(need) == LET g == IF need > Step THEN need ELSE Step IN IF cap + g < Max THEN cap + g ELSE Max

Write(s) ==
    /\ n < MaxOps /\ Len(s) > 0
    /\ LET need == Len(s)
           grow == cap - wp < need
           nc == IF grow THEN Advice(need) ELSE cap
       IN IF grow /\ nc - wp < need
          THEN UNCHANGED <<mem, cap, rp, wp, old, new, lost>>          \* refused
          ELSE /\ cap' = nc
               /\ mem' = [i \in 1..Max |-> IF i > wp /\ i <= wp + need THEN s[i - wp] ELSE IF SafeGrow \/ ~grow THEN mem[i] ELSE 0]
               /\ wp' = wp + need /\ UNCHANGED <<rp, lost>>
               /\ new' = Cat(new, Run(s)) /\ UNCHANGED old
    /\ n' = n + 1 /\ UNCHANGED <<rsv, wsv>>
Read(k) ==
    /\ n < MaxOps /\ k <= wp - rp
    /\ rp' = rp + k /\ old' = Cat(old, Take(new, k)) /\ new' = Drop(new, k)
    /\ wsv' = {x \in wsv : x >= rp + k}
    /\ n' = n + 1 /\ UNCHANGED <<mem, cap, wp, rsv, lost>>
Save == /\ n < MaxOps /\ rsv' = rsv \cup {rp} /\ wsv' = wsv \cup {wp} /\ n' = n + 1 /\ UNCHANGED <<mem, cap, rp, wp, old, new, lost>>
RBack(x) == /\ n < MaxOps /\ x \in rsv /\ x <= rp
            /\ rp' = x /\ LET all == Cat(old, new) IN old' = Take(all, x) /\ new' = Drop(all, x)
            /\ n' = n + 1 /\ UNCHANGED <<mem, cap, wp, rsv, wsv, lost>>
WBack(x) == /\ n < MaxOps /\ x \in wsv /\ x <= wp /\ x >= rp
            /\ wp' = x /\ new' = Take(new, x - rp) /\ rsv' = {y \in rsv : y <= x}
            /\ wsv' = {y \in wsv : y <= x}
            /\ n' = n + 1 /\ UNCHANGED <<mem, cap, rp, old, lost>>
Compact == /\ n < MaxOps /\ wp' = wp - rp /\ rp' = 0
           /\ mem' = [i \in 1..Max |-> IF i <= wp - rp THEN mem[i + rp] ELSE mem[i]]
           /\ old' = <<>> /\ rsv' = {} /\ wsv' = {} /\ n' = n + 1 /\ UNCHANGED <<cap, new, lost>>
Reset == /\ n < MaxOps /\ rp' = 0 /\ wp' = 0 /\ old' = <<>> /\ new' = <<>> /\ rsv' = {} /\ wsv' = {} /\ n' = n + 1 /\ UNCHANGED <<mem, cap, lost>>

Next == \/ \E a \in Bytes : Write(<<a>>) \/ \E b \in Bytes : Write(<<a, b>>)
        \/ \E k \in 0..Max : Read(k)
        \/ Save \/ (\E x \in 0..Max : RBack(x) \/ WBack(x)) \/ Compact \/ Reset
Spec == Init /\ [][Next]_vars

Cells(a, b) == [i \in 1..(b - a) |-> mem[a + i]]
Refines == old = Run(Cells(0, rp)) /\ new = Run(Cells(rp, wp))
Bounds == rp <= wp /\ wp <= cap /\ cap <= Max
Inv == Refines /\ Bounds
=============================================================================
