----------------------------- MODULE ConvTrace -----------------------------
(* Acceptor of conversions recorded from string_conv.h.                      *)
EXTENDS Decimal, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
Ev == Traces[tr].ev
Chk(label, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", tr, i, label>>) /\ FALSE
Step(e) ==
    CASE e.o = "format" ->
           /\ Chk("type", InType(e.t, e.neg, e.n))
           /\ Chk("text", e.x = Text(e.neg, e.n))
           /\ Chk("overrun", e.clean)
           /\ Chk("length", e.len = Len(Text(e.neg, e.n)))
      [] e.o = "parse" ->
           /\ Chk("both-forms", e.same)
           /\ IF e.ok THEN /\ Chk("accepts", Accepted(e.t, e.x))
                           /\ Chk("value", LET v == Value(e.t, e.x) IN v.neg = e.neg /\ v.n = e.n)
              ELSE Chk("refuses", ~Accepted(e.t, e.x) \/ MayRefuse(e.t, e.x))
Init == tr \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1 /\ UNCHANGED tr
        /\ i = Len(Ev) => PrintT(<<"ACCEPTED", tr>>)
Spec == Init /\ [][Next]_<<tr, i>>
=============================================================================
