---------------------------- MODULE ConfigTrace ----------------------------
(* Acceptor of configuration attempts recorded from the library and the      *)
(* daemon.                                                                    *)
EXTENDS Config, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, i
Ev == Traces[tr].ev
Chk(label, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", tr, i, label>>) /\ FALSE
Exact(d) == [r |-> IF Log2(d) >= 0 THEN "yes" ELSE "no", l |-> Log2(d)]
Opt(o, t, default) == IF ~o THEN default ELSE Amount(t)

Step(e) ==
    CASE e.o = "create" ->
           LET v == Verdict(Exact(e.m), Exact(e.p), Exact(e.h)) IN
           Chk("create", (v = "yes" => e.ok) /\ (v = "no" => ~e.ok))
      [] e.o = "fill" ->        \* whole memory is usable with items of nearly a page, evictions off
           LET m == Log2(e.m)  p == Log2(e.p) IN
           /\ Chk("fill", e.stored = e.tried /\ Pow2(NumPages(m, p)) = Norm(e.tried_d))
           /\ Chk("fill-read", e.good = e.stored)
           /\ Chk("fill-full", e.refused)
           /\ Chk("fill-after", e.after)
      [] e.o = "daemon" ->
           LET m == Opt(e.has_m, e.m, DefaultMem)
               p == Opt(e.has_p, e.p, DefaultPage)
               h == IF e.has_h THEN Number(e.h) ELSE DefaultDict
               v0 == Verdict(m, p, h)
               v == IF e.extra = "no" THEN "no" ELSE IF e.extra = "either" /\ v0 = "yes" THEN "either" ELSE v0
           IN /\ Chk("daemon-accept", v = "yes" => e.up)
              /\ Chk("daemon-refuse", v = "no" => ~e.up)
              /\ Chk("daemon-status", ~e.up => e.rc = 1)
              /\ IF ~e.up THEN TRUE
                 ELSE /\ Chk("endpoints", e.served = e.want)
                      /\ Chk("answers", e.answers = e.want)
                      /\ IF v # "yes" \/ ~e.stats THEN TRUE
                         ELSE /\ Chk("stat-limit_maxbytes", e.lim = Pow2(m.l))
                              /\ Chk("stat-page_size", e.pg = Pow2(p.l))
                              /\ Chk("stat-hash_capacity", e.hc = Pow2(h.l))
                              /\ Chk("evictions", e.evicts = e.want_evict)
Init == tr \in 1..Len(Traces) /\ i = 1
Next == /\ i <= Len(Ev) /\ Step(Ev[i]) /\ i' = i + 1 /\ UNCHANGED tr
        /\ i = Len(Ev) => PrintT(<<"ACCEPTED", tr>>)
Spec == Init /\ [][Next]_<<tr, i>>
=============================================================================
