------------------------------ MODULE MCCache ------------------------------
(* Exhaustive model of the cache for small constants: all histories of all  *)
(* operations over few keys, values, time-to-lives and clock ticks.  It is  *)
(* checked against the properties stated independently of the operators    *)
(* (ghost variables), and its state graph is turned into scripts that are   *)
(* replayed on the real code.                                               *)
EXTENDS CacheCore, TLC

CONSTANTS NK,        \* number of keys
          Vals,      \* values written by stores (sequences of byte codes)
          Pieces,    \* values used by append / prepend
          Ttls,      \* time-to-lives
          MaxTime, MaxTok, MaxLen,
          Deltas,    \* digit sequences
          Verbs      \* enabled operations

VARIABLES items, now, ctr, tokens, last,
          \* ghosts: what each key should contain, written independently
          written
vars == <<items, now, ctr, tokens, last, written>>

Keys == 1..NK
NoOp == [o |-> "none", k |-> 0, arg |-> 0, r |-> "none"]

\* tokens: per key the tokens clients know (read at some time), as set of numbers
Init ==
    /\ items = [k \in Keys |-> None]
    /\ now = 0
    /\ ctr = 0
    /\ tokens = [k \in Keys |-> 0]
    /\ last = NoOp
    /\ written = [k \in Keys |-> [live |-> FALSE, v |-> <<>>, f |-> 0, until |-> 0]]

Fresh == ctr + 1
Put(k, out, r) ==
    \* a modification inherits no token: give it the fresh one
    /\ items' = [items EXCEPT ![k] = IF out.it.p /\ out.it.tok = 0 THEN [out.it EXCEPT !.tok = Fresh] ELSE out.it]
    /\ ctr' = IF out.it.p /\ out.it.tok = 0 THEN Fresh ELSE ctr

GhostSet(k, v, f, ttl) ==
    written' = [written EXCEPT ![k] = [live |-> TRUE, v |-> v, f |-> f, until |-> IF ttl = 0 THEN INF ELSE now + ttl]]
GhostVal(k, v) == written' = [written EXCEPT ![k] = [@ EXCEPT !.v = v]]
GhostDel(k) == written' = [written EXCEPT ![k] = [live |-> FALSE, v |-> <<>>, f |-> 0, until |-> 0]]
GhostLive(k) == written[k].live /\ now < written[k].until
GhostMiss(k) == IF written[k].live /\ ~GhostLive(k) THEN GhostDel(k) ELSE UNCHANGED written

Store(verb, k, v, f, ttl) ==
    /\ verb \in Verbs
    /\ ctr < MaxTok
    /\ verb \in {"append", "prepend"} => Len(items[k].v) + Len(v) <= MaxLen
    /\ LET match == verb = "cas" /\ tokens[k] = items[k].tok
           new == Entry(v, f, ExpAt(ttl, now), 0, -1, 0)
           out == StoreOut(verb, items[k], new, now, match)
       IN /\ Put(k, out, out.r)
          /\ last' = [o |-> verb, k |-> k, arg |-> <<v, f, ttl>>, r |-> out.r]
          /\ IF out.r # "stored" THEN GhostMiss(k)
             ELSE IF verb = "append" THEN GhostVal(k, written[k].v \o v)
             ELSE IF verb = "prepend" THEN GhostVal(k, v \o written[k].v)
             ELSE GhostSet(k, v, f, ttl)
    /\ UNCHANGED <<now, tokens>>

Get(k) ==
    LET out == GetOut(items[k], now) IN
    /\ "get" \in Verbs
    /\ items' = [items EXCEPT ![k] = out.it]
    /\ tokens' = [tokens EXCEPT ![k] = IF out.r = "hit" THEN out.it.tok ELSE @]
    /\ last' = [o |-> "get", k |-> k, arg |-> 0, r |-> out.r]
    /\ GhostMiss(k)
    /\ UNCHANGED <<now, ctr>>

Del(k) ==
    LET out == DelOut(items[k], now) IN
    /\ "del" \in Verbs
    /\ items' = [items EXCEPT ![k] = out.it]
    /\ last' = [o |-> "del", k |-> k, arg |-> 0, r |-> out.r]
    /\ GhostDel(k)
    /\ UNCHANGED <<now, ctr, tokens>>

Touch(k, ttl) ==
    LET out == TouchOut(items[k], ttl, now, now) IN
    /\ "touch" \in Verbs
    /\ items' = [items EXCEPT ![k] = out.it]
    /\ last' = [o |-> "touch", k |-> k, arg |-> ttl, r |-> out.r]
    /\ IF out.r = "touched" THEN GhostSet(k, written[k].v, written[k].f, ttl) ELSE GhostMiss(k)
    /\ UNCHANGED <<now, ctr, tokens>>

Arith(op, k, d) ==
    LET out == ArithOut(op, items[k], d, now) IN
    /\ op \in Verbs
    /\ ctr < MaxTok
    /\ Put(k, out, out.r)
    /\ last' = [o |-> op, k |-> k, arg |-> d, r |-> out.r]
    /\ IF out.r = "stored" THEN GhostVal(k, ToText(out.n)) ELSE GhostMiss(k)
    /\ UNCHANGED <<now, tokens>>

Flush ==
    /\ "flush" \in Verbs
    /\ items' = [k \in Keys |-> FlushOut(items[k], now)]
    /\ last' = [o |-> "flush", k |-> 0, arg |-> 0, r |-> "ok"]
    /\ written' = [k \in Keys |-> IF GhostLive(k) THEN written[k] ELSE [live |-> FALSE, v |-> <<>>, f |-> 0, until |-> 0]]
    /\ UNCHANGED <<now, ctr, tokens>>

\* eviction of any item at any store is possible in a small memory; modelled as a separate step
Evict(k) ==
    /\ "evict" \in Verbs
    /\ items[k].p
    /\ items' = [items EXCEPT ![k] = None]
    /\ last' = [o |-> "evict", k |-> k, arg |-> 0, r |-> "ok"]
    /\ GhostDel(k)
    /\ UNCHANGED <<now, ctr, tokens>>

Tick ==
    /\ now < MaxTime
    /\ now' = now + 1
    /\ last' = [o |-> "tick", k |-> 0, arg |-> 0, r |-> "ok"]
    /\ UNCHANGED <<items, ctr, tokens, written>>

Next ==
    \/ \E verb \in {"set", "add", "replace", "cas"}, k \in Keys, v \in Vals, ttl \in Ttls : Store(verb, k, v, Len(v), ttl)
    \/ \E verb \in {"append", "prepend"}, k \in Keys, v \in Pieces : Store(verb, k, v, 0, 0)
    \/ \E k \in Keys : Get(k) \/ Del(k) \/ Evict(k)
    \/ \E k \in Keys, ttl \in Ttls : Touch(k, ttl)
    \/ \E op \in {"incr", "decr"}, k \in Keys, d \in Deltas : Arith(op, k, d)
    \/ Flush
    \/ Tick

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Properties

\* C01/C05: what a lookup shows is exactly what was last written and still lives
LookupExact ==
    \A k \in Keys :
        LET g == GetOut(items[k], now)
        IN /\ (g.r = "hit") <=> GhostLive(k)
           /\ g.r = "hit" => /\ g.it.v = written[k].v
                             /\ g.it.f = written[k].f
                             /\ g.it.e = written[k].until

\* C03: tokens of distinct live versions differ
TokensDistinct == \A j, k \in Keys : (j # k /\ items[j].p /\ items[k].p) => items[j].tok # items[k].tok
TokensOld == \A k \in Keys : items[k].p => items[k].tok \in 1..ctr

\* C03: a token is renewed exactly by modifications of the value
TokenDiscipline ==
    [][\A k \in Keys :
        (items[k].p /\ items'[k].p) =>
            /\ (items'[k].tok = items[k].tok) =>
                  (items'[k].v = items[k].v /\ items'[k].f = items[k].f)
            /\ (last'.r \in {"not_stored", "exists", "not_found", "hit", "miss", "touched", "err_num", "ok"} \/ last'.k # k)
                  => items'[k].tok = items[k].tok]_vars

CasIffUnmodified ==
    [][last'.o = "cas" =>
        LET k == last'.k IN
        /\ last'.r = "stored" <=> (Live(items[k], now) /\ items[k].tok = tokens[k])
        /\ last'.r = "not_found" <=> ~Live(items[k], now)]_vars

\* C02: refused operations change nothing that can be observed
RefusedChangesNothing ==
    [][last'.r \in {"not_stored", "exists", "not_found", "err_num", "miss"} =>
        \A k \in Keys : Reap(items'[k], now') = Reap(items[k], now)]_vars

\* C01: operations on one key never influence another one
Isolation ==
    [][\A k \in Keys : (last'.k # k /\ now' = now) => Reap(items'[k], now) = Reap(items[k], now)]_vars

\* C02/C04: extension and arithmetic keep flags and lifetime
KeepsAttributes ==
    [][(last'.o \in {"append", "prepend", "incr", "decr"} /\ last'.r = "stored") =>
        (items'[last'.k].f = items[last'.k].f /\ items'[last'.k].e = items[last'.k].e)]_vars

\* C05: nothing but a touch or a full store changes the lifetime, and nothing revives
NoRevival ==
    [][\A k \in Keys : (items[k].p /\ ~Live(items[k], now) /\ Live(items'[k], now')) =>
          (last'.k = k /\ last'.o \in {"set", "add"} /\ last'.r = "stored")]_vars

\* C04: results stay within the 64-bit range
NumbersInRange == \A k \in Keys :
    (items[k].p /\ last.o \in {"incr", "decr"} /\ last.k = k /\ last.r = "stored")
        => NumericValue(items[k].v)

View == <<items, now, tokens>>
============================================================================
