---------------------------- MODULE CacheCore -----------------------------
(* Sequential semantics of the cachelot cache, as pure operators on the    *)
(* entry of one key.  No variables: the same operators are used by the     *)
(* exhaustive model MCCache, by the trace acceptor CacheTrace, and by the  *)
(* concurrent history checker LinTrace.                                    *)
(*                                                                         *)
(* An entry is a record                                                    *)
(*   p    physically present (it may already be expired)                   *)
(*   v    value: a sequence of pieces (byte codes or ids of opaque blobs)  *)
(*   f    user flags                                                       *)
(*   e    absolute expiration second, INF = never                          *)
(*   tok  version token (cas unique), 0 = present but not yet observed     *)
(*   pg, off  observed address of the item (page, offset), pg = -1 unknown *)
EXTENDS Integers, Sequences, FiniteSets, BigNum

INF == 2147483647

None == [p |-> FALSE, v |-> <<>>, f |-> 0, e |-> 0, tok |-> 0, pg |-> -1, off |-> 0]

Entry(v, f, e, tok, pg, off) ==
    [p |-> TRUE, v |-> v, f |-> f, e |-> e, tok |-> tok, pg |-> pg, off |-> off]

\* an item expires at the second t + ttl; ttl = 0 means never
ExpAt(ttl, t) == IF ttl = 0 \/ ttl >= INF - t THEN INF ELSE t + ttl

Live(it, t) == it.p /\ it.e > t

\* what is left of an entry once it was looked up at time t (expired items are reaped)
Reap(it, t) == IF Live(it, t) THEN it ELSE None

-----------------------------------------------------------------------------
(* Outcomes.  Each operator returns [r |-> result, it |-> new entry].        *)

StoreVerbs == {"set", "add", "replace", "append", "prepend", "cas"}

\* a new version of `old' with another value: flags and lifetime are inherited
Modify(old, v) == [old EXCEPT !.v = v, !.tok = 0, !.pg = -1, !.off = 0]

SetOut(old, new, t) == [r |-> "stored", it |-> new]

AddOut(old, new, t) ==
    IF Live(old, t) THEN [r |-> "not_stored", it |-> old]
                    ELSE [r |-> "stored", it |-> new]

ReplaceOut(old, new, t) ==
    IF Live(old, t) THEN [r |-> "stored", it |-> new]
                    ELSE [r |-> "not_stored", it |-> None]

AppendOut(old, new, t) ==
    IF Live(old, t) THEN [r |-> "stored", it |-> Modify(old, old.v \o new.v)]
                    ELSE [r |-> "not_stored", it |-> None]

PrependOut(old, new, t) ==
    IF Live(old, t) THEN [r |-> "stored", it |-> Modify(old, new.v \o old.v)]
                    ELSE [r |-> "not_stored", it |-> None]

\* match: does the token presented by the client equal the token of `old'
CasOut(old, new, t, match) ==
    IF ~Live(old, t) THEN [r |-> "not_found", it |-> None]
    ELSE IF match    THEN [r |-> "stored", it |-> new]
                     ELSE [r |-> "exists", it |-> old]

StoreOut(verb, old, new, t, match) ==
    CASE verb = "set"     -> SetOut(old, new, t)
      [] verb = "add"     -> AddOut(old, new, t)
      [] verb = "replace" -> ReplaceOut(old, new, t)
      [] verb = "append"  -> AppendOut(old, new, t)
      [] verb = "prepend" -> PrependOut(old, new, t)
      [] verb = "cas"     -> CasOut(old, new, t, match)

DelOut(old, t) ==
    IF Live(old, t) THEN [r |-> "deleted", it |-> None]
                    ELSE [r |-> "not_found", it |-> None]

TouchOut(old, ttl, t, u) ==
    IF Live(old, t) THEN [r |-> "touched", it |-> [old EXCEPT !.e = ExpAt(ttl, u)]]
                    ELSE [r |-> "not_found", it |-> None]

GetOut(old, t) ==
    IF Live(old, t) THEN [r |-> "hit", it |-> old]
                    ELSE [r |-> "miss", it |-> None]

\* Texts longer than 20 digits are refused even if leading zeros make the number small.
NumericValue(v) == IsDigits(v) /\ Len(v) <= 20 /\ Leq(ToNum(v), MaxU64)

\* delta: digit sequence; n: resulting number (digit sequence), <<>> if none
ArithOut(op, old, delta, t) ==
    IF ~Live(old, t) THEN [r |-> "not_found", it |-> None, n |-> <<>>]
    ELSE IF ~NumericValue(old.v) THEN [r |-> "err_num", it |-> old, n |-> <<>>]
    ELSE LET x == ToNum(old.v)
             y == IF op = "incr" THEN SatAdd(x, delta, MaxU64) ELSE SatSub(x, delta)
         IN [r |-> "stored", it |-> Modify(old, ToText(y)), n |-> y]

FlushOut(old, t) == Reap(old, t)

-----------------------------------------------------------------------------
(* Statistics: which counters an operation increments                        *)

CounterNames == {"cmd_get","get_hits","get_misses","cmd_set","set_new","set_existing",
  "cmd_add","add_stored","add_not_stored","cmd_replace","replace_stored","replace_not_stored",
  "cmd_cas","cas_misses","cas_stored","cas_badval","cmd_delete","delete_hits","delete_misses",
  "cmd_touch","touch_hits","touch_misses","cmd_incr","incr_hits","incr_misses",
  "cmd_decr","decr_hits","decr_misses","cmd_append","append_stored","append_misses",
  "cmd_prepend","prepend_stored","prepend_misses","cmd_flush",
  "evictions","num_malloc","num_alloc_errors"}

StoreCounters(verb, old, t, r) ==
    CASE verb = "set"     -> {"cmd_set", IF Live(old, t) THEN "set_existing" ELSE "set_new"}
      [] verb = "add"     -> {"cmd_add", IF r = "stored" THEN "add_stored" ELSE "add_not_stored"}
      [] verb = "replace" -> {"cmd_replace", IF r = "stored" THEN "replace_stored" ELSE "replace_not_stored"}
      [] verb = "append"  -> {"cmd_append"} \cup (IF r = "stored" THEN {"append_stored"}
                                    ELSE IF r = "not_stored" THEN {"append_misses"} ELSE {})
      [] verb = "prepend" -> {"cmd_prepend"} \cup (IF r = "stored" THEN {"prepend_stored"}
                                    ELSE IF r = "not_stored" THEN {"prepend_misses"} ELSE {})
      [] verb = "cas"     -> {"cmd_cas", IF r = "stored" THEN "cas_stored"
                                    ELSE IF r = "exists" THEN "cas_badval" ELSE "cas_misses"}

===========================================================================
