---------------------------- MODULE ProtoTrace ----------------------------
(* Acceptor of histories recorded at the sockets of the real daemon.         *)
(* A trace has for each connection c the operations ops[c] in the order they *)
(* were sent and the reply lines / data blocks out[c] received.  An          *)
(* operation takes effect atomically at some point between `inv' (its last   *)
(* byte was sent) and `res' (its reply was received, or the server answered  *)
(* to something sent later on the same connection); operations of one        *)
(* connection take effect in order.  The trace is accepted iff some order    *)
(* explains all replies - that is, the history is linearizable with respect  *)
(* to CacheCore, with the replies of Proto.                                  *)
(*                                                                           *)
(* operations: o = "req" a request;                                          *)
(*             o = "sync" the client has received n items so far and nothing *)
(*               else is pending (so all complete requests are answered);    *)
(*             o = "closed" the server closed the connection after n items   *)
(*               (after quit, or where it may); "alive": it did not;         *)
(*             o = "exit" the daemon exited with status n (want), it got     *)
(*               SIGUSR1 before (usr1) and printed something (printed);      *)
(*             o = "lost" a noreply request of a client that disconnected;   *)
(*             o = "dgram" one UDP request: like req, its reply is rep       *)
(* hdr: nc connections, bl blob lengths, page, mem ("ample", "oom" or        *)
(*      "evict"), stats                                                      *)
EXTENDS Proto, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, nx, pos, items, used, cnt
vars == <<tr, nx, pos, items, used, cnt>>

T == Traces[tr]
H == T.hdr
Conns == 1..H.nc
Chk(label, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", tr, nx[1], label>>) /\ FALSE
ChkC(c, label, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", tr, c * 10000 + nx[c], label>>) /\ FALSE

-----------------------------------------------------------------------------
PieceLen(x) == IF x < 1000 THEN 1 ELSE H.bl[x - 999]
RECURSIVE SumLen(_, _)
SumLen(v, n) == IF n = 0 THEN 0 ELSE PieceLen(v[n]) + SumLen(v, n - 1)
VLen(v) == SumLen(v, Len(v))

At(its, k) == IF k \in DOMAIN its THEN its[k] ELSE None
With(its, k, it) == IF it.p THEN (k :> it) @@ its
                    ELSE IF k \in DOMAIN its THEN [x \in DOMAIN its \ {k} |-> its[x]] ELSE its

\* is an item of value length n under key length k storable: "yes", "no", "maybe"
Fits(k, n) == IF n + k + 64 <= H.page THEN "yes" ELSE IF n + k > H.page THEN "no" ELSE "maybe"

-----------------------------------------------------------------------------
(* replies: R is the sequence of received items of this connection, p the   *)
(* number of items already explained                                        *)
Has(R, p, s) == p < Len(R) /\ R[p + 1].s = s
HasErr(R, p) == p < Len(R) /\ IsError(R[p + 1].s)

\* one key of a get: [ok, p, it, hit, label]
GetOne(R, p, key, it, t, withtok, us) ==
    LET live == Live(it, t)
        line == ValueLine(key, it, VLen(it.v))
        here == p < Len(R) /\ R[p + 1].s = line
        tok  == IF here THEN R[p + 1].tok ELSE 0
    IN IF ~live THEN [ok |-> TRUE, p |-> p, it |-> None, hit |-> FALSE, tok |-> 0, label |-> ""]
       ELSE IF ~here THEN
            IF H.mem = "evict" THEN [ok |-> TRUE, p |-> p, it |-> None, hit |-> FALSE, tok |-> 0, label |-> ""]
            ELSE [ok |-> FALSE, p |-> p, it |-> it, hit |-> TRUE, tok |-> 0, label |-> "value-line"]
       ELSE IF p + 2 > Len(R) \/ R[p + 2].v # it.v THEN [ok |-> FALSE, p |-> p, it |-> it, hit |-> TRUE, tok |-> 0, label |-> "value-data"]
       ELSE IF withtok /\ tok <= 0 THEN [ok |-> FALSE, p |-> p, it |-> it, hit |-> TRUE, tok |-> 0, label |-> "token-missing"]
       ELSE IF ~withtok /\ tok # 0 THEN [ok |-> FALSE, p |-> p, it |-> it, hit |-> TRUE, tok |-> 0, label |-> "token-unexpected"]
       ELSE IF withtok /\ it.tok # 0 /\ it.tok # tok THEN [ok |-> FALSE, p |-> p, it |-> it, hit |-> TRUE, tok |-> 0, label |-> "token-changed"]
       ELSE IF withtok /\ it.tok = 0 /\ tok \in us THEN [ok |-> FALSE, p |-> p, it |-> it, hit |-> TRUE, tok |-> 0, label |-> "token-reused"]
       ELSE [ok |-> TRUE, p |-> p + 2, it |-> IF withtok THEN [it EXCEPT !.tok = tok] ELSE it, hit |-> TRUE, tok |-> tok, label |-> ""]

RECURSIVE GetAll(_, _, _, _)
GetAll(R, q, j, acc) ==
    IF j > Len(q.w) \/ ~acc.ok THEN acc
    ELSE LET k == q.w[j]
             g == GetOne(R, acc.p, k, At(acc.items, k), q.t, q.w[1] = "gets", acc.used)
         IN GetAll(R, q, j + 1,
                   [ok |-> g.ok, label |-> g.label, p |-> g.p,
                    items |-> IF At(acc.items, k) = g.it THEN acc.items ELSE With(acc.items, k, g.it),
                    used |-> IF g.tok > 0 THEN acc.used \cup {g.tok} ELSE acc.used,
                    hits |-> acc.hits + (IF g.hit THEN 1 ELSE 0), n |-> acc.n + 1])

-----------------------------------------------------------------------------
(* Outcomes of one request: a set of records [p, items, used, cnt, ok,       *)
(* label]; the request is explained by those with ok.                        *)
Bump(names) == IF H.stats THEN [c \in CounterNames |-> cnt[c] + (IF c \in names THEN 1 ELSE 0)] ELSE cnt

Out(p, its, us, ct) == [p |-> p, items |-> its, used |-> us, cnt |-> ct, ok |-> TRUE, label |-> ""]
Bad(label) == [p |-> 0, items |-> items, used |-> used, cnt |-> cnt, ok |-> FALSE, label |-> label]

\* a plain one-line reply `s', suppressed by noreply
Said(R, p, q, s, its, us, ct, label) ==
    IF Noreply(q) THEN Out(p, its, us, ct)
    ELSE IF Has(R, p, s) /\ R[p + 1].tok = 0 THEN Out(p + 1, its, us, ct) ELSE Bad(label)

\* one error line, nothing changes; with noreply the error may be silent
Err(R, p, quiet, ct, label) ==
    (IF HasErr(R, p) THEN {Out(p + 1, items, used, ct)} ELSE {Bad(label)})
    \cup (IF quiet THEN {Out(p, items, used, ct)} ELSE {})

\* the item a request works on may have been evicted silently
Olds(k) == IF H.mem = "evict" THEN {At(items, k), None} ELSE {At(items, k)}

CasMatches(q, old) ==
    IF q.w[1] # "cas" THEN {FALSE}
    ELSE IF old.tok # 0 THEN {q.cas = old.tok}
    ELSE IF q.cas \in used THEN {FALSE} ELSE {TRUE, FALSE}

StoreReq(R, p, q) ==
    LET k   == q.w[2]
        n   == VLen(q.v)
        new == Entry(q.v, ToInt(Digits(q.w[3])), ExpAt(Ttl(q.w[4]), q.t), 0, -1, 0)
        fit == Fits(q.kl[2], n)
        normal ==
          UNION { LET out == StoreOut(q.w[1], old, new, q.t, m)
                      sz  == VLen(out.it.v)
                      f2  == IF out.it.p THEN Fits(q.kl[2], sz) ELSE "yes"
                      ct  == Bump(StoreCounters(q.w[1], old, q.t, out.r))
                  IN (IF f2 # "no" THEN {Said(R, p, q, Reply(out.r), With(items, k, out.it), used, ct, "reply-" \o q.w[1])} ELSE {})
                     \cup (IF f2 # "yes" \/ (H.mem # "ample" /\ q.w[1] \in {"append", "prepend"}) THEN Err(R, p, Noreply(q), Bump({"cmd_" \o q.w[1]}), "too-big") ELSE {})
                  : <<old, m>> \in UNION {{<<o, mm>> : mm \in CasMatches(q, o)} : o \in Olds(k)} }
    IN (IF fit # "no" THEN normal ELSE {})
       \cup (IF fit # "yes" \/ H.mem = "oom" THEN Err(R, p, Noreply(q), cnt, "too-big") ELSE {})

ArithReq(R, p, q) ==
    LET k == q.w[2] IN
    UNION { LET out == ArithOut(q.w[1], old, Digits(q.w[3]), q.t)
                inc == q.w[1] = "incr"
                hit == IF inc THEN {"cmd_incr", "incr_hits"} ELSE {"cmd_decr", "decr_hits"}
                mis == IF inc THEN {"cmd_incr", "incr_misses"} ELSE {"cmd_decr", "decr_misses"}
            IN CASE out.r = "stored" ->
                      {Said(R, p, q, NumStr(out.n), With(items, k, out.it), used, Bump(hit), "reply-arith")}
                      \cup (IF H.mem = "oom" THEN Err(R, p, Noreply(q), Bump(hit), "oom") ELSE {})
                 [] out.r = "not_found" -> {Said(R, p, q, "NOT_FOUND", With(items, k, None), used, Bump(mis), "reply-arith")}
                 [] out.r = "err_num" -> Err(R, p, Noreply(q), Bump(IF inc THEN {"cmd_incr"} ELSE {"cmd_decr"}), "reply-not-a-number")
          : old \in Olds(k) }

RECURSIVE EndAt(_, _)
EndAt(R, p) == IF p > Len(R) THEN 0 ELSE IF R[p].s = "END" THEN p ELSE IF R[p].s = "STAT" THEN EndAt(R, p + 1) ELSE 0

\* counters that the text protocol determines (the allocator's are checked through the API)
Visible == CounterNames \ {"num_malloc", "num_alloc_errors"}
StatsReq(R, p, q) ==
    LET z == EndAt(R, p + 1)
        st == IF z > 0 THEN R[z].st ELSE [x \in {} |-> 0]
        live == {k \in DOMAIN items : items[k].p}
    IN IF z = 0 THEN {Bad("reply-stats")}
       ELSE IF z = p + 1 THEN {Bad("stats-empty")}
       ELSE IF ~H.stats THEN {Out(z, items, used, cnt)}
       ELSE IF \E c \in Visible : c \notin DOMAIN st \/ st[c] # cnt[c]
            THEN {Bad("stat-" \o (CHOOSE c \in Visible : c \notin DOMAIN st \/ st[c] # cnt[c]))}
       ELSE IF st["curr_items"] # Cardinality(live) THEN {Bad("stat-curr_items")}
       ELSE IF st["limit_maxbytes"] # H.memory \/ st["page_size"] # H.page THEN {Bad("stat-limits")}
       ELSE IF (st["used_memory"] = 0) # (live = {}) THEN {Bad("stat-used_memory")}
       ELSE {Out(z, items, used, cnt)}

Outcomes(R, p, q) ==
    IF ~WellFormed(q) THEN Err(R, p, FALSE, cnt, "malformed-needs-error")
    ELSE LET verb == q.w[1] IN
    CASE verb \in {"get", "gets"} ->
            LET a == GetAll(R, q, 2, [ok |-> TRUE, label |-> "", p |-> p, items |-> items, used |-> used, hits |-> 0, n |-> 0])
                ct == IF H.stats THEN [cnt EXCEPT !["cmd_get"] = @ + a.n, !["get_hits"] = @ + a.hits, !["get_misses"] = @ + a.n - a.hits] ELSE cnt
            IN {IF ~a.ok THEN Bad(a.label)
                ELSE IF Has(R, a.p, "END") THEN Out(a.p + 1, a.items, a.used, ct) ELSE Bad("reply-get")}
      [] verb \in Storage -> StoreReq(R, p, q)
      [] verb \in {"incr", "decr"} -> ArithReq(R, p, q)
      [] verb = "delete" ->
            {LET out == DelOut(old, q.t)
             IN Said(R, p, q, Reply(out.r), With(items, q.w[2], None), used,
                     Bump({"cmd_delete", IF out.r = "deleted" THEN "delete_hits" ELSE "delete_misses"}), "reply-delete") : old \in Olds(q.w[2])}
      [] verb = "touch" ->
            {LET out == TouchOut(old, Ttl(q.w[3]), q.t, q.t)
             IN Said(R, p, q, Reply(out.r), With(items, q.w[2], out.it), used,
                     Bump({"cmd_touch", IF out.r = "touched" THEN "touch_hits" ELSE "touch_misses"}), "reply-touch") : old \in Olds(q.w[2])}
      [] verb = "flush_all" ->
            {Said(R, p, q, "OK", [k \in {x \in DOMAIN items : Live(items[x], q.t)} |-> items[k]], used, Bump({"cmd_flush"}), "reply-flush_all")}
      [] verb = "version" ->
            {IF p < Len(R) /\ Len(R[p + 1].s) > 8 /\ SubSeq(R[p + 1].s, 1, 8) = "VERSION " THEN Out(p + 1, items, used, cnt) ELSE Bad("reply-version")}
      [] verb = "stats" -> StatsReq(R, p, q)
      [] verb = "quit" -> {Out(p, items, used, cnt)}      \* no reply; see "closed"

-----------------------------------------------------------------------------
Same == UNCHANGED <<items, used, cnt>>

Request(c, q) ==
    LET O == Outcomes(T.out[c], pos[c], q)
    IN /\ IF \E o \in O : o.ok THEN TRUE ELSE ChkC(c, (CHOOSE o \in O : TRUE).label, FALSE)
       /\ \E o \in {x \in O : x.ok} :
            /\ items' = o.items /\ used' = o.used /\ cnt' = o.cnt
            /\ pos' = [pos EXCEPT ![c] = o.p]

\* UDP: the reply datagram(s) of this very request
UdpBad(q) == q.hdrlen < 8 \/ q.seq # 0 \/ q.npk > 1 \/ q.rsv # 0 \/ ~q.complete

Datagram(c, q) ==
    IF UdpBad(q) THEN /\ ChkC(c, "udp-no-reply", Len(q.rep) = 0) /\ Same /\ UNCHANGED pos
    ELSE IF Len(q.rep) = 0 /\ q.lossy THEN Same /\ UNCHANGED pos      \* a get whose reply exceeds a datagram
    ELSE IF Len(q.rep) = 0 THEN
         LET O == Outcomes(<<>>, 0, q)
         IN /\ ChkC(c, "udp-reply-missing", \E o \in O : o.ok)
            /\ \E o \in {x \in O : x.ok} : items' = o.items /\ used' = o.used /\ cnt' = o.cnt
            /\ UNCHANGED pos
    ELSE LET R == q.rep[1].items
             O == Outcomes(R, 0, q)
         IN /\ ChkC(c, "udp-one-reply", Len(q.rep) = 1)
            /\ ChkC(c, "udp-header", q.rep[1].h = q.h)
            /\ ChkC(c, "udp-empty", Len(R) > 0)
            /\ IF \E o \in O : o.ok /\ o.p = Len(R) THEN TRUE ELSE ChkC(c, "udp-" \o (IF \E o \in O : ~o.ok THEN (CHOOSE o \in O : ~o.ok).label ELSE "excess"), FALSE)
            /\ \E o \in {x \in O : x.ok /\ x.p = Len(R)} : items' = o.items /\ used' = o.used /\ cnt' = o.cnt
            /\ UNCHANGED pos

\* a request (with noreply) of a client that disconnected: it may or may not be executed, any time later
Lost(c, q) ==
    \/ Same /\ UNCHANGED pos
    \/ \E o \in {x \in Outcomes(<<>>, 0, q) : x.ok} : items' = o.items /\ used' = o.used /\ cnt' = o.cnt /\ UNCHANGED pos

\* the previous request of this connection was quit: the server has to close it
HasQuit(c) == nx[c] > 1 /\ LET q == T.ops[c][nx[c] - 1] IN q.o = "req" /\ q.w = <<"quit">>

Op(c, q) ==
    CASE q.o = "req"    -> Request(c, q)
      [] q.o = "sync"   -> ChkC(c, IF pos[c] < q.n THEN "unexpected-reply" ELSE "reply-missing", pos[c] = q.n) /\ Same /\ UNCHANGED pos
      [] q.o = "closed" -> ChkC(c, "closed", (q.may \/ HasQuit(c)) /\ pos[c] = q.n) /\ Same /\ UNCHANGED pos
      [] q.o = "exit"   -> ChkC(c, "exit-status", q.n = q.want) /\ ChkC(c, "statistics-printed", q.printed \/ ~q.usr1) /\ Same /\ UNCHANGED pos
      [] q.o = "lost"   -> Lost(c, q)
      [] q.o = "dgram"  -> Datagram(c, q)
      [] q.o = "alive"  -> ChkC(c, "alive", q.ok) /\ Same /\ UNCHANGED pos

\* the next operation of c may take effect now
Ready(c) ==
    /\ nx[c] <= Len(T.ops[c])
    /\ \A d \in Conns \ {c} : nx[d] <= Len(T.ops[d]) => T.ops[d][nx[d]].res >= T.ops[c][nx[c]].inv

Init == /\ tr \in 1..Len(Traces)
        /\ nx = [c \in 1..Traces[tr].hdr.nc |-> 1]
        /\ pos = [c \in 1..Traces[tr].hdr.nc |-> 0]
        /\ items = << >> /\ used = {} /\ cnt = [c \in CounterNames |-> 0]

Next == \E c \in Conns :
    /\ Ready(c)
    /\ Op(c, T.ops[c][nx[c]])
    /\ nx' = [nx EXCEPT ![c] = @ + 1]
    /\ UNCHANGED tr
    /\ (\A d \in Conns : nx'[d] > Len(T.ops[d])) => PrintT(<<"ACCEPTED", tr>>)

Spec == Init /\ [][Next]_vars
===========================================================================
