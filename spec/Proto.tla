------------------------------- MODULE Proto -------------------------------
(* The memcached text protocol of cachelot: which request lines are          *)
(* well-formed, and how outcomes of CacheCore are rendered.                  *)
(*                                                                           *)
(* A request is a record                                                     *)
(*   w    words of the line (split at single spaces), bytes other than       *)
(*        printable ASCII written as %XX;  kl: their lengths in bytes        *)
(*   v    data block (pieces as in CacheTrace), dl: its length in bytes,     *)
(*        term: the data block is followed by CRLF                           *)
(*   cas  identity of the token presented by a cas request                   *)
EXTENDS CacheCore, TLC

DigitOf == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
              CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]

Char(s, i) == SubSeq(s, i, i)
IsNum(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Char(s, i) \in DOMAIN DigitOf
Digits(s) == Norm([i \in 1..Len(s) |-> DigitOf[Char(s, i)]])

RECURSIVE NumStr(_)
NumStr(n) == IF n = <<>> THEN "" ELSE ToString(Head(n)) \o NumStr(Tail(n))

MaxU32 == <<4,2,9,4,9,6,7,2,9,5>>
MaxU16 == <<6,5,5,3,5>>
InRange(s, max) == IsNum(s) /\ Leq(Digits(s), max)

\* small numbers (used for flags and lengths, both below 2^31 when in range)
RECURSIVE ToInt(_)
ToInt(d) == IF d = <<>> THEN 0 ELSE 10 * ToInt(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)]

\* time-to-live: numbers of 2^31 and more are never reached in our histories
Ttl(s) == LET d == Digits(s) IN IF Leq(d, <<1,9,9,9,9,9,9,9,9,9>>) THEN ToInt(d) ELSE INF

Storage == {"set", "add", "replace", "append", "prepend", "cas"}
Verbs == Storage \cup {"get", "gets", "delete", "incr", "decr", "touch", "flush_all", "version", "stats", "quit"}

KeyOK(q, i) == q.kl[i] >= 1 /\ q.kl[i] <= 250

\* number of words without and with noreply
Arity(verb) ==
    CASE verb \in Storage \ {"cas"} -> {5, 6}
      [] verb = "cas" -> {6, 7}
      [] verb = "delete" -> {2, 3}
      [] verb \in {"incr", "decr", "touch"} -> {3, 4}
      [] verb = "flush_all" -> {1, 2}
      [] verb \in {"version", "stats", "quit"} -> {1}
      [] OTHER -> {}

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Noreply(q) == q.w[1] \notin {"get", "gets"} /\ Len(q.w) > Least(Arity(q.w[1]))

\* is the line a well-formed request (the data block of storage commands is judged by DataOK)
LineOK(q) ==
    LET w == q.w
        n == Len(w)
    IN /\ n >= 1
       /\ w[1] \in Verbs
       /\ IF w[1] \in {"get", "gets"} THEN n >= 2 /\ \A i \in 2..n : KeyOK(q, i)
          ELSE /\ n \in Arity(w[1])
               /\ Noreply(q) => w[n] = "noreply"
               /\ w[1] \notin {"flush_all", "version", "stats", "quit"} => KeyOK(q, 2)
               /\ w[1] \in Storage =>
                     /\ InRange(w[3], MaxU16) /\ InRange(w[4], MaxU32) /\ InRange(w[5], MaxU32)
                     /\ w[1] = "cas" => InRange(w[6], MaxU64)
               /\ w[1] \in {"incr", "decr"} => InRange(w[3], MaxU64)
               /\ w[1] = "touch" => InRange(w[3], MaxU32)

DataOK(q) == q.term /\ Len(Digits(q.w[5])) <= 9 /\ ToInt(Digits(q.w[5])) = q.dl

WellFormed(q) == LineOK(q) /\ (q.w[1] \in Storage => DataOK(q))

-----------------------------------------------------------------------------
\* replies

IsError(s) ==
    \/ s = "ERROR"
    \/ Len(s) > 13 /\ SubSeq(s, 1, 13) \in {"CLIENT_ERROR ", "SERVER_ERROR "}

Reply(r) ==
    CASE r = "stored" -> "STORED"
      [] r = "not_stored" -> "NOT_STORED"
      [] r = "exists" -> "EXISTS"
      [] r = "not_found" -> "NOT_FOUND"
      [] r = "deleted" -> "DELETED"
      [] r = "touched" -> "TOUCHED"

ValueLine(key, it, len) == "VALUE " \o key \o " " \o ToString(it.f) \o " " \o ToString(len)
===========================================================================
