------------------------------- MODULE IoBuf -------------------------------
(* The IO buffer as two sequences of run-length coded bytes <<byte, count>>: *)
(*   old   bytes that were read and are still there (a rollback brings them  *)
(*         back),  new  unread bytes;  cap the capacity, max its limit.      *)
EXTENDS Integers, Sequences

RECURSIVE Total(_, _)
Total(r, k) == IF k = 0 THEN 0 ELSE r[k][2] + Total(r, k - 1)
Size(r) == Total(r, Len(r))

\* concatenation that keeps runs maximal
Cat(a, b) ==
    IF a = <<>> THEN b ELSE IF b = <<>> THEN a
    ELSE IF a[Len(a)][1] = b[1][1]
         THEN SubSeq(a, 1, Len(a) - 1) \o << <<b[1][1], a[Len(a)][2] + b[1][2]>> >> \o Tail(b)
         ELSE a \o b

RECURSIVE Take(_, _)
Take(r, n) == IF n = 0 \/ r = <<>> THEN <<>>
              ELSE IF r[1][2] <= n THEN <<r[1]>> \o Take(Tail(r), n - r[1][2])
              ELSE << <<r[1][1], n>> >>
RECURSIVE Drop(_, _)
Drop(r, n) == IF n = 0 \/ r = <<>> THEN r
              ELSE IF r[1][2] <= n THEN Drop(Tail(r), n - r[1][2])
              ELSE << <<r[1][1], r[1][2] - n>> >> \o Tail(r)

\* bytes up to and including the first occurrence of the one or two byte terminator t; -1 if there is none
Until(r, t) ==
    LET hit(k) == IF Len(t) = 1 THEN r[k][1] = t[1]
                  ELSE IF t[1] = t[2] THEN r[k][1] = t[1] /\ r[k][2] >= 2
                  ELSE k < Len(r) /\ r[k][1] = t[1] /\ r[k + 1][1] = t[2]
        S == {k \in 1..Len(r) : hit(k)}
        k == CHOOSE x \in S : \A y \in S : x <= y
    IN IF S = {} THEN -1
       ELSE IF Len(t) = 1 THEN Total(r, k - 1) + 1
       ELSE IF t[1] = t[2] THEN Total(r, k - 1) + 2
       ELSE Total(r, k) + 1
=============================================================================
