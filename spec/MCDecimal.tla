----------------------------- MODULE MCDecimal -----------------------------
(* The specification of decimal conversion is consistent: for every number  *)
(* of small types, and every text over a small alphabet, formatting and     *)
(* parsing are inverse, the text is the shortest one, and texts outside of  *)
(* the range are refused; the digit arithmetic agrees with integers.        *)
EXTENDS Decimal, TLC
CONSTANTS MaxLen
VARIABLES x
Alphabet == {45, 48, 49, 50, 53, 55, 56, 57, 43, 32}
RECURSIVE Num_(_)
Num_(d) == IF d = <<>> THEN 0 ELSE 10 * Num_(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)]
SInt(v) == IF v.neg THEN -Num_(v.n) ELSE Num_(v.n)
Lo(t) == CASE t = "i8" -> -128 [] t = "i16" -> -32768 [] OTHER -> 0
Hi(t) == CASE t = "i8" -> 127 [] t = "i16" -> 32767 [] t = "u8" -> 255 [] t = "u16" -> 65535
Init == x = <<>>
Next == Len(x) < MaxLen /\ \E c \in Alphabet : x' = Append(x, c)
Small == {"i8", "u8", "i16", "u16"}
Inv == \A t \in Small :
         /\ Accepted(t, x) => LET v == Value(t, x)
                              IN /\ SInt(v) >= Lo(t) /\ SInt(v) <= Hi(t)
                                 /\ Value(t, Text(v.neg, v.n)) = v /\ Accepted(t, Text(v.neg, v.n))
                                 /\ Len(Text(v.neg, v.n)) <= Len(x)
         /\ (Denotes(t, x) /\ ~Accepted(t, x)) => (SInt(Value(t, x)) < Lo(t) \/ SInt(Value(t, x)) > Hi(t))
Spec == Init /\ [][Next]_x
=============================================================================
