------------------------------ MODULE Decimal ------------------------------
(* Decimal conversion of string_conv.h.  A number is a sign and a sequence  *)
(* of digits (BigNum), a text a sequence of byte codes.                     *)
EXTENDS BigNum, FiniteSets

Types == {"i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"}
Signed == {"i8", "i16", "i32", "i64"}
MaxOf(t) == CASE t = "u8"  -> <<2,5,5>>
              [] t = "u16" -> <<6,5,5,3,5>>
              [] t = "u32" -> <<4,2,9,4,9,6,7,2,9,5>>
              [] t = "u64" -> MaxU64
              [] t = "i8"  -> <<1,2,7>>
              [] t = "i16" -> <<3,2,7,6,7>>
              [] t = "i32" -> <<2,1,4,7,4,8,3,6,4,7>>
              [] t = "i64" -> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
\* magnitude of the least value
MinOf(t) == IF t \in Signed THEN Add(MaxOf(t), <<1>>) ELSE <<0>>

Zero == <<0>>
InType(t, neg, n) == Leq(n, IF neg THEN MinOf(t) ELSE MaxOf(t))

\* the shortest decimal text
Text(neg, n) == (IF neg /\ n # Zero THEN <<45>> ELSE <<>>) \o ToText(n)

\* parts of a text
Minus(t, x) == t \in Signed /\ Len(x) > 0 /\ x[1] = 45
Body(t, x) == IF Minus(t, x) THEN Tail(x) ELSE x
Denotes(t, x) == IsDigits(Body(t, x))                 \* the text is a number
Value(t, x) == LET n == ToNum(Body(t, x)) IN [neg |-> Minus(t, x) /\ n # Zero, n |-> n]
Accepted(t, x) == Denotes(t, x) /\ LET v == Value(t, x) IN InType(t, v.neg, v.n)
\* more than 20 digits (that is: leading zeros) may be refused
MayRefuse(t, x) == Len(Body(t, x)) > 20
=============================================================================
