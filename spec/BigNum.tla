------------------------------ MODULE BigNum ------------------------------
(* Unsigned decimal arithmetic on sequences of digits, most significant    *)
(* digit first (TLC integers are 32 bit; cachelot counters are 64 bit).    *)
EXTENDS Integers, Sequences

Digit == 0..9

\* left-pad with zeros to n digits (n >= Len(a))
Pad(a, n) == [i \in 1..n |-> IF i <= n - Len(a) THEN 0 ELSE a[i - (n - Len(a))]]

BMax(x, y) == IF x >= y THEN x ELSE y

\* strip leading zeros; zero is <<0>>
Norm(a) ==
    IF \A i \in 1..Len(a) : a[i] = 0 THEN <<0>>
    ELSE LET s == CHOOSE i \in 1..Len(a) : a[i] # 0 /\ \A j \in 1..(i-1) : a[j] = 0
         IN SubSeq(a, s, Len(a))

\* a < b for sequences of the same length
LessEqLen(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]

Less(a, b) == LET n == BMax(Len(a), Len(b)) IN LessEqLen(Pad(a, n), Pad(b, n))
Leq(a, b)  == ~Less(b, a)

\* a + b
Add(a, b) ==
    LET n == BMax(Len(a), Len(b)) + 1
        x == Pad(a, n)
        y == Pad(b, n)
        RECURSIVE Go(_, _, _)
        Go(i, carry, acc) ==
            IF i = 0 THEN acc
            ELSE LET s == x[i] + y[i] + carry
                 IN Go(i - 1, s \div 10, <<s % 10>> \o acc)
    IN Norm(Go(n, 0, <<>>))

\* a - b, requires b <= a
Sub(a, b) ==
    LET n == BMax(Len(a), Len(b))
        x == Pad(a, n)
        y == Pad(b, n)
        RECURSIVE Go(_, _, _)
        Go(i, borrow, acc) ==
            IF i = 0 THEN acc
            ELSE LET s == x[i] - y[i] - borrow
                 IN IF s < 0 THEN Go(i - 1, 1, <<s + 10>> \o acc)
                            ELSE Go(i - 1, 0, <<s>> \o acc)
    IN Norm(Go(n, 0, <<>>))

MaxU64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>

\* saturating 64-bit counter operations
SatAdd(a, d, max) == LET s == Add(a, d) IN IF Less(max, s) THEN Norm(max) ELSE s
SatSub(a, d)      == IF Less(a, d) THEN <<0>> ELSE Sub(a, d)

\* decimal text <-> number; text is a sequence of byte codes
IsDigits(t) == Len(t) > 0 /\ \A i \in 1..Len(t) : t[i] >= 48 /\ t[i] <= 57
ToNum(t)    == Norm([i \in 1..Len(t) |-> t[i] - 48])
ToText(n)   == [i \in 1..Len(n) |-> n[i] + 48]
===========================================================================
