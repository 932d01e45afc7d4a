------------------------------ MODULE MCConfig ------------------------------
(* The rules by logarithms are the rules by arithmetic, for all exponents    *)
(* that fit TLC's integers; and the text rules agree for every unit.         *)
EXTENDS Config, FiniteSets
VARIABLES n, u
Init == n = 0 /\ u = 0
Next == \/ n < 4200 /\ n' = n + 1 /\ UNCHANGED u
        \/ n = 4200 /\ u < 3 /\ u' = u + 1 /\ n' = 0
RECURSIVE Dec(_)
Dec(x) == IF x < 10 THEN <<x>> ELSE Append(Dec(x \div 10), x % 10)
IsPow2(x) == \E k \in 0..30 : x = 2^k
LogOK == LET l == Log2(Dec(n)) IN (l >= 0) = IsPow2(n) /\ (l >= 0 => n = 2^l)
Suf == <<<<>>, <<75>>, <<77>>, <<71>>>>
Sh == <<20, 10, 20, 30>>
AmountOK == LET a == Amount(ToText(Dec(n)) \o Suf[u + 1]) IN
            /\ (a.r = "yes") = IsPow2(n)
            /\ a.r = "yes" => n * 2^10 = 2^(a.l - Sh[u + 1] + 10)
\* arithmetic form of Valid for sizes below 2^28
ValidOK == n > 0 \/ \A m \in 0..28, p \in 0..26, h \in 0..3 :
              Valid(m, p, h) = (2^m >= 4 * 2^p /\ 2^p >= 256 /\ 2^p <= 2^30)
TableOK == n > 0 \/ (Pow2Table[1] = <<1>> /\ \A k \in 1..63 : Add(Pow2Table[k], Pow2Table[k]) = Pow2Table[k + 1])
Spec == Init /\ [][Next]_<<n, u>>
=============================================================================
