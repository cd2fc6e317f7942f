-------------------------------- MODULE Rat --------------------------------
(* Exact comparison and fixed-point projection of fractions, within TLC's    *)
(* 32-bit integers.                                                          *)
EXTENDS Integers

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* Sign of a/b - c/d for a, c >= 0 and b, d > 0, without cross products
\* (they overflow): the Euclidean algorithm on both fractions at once.
RECURSIVE Cmp(_, _, _, _)
Cmp(a, b, c, d) ==
    LET q1 == a \div b
        q2 == c \div d
        r1 == a % b
        r2 == c % d
    IN  IF q1 # q2 THEN (IF q1 > q2 THEN 1 ELSE -1)
        ELSE IF r1 = 0 /\ r2 = 0 THEN 0
        ELSE IF r1 = 0 THEN -1
        ELSE IF r2 = 0 THEN 1
        ELSE Cmp(d, r2, b, r1)

\* K * r/b truncated, for 0 <= r < b; digit by digit where the product would
\* overflow (K is then a power of ten).
RECURSIVE Frac(_, _, _)
Frac(r, b, K) ==
    IF K = 1 THEN 0
    ELSE IF r <= 2000000000 \div K THEN (r * K) \div b
    ELSE ((r * 10) \div b) * (K \div 10) + Frac((r * 10) % b, b, K \div 10)

\* K * a/b truncated toward zero; b > 0.
Sc(a, b, K) ==
    LET p == Abs(a)
        v == (p \div b) * K + Frac(p % b, b, K)
    IN  IF a < 0 THEN -v ELSE v

Near(x, y, tol) == Abs(x - y) <= tol
=============================================================================
