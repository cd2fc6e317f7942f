-------------------------------- MODULE Loss ---------------------------------
(* Matrices in registers, and the loss and activation functions that read    *)
(* some of them and write another one (or a new one) and nothing else.       *)
(* Labels, predictions and gradients are in eighths, hessians and losses in  *)
(* 64ths, all of them exact. Inputs of softmax are in 16ths of ln 2.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Rat, TLC

VARIABLE reg
LInit == reg = <<>>
Map2(a, b, Op(_, _)) == [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> Op(a[i][j], b[i][j])]]
Map1(a, Op(_)) == [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> Op(a[i][j])]]
Put(r, m) == reg' = (r :> m) @@ reg
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
SumM(m) == Sum([i \in DOMAIN m |-> Sum(m[i])])
Cells(m) == Sum([i \in DOMAIN m |-> Len(m[i])])

Set(r, m) == Put(r, m)
GradOf(y, p) == Map2(p, y, LAMBDA a, b : a - b)
NegOf(y, p)  == Map2(y, p, LAMBDA a, b : a - b)
HessOf(loss, p) == IF loss = "sqerr" THEN Map1(p, LAMBDA a : 64) ELSE Map1(p, LAMBDA a : a * (8 - a))
\* the mean of the squared differences, as a sum of 64ths and the number of them
LossOf(y, p) == <<SumM(Map2(y, p, LAMBDA a, b : (a - b) * (a - b))), Cells(y)>>

Grad(y, p, dst)    == Put(dst, GradOf(reg[y], reg[p]))
Neg(y, p, dst)     == Put(dst, NegOf(reg[y], reg[p]))
Hess(loss, p, dst) == Put(dst, HessOf(loss, reg[p]))

----------------------------------------------------------------------------
\* Softmax of a row of x (16ths of ln 2): p_i / p_max = 2^((x_i - x_max)/16),
\* and they add up to 1, which determines it. Given as the exponents.
MaxOf(s) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, s[1], s)
SoftExp(x) == LET m == TLCEval(MaxOf(x)) IN [i \in DOMAIN x |-> x[i] - m]
\* below the smallest float
Vanishes(e) == e < -1100 * 16
Near0(e) == e < -1000 * 16

\* Normalization: a row over its sum
NormOf(v, K) == LET s == TLCEval(Sum(v)) IN [i \in DOMAIN v |-> IF s > 0 THEN Sc(v[i], s, K) ELSE Sc(-v[i], -s, K)]
=============================================================================
