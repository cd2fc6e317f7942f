------------------------------- MODULE MCLoss --------------------------------
EXTENDS Loss
CONSTANTS MaxOps
Vals == {0, 3, 8}
Mats == [1..1 -> [1..2 -> Vals]]
VARIABLES ops
Init == LInit /\ ops = 0
Regs == {"y", "p", "g"}
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E r \in {"y", "p"}, m \in Mats : Set(r, m)
           \/ {"y", "p"} \subseteq DOMAIN reg /\ (Grad("y", "p", "g") \/ Neg("y", "p", "g") \/ \E k \in {"mse", "sqerr"} : Hess(k, "p", "g"))
Spec == Init /\ [][Next]_<<reg, ops>>
Has == {"y", "p"} \subseteq DOMAIN reg
Opposite == Has => Map2(GradOf(reg["y"], reg["p"]), NegOf(reg["y"], reg["p"]), LAMBDA a, b : a + b) = Map1(reg["y"], LAMBDA a : 0)
LossZero == Has => ((LossOf(reg["y"], reg["p"])[1] = 0) <=> (reg["y"] = reg["p"]))
LossGrad == Has => LossOf(reg["y"], reg["p"])[1] = SumM(Map2(GradOf(reg["y"], reg["p"]), GradOf(reg["y"], reg["p"]), LAMBDA a, b : a * b))
HessPos  == Has => \A k \in {"mse", "sqerr"} : \A j \in 1..2 : HessOf(k, reg["p"])[1][j] >= 0
\* softmax: whole powers of two, so that it can be computed
Rows == UNION {[1..n -> 0..3] : n \in 1..3}
Pow(k) == <<1, 2, 4, 8>>[k + 1]
P(x, i) == <<Pow(x[i]), Sum([j \in DOMAIN x |-> Pow(x[j])])>>
Soft == \A x \in Rows :
    /\ Sum([i \in DOMAIN x |-> P(x, i)[1]]) = P(x, 1)[2]
    /\ \A i, j \in DOMAIN x : (x[i] <= x[j]) <=> (P(x, i)[1] <= P(x, j)[1])
    /\ \A i \in DOMAIN x : SoftExp(x) = SoftExp([j \in DOMAIN x |-> x[j] + 5])
    /\ \A i \in DOMAIN x : P(x, i)[1] * Pow(-SoftExp(x)[i]) = Pow(MaxOf(x))
=============================================================================
