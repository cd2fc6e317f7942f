------------------------------- MODULE MCUtil --------------------------------
EXTENDS Util
CONSTANTS MaxOps, MaxLen
VARIABLES ops, orig
vars == <<cell, view, sorter, ops, orig>>
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == UInit /\ ops = 0 /\ orig = <<>>
Mats == {<<<<0, 2>>, <<3, 1>>>>, <<<<1, 2, 0>>, <<3, 1, 4>>, <<5, 5, 6>>>>}
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E m \in Mats : DOMAIN cell = {} /\ SetMat("a", m) /\ UNCHANGED orig
           \/ \E r0, c0 \in 0..1, r, c \in 1..2 :
                 /\ "a" \in DOMAIN view /\ r0 + r <= Len(cell["a"]) /\ c0 + c <= Len(cell["a"])
                 /\ MkView("b", "a", r0, c0, r, c) /\ UNCHANGED orig
           \/ \E n \in DOMAIN view, col \in 0..2 :
                 LET s == [i \in 1..W(n).r |-> i * 7] IN CanAdd(n, s, col) /\ AddCol(n, s, col) /\ UNCHANGED orig
           \/ \E n \in DOMAIN view : Ones(n) /\ UNCHANGED orig
           \/ \E s \in Seqs({1, 2}, MaxLen) : DOMAIN sorter = {} /\ NewSorter("s", s) /\ orig' = s
           \/ "s" \in DOMAIN sorter /\ UNCHANGED orig
              /\ \E i, j \in 0..(Len(orig) - 1) : SwapIn("s", i, j)
Spec == Init /\ [][Next]_vars
\* what a view sees is a window of the matrix it is of; columns line up
Window == \A n \in DOMAIN view : \A col \in 0..(W(n).c - 1) :
             Col(n, col) = [i \in 1..W(n).r |-> cell[W(n).of][W(n).r0 + i][W(n).c0 + col + 1]]
\* the sorter never loses track of where a value came from
Tracks == "s" \in DOMAIN sorter => IsPerm(sorter["s"].ix, Len(orig)) /\ sorter["s"].v = Pick(orig, sorter["s"].ix)

\* pure functions, for all the small inputs
Small == Seqs(0..2, MaxLen)
OneHotOK == \A s \in Small :
    /\ \A i \in DOMAIN s : SumOf(OneHot(s)[i]) = 1
    /\ \A i, j \in DOMAIN s : (OneHot(s)[i] = OneHot(s)[j]) <=> (s[i] = s[j])
    /\ Cardinality({s[i] : i \in DOMAIN s}) = Len(Distinct(s))
    /\ \A a, b \in DOMAIN Distinct(s) : a < b =>
          \E i \in DOMAIN s : s[i] = Distinct(s)[a] /\ \A j \in 1..i : s[j] # Distinct(s)[b]
\* an argument sort always exists, and its values are unique
SortOK == \A s \in Small : LET P == {ix \in [1..Len(s) -> 0..(Len(s) - 1)] : IsPerm(ix, Len(s))} IN
    /\ \E ix \in P : IsArgSort(s, ix, Pick(s, ix))
    /\ \A a, b \in P : IsArgSort(s, a, Pick(s, a)) /\ IsArgSort(s, b, Pick(s, b)) => Pick(s, a) = Pick(s, b)
TransOK == \A m \in [1..2 -> [1..3 -> {0, 1}]] : Transposed(Transposed(m)) = m
ClassOK == \A s \in Small \ {<<>>} : s[Classes(<<s>>)[1] + 1] >= SumOf(s) \div Len(s)
OddsOK == \A s \in Small : \A j \in DOMAIN s : Odds(s)[j][1] + Odds(s)[j][2] = SumOf(s)
ASSUME OneHotOK /\ SortOK /\ TransOK /\ ClassOK /\ OddsOK
=============================================================================
