------------------------------ MODULE MCReport ------------------------------
(* Every small tree can be read back from what is printed of it.             *)
EXTENDS Report
CONSTANTS NF, V, MaxNodes
VARIABLES ns, need, names
vars == <<ns, need, names>>
Leafs  == {[leaf |-> TRUE, val |-> v, rows |-> <<r>>, f |-> 0, thr |-> 0] : v \in V, r \in V}
Splits == {[leaf |-> FALSE, f |-> f, thr |-> v, val |-> 0, rows |-> <<>>] : f \in 1..NF, v \in V}
Init == ns = <<>> /\ need = 1 /\ names \in {<<>>, <<"a">>, [i \in 1..NF |-> <<"a", "b", "c">>[i]]}
\* nodes are appended in preorder until the tree is complete
Next == /\ need > 0
        /\ \/ \E x \in Leafs : ns' = Append(ns, x) /\ need' = need - 1
           \/ Len(ns) + need + 2 <= MaxNodes /\ \E x \in Splits : ns' = Append(ns, x) /\ need' = need + 1
        /\ UNCHANGED names
Spec == Init /\ [][Next]_vars
Faithful == need = 0 =>
    LET ls == Lines(ns, 1, 0, names) IN
    /\ Parse(ls, 1) = [k \in DOMAIN ns |-> IF ns[k].leaf THEN <<ns[k].val, ns[k].rows>> ELSE <<Name(ns[k].f, names), ns[k].thr>>]
    /\ After(ls, 1) = Len(ls) + 1
    /\ Len(ls) = Cardinality({k \in DOMAIN ns : ns[k].leaf}) + 3 * Cardinality({k \in DOMAIN ns : ~ns[k].leaf})
\* different features are never shown with the same name
Distinct == \A f, g \in 1..NF : Name(f, names) = Name(g, names) => f = g
=============================================================================
