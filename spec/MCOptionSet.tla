---------------------------- MODULE MCOptionSet ------------------------------
(* Options in memory: an object is a place that holds fields, two names might *)
(* be the same place if a copy were not one. The places never merge.         *)
EXTENDS OptionSet
CONSTANTS Names, Fields, Vals, MaxOps
VARIABLES place, mem, ops   \* name -> place, place -> fields
vars == <<opts, place, mem, ops>>
Init == OInit /\ place = <<>> /\ mem = <<>> /\ ops = 0
Fresh == Cardinality(DOMAIN mem) + 1
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E o \in Names, v \in Vals :
                 LET f == [k \in Fields |-> v]
                 IN New(o, f) /\ place' = (o :> Fresh) @@ place /\ mem' = (Fresh :> f) @@ mem
           \/ \E o \in Names, k \in Fields, v \in Vals :
                 SetField(o, k, v) /\ mem' = [mem EXCEPT ![place[o]][k] = v] /\ UNCHANGED place
           \/ \E a, b \in Names :
                 Clone(a, b) /\ place' = (b :> Fresh) @@ place /\ mem' = (Fresh :> mem[place[a]]) @@ mem
Spec == Init /\ [][Next]_vars
Refines == \A o \in DOMAIN opts : mem[place[o]] = opts[o]
Apart == \A a, b \in DOMAIN place : a # b => place[a] # place[b]
EqualIsEquality == \A a, b \in DOMAIN opts : Equal(a, b) <=> \A k \in Fields : opts[a][k] = opts[b][k]
=============================================================================
