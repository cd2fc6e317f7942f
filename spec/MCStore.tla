------------------------------ MODULE MCStore -------------------------------
(* Every history of a data set, options, two models and a file. The          *)
(* implementation keeps real values (val): what the objects would answer.    *)
EXTENDS Store
CONSTANTS MaxOps, Vals
VARIABLES val, ops
mvars == <<content, seen, fresh, val, ops>>
Models == {"m1", "m2"}
\* the answer of an object: for data and options their value, for models what
\* they were trained with
Ans(o) == val[o]
MCInit == SInit /\ val = <<>> /\ ops = 0
Up(o, x) == val' = (o :> x) @@ val
Step == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E o \in {"d", "o"}, x \in Vals : New(o) /\ Up(o, <<x, FALSE>>)
           \/ \E b \in BOOLEAN : Loud("o", b) /\ Up("o", <<val["o"][1], b>>)
           \/ \E m \in Models : Train(m, "d", "o", TRUE) /\ Up(m, <<val["d"], val["o"][1]>>)
           \/ \E m \in Models : Has(m) /\ Copy(m, "f") /\ Up("f", val[m])
           \/ \E m \in Models : Has("f") /\ Copy("f", m) /\ Up(m, val["f"])
           \/ \E o \in DOMAIN content : Observe(o, "q", Ans(o)) /\ UNCHANGED val
MCNext == Step
MCSpec == MCInit /\ [][MCNext]_mvars
\* equal contents have equal values: an honest implementation is never rejected
Functional == \A o, p \in DOMAIN content : content[o] = content[p] => val[o] = val[p]
NeverRejects == \A o \in DOMAIN content :
    <<content[o], "q">> \in DOMAIN seen => seen[<<content[o], "q">>] = Ans(o)
\* a file written from a model and not written again keeps its content
=============================================================================
