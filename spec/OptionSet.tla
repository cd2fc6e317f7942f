----------------------------- MODULE OptionSet -------------------------------
(* Options as records of fields that belong to one owner each: changing or   *)
(* copying one leaves the others alone. Values are integers that keep the    *)
(* order of the real ones, with 0 for 0 and 8 for 1.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE opts    \* object -> [field -> value]
OInit == opts = <<>>
Has(o) == o \in DOMAIN opts
New(o, f) == opts' = (o :> f) @@ opts
SetField(o, k, v) == Has(o) /\ k \in DOMAIN opts[o] /\ opts' = [opts EXCEPT ![o][k] = v]
Clone(from, o) == Has(from) /\ opts' = (o :> opts[from]) @@ opts
Equal(a, b) == opts[a] = opts[b]
One == 8
Valid(f) == /\ f.Rounds > 0 /\ f.LearningRate > 0
            /\ f.SubSample > 0 /\ f.SubSample <= One /\ f.ColSubSample > 0 /\ f.ColSubSample <= One
            /\ f.Lambda >= 0 /\ f.Gamma >= 0
            /\ f.MinChildWeight >= One /\ f.MaxDepth >= 2 /\ f.MinSample >= 1
=============================================================================
