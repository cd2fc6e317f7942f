------------------------------- MODULE Store --------------------------------
(* Data sets, options, models and model files as a store of objects.         *)
(*                                                                           *)
(* Every object has a content that only its own creation (or its owner, the  *)
(* user, for data and options) determines. Training reads a data set and     *)
(* options and makes a model; a file holds the content of the model written  *)
(* to it, and reading it makes a model with that content. Everything that    *)
(* can be observed of an object (predictions, labels, rounds, importance,    *)
(* text...) is a function of its content, so two observations of the same    *)
(* question at objects of the same content agree, whatever happened between. *)
(* Options may be made verbose, which is seen in them but does not change    *)
(* what is trained with them.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES content,  \* object -> content
          seen,     \* <<content, question>> -> answer
          fresh     \* next unused content
svars == <<content, seen, fresh>>

Bind(o, x) == (o :> x) @@ content
Has(o) == o \in DOMAIN content

SInit == content = <<>> /\ seen = <<>> /\ fresh = 1

\* A new object, or one the user changed: its content is new.
New(o) == /\ content' = Bind(o, <<"u", fresh>>)
          /\ fresh' = fresh + 1
          /\ UNCHANGED seen

\* Options made verbose or quiet.
Core(x) == IF x[1] = "v" THEN x[2] ELSE x
Loud(o, b) == /\ Has(o)
              /\ content' = Bind(o, IF b THEN <<"v", Core(content[o])>> ELSE Core(content[o]))
              /\ UNCHANGED <<seen, fresh>>

\* Training. If it is deterministic the model is a function of what it was
\* trained with; otherwise it is something new.
Train(m, d, o, det) ==
    /\ Has(d) /\ Has(o)
    /\ content' = Bind(m, IF det THEN <<"m", content[d], Core(content[o])>> ELSE <<"r", fresh>>)
    /\ fresh' = fresh + 1
    /\ UNCHANGED seen

\* Writing a model to a file, reading a file to a model, copying an object.
Copy(from, to) ==
    /\ Has(from)
    /\ content' = Bind(to, content[from])
    /\ UNCHANGED <<seen, fresh>>

\* Any observation: the answer must be the known one, if there is one.
Observe(o, q, v) ==
    /\ Has(o)
    /\ LET key == <<content[o], q>>
       IN IF key \in DOMAIN seen
          THEN seen[key] = v /\ UNCHANGED seen
          ELSE seen' = (key :> v) @@ seen
    /\ UNCHANGED <<content, fresh>>
=============================================================================
