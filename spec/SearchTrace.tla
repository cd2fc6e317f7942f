---------------------------- MODULE SearchTrace -----------------------------
(* Recorded searches for hyperparameters (grid, gradient, hybrid, and single *)
(* gradient steps): the begin and end of each evaluation, in the order they  *)
(* happened, and what the search returned.                                   *)
(* MODE: "grid" (C11), "live" (C12) or "climb" (C13).                        *)
(* Accuracies are ranks: integers in the order of the real values.           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Rat, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
MODE  == IOEnv.MODE

VARIABLES c, l, running, done, over, pend
vars == <<c, l, running, done, over, pend>>
cfg == Cases[c].cfg
Ev == Cases[c].ev[l]
Is(e) == l <= Len(Cases[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED c

Cl == INSTANCE Climb WITH MaxEval <- 0, Accs <- {}, Points <- {}, Inside <- {}, Starts <- {}, todo <- {},
         cur <- 0, tried <- <<>>, best <- 0, bestpt <- 0, accs <- <<>>, pc <- ""

TraceInit == /\ c \in DOMAIN Cases /\ l = 1
             /\ running = <<>>   \* evaluations under way, in order of start
             /\ done = <<>>      \* evaluations finished
             /\ over = FALSE
             /\ pend = <<>>      \* a step made, whose end was not evaluated yet

Dims == DOMAIN cfg.space
\* the values of one hyperparameter: from the first in steps up to the last
\* (only the first, if there is no step)
Values(d) == LET s == cfg.space[d]
             IN IF s[2] < s[1] THEN {} ELSE IF s[3] = 0 THEN {s[1]} ELSE {s[1] + (k * s[3]) : k \in 0..((s[2] - s[1]) \div s[3])}
NCombos == FoldSet(LAMBDA d, a : a * Cardinality(Values(d)), 1, Dims)
InSpace(v) == \A d \in Dims : v[d] \in Values(d)
Evaluated == {running[i].v : i \in DOMAIN running} \cup {done[i].v : i \in DOMAIN done}

\* what is asked for, and the default of what isn't in the space
Requested == Ev.nfold = cfg.nfold /\ Ev.xgb = cfg.xgb /\ Ev.es = cfg.es /\ Ev.rest

\* inside of the box, up to the precision of the projection (10^-4; rounds and
\* depth are exact)
Prec(d) == IF d <= 2 THEN 0 ELSE 1
InBox(x) == \A d \in Dims : x[d] >= cfg.box[d][1] - Prec(d) /\ x[d] <= cfg.box[d][2] + Prec(d)

\* dimensions: 1 rounds, 2 depth, 3 child weight, 4 learning rate, 5 lambda,
\* 6 gamma, 7 row sampling, 8 column sampling
Movable == {1, 4, 5, 6, 7, 8}
Shift(d, x, sgn) == IF d = 1 THEN x + sgn * ((x * cfg.fd) \div 64)
                    ELSE x + ((sgn * (x * cfg.fd)) \div 64)
Around(x) == \E d \in Movable, sgn \in {1, -1, 0} :
    /\ \A e \in Dims \ {d} : x[e] = cfg.center[e]
    /\ Near(x[d], Shift(d, cfg.center[d], sgn), IF d = 1 THEN 0 ELSE 2)

\* Where a gradient step leads to. The values tried for a hyperparameter go
\* from the longest move to the shortest one; the first inside of the space is
\* taken, if any. At the very border (up to the precision of the projection)
\* either may happen.
MaybeIn(d, x)  == x >= cfg.box[d][1] - Prec(d) /\ x <= cfg.box[d][2] + Prec(d)
SurelyIn(d, x) == x >= cfg.box[d][1] + Prec(d) /\ x <= cfg.box[d][2] - Prec(d)
Exactly(d, x) == IF d <= 3 THEN x >= cfg.box[d][1] /\ x <= cfg.box[d][2] ELSE SurelyIn(d, x)
MayLand(d, from, alt, x) == \E k \in 1..(Len(alt) + 1) :
    /\ \A j \in 1..(k - 1) : ~(SurelyIn(d, alt[j]) /\ \A e \in Dims \ {d} : Exactly(e, from[e]))
    /\ IF k > Len(alt) THEN Near(x, from[d], 1)
       ELSE MaybeIn(d, alt[k]) /\ (\A e \in Dims \ {d} : MaybeIn(e, from[e])) /\ Near(x, alt[k], 1)
MayBe(st, x) == \A d \in Dims :
    IF d \in {2, 3} THEN x[d] = st.from[d]
    ELSE st.cand[d] = <<>> \/ \E i \in DOMAIN st.cand[d] : MayLand(d, st.from, st.cand[d][i], x[d])
\* where a step of the search leads to is evaluated, unless it leads nowhere
Follows(x, conc) == \A i \in DOMAIN pend : MayBe(pend[i], pend[i].from) \/ (~conc /\ MayBe(pend[i], x))

BeginOK ==
    CASE MODE = "grid"  -> Requested /\ InSpace(Ev.v) /\ Ev.v \notin Evaluated
      [] MODE = "live"  -> /\ (cfg.search = "grid") => Len(running) < Max({cfg.ncpus, 1})
                           /\ cfg.bare => Requested /\ InBox(Ev.x)
      [] MODE = "climb" -> /\ Ev.finite /\ Ev.rest /\ Follows(Ev.x, Ev.conc)
                           /\ (cfg.search = "step") =>
                                /\ Around(Ev.x) /\ Ev.nfold = cfg.nfold
                                /\ Len(running) + Len(done) < (IF cfg.central THEN 12 ELSE 7)
      [] OTHER -> FALSE
Begin == /\ Is("begin") /\ (BeginOK = TRUE)
         /\ ~over   \* nothing starts once the search returned
         /\ running' = Append(running, [id |-> Ev.id, v |-> Ev.v, x |-> Ev.x, key |-> Ev.key, ok |-> Requested, conc |-> Ev.conc])
         /\ pend' = <<>>
         /\ UNCHANGED <<done, over>>
Step == /\ Is("step") /\ ~over /\ running = <<>>
        /\ (\A i \in DOMAIN pend : MayBe(pend[i], pend[i].from)) = TRUE
        /\ pend' = <<[from |-> Ev.from, cand |-> Ev.cand]>>
        /\ UNCHANGED <<running, done, over>>

End == /\ Is("end") /\ ~over
       /\ LET k == CHOOSE k \in DOMAIN running : running[k].id = Ev.id
          IN /\ \E j \in DOMAIN running : running[j].id = Ev.id
             /\ done' = Append(done, [v |-> running[k].v, pt |-> running[k].key, acc |-> Ev.rank, ok |-> running[k].ok,
                                      x |-> running[k].x, err |-> Ev.err, conc |-> running[k].conc])
             /\ running' = SubSeq(running, 1, k - 1) \o SubSeq(running, k + 1, Len(running))
       /\ UNCHANGED <<over, pend>>

----------------------------------------------------------------------------
\* what the grid search returns
GridRet ==
    /\ ~Ev.err
    /\ running = <<>>
    /\ Len(done) = NCombos
    /\ Len(Ev.accs) = Len(done)
    /\ \A a \in ToSet(Ev.accs) \cup {done[i].acc : i \in DOMAIN done} :
          Cardinality({i \in DOMAIN Ev.accs : Ev.accs[i] = a}) = Cardinality({i \in DOMAIN done : done[i].acc = a})
    /\ done # <<>> =>
          /\ ~Ev.nil
          /\ \E i \in DOMAIN done : done[i].pt = Ev.key /\ done[i].acc = Ev.best
          /\ \A i \in DOMAIN done : done[i].acc <= Ev.best
\* what the gradient and hybrid searches return
Own == SelectSeq(done, LAMBDA e : e.ok)
\* each combination of the values that don't move is a start, from the
\* middle of the ranges of the others
Fixed == IF cfg.search = "hybrid" THEN {1, 2, 3, 5} ELSE {2, 3}
Mid(d) == IF d = 1 THEN (cfg.box[1][1] + cfg.box[1][2]) \div 2
          ELSE (cfg.box[d][1] + cfg.box[d][2]) \div 2
StartAt(e, d, val) == IF d \in Fixed THEN e.v[d] = val ELSE Near(e.x[d], Mid(d), IF d = 1 THEN 0 ELSE 2)
Started(own) == \A a \in Values(2), b \in Values(3), r \in (IF 1 \in Fixed THEN Values(1) ELSE {0}), m \in (IF 5 \in Fixed THEN Values(5) ELSE {0}) :
    LET val == <<r, a, b, 0, m, 0, 0, 0>>
    IN \E i \in DOMAIN own : ~own[i].conc /\ own[i].acc <= Ev.best /\ \A d \in Dims : StartAt(own[i], d, val[d])
\* Nothing in the space is better than what is returned, other than what was
\* evaluated only to know where to go. With central differences, that has its
\* opposite, on the other side of the point.
Differ(i, j) == {d \in Dims : done[i].x[d] # done[j].x[d]}
Opposite(d, a, b) == IF d = 1 THEN \E m \in b..a : Shift(1, m, 1) = a /\ Shift(1, m, -1) = b
                     ELSE Near(a * (64 - cfg.fd), b * (64 + cfg.fd), 130)
\* Without them it is the point itself, once more if it had been evaluated
\* before, and what is next to it.
Apart(x) == \A d \in Movable : x[d] * cfg.fd >= (IF d = 1 THEN 64 ELSE 256)
Again(i) == {j \in DOMAIN done : Differ(i, j) = {}}
\* (i was evaluated for the slope at some j; two steps from one j do so twice)
Above(i) == \E j \in DOMAIN done : \E d \in Movable : Differ(i, j) = {d} /\ Near(done[i].x[d], Shift(d, done[j].x[d], 1), IF d = 1 THEN 0 ELSE 3)
Probe(i) ==
    IF cfg.central
    THEN \E j \in DOMAIN done \ {i} : \E df \in {Differ(i, j)} :
            \/ df = {}
            \/ \E d \in df : df = {d} /\ (Opposite(d, done[i].x[d], done[j].x[d]) \/ Opposite(d, done[j].x[d], done[i].x[d]))
    ELSE /\ \E j \in DOMAIN done \ {i} : Cardinality(Differ(i, j)) <= 1
         /\ (Apart(done[i].x) /\ Cardinality(Again(i)) > 1 /\ ~Above(i)) => \E k \in Again(i) : done[k].acc <= Ev.best
Highest == \A i \in DOMAIN done : (done[i].acc > Ev.best /\ done[i].ok /\ InBox(done[i].x)) => Probe(i)
\* from each start: an evaluation, and no more than the steps asked for, each
\* with two evaluations per hyperparameter (or one, and one at the point) and
\* one where it ends
NStarts == FoldSet(LAMBDA d, a : a * Cardinality(Values(d)), 1, Fixed)
Probes == IF cfg.central THEN 12 ELSE 7
\* and at least one step, if any was asked for
Tries(own) == cfg.nsteps > 0 =>
    \A a \in Values(2), b \in Values(3) :
        Cardinality({i \in DOMAIN own : own[i].v[2] = a /\ own[i].v[3] = b})
            >= FoldSet(LAMBDA d, n : n * Cardinality(Values(d)), 1 + Probes, Fixed \ {2, 3})
Effort == Len(done) <= NStarts * (1 + (Max({cfg.nsteps, 0}) * (IF cfg.central THEN 13 ELSE 8)))
ClimbRet ==
    /\ ~Ev.err /\ ~Ev.nil
    /\ LET own == TLCEval(Own)
       IN Started(own) /\ Tries(own) /\ Cl!Good(own, Ev.best, Ev.key, Ev.accs)
    /\ Highest /\ Effort
    /\ \A i \in DOMAIN pend : MayBe(pend[i], pend[i].from)
    /\ InBox(Ev.x)
\* a hyperparameter moves (as far as it can be seen) only where the accuracy
\* grows: from the one evaluated below, or at the point, to the one above
At(d, sgn) == {done[i].acc : i \in {i \in DOMAIN done : (\A e \in Dims \ {d} : done[i].x[e] = cfg.center[e])
                  /\ Near(done[i].x[d], Shift(d, cfg.center[d], sgn), IF d = 1 THEN 0 ELSE 2)}}
Uphill == \A d \in Movable :
    LET by == Ev.x[d] - cfg.center[d] IN
    Abs(by) > (IF d = 1 THEN 0 ELSE 1) =>
        \E hi \in At(d, 1), lo \in At(d, IF cfg.central THEN -1 ELSE 0) : by * (hi - lo) > 0
\* the accuracy is evaluated at both sides of each hyperparameter (or at the
\* point and above), wherever they differ
Probed == cfg.valid => \A d \in Movable :
    Abs(Shift(d, cfg.center[d], 1) - cfg.center[d]) > 3 => At(d, 1) # {} /\ At(d, IF cfg.central THEN -1 ELSE 0) # {}
Room(d) == cfg.minsample >= 1 /\ \A e \in Dims \ {d} : cfg.center[e] >= cfg.box[e][1] /\ cfg.center[e] <= cfg.box[e][2]
Lands(d, alt) == \E k \in 1..(Len(alt) + 1) :
    /\ \A j \in 1..(k - 1) : ~(SurelyIn(d, alt[j]) /\ Room(d))
    /\ IF k > Len(alt) THEN Near(Ev.x[d], cfg.center[d], 1)
       ELSE Room(d) /\ MaybeIn(d, alt[k]) /\ Near(Ev.x[d], alt[k], 1)
Far == \A d \in Movable : Ev.cand[d] # <<>> => \E i \in DOMAIN Ev.cand[d] : Lands(d, Ev.cand[d][i])
StepRet ==
    /\ ~Ev.nil /\ Uphill /\ Probed /\ Far
    /\ \A d \in Dims \ Movable : Ev.x[d] = cfg.center[d]
    /\ cfg.inside => InBox(Ev.x)
    /\ Ev.kept  \* with a channel, the options given stay as they were
    /\ Ev.finite
LiveRet == /\ Ev.err = (cfg.fails /\ cfg.search # "step")
           /\ (cfg.search = "step") => Ev.sent = cfg.sends

RetOK == CASE MODE = "live" -> LiveRet
           [] MODE = "grid" -> GridRet
           [] MODE = "climb" -> IF cfg.search = "step" THEN StepRet ELSE ClimbRet
           [] OTHER -> FALSE
Ret == /\ Is("ret") /\ ~over /\ running = <<>> /\ (RetOK = TRUE) /\ over' = TRUE /\ UNCHANGED <<running, done, pend>>
\* nothing of the search remains once it returned
Quiet == /\ Is("quiet") /\ over /\ (MODE = "live" => Ev.left = 0 /\ running = <<>>)
         /\ UNCHANGED <<running, done, over, pend>>

TraceNext == Begin \/ Step \/ End \/ Ret \/ Quiet
TraceSpec == TraceInit /\ [][TraceNext]_vars
\* what is recorded says what happens: a state follows from how far it is
Seen == <<c, l>>
Progress == (l > Len(Cases[c].ev)) => PrintT(<<"ACC", Cases[c].id>>)
Deep     == (IOEnv.SHOWL = "1") => PrintT(<<"AT", Cases[c].id, l>>)
=============================================================================
