----------------------------- MODULE BoostTrace -----------------------------
(* Real boosting runs against Boost and Tree. The loss function given to the *)
(* code records at which probabilities it was asked for gradients (grad) and *)
(* hessians (hess), and answers what the case says.                          *)
(* MODE: "boost" (C04) or "stop" (C05).                                      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Rat, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
MODE  == IOEnv.MODE

VARIABLES c, l,
          rnd, k,     \* round and class under way
          got,        \* which of "g", "h" were asked for this class
          fitted,
          gs,         \* gradients given for the class under way
          score,      \* score[i][j]: millionths, or multiples of ln 2
          stopped, prev, noprog,
          nfit        \* trees received by each class
vars == <<c, l, rnd, k, got, fitted, gs, score, stopped, prev, noprog, nfit>>

cfg == Cases[c].cfg
Ev  == Cases[c].ev[l]
N   == Len(cfg.X)
\* with sub-sampling some rounds are not performed (C06)
RR  == IF cfg.sub THEN Len(cfg.trees) ELSE cfg.R
KK  == cfg.K
Is(e) == l <= Len(Cases[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED c

B == INSTANCE Boost WITH Class <- 1..1, MaxRounds <- 1, LossVal <- {1}, Steps <- {0},
        E <- 0, rnd <- 0, k <- 0, fitted <- FALSE, score <- <<>>, trees <- <<>>, hist <- <<>>,
        stopped <- <<>>, prev <- <<>>, noprog <- <<>>
T == INSTANCE Tree WITH cfg <- <<>>, pend <- <<>>, nodes <- <<>>

----------------------------------------------------------------------------
\* trees that were written for this round and class
TreeOf(r, j) == IF r <= Len(cfg.trees) THEN cfg.trees[r][j] ELSE <<>>

\* the data and options a tree of this ensemble must be grown with
TreeCfg == [xgb |-> cfg.xgb, X |-> cfg.X,
            g |-> IF cfg.xgb THEN gs ELSE [i \in 1..N |-> -gs[i]],
            h |-> IF cfg.xgb THEN cfg.h ELSE [i \in 1..N |-> 1],
            lam |-> cfg.lam, gam |-> cfg.gam, mcw |-> cfg.mcw, depth |-> cfg.depth, cols |-> <<>>]

\* value of a leaf with the rows S: millionths, or thousandths of ln 2
LeafOK(S, v) ==
    LET G == MapThenSumSet(LAMBDA i : gs[i], S)
        H == MapThenSumSet(LAMBDA i : cfg.h[i], S)
        K == IF cfg.exact THEN 1000 ELSE 1000000
    IN IF cfg.xgb THEN Near(v, IF 4 * H + cfg.lam = 0 THEN 0 ELSE Sc(-4 * G, 4 * H + cfg.lam, K), 2)
       ELSE IF H = 0 THEN v = 0
       ELSE Near(v, Sc(-G, H, K), 2)

\* the nodes ns, from position p on, are a tree grown on the rows S
RECURSIVE ValidAt(_, _, _, _, _)
ValidAt(tc, ns, p, S, d) ==
    /\ p \in DOMAIN ns
    /\ ns[p].ns = Cardinality(S)
    /\ IF ns[p].leaf
       THEN /\ cfg.exact \/ d = 0 \/ T!NoGain(tc, S)
            /\ LeafOK(S, ns[p].val)
            /\ cfg.exact => \A i, j \in S : gs[i] = gs[j]
       ELSE LET L == TLCEval({i \in S : cfg.X[i][ns[p].f] <= ns[p].thr})
                R == TLCEval(S \ L)
                q == p + 1 + T!Size(ns, p + 1)
            IN /\ d > 0
               /\ ns[p].f \in 1..Len(cfg.X[1])
               /\ L # {} /\ L # S
               /\ cfg.exact \/ \E s \in T!BestSplits(tc, S) :
                     s.f = ns[p].f /\ s.lo <= ns[p].thr /\ ns[p].thr < s.hi
               /\ ValidAt(tc, ns, p + 1, L, d - 1)
               /\ ValidAt(tc, ns, q, R, d - 1)

WellFormed(ns) == ns # <<>> /\ T!Size(ns, 1) = Len(ns)

\* what the tree adds to the score of the row x
Add(ns, x) ==
    LET v == ns[T!Route(ns, 1, x)].val
    IN IF cfg.exact THEN ((v \div 1000) * cfg.lr) \div 8
       ELSE (v * cfg.lr) \div 8
Integral(ns) == \A p \in DOMAIN ns : ns[p].leaf => (ns[p].val * cfg.lr) % 8000 = 0

Tol == 4 * (2 * cfg.R + 3)

RECURSIVE Pow2(_)
Pow2(e) == IF e <= 0 THEN 1 ELSE 2 * Pow2(e - 1)

\* projection of the probability of class j given the scores s
ProbOK(s, j, p) ==
    IF cfg.exact
    THEN LET lo == TLCEval(Min({s[x] : x \in 1..KK}))
             tot == TLCEval(MapThenSumSet(LAMBDA x : Pow2(s[x] - lo), 1..KK))
         IN Near(p, Sc(Pow2(s[j] - lo), tot, 1000000), 3)
    \* (log-odds; a probability too near one does not keep them)
    ELSE IF s[j] - s[3 - j] > 18000000 THEN p >= 17990000
    ELSE Near(p, s[j] - s[3 - j], Tol)

----------------------------------------------------------------------------
TraceInit == /\ c \in DOMAIN Cases
             /\ l = 1 /\ rnd = 1 /\ k = 1 /\ got = {} /\ fitted = FALSE /\ gs = <<>>
             /\ score = [i \in 1..N |-> [j \in 1..KK |-> 0]]   \* base score cancels out
             /\ stopped = [j \in 1..KK |-> FALSE]
             /\ prev = [j \in 1..KK |-> 0]
             /\ noprog = [j \in 1..KK |-> 0]
             /\ nfit = [j \in 1..KK |-> 0]

Running == rnd <= RR
\* Is the class under way to be skipped in this round?
\* (when to stop a class is C05; without early stopping none is skipped)
Skips == IF MODE = "stop" THEN stopped[k] ELSE cfg.E > 0 /\ TreeOf(rnd, k) = <<>>

Advance == IF k < KK THEN k' = k + 1 /\ rnd' = rnd ELSE k' = 1 /\ rnd' = rnd + 1

Skip == /\ Running /\ ~fitted /\ got = {} /\ Skips
        /\ (MODE = "stop") => TreeOf(rnd, k) = <<>>
        /\ Advance
        /\ UNCHANGED <<c, l, got, fitted, gs, score, stopped, prev, noprog, nfit>>

AskGrad == /\ Is("grad")
           /\ Running /\ ~fitted /\ ~Skips /\ "g" \notin got
           /\ Ev.k = k
           /\ (MODE = "boost") => \A i \in 1..N : ProbOK(score[i], k, Ev.p[i])
           /\ gs' = Ev.g
           /\ got' = got \cup {"g"}
           /\ UNCHANGED <<rnd, k, fitted, score, stopped, prev, noprog, nfit>>

AskHess == /\ Is("hess")
           /\ Running /\ ~fitted /\ ~Skips
           /\ (MODE = "boost") => \A i \in 1..N : ProbOK(score[i], k, Ev.p[i])
           /\ got' = got \cup {"h"}
           /\ UNCHANGED <<rnd, k, fitted, gs, score, stopped, prev, noprog, nfit>>

\* the tree is grown and added: not observed when it happens
Fit == /\ Running /\ ~fitted /\ got = {"g", "h"}
       /\ LET ns == TreeOf(rnd, k)
          IN /\ ns # <<>>
             /\ (MODE = "boost") =>
                   /\ WellFormed(ns)
                   /\ IF cfg.sub THEN TRUE ELSE ValidAt(TreeCfg, ns, 1, 1..N, cfg.depth) = TRUE
                   /\ cfg.exact => Integral(ns)
             /\ score' = IF MODE = "boost"
                         THEN TLCEval([i \in 1..N |-> [score[i] EXCEPT ![k] = @ + Add(ns, cfg.X[i])]])
                         ELSE score
             /\ nfit' = [nfit EXCEPT ![k] = @ + 1]
       /\ got' = {}
       /\ fitted' = TRUE
       /\ UNCHANGED <<c, l, rnd, k, gs, stopped, prev, noprog>>

JudgeLoss == /\ Is("loss")
             /\ Running /\ fitted /\ Ev.k = k
             /\ (MODE = "boost") => \A i \in 1..N : ProbOK(score[i], k, Ev.p[i])
             /\ LET z == B!StopNext(cfg.E, rnd = 1, stopped[k], prev[k], noprog[k], Ev.v)
                IN /\ stopped' = [stopped EXCEPT ![k] = z.s]
                   /\ prev' = [prev EXCEPT ![k] = z.p]
                   /\ noprog' = [noprog EXCEPT ![k] = z.n]
             /\ fitted' = FALSE
             /\ Advance
             /\ UNCHANGED <<got, gs, score, nfit>>

\* no early stopping: the loss need not be looked at
NoJudge == /\ Running /\ fitted
           /\ (MODE = "stop") => cfg.E = 0
           /\ ~(l <= Len(Cases[c].ev) /\ Ev.e = "loss")
           /\ fitted' = FALSE
           /\ Advance
           /\ UNCHANGED <<c, l, got, gs, score, stopped, prev, noprog, nfit>>

NonEmpty(j) == Cardinality({r \in 1..Len(cfg.trees) : cfg.trees[r][j] # <<>>})

Done == /\ Is("done")
        /\ rnd > RR
        /\ (MODE = "stop") =>
              /\ Len(Ev.rounds) = KK
              /\ \A j \in 1..KK : Ev.rounds[j] = nfit[j] /\ NonEmpty(j) = nfit[j]
              /\ Ev.r0 = nfit[1]
              /\ Ev.classes = KK /\ Ev.oor = -1 /\ Ev.oor2 = -1
        /\ Ev.labels = cfg.labels
        /\ UNCHANGED <<rnd, k, got, fitted, gs, score, stopped, prev, noprog, nfit>>

\* scores of an arbitrary vector
RECURSIVE SumTrees(_, _, _)
SumTrees(r, j, x) ==
    IF r > Len(cfg.trees) THEN 0
    ELSE (IF cfg.trees[r][j] = <<>> THEN 0 ELSE Add(cfg.trees[r][j], x)) + SumTrees(r + 1, j, x)

Predict == /\ Is("predict")
           /\ rnd > RR
           /\ (MODE = "boost" \/ ~cfg.sub) =>
                 LET s == TLCEval([j \in 1..KK |-> SumTrees(1, j, Ev.q)])
                     m == Max({s[j] : j \in 1..KK})
                     slack == IF cfg.exact THEN 0 ELSE Tol
                 IN /\ Len(Ev.p) = KK /\ Ev.np = KK /\ Ev.same
                    /\ Near(Ev.sum, 1000000, 2)
                    /\ \A j \in 1..KK : ProbOK(s, j, Ev.p[j])
                    /\ Ev.class \in 1..KK /\ s[Ev.class] >= m - slack
                    /\ Ev.class2 = Ev.class
           /\ UNCHANGED <<rnd, k, got, fitted, gs, score, stopped, prev, noprog, nfit>>

\* after any training, predictions are probability distributions, and the
\* model can be written
Dist == /\ Is("dist")
        /\ rnd > RR
        /\ Len(Ev.p) = KK
        /\ \A j \in 1..KK : Ev.p[j] >= 0 /\ Ev.p[j] <= 1000000
        /\ Near(Ev.sum, 1000000, 2)
        /\ Ev.class \in 1..KK /\ \A j \in 1..KK : Ev.p[Ev.class] >= Ev.p[j] - 1
        /\ ~Ev.werr
        /\ UNCHANGED <<rnd, k, got, fitted, gs, score, stopped, prev, noprog, nfit>>

End == /\ Is("end")
       /\ rnd > RR
       /\ UNCHANGED <<rnd, k, got, fitted, gs, score, stopped, prev, noprog, nfit>>

TraceNext == Skip \/ AskGrad \/ AskHess \/ Fit \/ JudgeLoss \/ NoJudge \/ Done \/ Predict \/ Dist \/ End
TraceSpec == TraceInit /\ [][TraceNext]_vars

Progress == (l > Len(Cases[c].ev)) => PrintT(<<"ACC", Cases[c].id>>)
Deep     == (IOEnv.SHOWL = "1") => PrintT(<<"AT", Cases[c].id, l>>)
=============================================================================
