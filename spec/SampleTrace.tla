---------------------------- MODULE SampleTrace ----------------------------
(* Real sub-sampled runs against Sample (C06).                               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Rat, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, rnd, k, draw, sets
vars == <<c, l, rnd, k, draw, sets>>

cs  == Cases[c]
cfg == Cases[c].cfg
Ev  == Cases[c].ev[l]
Is(kind, e) == /\ l <= Len(cs.ev) /\ cs.kind = kind /\ Ev.e = e
               /\ l' = l + 1 /\ UNCHANGED c

S == INSTANCE Sample WITH Row <- {}, NClass <- 1, MaxRounds <- 1, MinSamples <- {},
        minsam <- 0, rnd <- 0, draw <- {}, k <- 0, used <- <<>>
T == INSTANCE Tree WITH cfg <- <<>>, pend <- <<>>, nodes <- <<>>

TraceInit == c \in DOMAIN Cases /\ l = 1 /\ rnd = 0 /\ k = 0 /\ draw = {} /\ sets = {}

Same == UNCHANGED <<rnd, k, draw, sets>>

\* |16*cnt - a*t| <= 7 standard deviations (t <= 2000)
Likely(cnt, a, t) == LET d == 16 * cnt - a * t IN d * d <= 49 * t * a * (16 - a)

\* All of the draws together (t <= 5000000).
Total(cnt, a, t) == LET d == 16 * FoldSeq(LAMBDA x, y : x + y, 0, cnt) - a * t
                        v == t * a * (16 - a)
                        s == CHOOSE s \in 0..20000 : s * s >= v /\ (s = 0 \/ (s - 1) * (s - 1) < v)
                    IN Abs(d) <= 7 * s
----------------------------------------------------------------------------
Draws == /\ Is("sampler", "draws")
         /\ Ev.bad = 0
         /\ \A i \in DOMAIN Ev.some :
               LET s == Ev.some[i] IN
               /\ \A j \in DOMAIN s : s[j] \in 0..(cfg.n - 1)
               /\ \A j \in 1..(Len(s) - 1) : s[j] < s[j + 1]
         /\ Same
Counts == /\ Is("sampler", "counts") \/ Is("rowstat", "counts")
          /\ Len(Ev.cnt) = cfg.n
          /\ \A i \in DOMAIN Ev.cnt : Likely(Ev.cnt[i], cfg.a, cfg.T)
          /\ Total(Ev.cnt, cfg.a, cfg.n * cfg.T)
          /\ Same

----------------------------------------------------------------------------
\* rows of the leaves of a tree
LeafRows(ns) == UNION {ToSet(ns[p].rows) : p \in {q \in DOMAIN ns : ns[q].leaf}}
Consistent(ns, rows) ==
    /\ ns # <<>> /\ T!Size(ns, 1) = Len(ns)
    /\ ns[1].ns = Cardinality(rows)
    /\ rows \subseteq 1..cfg.n
    /\ \A p \in DOMAIN ns : ns[p].leaf =>
          /\ ns[p].ns = Len(ns[p].rows)
          /\ ToSet(ns[p].rows) = {i \in rows : T!Route(ns, 1, cfg.X[i]) = p}
    /\ \A p \in DOMAIN ns : ~ns[p].leaf => ns[p].f \in 1..Len(cfg.X[1])

\* first class of the next performed round: its rows are the ones drawn
First == /\ Is("rows", "tree")
         /\ k = 0 /\ Ev.r = rnd + 1 /\ Ev.k = 1
         /\ rnd' = Ev.r
         /\ draw' = LeafRows(Ev.nodes)
         /\ S!Performed(cfg.minSam, draw')
         /\ (cfg.sub = 16) => draw' = 1..cfg.n
         /\ Consistent(Ev.nodes, draw') = TRUE
         /\ k' = IF cfg.K = 1 THEN 0 ELSE 1
         /\ sets' = sets \cup {draw'}
Other == /\ Is("rows", "tree")
         /\ k > 0 /\ Ev.r = rnd /\ Ev.k = k + 1
         /\ Consistent(Ev.nodes, draw) = TRUE
         /\ k' = IF Ev.k = cfg.K THEN 0 ELSE Ev.k
         /\ UNCHANGED <<rnd, draw, sets>>
RowRounds == /\ Is("rows", "rounds")
             /\ k = 0 /\ Ev.n = rnd /\ rnd <= cfg.R
             \* without sub-sampling rounds are all or none performed
             /\ (cfg.sub = 16) => rnd = IF S!Performed(cfg.minSam, 1..cfg.n) THEN cfg.R ELSE 0
             \* too few rows is all but impossible here
             /\ (cfg.sub >= 12 /\ cfg.n >= 24 /\ cfg.minSam <= 5) => rnd = cfg.R
             \* ...and so is drawing always the same rows
             /\ (cfg.sub \in 12..15 /\ cfg.n >= 24 /\ rnd >= 4) => Cardinality(sets) > 1
             /\ (cfg.minSam > cfg.n) => rnd = 0
             /\ Same

\* Many rows: each round is performed, with the same rows for every class,
\* about as many as asked for, and never the rows of another round.
Drawn == /\ Is("many", "drawn")
         /\ rnd' = rnd + 1
         /\ draw' = ToSet(Ev.rows)
         /\ draw' \subseteq 1..cfg.n /\ Cardinality(draw') = Len(Ev.rows)
         /\ Ev.ns = [j \in 1..cfg.K |-> Len(Ev.rows)]
         /\ S!Performed(cfg.minSam, draw')
         /\ IF cfg.sub = 16 THEN draw' = 1..cfg.n
            ELSE Likely(Len(Ev.rows), cfg.sub, cfg.n) /\ draw' \notin sets
         /\ sets' = sets \cup {draw'}
         /\ UNCHANGED k
ManyRounds == Is("many", "rounds") /\ Ev.n = rnd /\ rnd = cfg.R /\ Same

----------------------------------------------------------------------------
\* 2^-10 times the number of subsets of 10 rows with at least m of them
RECURSIVE Binom(_, _)
Binom(n, j) == IF j = 0 THEN 1 ELSE (Binom(n, j - 1) * (n - j + 1)) \div j
RECURSIVE TailN(_, _)
TailN(n, j) == IF j > n THEN 0 ELSE Binom(n, j) + TailN(n, j + 1)
Skips == /\ Is("skipstat", "performed")
         /\ LET a == TailN(cfg.n, cfg.ms)   \* out of 1024
                d == Ev.cnt - (a * cfg.T) \div 1024
            \* 7 standard deviations and rounding
            IN d * d <= 49 * ((((cfg.T * a) \div 1024) * (1024 - a)) \div 1024) + 200
         /\ Same

----------------------------------------------------------------------------
TreeCfg(r, j, A) ==
    [xgb |-> cfg.xgb, X |-> cfg.X, g |-> IF cfg.xgb THEN cfg.gs[r][j] ELSE [i \in 1..cfg.n |-> -cfg.gs[r][j][i]],
     h |-> cfg.h, lam |-> cfg.lam, gam |-> cfg.gam, mcw |-> cfg.mcw, depth |-> cfg.depth, cols |-> SetToSeq(A)]
RECURSIVE ValidAt(_, _, _, _, _)
ValidAt(tc, ns, p, R, d) ==
    /\ p \in DOMAIN ns
    /\ ns[p].ns = Cardinality(R)
    /\ IF ns[p].leaf THEN (IF d = 0 THEN TRUE ELSE T!NoGain(tc, R))
       ELSE LET L == TLCEval({i \in R : cfg.X[i][ns[p].f] <= ns[p].thr})
                Q == TLCEval(R \ L)
            IN /\ d > 0 /\ L # {} /\ Q # {}
               /\ \E s \in T!BestSplits(tc, R) : s.f = ns[p].f /\ s.lo <= ns[p].thr /\ ns[p].thr < s.hi
               /\ ValidAt(tc, ns, p + 1, L, d - 1)
               /\ ValidAt(tc, ns, p + 1 + T!Size(ns, p + 1), Q, d - 1)
Valid(A, r, ts) == \A j \in 1..cfg.K : ts[j] # <<>> /\ T!Size(ts[j], 1) = Len(ts[j])
                       /\ ValidAt(TreeCfg(r, j, A), ts[j], 1, 1..cfg.n, cfg.depth)
Cols == 1..Len(cfg.X[1])
Round == /\ Is("cols", "round")
         /\ Ev.r = rnd + 1 /\ Len(Ev.trees) = cfg.K
         /\ IF cfg.csub = 16 \/ ~cfg.xgb THEN Valid(Cols, Ev.r, Ev.trees) = TRUE
            ELSE (\E A \in (SUBSET Cols) \ {{}} : Valid(A, Ev.r, Ev.trees)) = TRUE
         /\ rnd' = Ev.r
         /\ UNCHANGED <<k, draw, sets>>
ColRounds == Is("cols", "rounds") /\ Ev.n = rnd /\ rnd = cfg.R /\ Same

\* the root splits on the best feature iff it was drawn, or none was
Roots == /\ Is("colstat", "roots")
         /\ Ev.rounds = cfg.T /\ Ev.same = cfg.T
         /\ LET a == cfg.a
                q == 16 - a
                \* out of 4096: p + (1-p)^3; with many columns some is always drawn
                num == a * 256 + (IF cfg.nf = 3 THEN q * q * q ELSE 0)
                d == Ev.cnt - (num * 125) \div 256
            IN d * d <= 49 * ((((num * 125) \div 256) * (4096 - num)) \div 4096) + 200
         /\ Same
End == /\ l <= Len(cs.ev) /\ Ev.e = "end" /\ l' = l + 1 /\ UNCHANGED c /\ Same

TraceNext == Draws \/ Counts \/ First \/ Other \/ RowRounds \/ Drawn \/ ManyRounds \/ Skips \/ Round \/ ColRounds \/ Roots \/ End
TraceSpec == TraceInit /\ [][TraceNext]_vars
Progress == (l > Len(cs.ev)) => PrintT(<<"ACC", cs.id>>)
Deep     == (IOEnv.SHOWL = "1") => PrintT(<<"AT", cs.id, l>>)
=============================================================================
