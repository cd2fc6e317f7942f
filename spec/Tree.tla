-------------------------------- MODULE Tree --------------------------------
(* Growth of one decision tree (regular and extreme gradient boosting).      *)
(*                                                                           *)
(* The state mirrors the recursion of the code: a stack of nodes that are    *)
(* still to be processed, in preorder, each with the training rows that      *)
(* reach it and the depth it may still grow, and the list of nodes already   *)
(* produced. One action per node: it becomes a leaf or it is split.          *)
(*                                                                           *)
(* Feature values, gradients and hessians are integers; lambda and gamma     *)
(* are in quarters, so that every gain is an exact fraction.                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Rat

VARIABLES cfg,    \* data and options of this tree
          pend,   \* stack of [rows, d]
          nodes   \* preorder list of finished nodes

tvars == <<cfg, pend, nodes>>

Cols(c) == IF c.cols = <<>> THEN 1..Len(c.X[1]) ELSE ToSet(c.cols)

SumG(c, S) == MapThenSumSet(LAMBDA i : c.g[i], S)
\* sum of the hessians plus lambda, in quarters
Den(c, S)  == MapThenSumSet(LAMBDA i : c.h[i], S) * 4 + c.lam

LeftOf(c, S, f, v) == {i \in S : c.X[i][f] <= v}

----------------------------------------------------------------------------
\* Every admissible split of the rows S: between two neighbouring values of
\* an allowed feature, leaving at least mcw rows on each side.
SplitsOn(c, S, f) ==
    LET vals == {c.X[i][f] : i \in S}
        cand == {v \in vals : \E w \in vals : w > v}
        Mk(v) == LET L  == LeftOf(c, S, f, v)
                     hi == Min({w \in vals : w > v})
                 IN [f |-> f, lo |-> v, hi |-> hi, nl |-> Cardinality(L),
                     gl |-> SumG(c, L), dl |-> Den(c, L)]
    IN {Mk(v) : v \in {v \in cand :
            LET nl == Cardinality(LeftOf(c, S, f, v))
            IN nl >= c.mcw /\ Cardinality(S) - nl >= c.mcw}}

\* The same in one sweep over the rows in the order of their values, for large
\* data sets (SweepInv: the same set).
Prefix(seq, Op(_)) == FoldLeft(LAMBDA acc, i : Append(acc, acc[Len(acc)] + Op(i)), <<0>>, seq)
SweepOn(c, S, f) ==
    LET ord == SortSeq(SetToSeq(S), LAMBDA i, j : c.X[i][f] < c.X[j][f])
        n   == Len(ord)
        pg  == Prefix(ord, LAMBDA i : c.g[i])
        ph  == Prefix(ord, LAMBDA i : c.h[i])
    IN {[f |-> f, lo |-> c.X[ord[k]][f], hi |-> c.X[ord[k + 1]][f], nl |-> k,
         gl |-> pg[k + 1], dl |-> 4 * ph[k + 1] + c.lam] :
            k \in {k \in c.mcw..(n - c.mcw) : k < n /\ c.X[ord[k]][f] < c.X[ord[k + 1]][f]}}

Splits(c, S) == UNION {SweepOn(c, S, f) : f \in Cols(c)}

\* Structural admissibility of a split without listing all of them.
Admissible(c, S, f, v) ==
    /\ f \in Cols(c)
    /\ LET nl == Cardinality(LeftOf(c, S, f, v))
       IN nl >= c.mcw /\ Cardinality(S) - nl >= c.mcw

----------------------------------------------------------------------------
\* Score of a split: GL^2/(HL+lambda) + GR^2/(HR+lambda), over 4. The gain is
\* an increasing function of it for a given node. A side without curvature
\* (no hessian, no lambda) counts as zero.
Sq(g, d)  == IF d = 0 THEN 0 ELSE g * g
Dn(d)     == IF d = 0 THEN 1 ELSE d
ScoreNum(s, G, D, lam) ==
    LET gr == G - s.gl
        dr == D - s.dl + lam
    IN Sq(s.gl, s.dl) * Dn(dr) + Sq(gr, dr) * Dn(s.dl)
ScoreDen(s, D, lam) == Dn(s.dl) * Dn(D - s.dl + lam)

CmpSplit(s, t, G, D, lam) ==
    Cmp(ScoreNum(s, G, D, lam), ScoreDen(s, D, lam),
        ScoreNum(t, G, D, lam), ScoreDen(t, D, lam))

BestOf(SS, G, D, lam) ==
    FoldSet(LAMBDA s, acc : IF CmpSplit(s, acc, G, D, lam) > 0 THEN s ELSE acc,
            CHOOSE s \in SS : TRUE, SS)

\* Sign of the gain of s (xgboost): score > G^2/D + gamma/16.
GainSign(c, s, G, D) ==
    Cmp(ScoreNum(s, G, D, c.lam), ScoreDen(s, D, c.lam),
        16 * Sq(G, D) + c.gam * Dn(D), 16 * Dn(D))

\* All the splits of maximal gain, among the admissible ones.
BestSplits(c, S) ==
    LET SS == Splits(c, S)
        G  == SumG(c, S)
        D  == Den(c, S)
    IN IF SS = {} THEN {}
       ELSE LET b == BestOf(SS, G, D, c.lam)
                T == {s \in SS : CmpSplit(s, b, G, D, c.lam) = 0}
            IN IF ~c.xgb THEN T
               ELSE IF GainSign(c, b, G, D) >= 0 THEN T
               ELSE {}

\* No admissible split has a (strictly) positive gain. At gain exactly zero
\* the sign computed in floating-point is up to rounding: both outcomes are
\* allowed.
NoGain(c, S) ==
    LET SS == Splits(c, S)
        G  == SumG(c, S)
        D  == Den(c, S)
    IN IF SS = {} THEN TRUE
       ELSE IF c.xgb THEN GainSign(c, BestOf(SS, G, D, c.lam), G, D) <= 0
       ELSE FALSE

MayBeLeaf(c, nd) == nd.d = 0 \/ NoGain(c, nd.rows)

\* 10^6 * value of a leaf
LeafVal(c, S) ==
    IF c.xgb THEN (IF Den(c, S) = 0 THEN 0 ELSE Sc(-4 * SumG(c, S), Den(c, S), 1000000))
    ELSE Sc(SumG(c, S), Cardinality(S), 1000000)

\* 10^3 * gain, as the code reports it (negative for regular boosting)
GainVal(c, S, s) ==
    LET G == SumG(c, S)
        D == Den(c, S)
        sc == Sc(ScoreNum(s, G, D, c.lam), ScoreDen(s, D, c.lam), 1000)
        pa == Sc(Sq(G, D), Dn(D), 1000)
    IN IF c.xgb THEN (4 * sc - 4 * pa - 250 * c.gam) \div 2
       ELSE 4 * pa - 4 * sc

----------------------------------------------------------------------------
Start(c) == /\ pend = <<[rows |-> ToSet(c.rows), d |-> c.depth]>>
            /\ nodes = <<>>

Leaf == /\ pend # <<>>
        /\ MayBeLeaf(cfg, Head(pend))
        /\ nodes' = Append(nodes, [leaf |-> TRUE, rows |-> Head(pend).rows,
                                   d |-> Head(pend).d, f |-> 0, thr |-> 0])
        /\ pend' = Tail(pend)
        /\ UNCHANGED cfg

\* Split the next node on feature f, rows with value <= thr to the left.
Split(f, thr) ==
    LET nd == Head(pend)
        L  == LeftOf(cfg, nd.rows, f, thr)
    IN /\ nodes' = Append(nodes, [leaf |-> FALSE, rows |-> nd.rows,
                                  d |-> nd.d, f |-> f, thr |-> thr])
       /\ pend' = <<[rows |-> L, d |-> nd.d - 1],
                    [rows |-> nd.rows \ L, d |-> nd.d - 1]>> \o Tail(pend)
       /\ UNCHANGED cfg

SplitBest == /\ pend # <<>>
             /\ Head(pend).d > 0
             /\ \E s \in BestSplits(cfg, Head(pend).rows) : Split(s.f, s.lo)

TNext == Leaf \/ SplitBest

----------------------------------------------------------------------------
\* Reading a preorder list of nodes as a tree.
\* (the subtree at k ends where its leaves outnumber its splits by one)
RECURSIVE EndAt(_, _, _)
EndAt(ns, k, need) ==
    IF need = 0 THEN k
    ELSE IF k > Len(ns) THEN k + 1
    ELSE EndAt(ns, k + 1, IF ns[k].leaf THEN need - 1 ELSE need + 1)
Size(ns, k) == EndAt(ns, k, 1) - k

RECURSIVE Route(_, _, _)
Route(ns, k, x) ==
    IF ns[k].leaf THEN k
    ELSE IF x[ns[k].f] <= ns[k].thr THEN Route(ns, k + 1, x)
    ELSE Route(ns, k + 1 + Size(ns, k + 1), x)

Leaves(ns) == {k \in DOMAIN ns : ns[k].leaf}

----------------------------------------------------------------------------
\* C01: the rows are partitioned, nothing is lost, limits are respected.
PartitionInv ==
    LET parts == [k \in Leaves(nodes) |-> nodes[k].rows]
        pp    == [k \in DOMAIN pend |-> pend[k].rows]
        all   == UNION ({parts[k] : k \in DOMAIN parts} \cup {pp[k] : k \in DOMAIN pp})
    IN /\ all = ToSet(cfg.rows)
       /\ MapThenSumSet(LAMBDA k : Cardinality(parts[k]), DOMAIN parts)
                      + MapThenSumSet(LAMBDA k : Cardinality(pp[k]), DOMAIN pp)
          = Cardinality(ToSet(cfg.rows))
MinChildInv ==
    /\ \A k \in 2..Len(nodes) : Cardinality(nodes[k].rows) >= cfg.mcw
    /\ \A k \in DOMAIN nodes : Cardinality(nodes[k].rows) >= 1
DepthInv == \A k \in DOMAIN nodes : nodes[k].d >= 0 /\ (nodes[k].d = 0 => nodes[k].leaf)
ColsInv  == \A k \in DOMAIN nodes : ~nodes[k].leaf => nodes[k].f \in Cols(cfg)
\* every training row is routed to the very leaf it trained
RouteInv == pend = <<>> =>
    \A i \in ToSet(cfg.rows) : i \in nodes[Route(nodes, 1, cfg.X[i])].rows
SizeInv  == pend = <<>> => Size(nodes, 1) = Len(nodes)
           /\ Len(nodes) = 2 * Cardinality(Leaves(nodes)) - 1

\* The sweep lists exactly the admissible splits.
SweepInv == \A k \in DOMAIN pend : \A f \in Cols(cfg) :
                SweepOn(cfg, pend[k].rows, f) = SplitsOn(cfg, pend[k].rows, f)

\* C02: with no penalty, splitting never lowers the objective, and no leaf
\* that could still grow has an admissible split of positive gain.
ObjInv == (pend = <<>> /\ cfg.xgb /\ cfg.gam = 0) =>
    \A k \in DOMAIN nodes : ~nodes[k].leaf =>
        LET L == nodes[k + 1].rows
            R == nodes[k + 1 + Size(nodes, k + 1)].rows
            S == nodes[k].rows
            gl == SumG(cfg, L)
            gr == SumG(cfg, R)
            g  == SumG(cfg, S)
            dl == Den(cfg, L)
            dr == Den(cfg, R)
            d  == Den(cfg, S)
        IN Cmp(Sq(gl, dl) * Dn(dr) + Sq(gr, dr) * Dn(dl), Dn(dl) * Dn(dr), Sq(g, d), Dn(d)) >= 0
LeafInv == \A k \in Leaves(nodes) : nodes[k].d > 0 =>
    \A s \in Splits(cfg, nodes[k].rows) :
        cfg.xgb /\ GainSign(cfg, s, SumG(cfg, nodes[k].rows), Den(cfg, nodes[k].rows)) <= 0

\* C03: the value of a leaf is between the extreme targets (regular), and has
\* the sign of minus the gradient (extreme).
ValInv == \A k \in Leaves(nodes) :
    LET S == nodes[k].rows
        v == LeafVal(cfg, S)
        gs == {cfg.g[i] : i \in S}
    IN IF cfg.xgb THEN v * SumG(cfg, S) <= 0
       ELSE v >= 1000000 * Min(gs) /\ v <= 1000000 * Max(gs)
=============================================================================
