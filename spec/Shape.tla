------------------------------- MODULE Shape -------------------------------
(* What it means for a set of tiles to be complete, and how far it is from    *)
(* that.  A hand is a sequence of blocks: the three suits (nine ranks, runs   *)
(* possible) and every honor as a block of length one.  A block is the        *)
(* sequence of copies held of each rank.                                      *)
(*                                                                            *)
(* The definitions here are efficient ones (dynamic programming over ranks).  *)
(* MCShape states the declarative ones (over sets of whole targets, and as a  *)
(* machine that takes groups one by one) and checks exhaustively in small     *)
(* universes that they agree.                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

-----------------------------------------------------------------------------
(* Tiles: kinds 1..34 (m, p, s, honors), copies 0..3                          *)
Kinds == 1..34
SuitOf(k) == (k - 1) \div 9
RankOf(k) == ((k - 1) % 9) + 1
CanStartRun(k) == k <= 27 /\ RankOf(k) <= 7
\* a tile in a trace is a kind, plus 100 when it is the red five
PlainKind(t) == IF t > 100 THEN t - 100 ELSE t

\* bag of kinds (a function) of a sequence of tiles
BagOf(seq) == LET ks == [i \in 1..Len(seq) |-> PlainKind(seq[i])]
              IN TLCEval([k \in Kinds |-> Cardinality({i \in 1..Len(seq) : ks[i] = k})])
SortedSeq(seq) == SortSeq(seq, <)

Blocks(bag) == TLCEval([b \in 1..10 |->
                  IF b <= 3 THEN [r \in 1..9 |-> bag[(b - 1) * 9 + r]]
                            ELSE <<bag[24 + b]>>])
KindAt(b, r) == IF b <= 3 THEN (b - 1) * 9 + r ELSE 24 + b
BlockOfKind(k) == IF k <= 27 THEN SuitOf(k) + 1 ELSE k - 24

-----------------------------------------------------------------------------
(* Missing tiles of a block with respect to a target.                         *)
SumRanks(f, n) == FoldFunction(+, 0, [i \in 1..n |-> f[i]])
MissingOf(cnt, need, n) == [r \in 1..n |-> IF need[r] > cnt[r] THEN need[r] - cnt[r] ELSE 0]

-----------------------------------------------------------------------------
(* Efficient part: for a block, tab[m][p] = <<cost, kinds missing in some     *)
(* cheapest target>>.                                                         *)
INF == <<99, {}>>
Better(x, y) == IF x[1] < y[1] THEN x ELSE IF y[1] < x[1] THEN y ELSE <<x[1], x[2] \cup y[2]>>

\* Bounds on what starts at one rank: three equal runs are three triplets as far as tiles go.
RunBound(m) == Min2(2, m)
TripBound(limit, m) == IF limit THEN Min2(1, m) ELSE m
PairBound(limit, p) == IF limit THEN Min2(2, p) ELSE p

\* f[a][b][m][p]: best value after some ranks, with a runs started at the last rank and b at the one before.
\* One more rank, holding cnt copies, at which c runs may start (c = 0 when runs may not start there).
RankStep(f, cnt, kind, canRun, R, M, P, choices, limit) ==
  TLCEval([c \in 0..R |-> [a \in 0..R |->
    IF (c > 0 /\ ~canRun) \/ c + a > 4 THEN [m \in 0..M |-> [p \in 0..P |-> INF]]
    ELSE [m \in 0..M |-> [p \in 0..P |->
      FoldLeft(LAMBDA acc, x :
                 LET need == c + a + x[1] + 3 * x[2] + 2 * x[3]
                     m0 == m - c - x[2]
                     p0 == p - x[3]
                 IN IF m0 < 0 \/ p0 < 0 \/ (limit /\ need > 4) THEN acc
                    ELSE LET v == f[a][x[1]][m0][p0]
                             w == IF need > cnt THEN v[1] + need - cnt ELSE v[1]
                         IN IF w > acc[1] \/ w >= 99 THEN acc
                            ELSE LET u == IF need > cnt THEN v[2] \cup {kind} ELSE v[2]
                                 IN IF w < acc[1] THEN <<w, u>> ELSE <<w, acc[2] \cup u>>,
               INF, choices)]]]])
\* <<runs two ranks ago, triplets, pairs>>
TakeChoices(limit, R, M, P) ==
  SetToSeq({x \in (0..R) \X (0..TripBound(limit, M)) \X (0..PairBound(limit, P)) :
               limit => x[1] + 3 * x[2] + 2 * x[3] <= 4})
BlockTable(cnt, base, M, P, limit) ==
  LET n == Len(cnt)
      R == RunBound(M)
      ch == TLCEval(TakeChoices(limit, R, M, P))
      start == TLCEval([a \in 0..R |-> [b \in 0..R |-> [m \in 0..M |-> [p \in 0..P |->
                  IF a = 0 /\ b = 0 /\ m = 0 /\ p = 0 THEN <<0, {}>> ELSE INF]]]])
      fin == TLCEval(FoldLeft(LAMBDA f, r : RankStep(f, cnt[r], base + r, r + 2 <= n, R, M, P, ch, limit),
                              start, [r \in 1..n |-> r]))
  IN TLCEval([m \in 0..M |-> [p \in 0..P |-> fin[0][0][m][p]]])

\* blocks of length one: only triplets and pairs
SingleTable(cnt, kind, M, P, limit) ==
  TLCEval([m \in 0..M |-> [p \in 0..P |->
      LET need == 3 * m + 2 * p
      IN IF limit /\ need > 4 THEN INF
         ELSE IF need > cnt THEN <<need - cnt, {kind}>> ELSE <<0, {}>>]])

BlockTab(blocks, b, M, P, limit) ==
  IF b <= 3 THEN BlockTable(blocks[b], (b - 1) * 9, M, P, limit)
            ELSE SingleTable(blocks[b][1], 24 + b, M, P, limit)
Combine(f, g, M, P) ==
  TLCEval([m \in 0..M |-> [p \in 0..P |->
      FoldLeft(LAMBDA acc, x : IF x[1] > m \/ x[2] > p THEN acc
                 ELSE LET u == f[x[1]][x[2]]
                          v == g[m - x[1]][p - x[2]]
                          w == u[1] + v[1]
                      IN IF w > acc[1] \/ w >= 99 THEN acc
                         ELSE IF w < acc[1] THEN <<w, u[2] \cup v[2]>> ELSE <<w, acc[2] \cup u[2] \cup v[2]>>,
               INF, SetToSeq((0..M) \X (0..P)))]])
AllTabs(bag, M, P, limit) ==
  LET bl == Blocks(bag) IN TLCEval([b \in 1..10 |-> BlockTab(bl, b, M, P, limit)])
CombineAll(tabs, M, P) == FoldLeft(LAMBDA f, t : Combine(f, t, M, P), tabs[1], Tail(tabs))[M][P]

\* <<missing tiles, useful kinds>> of a bag for M groups and P pairs
NormalCost(bag, M, P, limit) == CombineAll(AllTabs(bag, M, P, limit), M, P)
\* distinct pairs
PairsCost(bag, P) ==
  LET haveP == Cardinality({k \in Kinds : bag[k] >= 2})
      single == {k \in Kinds : bag[k] = 1}
      none == {k \in Kinds : bag[k] = 0}
      rest == Max2(0, P - haveP)
      s == Cardinality(single)
  IN IF rest = 0 THEN <<0, {}>>
     ELSE IF rest <= s THEN <<rest, single>>
     ELSE <<rest + (rest - s), single \cup none>>

\* a pattern in a trace: [t |-> "n", m, p] or [t |-> "u", m |-> 0, p]
CostOf(bag, pat, limit) ==
  IF pat.t = "n" THEN NormalCost(bag, pat.m, pat.p, limit) ELSE PairsCost(bag, pat.p)

-----------------------------------------------------------------------------
(* Discards: every kind held, with the cost of what remains.                  *)
DiscardCosts(bag, pat, limit) ==
  LET held == {k \in Kinds : bag[k] > 0}
  IN IF pat.t = "u" THEN TLCEval([k \in held |-> PairsCost([bag EXCEPT ![k] = @ - 1], pat.p)])
     ELSE LET tabs == AllTabs(bag, pat.m, pat.p, limit)
          IN TLCEval([k \in held |->
               LET b == BlockOfKind(k)
                   bl == Blocks([bag EXCEPT ![k] = @ - 1])
                   tab == BlockTab(bl, b, pat.m, pat.p, limit)
               IN CombineAll([tabs EXCEPT ![b] = tab], pat.m, pat.p)])
BestDiscards(costs) ==
  LET lo == Min({costs[k][1] : k \in DOMAIN costs}) IN {k \in DOMAIN costs : costs[k][1] = lo}

-----------------------------------------------------------------------------
(* Divisions: all ways to take the groups from a hand, as sequences of units  *)
(* <<type, kind>> in canonical order (1 pair, 2 run, 3 triplet).              *)
RECURSIVE Divisions(_, _, _, _)
Rep(u, n) == [i \in 1..n |-> u]
Divisions(bag, k, m, p) ==
  IF m = 0 /\ p = 0 THEN {<<>>}
  ELSE IF k > 34 THEN {}
  ELSE IF bag[k] = 0 THEN Divisions(bag, k + 1, m, p)
  ELSE LET run == IF CanStartRun(k) THEN Min2(m, Min2(bag[k], Min2(bag[k + 1], bag[k + 2]))) ELSE 0
       IN UNION {
            LET left == bag[k] - c - 3 * t - 2 * q
            IN IF left < 0 \/ c + t > m THEN {}
               ELSE LET nb == IF c = 0 THEN [bag EXCEPT ![k] = 0]
                              ELSE [bag EXCEPT ![k] = 0, ![k + 1] = @ - c, ![k + 2] = @ - c]
                    IN {Rep(<<1, k>>, q) \o Rep(<<2, k>>, c) \o Rep(<<3, k>>, t) \o d :
                           d \in Divisions(nb, k + 1, m - c - t, p - q)}
            : c \in 0..run, t \in 0..Min2(m, bag[k] \div 3), q \in 0..Min2(p, bag[k] \div 2)}
PairDivisions(bag, P) ==
  LET two == {k \in Kinds : bag[k] >= 2}
  IN IF Cardinality(two) < P THEN {}
     ELSE {SetToSortSeq({<<1, k>> : k \in S}, LAMBDA x, y : x[2] < y[2]) : S \in kSubset(P, two)}
DivisionsOf(bag, pat) ==
  IF pat.t = "n" THEN Divisions(bag, 1, pat.m, pat.p) ELSE PairDivisions(bag, pat.p)
Matches(bag, pat) ==
  IF pat.t = "n" THEN LET c == CostOf(bag, pat, FALSE) IN c[1] = 0
  ELSE Cardinality({k \in Kinds : bag[k] >= 2}) >= pat.p
=============================================================================
