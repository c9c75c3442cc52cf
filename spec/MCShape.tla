------------------------------- MODULE MCShape -------------------------------
(* Taking groups one by one from a hand, borrowing tiles that are missing:    *)
(* the machine behind the win patterns.  Checked exhaustively for one block   *)
(* of N ranks: the efficient definitions of Shape agree with the declarative  *)
(* ones, no way of taking groups is cheaper than the cost, and the cheapest   *)
(* ways borrow exactly the useful kinds.                                      *)
EXTENDS Shape, Integers
CONSTANTS N, M, P, MaxTiles, Limit

VARIABLES cnt, left, m, p, best, taken, ready

vars == <<cnt, left, m, p, best, taken, ready>>
Hands == {h \in [1..N -> 0..4] : SumRanks(h, N) <= MaxTiles}
\* targets as multisets of units
Units == {<<2, r>> : r \in {r \in 1..N : r + 2 <= N}} \cup {<<3, r>> : r \in 1..N}
TargetNeeds ==
  LET unitNeed(u) == [r \in 1..N |-> IF u[1] = 3 THEN (IF r = u[2] THEN 3 ELSE 0)
                                     ELSE IF r \in u[2]..(u[2] + 2) THEN 1 ELSE 0]
      pairNeed(x) == [r \in 1..N |-> IF r = x THEN 2 ELSE 0]
      Add(f, g) == [r \in 1..N |-> f[r] + g[r]]
      RECURSIVE MS(_), PS(_)
      MS(k) == IF k = 0 THEN {[r \in 1..N |-> 0]} ELSE {Add(d, unitNeed(u)) : d \in MS(k - 1), u \in Units}
      PS(k) == IF k = 0 THEN {[r \in 1..N |-> 0]} ELSE {Add(d, pairNeed(x)) : d \in PS(k - 1), x \in 1..N}
  IN TLCEval({Add(a, b) : a \in MS(M), b \in PS(P)})
LegalNeeds == TLCEval({d \in TargetNeeds : Limit => \A r \in 1..N : d[r] <= 4})
CostD(h) == IF LegalNeeds = {} THEN 99 ELSE Min({SumRanks(MissingOf(h, d, N), N) : d \in LegalNeeds})
UsefulD(h) == {r \in 1..N : (Limit => h[r] < 4) /\ CostD([h EXCEPT ![r] = @ + 1]) < CostD(h)}

DP(h) == BlockTable([r \in 1..N |-> h[r]], 0, M, P, Limit)[M][P]

Init == /\ cnt \in Hands
        /\ left = cnt
        /\ m = M /\ p = P
        /\ best = INF
        /\ taken = 0
        /\ ready = FALSE
Look == /\ ~ready /\ ready' = TRUE /\ best' = DP(cnt)
        /\ UNCHANGED <<cnt, left, m, p, taken>>
Room(r, k) == Limit => cnt[r] - left[r] + k <= 4
\* units are taken in a fixed order, as the order does not matter
TakePair == /\ ready /\ p > 0
            /\ \E r \in 1..N : /\ Room(r, 2) /\ 3 * r > taken - 1 /\ taken' = 3 * r
                               /\ left' = [left EXCEPT ![r] = @ - 2]
            /\ p' = p - 1 /\ UNCHANGED <<cnt, m, best, ready>>
TakeTriplet == /\ ready /\ m > 0
               /\ \E r \in 1..N : /\ Room(r, 3) /\ 3 * r + 1 > taken - 1 /\ taken' = 3 * r + 1
                                  /\ left' = [left EXCEPT ![r] = @ - 3]
               /\ m' = m - 1 /\ UNCHANGED <<cnt, p, best, ready>>
TakeRun == /\ ready /\ m > 0
           /\ \E r \in 1..(N - 2) : /\ \A i \in r..(r + 2) : Room(i, 1)
                                    /\ 3 * r + 2 > taken - 1 /\ taken' = 3 * r + 2
                                    /\ left' = [i \in 1..N |-> IF i \in r..(r + 2) THEN left[i] - 1 ELSE left[i]]
           /\ m' = m - 1 /\ UNCHANGED <<cnt, p, best, ready>>
Next == Look \/ TakePair \/ TakeTriplet \/ TakeRun
Spec == Init /\ [][Next]_vars

Borrowed == [r \in 1..N |-> IF left[r] < 0 THEN (IF cnt[r] - left[r] > cnt[r] THEN 0 - left[r] ELSE 0) ELSE 0]
Complete == m = 0 /\ p = 0
Fresh == ready /\ m = M /\ p = P

\* the efficient cost is the declarative one
CostAgrees == Fresh => best[1] = CostD(cnt)
UsefulAgrees == Fresh => best[2] = UsefulD(cnt)
\* no way of taking the groups is cheaper
NoneCheaper == Complete => SumRanks(Borrowed, N) >= best[1]
\* a cheapest way borrows useful kinds only
BorrowsUseful == (Complete /\ SumRanks(Borrowed, N) = best[1]) => {r \in 1..N : Borrowed[r] > 0} \subseteq best[2]
\* a hand is complete exactly when its cost is zero
MatchAgrees == Fresh => ((best[1] = 0) = (\E d \in LegalNeeds : \A r \in 1..N : d[r] <= cnt[r]))
\* one more tile changes the cost by at most one
Smooth == Fresh => \A r \in 1..N : (cnt[r] < 4) =>
             LET c2 == CostD([cnt EXCEPT ![r] = @ + 1]) IN c2 <= best[1] /\ c2 + 1 >= best[1]
\* the divisions of Shape are exactly the targets contained in the hand (whole suits only)
Pad(h) == [k \in Kinds |-> IF k <= N THEN h[k] ELSE 0]
AllUnits == Units \cup {<<1, r>> : r \in 1..N}
NeedOfUnits(f) == [r \in 1..N |-> FoldSet(LAMBDA u, acc : acc + f[u] *
      (IF u[1] = 2 THEN (IF r \in u[2]..(u[2] + 2) THEN 1 ELSE 0) ELSE IF r = u[2] THEN (IF u[1] = 1 THEN 2 ELSE 3) ELSE 0),
      0, AllUnits)]
RECURSIVE Multi(_, _)
Multi(S, k) == IF k = 0 THEN {[u \in AllUnits |-> 0]} ELSE {[f EXCEPT ![u] = @ + 1] : f \in Multi(S, k - 1), u \in S}
AllTargets == TLCEval({[u \in AllUnits |-> f[u] + g[u]] : f \in Multi(Units, M), g \in Multi(AllUnits \ Units, P)})
TargetPairs == TLCEval({<<f, NeedOfUnits(f)>> : f \in AllTargets})
AsBag(d) == [u \in AllUnits |-> Cardinality({i \in 1..Len(d) : d[i] = u})]
DivisionsAgree ==
  (Fresh /\ N = 9) => {AsBag(d) : d \in Divisions(Pad(cnt), 1, M, P)}
                       = {t[1] : t \in {t \in TargetPairs : \A r \in 1..N : t[2][r] <= cnt[r]}}
=============================================================================
