--------------------------------- MODULE Wall ---------------------------------
(* A wall is a multiset of tile kinds; drawing takes one that remains.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt
InWall(seq) == TLCEval([k \in 1..34 |-> Cardinality({i \in 1..Len(seq) : seq[i] % 100 = k})])
CanDraw(w, k) == w[k] > 0
Draw(w, k) == [w EXCEPT ![k] = @ - 1]
Count(w) == FoldFunction(+, 0, w)
\* may the tiles come in this order?
RECURSIVE DrawsOk(_, _)
DrawsOk(w, ds) == ds = <<>> \/ (CanDraw(w, Head(ds)) /\ DrawsOk(Draw(w, Head(ds)), Tail(ds)))
\* the tiles that came at one place of many draws: each tile of the wall is as likely as any other (seven deviations)
Fair(w, came) ==
  LET all == Count(w)
      n == Len(came)
  IN \A k \in 1..34 : LET off == Cardinality({i \in 1..n : came[i] = k}) * all - n * w[k]
                      IN off * off <= 49 * n * w[k] * (all - w[k])
=============================================================================
