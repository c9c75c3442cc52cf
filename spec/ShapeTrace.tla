------------------------------ MODULE ShapeTrace ------------------------------
(* Conformance of the hand analysis (mahjong/container/pattern) with Shape:   *)
(* every line is a sequence of calls made on shared objects; each answer must *)
(* be the one the specification gives for that hand alone, and the hand must  *)
(* be left as it was.                                                         *)
(*   call: [op, hand, pat, limit, after, raise, ...]                          *)
EXTENDS Shape, TraceBase

VARIABLES line, step

SetOf(seq) == {seq[i] : i \in 1..Len(seq)}
SameBag(a, b) == SortedSeq(a) = SortedSeq(b)
UnitLess(x, y) == x[2] * 10 + x[1] < y[2] * 10 + y[1]
\* canonical form of a reported division: units ordered by kind, then type
Canon(d) == SortSeq(d, UnitLess)
Canons(ds) == [i \in 1..Len(ds) |-> Canon(ds[i])]

MatchClauses(c, bag) ==
  <<Clause("match", c.match = Matches(bag, c.pat), <<c.hand, c.pat, c.match>>)>>

DivClauses(c, bag) ==
  LET want == TLCEval(DivisionsOf(bag, c.pat))
      got == TLCEval(Canons(c.divs))
      uni == TLCEval(Canons(c.unique))
  IN <<Clause("division_not_possible", SetOf(got) \subseteq want, <<c.hand, c.pat, SetOf(got) \ want>>),
       Clause("division_missing", want \subseteq SetOf(got), <<c.hand, c.pat, want \ SetOf(got)>>),
       Clause("unique_division_wrong", SetOf(uni) = want, <<c.hand, c.pat, c.unique>>),
       Clause("unique_division_repeated", Cardinality(SetOf(uni)) = Len(uni), <<c.hand, c.pat, c.unique>>)>>

\* an abandoned enumeration: what was seen must be possible
PeekClauses(c, bag) ==
  LET want == TLCEval(DivisionsOf(bag, c.pat))
  IN <<Clause("division_not_possible", SetOf(Canons(c.divs)) \subseteq want, <<c.hand, c.pat, c.divs>>),
       Clause("division_missing", c.divs = <<>> => want = {}, <<c.hand, c.pat>>)>>

WaitClauses(c, bag) ==
  LET want == CostOf(bag, c.pat, c.limit)
  IN <<Clause("step", c.step = want[1] - 1, <<c.by, c.hand, c.pat, c.limit, c.step, want>>),
       Clause("useful", ("useful" \in DOMAIN c) =>
                        /\ SetOf(c.useful) = want[2]
                        /\ Len(c.useful) = Cardinality(want[2]), <<c.by, c.hand, c.pat, c.limit, c, want>>)>>

BatchClauses(c, bag) ==
  LET costs == DiscardCosts(bag, c.pat, c.limit)
      best == BestDiscards(costs)
      got == {c.items[i].tile : i \in 1..Len(c.items)}
  IN <<Clause("batch_tiles", got = best, <<c.hand, c.pat, got, best>>),
       Clause("batch_once", Cardinality(got) = Len(c.items), <<c.hand, c.pat, c.items>>),
       Clause("batch_step", \A i \in 1..Len(c.items) : LET it == c.items[i] IN
                 it.tile \in DOMAIN costs => it.step = costs[it.tile][1] - 1, <<c.hand, c.pat, c.items>>),
       Clause("batch_useful", \A i \in 1..Len(c.items) : LET it == c.items[i] IN
                 it.tile \in best => SetOf(it.useful) = costs[it.tile][2], <<c.hand, c.pat, c.items>>)>>

\* an abandoned batch analysis: what was seen must be right
BatchPeekClauses(c, bag) ==
  LET costs == DiscardCosts(bag, c.pat, c.limit)
      best == BestDiscards(costs)
  IN <<Clause("batch_tiles", \A i \in 1..Len(c.items) : LET it == c.items[i] IN
                 it.tile \in best /\ it.step = costs[it.tile][1] - 1 /\ SetOf(it.useful) = costs[it.tile][2],
              <<c.hand, c.pat, c.items>>)>>

CallClauses(c) ==
  LET bag == BagOf(c.hand)
  IN IF c.raise # "" THEN <<Clause("raise", FALSE, <<c.op, c.hand, c.pat, c.raise>>)>>
     ELSE (IF c.op = "match" THEN MatchClauses(c, bag)
           ELSE IF c.op = "div" THEN DivClauses(c, bag)
           ELSE IF c.op = "peek" THEN PeekClauses(c, bag)
           ELSE IF c.op = "wait" THEN WaitClauses(c, bag)
           ELSE IF c.op = "batchpeek" THEN BatchPeekClauses(c, bag)
           ELSE BatchClauses(c, bag))
          \o <<Clause("input_changed", SameBag(c.after, [i \in 1..Len(c.hand) |-> PlainKind(c.hand[i])]),
                      <<c.op, c.hand, c.after>>)>>

Init == step = 0 /\ line \in 1..Len(Trace)
Next == /\ step < Len(Trace[line].calls)
        /\ step' = step + 1
        /\ line' = line
        /\ Report(line, step', CallClauses(Trace[line].calls[step']))
TraceSpec == Init /\ [][Next]_<<line, step>>
=============================================================================
