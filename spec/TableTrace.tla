------------------------------ MODULE TableTrace ------------------------------
(* Trackers of the real code against the table, event by event (C14, C15).    *)
(* A line has the events of a record and, for every event, what changed in    *)
(* what the trackers show; obs[1] is what they show before any event.         *)
EXTENDS Views, TraceBase
VARIABLES li, i, s, o
vars == <<li, i, s, o>>
L == Trace[li]
Nothing == [hand |-> All({}), calls |-> All(<<>>), disc |-> All(<<>>), dora |-> <<>>, unseen |-> {}]
CallOfJson(c) == <<RangeOf(c[1]), RangeOf(c[2]), c[3]>>
\* lists of different tiles only
Set(q) == LET S == RangeOf(q) IN IF Cardinality(S) = Len(q) THEN S ELSE {-1}
Change(a, c) ==
  CASE c[1] = "hand" -> [a EXCEPT !.hand[c[2]] = Set(c[3])]
    [] c[1] = "calls" -> [a EXCEPT !.calls[c[2]] = TLCEval([j \in 1..Len(c[3]) |-> CallOfJson(c[3][j])])]
    [] c[1] = "disc" -> [a EXCEPT !.disc[c[2]] = c[3]]
    [] c[1] = "dora" -> [a EXCEPT !.dora = c[3]]
    [] c[1] = "unseen" -> [a EXCEPT !.unseen = (@ \cup RangeOf(c[3])) \ RangeOf(c[4])]
Seen(a, ch) == TLCEval(FoldLeft(Change, a, ch))
Clauses(t, w) ==
  IF IOEnv.PART = "unseen"
  THEN << <<"unseen", w.unseen = Unseen(t, L.n), <<"more", w.unseen \ Unseen(t, L.n), "less", Unseen(t, L.n) \ w.unseen>> >>,
          <<"partition", w.unseen \cup t.seen = Pool(L.n) /\ w.unseen \cap t.seen = {}, w.unseen>> >>
  ELSE LET P == 0..(L.n - 1) IN
       << <<"hand", \A p \in P : w.hand[p] = t.hand[p], <<w.hand, t.hand>> >>,
          <<"calls", \A p \in P : w.calls[p] = CallsView(t, p), <<w.calls, t.calls>> >>,
          <<"discards", \A p \in P : w.disc[p] = t.disc[p], <<w.disc, t.disc>> >>,
          <<"dora", w.dora = t.doras, <<w.dora, t.doras>> >> >>
Init == /\ li \in 1..Len(Trace) /\ i = 0 /\ s = Start
        /\ o = IF Trace[li].raise # "" THEN Nothing ELSE Seen(Nothing, Trace[li].obs[1])
Next ==
  /\ i < Len(L.events) /\ li' = li /\ i' = i + 1
  /\ \E e \in {L.events[i + 1]} :
     \E t \in {TLCEval(Step(s, e))} :
       /\ Assert(Legal(s, e), <<"not a legal record", li, i, e>>)
       /\ s' = t
       /\ IF L.raise # "" THEN (i > 0 \/ Report(li, i, << <<"raise", FALSE, L.raise>> >>)) /\ o' = o
          ELSE \E w \in {Seen(o, L.obs[i + 2])} :
                 /\ o' = w
                 /\ i > 0 \/ Report(li, 0, Clauses(s, o))
                 /\ Report(li, i + 1, Clauses(t, w))
TraceSpec == Init /\ [][Next]_vars
=============================================================================
