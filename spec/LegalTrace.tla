------------------------------ MODULE LegalTrace ------------------------------
(* Records, real and generated, are behaviours of Table.                       *)
EXTENDS Table, TraceBase
VARIABLES li, i, s
Init == li \in 1..Len(Trace) /\ i = 0 /\ s = Start
Next == /\ i < Len(Trace[li].events)
        /\ LET e == Trace[li].events[i + 1]
               l == Legal(s, e)
               t == Step(s, e)
           IN /\ s' = t
              /\ Report(li, i + 1, << <<"legal", l, e>>,
                    <<"invariant", ~l \/ (TilesOk(t) /\ SeenOk(t) /\ ScoreOk(t)), e>> >>)
        /\ i' = i + 1 /\ li' = li
TraceSpec == Init /\ [][Next]_<<li, i, s>>
=============================================================================
