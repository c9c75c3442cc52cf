----------------------------- MODULE UniverseTrace -----------------------------
(* Commands of the universal format against the table (C17, C18, C19; also    *)
(* C21 and C23, for commands read back from CSV and interleaved translations).*)
(* A line has the events of a record (or of its beginning) and the commands   *)
(* made of them: [at, seat, scope, prop, kind, st].                           *)
EXTENDS Universe, TraceBase
VARIABLES li, i, s, c
vars == <<li, i, s, c>>
L == Trace[li]
Part(k) == IOEnv.PART = "all" \/ Subject(k) = IOEnv.PART
Key(x) == <<x.scope, x.seat, x.prop>>
RECURSIVE Upto(_, _)
Upto(j, at) == IF j < Len(L.cmds) /\ L.cmds[j + 1].at = at THEN Upto(j + 1, at) ELSE j
Mine(e, t, a, b) ==
  LET run == a..b
      touched == {Key(L.cmds[j]) : j \in run}
      LastOf(k) == CHOOSE j \in run : Key(L.cmds[j]) = k /\ \A h \in run : h > j => Key(L.cmds[h]) # k
      Got(k) == Norm(k, L.cmds[LastOf(k)].st)
      ks == {k \in Keys(t.n) : Part(k)}
      wrong == {k \in ks \cap touched : Got(k) # U(t, k)}
      \* changed on the table but not mentioned
      silent == {k \in ks \ touched : U(s, k) # U(t, k)}
      odd == touched \ Keys(t.n)
  IN << <<"state", wrong = {}, {<<k, "got", Got(k), "want", U(t, k)>> : k \in wrong} >>,
        <<"missing", silent = {}, {<<k, "want", U(t, k)>> : k \in silent} >>,
        <<"keys", odd = {}, odd>>,
        <<"kind", IOEnv.PART \notin {"tiles", "all"} \/ \A j \in run : L.cmds[j].kind = KindOf(e, L.cmds[j].prop),
          <<e.k, {<<L.cmds[j].prop, L.cmds[j].kind>> : j \in run} >> >> >>
Init == li \in 1..Len(Trace) /\ i = 0 /\ s = Start /\ c = 0
Next ==
  /\ i < Len(L.events) /\ li' = li /\ i' = i + 1
  /\ \E e \in {L.events[i + 1]} :
     \E t \in {TLCEval(Step(s, e))} :
     \E b \in {IF L.raise # "" THEN c ELSE Upto(c, i)} :
       /\ Assert(Legal(s, e), <<"not a legal record", li, i, e>>)
       /\ s' = t /\ c' = b
       /\ IF L.raise # "" THEN (i > 0 \/ Report(li, i, << <<"raise", FALSE, L.raise>> >>))
          ELSE /\ Report(li, i, Mine(e, t, c + 1, b))
               /\ i + 1 = Len(L.events) =>
                    Report(li, i + 1, << <<"left_over", b = Len(L.cmds), IF b < Len(L.cmds) THEN L.cmds[b + 1] ELSE "">> >>)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
