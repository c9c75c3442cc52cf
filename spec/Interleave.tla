------------------------------- MODULE Interleave -------------------------------
(* Several translations under way at the same time, of the same or different  *)
(* records, each opened, advanced, drained or abandoned at any moment.        *)
(* Each has a position of its own; every schedule is printed to be followed   *)
(* by the code, whose translations are then judged one by one (C23).          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Recs, Depth
VARIABLES open, pos, h
vars == <<open, pos, h>>
Init == open = [i \in Slots |-> 0] /\ pos = [i \in Slots |-> 0] /\ h = <<>>
Act(a, i, r) ==
  /\ h' = Append(h, [a |-> a, slot |-> i, rec |-> r])
  /\ CASE a = "open" -> open[i] = 0 /\ open' = [open EXCEPT ![i] = r] /\ pos' = [pos EXCEPT ![i] = 0]
       [] a = "take" -> open[i] # 0 /\ open' = open /\ pos' = [pos EXCEPT ![i] = @ + 1]
       [] a \in {"drain", "drop"} -> open[i] # 0 /\ open' = [open EXCEPT ![i] = 0] /\ pos' = [pos EXCEPT ![i] = 0]
Next == /\ Len(h) < Depth
        /\ \E i \in Slots :
             \/ \E r \in Recs : Act("open", i, r)
             \/ \E a \in {"take", "drain", "drop"} : open[i] # 0 /\ Act(a, i, open[i])
Spec == Init /\ [][Next]_vars
\* the position of a translation comes from its own steps alone
Own(i) == SelectSeq(h, LAMBDA x : x.slot = i)
RECURSIVE Run(_, _)
Run(q, p) == IF q = <<>> THEN p ELSE Run(Tail(q), IF Head(q).a = "take" THEN p + 1 ELSE 0)
Independent == \A i \in Slots : pos[i] = Run(Own(i), 0)
Useful == \E j \in 1..Len(h) : h[j].a \in {"take", "drain"}
Show == Len(h) = Depth /\ Useful => PrintT("SEQ|" \o ToJson(h))
=============================================================================
