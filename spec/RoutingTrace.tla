------------------------------ MODULE RoutingTrace ------------------------------
(* Translators of the code, told what to register and given events one after   *)
(* another, answer as Routing says.  Every line may use several translators,    *)
(* which have nothing in common.                                                *)
EXTENDS Routing, TraceBase
VARIABLES line, step, st
Keys == {"k1", "k2", "k3", "k4"}
L == Trace[line]
C == L.calls[step + 1]
Fresh == [reg |-> <<>>, store |-> [k \in Keys |-> 0]]
StepOf(c, s) ==
  IF c.op = "register" THEN [s EXCEPT ![c.tr].reg = Append(@, c.m)]
  ELSE IF c.op = "clear" THEN [s EXCEPT ![c.tr].store = [k \in Keys |-> 0]]
  ELSE [s EXCEPT ![c.tr].store = StoreAfter(@, s[c.tr].reg, c.e)]
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
ClausesOf(c, s) ==
  IF c.raise # "" THEN <<Clause("raise", FALSE, c)>>
  ELSE IF c.op # "event" THEN <<>>
  ELSE LET t == s[c.tr]
           q == TLCEval(Asked(t.reg, c.e))
           w == TLCEval(Winner(t.reg, c.e))
           want == TLCEval(Outcome(t.store, t.reg, c.e))
       IN <<Clause("refused", c.refused = (w = 0 /\ c.strict), <<c, "winner", w>>),
            Clause("commands", c.refused \/ (Len(c.cmds) = Len(want) /\ \A i \in 1..Len(want) :
                     /\ c.cmds[i].key = want[i].key /\ c.cmds[i].kind = want[i].kind
                     /\ c.cmds[i].value = want[i].value), <<c, "want", want>>),
            Clause("state", c.refused \/ Len(c.cmds) # Len(want) \/ \A i \in 1..Len(want) : c.cmds[i].st = want[i].st, <<c, "want", want>>),
            Clause("time", \A i \in 1..Len(c.cmds) : c.cmds[i].at = c.at, c),
            \* nobody else is asked, and nobody after the one that answered
            Clause("asked", \A i \in 1..Len(c.asked) : \E j \in 1..(IF w = 0 THEN Len(q) ELSE w) : q[j].id = c.asked[i], <<c.asked, q, w>>)>>
Init == step = 0 /\ line \in 1..Len(Trace) /\ st = [f \in 1..Trace[line].translators |-> Fresh]
Next == /\ step < Len(L.calls)
        /\ step' = step + 1
        /\ line' = line
        /\ Report(line, step', ClausesOf(C, st))
        /\ st' = IF C.raise = "" THEN TLCEval(StepOf(C, st)) ELSE st
TraceSpec == Init /\ [][Next]_<<line, step, st>>
=============================================================================
