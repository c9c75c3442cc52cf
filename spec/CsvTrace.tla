-------------------------------- MODULE CsvTrace --------------------------------
(* Commands before and after a stay in a CSV file (C21): they are the same,   *)
(* one by one, and those read back say of the store what those written said.  *)
EXTENDS Exec, TraceBase
VARIABLES li, i, st
vars == <<li, i, st>>
L == Trace[li]
Init == li \in 1..Len(Trace) /\ i = 0 /\ st = <<>>
Next ==
  /\ i < Len(L.before) /\ li' = li /\ i' = i + 1
  /\ IF L.raise # "" THEN st' = st /\ (i > 0 \/ Report(li, i, << <<"raise", FALSE, L.raise>> >>))
     ELSE \E x \in {L.before[i + 1]} :
            IF i + 1 > Len(L.after)
            THEN st' = st /\ Report(li, i, << <<"lost", FALSE, x>> >>)
            ELSE \E y \in {L.after[i + 1]} :
                   LET def == L.stated /\ Defined(y.method, Get(st, Key(y)), y.value)
                   IN /\ st' = IF def THEN Apply(st, y) ELSE st
                      /\ Report(li, i,
                           << <<"order", y.at = x.at, <<x, y>> >>,
                              <<"key", Key(y) = Key(x) /\ y.kind = x.kind /\ y.method = x.method, <<x, y>> >>,
                              <<"value", y.value = x.value, <<x, y>> >>,
                              <<"state", y.st = x.st, <<x, y>> >>,
                              <<"replay", L.stated => def /\ Norm(Key(y), st'[Key(y)]) = Norm(Key(y), y.st), <<y, Get(st, Key(y))>> >>,
                              <<"more", i + 1 < Len(L.before) \/ Len(L.after) = Len(L.before), <<Len(L.before), Len(L.after)>> >> >>)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
