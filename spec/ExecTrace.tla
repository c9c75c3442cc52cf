------------------------------- MODULE ExecTrace -------------------------------
(* Executions of command sequences by the code against Exec (C20), and the    *)
(* table of states read back from CSV (C22).                                  *)
(* A line has the commands, and per snapshot its timestamp and what changed   *)
(* since the one before; stop is the number of commands executed when a       *)
(* contradiction was reported, -1 when none was; told is what the interpreter  *)
(* said the addressed property becomes, command by command.                   *)
EXTENDS Exec, TraceBase
VARIABLES li, i, st, over
vars == <<li, i, st, over>>
L == Trace[li]
KeyOf(d) == <<d[1], d[2], d[3]>>
\* s with the differences ds is t, where t and s differ at k at most
Becomes(s, ds, t, k) ==
  /\ \A j \in 1..Len(ds) : LET h == KeyOf(ds[j]) IN h \in DOMAIN t /\ Norm(h, ds[j][4]) = Norm(h, t[h])
  /\ \/ \E j \in 1..Len(ds) : KeyOf(ds[j]) = k
     \/ k \in DOMAIN s /\ Norm(k, s[k]) = Norm(k, t[k])
     \* in a table a cell without a value is a missing one
     \/ ~L.asked /\ k \notin DOMAIN s /\ t[k] = <<"none">>
Init == li \in 1..Len(Trace) /\ i = 0 /\ st = <<>> /\ over = FALSE
Next ==
  /\ i < Len(L.cmds) /\ li' = li /\ i' = i + 1
  /\ \E x \in {L.cmds[i + 1]} :
     IF over \/ L.raise # ""
     THEN UNCHANGED <<st, over>> /\ (i > 0 \/ L.raise = "" \/ Report(li, i, << <<"raise", FALSE, L.raise>> >>))
     ELSE /\ Assert(Defined(x.method, Get(st, Key(x)), x.value), <<"undefined command", li, i, x>>)
          /\ \E t \in {TLCEval(Apply(st, x))} :
             \E bad \in {Contradicts(st, x)} :
               /\ st' = t /\ over' = (L.strict /\ bad)
               /\ IF L.strict /\ bad
                  THEN Report(li, i, << <<"accepted", L.stop = i /\ Len(L.snaps) = i, <<x, Get(st, Key(x)), L.stop>> >> >>)
                  ELSE IF i + 1 > Len(L.snaps)
                  THEN Report(li, i, << <<"rejected", FALSE, <<x, Get(st, Key(x)), L.stop>> >> >>)
                  ELSE \E d \in {L.snaps[i + 1]} :
                       \E k \in {Key(x)} :
                         Report(li, i,
                           << <<"timestamp", d.at = x.at, <<d.at, x.at>> >>,
                              <<"snapshot", Becomes(st, d.delta, t, k), <<x, Get(st, k), d.delta>> >>,
                              <<"interpreted", ~L.asked \/ (i + 1 <= Len(L.told) /\ Norm(k, L.told[i + 1]) = Norm(k, t[k])), <<x, t[k], Len(L.told)>> >>,
                              <<"carried", ~L.carried \/ Norm(k, x.st) = Norm(k, t[k]), <<x, t[k]>> >> >>)
               /\ i + 1 = Len(L.cmds) \/ over' =>
                    Report(li, i, << <<"repeated", L.again, "the second execution differs">>,
                                     <<"kept", L.kept, "an earlier snapshot has changed">>,
                                     <<"unmoved", ~L.asked \/ L.unmoved, "an earlier answer of the interpreter has changed">> >>)
               /\ i + 1 = Len(L.cmds) /\ ~over' =>
                    Report(li, i, << <<"finished", L.stop = -1 /\ Len(L.snaps) = Len(L.cmds), <<L.stop, Len(L.snaps)>> >>,
                                     \* of a table: a column for every property that ever had a value, none else
                                     <<"columns", L.columns = <<>> \/ {KeyOf(L.columns[j]) : j \in 1..Len(L.columns)} = DOMAIN t,
                                       <<L.columns, DOMAIN t>> >>,
                                     <<"accepts_record", ~L.carried \/ L.stop = -1, L.stop>> >>)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
