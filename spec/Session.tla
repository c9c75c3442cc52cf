-------------------------------- MODULE Session --------------------------------
(* A run of a command line tool.  It is given a link, fetches the record the    *)
(* link names, and writes what was asked for: the report tool offers the        *)
(* players under their numbers and writes a report for the one chosen, or for   *)
(* everyone; the converter writes one table.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* a link: parameters <<name, value>> in order; the record is named by the first log that is not blank
LogId(params) == LET at == {i \in 1..Len(params) : params[i][1] = "log" /\ params[i][2] # ""}
                 IN params[CHOOSE i \in at : \A j \in at : i <= j][2]
\* a choice: a number, or anything else (0)
Planned(n, choice) == IF choice \in 1..n THEN {choice - 1} ELSE 0..(n - 1)

Start(tool, n, params, choice) == [tool |-> tool, n |-> n, id |-> LogId(params), choice |-> choice, phase |-> "linked", written |-> {}]
\* the log server is asked once; when it answers that the record has moved, the place it names is asked once
CanFetch(s, at) == (s.phase = "linked" /\ at = "log") \/ (s.phase = "moved" /\ at = "moved")
Fetch(s, moved) == [s EXCEPT !.phase = IF moved THEN "moved" ELSE IF s.tool = "report" THEN "fetched" ELSE "writing"]
CanOffer(s) == s.phase = "fetched"
Offer(s) == [s EXCEPT !.phase = "writing"]
\* what may still be written: seats for the report tool, the table otherwise
Wanted(s) == IF s.tool = "report" THEN {[what |-> "report", seat |-> p] : p \in Planned(s.n, s.choice)}
             ELSE {[what |-> "table", seat |-> 0]}
CanWrite(s, w) == s.phase = "writing" /\ w \in Wanted(s) \ s.written
Write(s, w) == [s EXCEPT !.written = @ \cup {w}]
CanEnd(s) == s.phase = "writing" /\ s.written = Wanted(s)
End(s) == [s EXCEPT !.phase = "ended"]
=============================================================================
