------------------------------ MODULE TraceBase ------------------------------
(* Reading recorded observations.  Every line of the trace is one recorded   *)
(* behaviour; a trace specification walks each of them in its own initial    *)
(* state, so that TLC spreads them over its workers, and prints a MISMATCH   *)
(* line naming the failing clause whenever an observation is not what the    *)
(* specification allows.  It never stops early: the rest of the behaviour is *)
(* checked too.                                                              *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* clauses: sequence of <<name, holds, detail>>; print those that do not hold; always TRUE
RECURSIVE Report(_, _, _)
Report(line, step, clauses) ==
  IF clauses = <<>> THEN TRUE
  ELSE /\ IF Head(clauses)[2] THEN TRUE
          \* one string, as the values printed by TLC may be wrapped
          ELSE PrintT("MISMATCH|" \o ToString(line) \o "|" \o ToString(step) \o "|" \o Head(clauses)[1] \o "|"
                      \o ToString(Head(clauses)[3]))
       /\ Report(line, step, Tail(clauses))
\* a clause whose operands are only evaluated when the guard holds
Clause(name, ok, detail) == <<name, ok, detail>>
=============================================================================
