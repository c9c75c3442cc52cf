------------------------------- MODULE MCStages -------------------------------
(* A reader that walks the sequence once, with a consumer that advances to    *)
(* the next group or reads from the current one in any order: whatever the    *)
(* order, the groups and the items are the declared ones.                     *)
EXTENDS Stages
CONSTANTS MaxLen, Alphabet, StageSeqs
VARIABLES keys, stages, pos, cur, target, got, groups, phase
vars == <<keys, stages, pos, cur, target, got, groups, phase>>
\* pos: items taken from the source; cur: item looked at and not yet delivered (0: none)
\* target: stages the current group still accepts (a sequence), or <<key>> with phase "unknown"
\* got: items delivered in the current group; groups: sequence of <<first item, items delivered>> per group
Init == /\ keys \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
        /\ stages \in StageSeqs
        /\ pos = 0 /\ cur = 0 /\ target = <<>> /\ got = 0 /\ groups = <<>> /\ phase = "start"
Accepts(k) == IF phase = "unknown" THEN k = target[1] ELSE phase = "known" /\ Known(target, k)
Shrink(k) == IF phase = "unknown" THEN target ELSE SubSeq(target, StageNo(target, k), Len(target))
\* skip the rest of the current group: index of the first item beyond it
RECURSIVE SkipFrom(_, _)
SkipFrom(i, t) ==
  IF i > Len(keys) THEN i
  ELSE IF phase = "unknown" THEN IF keys[i] = t[1] THEN SkipFrom(i + 1, t) ELSE i
  ELSE IF Known(t, keys[i]) THEN SkipFrom(i + 1, SubSeq(t, StageNo(t, keys[i]), Len(t))) ELSE i
Advance ==
  LET i == IF phase = "start" THEN 1 ELSE SkipFrom(pos + 1, target)
  IN /\ i <= Len(keys)
     /\ pos' = i - 1
     /\ groups' = Append(groups, <<i, 0>>)
     /\ IF Known(stages, keys[i])
        THEN phase' = "known" /\ target' = SubSeq(stages, StageNo(stages, keys[i]), Len(stages))
        ELSE phase' = "unknown" /\ target' = <<keys[i]>>
     /\ cur' = i /\ got' = 0 /\ UNCHANGED <<keys, stages>>
Read ==
  /\ phase # "start" /\ pos < Len(keys) /\ Accepts(keys[pos + 1])
  /\ target' = Shrink(keys[pos + 1])
  /\ pos' = pos + 1 /\ got' = got + 1
  /\ groups' = [groups EXCEPT ![Len(groups)][2] = @ + 1]
  /\ cur' = cur /\ phase' = phase /\ UNCHANGED <<keys, stages>>
Next == Advance \/ Read
Spec == Init /\ [][Next]_vars
Declared == Groups(keys, stages)
Agrees ==
  /\ Len(groups) <= Len(Declared)
  /\ \A g \in 1..Len(groups) : /\ groups[g][1] = Declared[g][1]
                               /\ groups[g][2] <= Declared[g][2] - Declared[g][1] + 1
\* reading until nothing comes gives the whole group
Complete == (phase # "start" /\ ~ENABLED Read) => groups[Len(groups)][2] = Declared[Len(groups)][2] - Declared[Len(groups)][1] + 1
Finished == (phase # "start" /\ ~ENABLED Advance) => Len(groups) = Len(Declared)
Partition == LET d == Declared IN
  /\ Len(d) > 0 => d[1][1] = 1 /\ d[Len(d)][2] = Len(keys)
  /\ \A i \in 1..(Len(d) - 1) : d[i + 1][1] = d[i][2] + 1 /\ ~OneGroup(keys, stages, d[i][1], d[i + 1][1])
=============================================================================
