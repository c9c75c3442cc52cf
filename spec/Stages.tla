-------------------------------- MODULE Stages --------------------------------
(* Grouping a sequence of keys by ordered stages.                             *)
(* A key is a number; the stages are a sequence of distinct keys.  A group is *)
(* the longest stretch that starts where the previous one ended and whose     *)
(* keys never go back to an earlier stage, or of one unknown key.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

Known(stages, k) == \E i \in 1..Len(stages) : stages[i] = k
StageNo(stages, k) == CHOOSE i \in 1..Len(stages) : stages[i] = k
\* may the keys from i to j (one stretch) be one group?
OneGroup(keys, stages, i, j) ==
  IF Known(stages, keys[i])
  THEN /\ \A x \in i..j : Known(stages, keys[x])
       /\ \A x \in i..(j - 1) : StageNo(stages, keys[x]) <= StageNo(stages, keys[x + 1])
  ELSE \A x \in i..j : keys[x] = keys[i]
LastOf(keys, stages, i) == Max({j \in i..Len(keys) : OneGroup(keys, stages, i, j)})
RECURSIVE GroupsFrom(_, _, _)
GroupsFrom(keys, stages, i) ==
  IF i > Len(keys) THEN <<>>
  ELSE LET j == LastOf(keys, stages, i) IN << <<i, j>> >> \o GroupsFrom(keys, stages, j + 1)
Groups(keys, stages) == GroupsFrom(keys, stages, 1)
\* the key reported for a group: the stages still to come, or the unknown key itself
GroupKey(keys, stages, g) ==
  IF Known(stages, keys[g[1]]) THEN [known |-> TRUE, rest |-> SubSeq(stages, StageNo(stages, keys[g[1]]), Len(stages))]
  ELSE [known |-> FALSE, rest |-> <<keys[g[1]]>>]
=============================================================================
