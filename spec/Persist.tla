------------------------------- MODULE Persist -------------------------------
(* Nested snapshots: a tree is a function from paths (sequences of keys) to   *)
(* numbers, 0 for a nested part and a positive number for a value.  The root  *)
(* (empty path) is always a part.                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

\* a tree given as a sequence of <<path, value>>
TreeOf(seq) == TLCEval([p \in {seq[i][1] : i \in 1..Len(seq)} |-> seq[CHOOSE i \in 1..Len(seq) : seq[i][1] = p][2]])
Under(t, p) == {q \in DOMAIN t : Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p}
\* the tree at a path / a tree put below a path
SubTree(t, p) == [q \in {SubSeq(x, Len(p) + 1, Len(x)) : x \in Under(t, p)} |-> t[p \o q]]
Put(t, p, sub) ==
  LET keep == DOMAIN t \ Under(t, p)
      new == {p \o q : q \in DOMAIN sub}
  IN [x \in keep \cup new |-> IF x \in new THEN sub[SubSeq(x, Len(p) + 1, Len(x))] ELSE t[x]]
Leaf(n) == [p \in { <<>> } |-> n]
\* update, removal and default of one entry of the part at path p
SetAt(t, p, k, v) == Put(t, Append(p, k), v)
DropAt(t, p, k) == LET gone == Under(t, Append(p, k)) IN [x \in DOMAIN t \ gone |-> t[x]]
DefaultAt(t, p, k, v) == IF Append(p, k) \in DOMAIN t THEN t ELSE SetAt(t, p, k, v)
\* parts and values
WellBuilt(t) == /\ <<>> \in DOMAIN t /\ t[<<>>] = 0
                /\ \A p \in DOMAIN t : p # <<>> => /\ SubSeq(p, 1, Len(p) - 1) \in DOMAIN t
                                                   /\ t[SubSeq(p, 1, Len(p) - 1)] = 0
=============================================================================
