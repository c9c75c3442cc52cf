------------------------------ MODULE MCPersist ------------------------------
(* The machine of snapshots: every update appends a snapshot derived from any *)
(* earlier one.                                                               *)
EXTENDS Persist
CONSTANTS MaxSnaps, Depth
Keys == {"a", "b"}
Subs == {Leaf(1), Leaf(2), Leaf(0), [p \in { <<>>, <<"a">> } |-> IF p = <<>> THEN 0 ELSE 3]}
VARIABLES snaps, from, what
vars == <<snaps, from, what>>
Init == /\ snaps \in {<<t>> : t \in {Leaf(0), TreeOf(<< <<<<>>, 0>>, <<<<"a">>, 0>>, <<<<"a", "b">>, 1>> >>)}}
        /\ from = 1 /\ what = <<>>
Parts(t) == {p \in DOMAIN t : t[p] = 0}
Step(i, p, k, t2, kind) == /\ Len(p) < Depth
                           /\ snaps' = Append(snaps, t2) /\ from' = i /\ what' = <<kind, Append(p, k)>>
Next == /\ Len(snaps) < MaxSnaps
        /\ \E i \in 1..Len(snaps) : LET t == snaps[i] IN \E p \in Parts(t), k \in Keys :
             \/ \E v \in Subs : Step(i, p, k, SetAt(t, p, k, v), "set")
             \/ \E v \in Subs : Step(i, p, k, DefaultAt(t, p, k, v), "default")
             \/ Append(p, k) \in DOMAIN t /\ Step(i, p, k, DropAt(t, p, k), "drop")
Spec == Init /\ [][Next]_vars
Valid == \A i \in 1..Len(snaps) : WellBuilt(snaps[i])
\* the new snapshot differs from its origin at the addressed entry only
OnlyThere == what # <<>> =>
  LET old == snaps[from]
      new == snaps[Len(snaps)]
      rest(t) == [x \in DOMAIN t \ Under(t, what[2]) |-> t[x]]
  IN /\ rest(old) = rest(new)
     /\ what[1] = "drop" => what[2] \notin DOMAIN new
     /\ what[1] # "drop" => what[2] \in DOMAIN new
KeptAll == [][ \A i \in 1..Len(snaps) : snaps'[i] = snaps[i] ]_vars
=============================================================================
