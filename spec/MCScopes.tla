------------------------------- MODULE MCScopes -------------------------------
(* Entering and leaving scopes in any order that nests: what a construction   *)
(* receives is the innermost value of each field; leaving restores.           *)
EXTENDS Scopes
CONSTANT MaxDepth
Fields == {"x", "y"}
Some == UNION {[S -> 1..2] : S \in SUBSET Fields}
VARIABLES stack, saved
vars == <<stack, saved>>
Init == stack = <<>> /\ saved = <<>>
Enter == Len(stack) < MaxDepth /\ \E f \in Some : stack' = Append(stack, f) /\ saved' = Append(saved, Merged(stack))
Leave == stack # <<>> /\ stack' = Pop(stack) /\ saved' = Pop(saved)
Next == Enter \/ Leave
Spec == Init /\ [][Next]_vars
Innermost == \A x \in Fields :
  LET at == {i \in 1..Len(stack) : x \in DOMAIN stack[i]}
      m == Merged(stack)
  IN /\ (x \in DOMAIN m) = (at # {})
     /\ at # {} => m[x] = stack[Max(at)][x]
Restored == [][ Len(stack') < Len(stack) => Merged(stack') = saved[Len(saved)] ]_vars
=============================================================================
