-------------------------------- MODULE Scopes --------------------------------
(* Nested default scopes: a stack of functions from field names to numbers.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt
\* f overridden by g
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Nothing == [x \in {} |-> 0]
Merged(stack) == FoldLeft(Over, Nothing, stack)
Pop(stack) == SubSeq(stack, 1, Len(stack) - 1)
=============================================================================
