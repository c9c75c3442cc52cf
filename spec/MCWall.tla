-------------------------------- MODULE MCWall --------------------------------
EXTENDS Wall
CONSTANT MaxCopies
VARIABLES wall, start, drawn
vars == <<wall, start, drawn>>
Walls == {[k \in 1..34 |-> IF k \in {1, 5, 31} THEN f[k] ELSE 0] : f \in [{1, 5, 31} -> 0..MaxCopies]}
Init == wall \in Walls /\ start = wall /\ drawn = <<>>
Next == \E k \in 1..34 : CanDraw(wall, k) /\ wall' = Draw(wall, k) /\ drawn' = Append(drawn, k) /\ start' = start
Spec == Init /\ [][Next]_vars
Conserved == \A k \in {1, 5, 31} : wall[k] + Cardinality({i \in 1..Len(drawn) : drawn[i] = k}) = start[k]
OrderOk == DrawsOk(start, drawn)
Exhausted == (~ENABLED Next) => Len(drawn) = Count(start)
=============================================================================
