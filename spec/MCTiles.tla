------------------------------- MODULE MCTiles -------------------------------
(* Design check of Tiles: a machine of two registers holding sets of tiles,   *)
(* and the facts that are not machine-shaped as assumptions.                  *)
EXTENDS Tiles
CONSTANT MaxCopies
Faces == {1, 2, 31}
Sets == [Faces -> 0..MaxCopies]
VARIABLES a, b, prev
vars == <<a, b, prev>>
Init == a \in Sets /\ b \in Sets /\ prev = <<"none", a>>
Small(f) == \A k \in Faces : f[k] <= MaxCopies
Add == LET s == Plus(a, b) IN Small(s) /\ prev' = <<"add", a>> /\ a' = s /\ b' = b
TakeAway == prev' = <<"sub", a>> /\ a' = Minus(a, b) /\ b' = b
Exclude == Includes(a, b) /\ prev' = <<"excl", a>> /\ a' = Minus(a, b) /\ b' = b
Both == prev' = <<"and", a>> /\ a' = Meet(a, b) /\ b' = b
Either == prev' = <<"or", a>> /\ a' = Join(a, b) /\ b' = b
Next == Add \/ TakeAway \/ Exclude \/ Both \/ Either
Spec == Init /\ [][Next]_vars
ExcludeRestores == prev[1] = "excl" => Plus(a, b) = prev[2] /\ SizeOf(a) + SizeOf(b) = SizeOf(prev[2])
AddContains == prev[1] = "add" => Includes(a, b) /\ Includes(a, prev[2]) /\ Minus(a, b) = prev[2]
MeetJoin == /\ Plus(Meet(a, b), Join(a, b)) = Plus(a, b)
            /\ Includes(a, Meet(a, b)) /\ Includes(Join(a, b), a)
            /\ Plus(Minus(a, b), Meet(a, b)) = a

\* notation: every text over a small alphabet up to a length: parsing is what scanning for groups from the left gives
Alphabet == {48, 53, 56, 109, 122, 45}
RECURSIVE Scan(_, _)
GroupEnd(s, i) == EndOf(s, i)
Scan(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET j == EndOf(s, i)
       IN IF ~Digit(s[i]) \/ j = 0 \/ LetterOf(s[j]) = 9 THEN Scan(s, i + 1)
          ELSE IF LetterOf(s[j]) < 3
               THEN [k \in 1..(j - i) |-> LET d == s[i + k - 1] - 48 IN
                       IF d = 0 THEN 105 + 9 * LetterOf(s[j]) ELSE d + 9 * LetterOf(s[j])] \o Scan(s, j + 1)
          ELSE IF \A k \in i..(j - 1) : s[k] \in 49..55
               THEN [k \in 1..(j - i) |-> 27 + s[i + k - 1] - 48] \o Scan(s, j + 1)
          ELSE Scan(s, i + 1)
ASSUME \A n \in 0..5 : \A s \in [1..n -> Alphabet] : Parse(s) = Scan(s, 1)
\* order, successor, runs
ASSUME \A x, y \in Tiles : (Before(x, y) \/ Before(y, x) \/ SameFace(x, y)) /\ ~(Before(x, y) /\ Before(y, x))
ASSUME \A t \in Kinds : Succ(t) # 0 => Before(t, Succ(t)) /\ SuitOf(Succ(t)) = SuitOf(t)
ASSUME \A t \in Kinds : (RunFrom(t) # <<>>) = (Succ(t) # 0 /\ Succ(Succ(t)) # 0)
\* numbers
ASSUME \A t \in Kinds : Cardinality(NumbersOf(t)) = 4
ASSUME Cardinality({<<FaceOf(n), CopyOf(n)>> : n \in 0..135}) = 136
ASSUME {TileOfNumber(n) : n \in 0..135} = Tiles
\* categories: the arithmetic and the enumeration agree
Some == {[t |-> "s", n |-> <<x>>] : x \in 1..3} \cup {[t |-> "s", n |-> <<x, y>>] : x \in 1..3, y \in 1..3}
Mixed == {[t |-> "m", parts |-> <<x, y>>] : x \in Some, y \in Some}
Nested == {[t |-> "m", parts |-> <<x, y>>] : x \in {m \in Mixed : CatSize(m) < 5}, y \in Some}
ASSUME \A c \in Some \cup Mixed \cup Nested :
         /\ CatSize(c) = Len(CatList(c))
         /\ \A i \in 1..CatSize(c) : CatAt(c, i - 1) = CatList(c)[i]
         /\ Cardinality({CatList(c)[i] : i \in 1..CatSize(c)}) = CatSize(c)
\* dora: every plain tile is the dora of exactly one plain indicator
ASSUME \A t \in Kinds : Cardinality({i \in Kinds : t \in DoraOf(i)}) = 1
ASSUME \A t \in Tiles : \A d \in DoraOf(t) : SuitOf(d) = SuitOf(t)
ASSUME \A aka \in BOOLEAN : SizeOf(Population(4, aka)) = 136 /\ SizeOf(Population(3, aka)) = 108
=============================================================================
