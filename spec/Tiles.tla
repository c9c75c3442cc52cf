-------------------------------- MODULE Tiles --------------------------------
(* Tiles, their notation and order, sets of tiles, tile numbers, index        *)
(* categories, dora succession and the tile population.                       *)
(* A tile is a kind 1..34 (nine each of m, p, s, then seven honors), plus     *)
(* 100 for the red five of a suit.                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

Kinds == 1..34
Reds == {105, 114, 123}
Tiles == Kinds \cup Reds
Plain(t) == IF t > 100 THEN t - 100 ELSE t
SuitOf(t) == (Plain(t) - 1) \div 9             \* 0 m, 1 p, 2 s, 3 z
RankOf(t) == ((Plain(t) - 1) % 9) + 1
IsHonor(t) == SuitOf(t) = 3

-----------------------------------------------------------------------------
(* Notation: characters are code points.                                      *)
Digit(c) == c \in 48..57
SuitLetter == <<109, 112, 115, 122>>            \* m p s z
LetterOf(c) == IF c = 109 THEN 0 ELSE IF c = 112 THEN 1 ELSE IF c = 115 THEN 2 ELSE IF c = 122 THEN 3 ELSE 9
\* the tile that the character at i stands for, 0 when it stands for none: a digit belongs to the letter that ends
\* its group, when every character between them is a digit that the suit has
RECURSIVE EndOf(_, _)
EndOf(s, i) == IF i > Len(s) THEN 0 ELSE IF Digit(s[i]) THEN EndOf(s, i + 1) ELSE i
TileAt(s, i) ==
  IF ~Digit(s[i]) THEN 0
  ELSE LET j == EndOf(s, i)
       IN IF j = 0 THEN 0
          ELSE LET u == LetterOf(s[j])
               IN IF u = 9 THEN 0
                  ELSE IF u = 3 THEN IF \A k \in i..(j - 1) : s[k] \in 49..55 THEN 27 + s[i] - 48 ELSE 0
                  ELSE IF s[i] = 48 THEN 100 + 9 * u + 5 ELSE 9 * u + s[i] - 48
Parse(s) == SelectSeq([i \in 1..Len(s) |-> TileAt(s, i)], LAMBDA t : t # 0)
\* a text that is a sequence of suit groups and nothing else
WellFormed(s) == \A i \in 1..Len(s) : (Digit(s[i]) /\ TileAt(s, i) # 0) \/ (LetterOf(s[i]) # 9 /\ i > 1 /\ Digit(s[i - 1]))

-----------------------------------------------------------------------------
(* Order and shapes.                                                          *)
SameFace(a, b) == Plain(a) = Plain(b)
Before(a, b) == Plain(a) < Plain(b)
\* 0 for none
Succ(t) == IF IsHonor(t) \/ RankOf(t) = 9 THEN 0 ELSE Plain(t) + 1
RunFrom(t) == IF IsHonor(t) \/ RankOf(t) > 7 THEN <<>> ELSE <<Plain(t), Plain(t) + 1, Plain(t) + 2>>
Repeated(t, n) == [i \in 1..n |-> Plain(t)]

-----------------------------------------------------------------------------
(* Sets of tiles are multisets of faces.                                      *)
CountIn(seq, k) == Cardinality({i \in 1..Len(seq) : Plain(seq[i]) = k})
BagOf(seq) == TLCEval([k \in Kinds |-> CountIn(seq, k)])
Monus(a, b) == IF a > b THEN a - b ELSE 0
Plus(f, g) == [k \in DOMAIN f |-> f[k] + g[k]]
Minus(f, g) == [k \in DOMAIN f |-> Monus(f[k], g[k])]
Meet(f, g) == [k \in DOMAIN f |-> IF f[k] < g[k] THEN f[k] ELSE g[k]]
Join(f, g) == [k \in DOMAIN f |-> IF f[k] > g[k] THEN f[k] ELSE g[k]]
Includes(f, g) == \A k \in DOMAIN f : g[k] <= f[k]
SizeOf(f) == FoldFunction(+, 0, f)

-----------------------------------------------------------------------------
(* The 136 tile numbers.                                                      *)
CopyOf(n) == n % 4
FaceOf(n) == n \div 4 + 1
IsRedNumber(n) == n \in {16, 52, 88}
TileOfNumber(n) == IF IsRedNumber(n) THEN FaceOf(n) + 100 ELSE FaceOf(n)
NumbersOf(t) == {n \in 0..135 : FaceOf(n) = Plain(t)}

-----------------------------------------------------------------------------
(* Index categories: [t |-> "s", n |-> sizes] (a first size of 0 stands for   *)
(* unbounded) and [t |-> "m", parts |-> categories].                          *)
RECURSIVE CatSize(_), CatAt(_, _), CatList(_), CatParts(_, _, _)
\* 0 for unbounded
CatSize(c) ==
  IF c.t = "s" THEN FoldLeft(LAMBDA a, b : a * b, 1, c.n)
  ELSE IF \E i \in 1..Len(c.parts) : CatSize(c.parts[i]) = 0 THEN 0
       ELSE FoldLeft(LAMBDA a, b : a + CatSize(b), 0, c.parts)
\* lexicographic enumeration of a finite category
CatList(c) ==
  IF c.t = "s"
  THEN FoldRight(LAMBDA n, acc : FlattenSeq([i \in 1..n |-> [j \in 1..Len(acc) |-> <<i - 1>> \o acc[j]]]), c.n, << <<>> >>)
  ELSE FlattenSeq([i \in 1..Len(c.parts) |->
          LET l == CatList(c.parts[i]) IN [j \in 1..Len(l) |-> <<i - 1>> \o l[j]]])
\* the member at an index (counted from 0), also for unbounded ones
RECURSIVE MixedDigits(_, _)
MixedDigits(sizes, x) ==
  IF Len(sizes) = 1 THEN <<x>>
  ELSE LET n == sizes[Len(sizes)] IN MixedDigits(SubSeq(sizes, 1, Len(sizes) - 1), x \div n) \o <<x % n>>
CatParts(parts, i, x) ==
  LET n == CatSize(parts[i])
  IN IF n = 0 \/ x < n THEN <<i - 1>> \o CatAt(parts[i], x) ELSE CatParts(parts, i + 1, x - n)
CatAt(c, x) == IF c.t = "s" THEN MixedDigits(c.n, x) ELSE CatParts(c.parts, 1, x)

-----------------------------------------------------------------------------
(* Dora indicators and the population of the game.                            *)
DoraOf(t) ==
  IF IsHonor(t) THEN LET r == RankOf(t) IN IF r <= 4 THEN {27 + (r % 4) + 1} ELSE {27 + 5 + ((r - 4) % 3)}
  ELSE LET r == IF t > 100 THEN 5 ELSE RankOf(t)
           k == 9 * SuitOf(t) + (r % 9) + 1
       IN IF r = 4 THEN {k, k + 100} ELSE {k}
InPlay(players) == IF players = 3 THEN Kinds \ (2..8) ELSE Kinds
Population(players, aka) ==
  [t \in Tiles |->
     IF Plain(t) \notin InPlay(players) THEN 0
     ELSE IF t > 100 THEN (IF aka THEN 1 ELSE 0)
     ELSE IF aka /\ (t + 100) \in Reds THEN 3 ELSE 4]
=============================================================================
