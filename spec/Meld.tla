-------------------------------- MODULE Meld --------------------------------
(* Calls and their 16 bit codes in tenhou logs.                               *)
(* A call: kind, the caller, the seat the taken tile came from, the tile      *)
(* numbers laid down from the hand and the set of the tile taken.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

Bits(m, lo, n) == (m \div (2 ^ lo)) % (2 ^ n)
\* tile numbers of kind k (1..34)
NumOf(k, copy) == 4 * (k - 1) + copy
Quad(k) == {NumOf(k, c) : c \in 0..3}
NthOf(S, i) == SetToSortSeq(S, <)[i]

CallOf(kind, who, src, own, got) == [kind |-> kind, who |-> who, src |-> src, own |-> own, got |-> got]

(* What a code means when seat w makes the call.                              *)
Decode(m, w) ==
  LET kui == Bits(m, 0, 2)
      src == (w + kui) % 4
  IN IF Bits(m, 2, 1) = 1
     THEN LET t == Bits(m, 10, 6)
              start == ((t \div 3) \div 7) * 9 + ((t \div 3) % 7) + 1
              nums == [i \in 1..3 |-> NumOf(start + i - 1, Bits(m, 1 + 2 * i, 2))]
              got == {nums[(t % 3) + 1]}
          IN CallOf("chi", w, src, {nums[i] : i \in 1..3} \ got, got)
     ELSE IF Bits(m, 3, 1) = 1
     THEN LET t == Bits(m, 9, 7)
              three == Quad(t \div 3 + 1) \ {NumOf(t \div 3 + 1, Bits(m, 5, 2))}
              got == {NthOf(three, (t % 3) + 1)}
          IN CallOf("pon", w, src, three \ got, got)
     ELSE IF Bits(m, 4, 1) = 1
     THEN CallOf("addkan", w, src, {NumOf(Bits(m, 9, 7) \div 3 + 1, Bits(m, 5, 2))}, {})
     ELSE IF Bits(m, 5, 1) = 1
     THEN CallOf("kita", w, src, {Bits(m, 8, 8)}, {})
     ELSE LET n == Bits(m, 8, 8)
              four == Quad(n \div 4 + 1)
          IN IF kui = 0 THEN CallOf("ankan", w, w, four, {})
             ELSE CallOf("kan", w, src, four \ {n}, {n})

(* The code of a call (closed quads carry any of their tiles).                *)
KuiOf(c) == (c.src + 4 - c.who) % 4
FaceOfNum(n) == n \div 4 + 1
ChiCode(c) ==
  LET s == SetToSortSeq(c.own \cup c.got, <)
      start == FaceOfNum(s[1])
      which == CHOOSE i \in 1..3 : s[i] \in c.got
      t == (((start - 1) \div 9) * 7 + ((start - 1) % 9)) * 3 + which - 1
  IN KuiOf(c) + 4 + 8 * (s[1] % 4) + 32 * (s[2] % 4) + 128 * (s[3] % 4) + 1024 * t
PonCode(c) ==
  LET three == c.own \cup c.got
      s == SetToSortSeq(three, <)
      k == FaceOfNum(s[1])
      unused == CHOOSE n \in Quad(k) : n \notin three
      which == CHOOSE i \in 1..3 : s[i] \in c.got
  IN KuiOf(c) + 8 + 32 * (unused % 4) + 512 * ((k - 1) * 3 + which - 1)
\* an added quad is coded like the triplet it extends: the taken tile of that triplet is part of the code
AddCode(c, pon) ==
  LET k == FaceOfNum(CHOOSE n \in c.own : TRUE)
      s == SetToSortSeq(pon.own \cup pon.got, <)
      which == CHOOSE i \in 1..3 : s[i] \in pon.got
  IN KuiOf(c) + 16 + 32 * ((CHOOSE n \in c.own : TRUE) % 4) + 512 * ((k - 1) * 3 + which - 1)
KanCode(c) == KuiOf(c) + 256 * (CHOOSE n \in c.got : TRUE)
AnkanCode(n) == 256 * n
KitaCode(c) == 32 + 256 * (CHOOSE n \in c.own : TRUE)

(* Every legal call of seat w, with its code.                                 *)
RunStarts == {k \in 1..27 : (k - 1) % 9 <= 6}
Chis(w) == {[m |-> ChiCode(c), call |-> c] : c \in
   {CallOf("chi", w, (w + 3) % 4, {NumOf(k + i, cs[i + 1]) : i \in (0..2) \ {g}}, {NumOf(k + g, cs[g + 1])}) :
        k \in RunStarts, g \in 0..2, cs \in [1..3 -> 0..3]}}
Pons(w) == {[m |-> PonCode(c), call |-> c] : c \in
   UNION {{CallOf("pon", w, (w + r) % 4, (Quad(k) \ {NumOf(k, u)}) \ {g}, {g}) : g \in Quad(k) \ {NumOf(k, u)}}
          : k \in 1..34, u \in 0..3, r \in 1..3}}
Adds(w) == {[m |-> AddCode(CallOf("addkan", w, p.call.src, Quad(FaceOfNum(CHOOSE n \in p.call.got : TRUE)) \ (p.call.own \cup p.call.got), {}), p.call),
             call |-> CallOf("addkan", w, p.call.src, Quad(FaceOfNum(CHOOSE n \in p.call.got : TRUE)) \ (p.call.own \cup p.call.got), {})]
            : p \in Pons(w)}
Kans(w) == {[m |-> KanCode(c), call |-> c] : c \in
   {CallOf("kan", w, (w + r) % 4, Quad(FaceOfNum(g)) \ {g}, {g}) : g \in 0..135, r \in 1..3}}
Ankans(w) == {[m |-> AnkanCode(n), call |-> CallOf("ankan", w, w, Quad(FaceOfNum(n)), {})] : n \in 0..135}
Kitas(w) == {[m |-> KitaCode(CallOf("kita", w, w, {n}, {})), call |-> CallOf("kita", w, w, {n}, {})] : n \in 120..123}
LegalCalls(w) == Chis(w) \cup Pons(w) \cup Adds(w) \cup Kans(w) \cup Ankans(w) \cup Kitas(w)
=============================================================================
