-------------------------------- MODULE Rules --------------------------------
(* The rule bits of a record.                                                 *)
EXTENDS Naturals, Sequences, TLC
Bit(c, i) == (c \div (2 ^ i)) % 2
RuleBits == 1..10
Players(c) == IF Bit(c, 4) = 1 THEN 3 ELSE 4
Winds(c) == IF Bit(c, 3) = 1 THEN 2 ELSE 1
HasAka(c) == Bit(c, 1) = 0
OpenTanyao(c) == Bit(c, 2) = 0
Level(c) == 2 * Bit(c, 5) + Bit(c, 7)
Fast(c) == Bit(c, 6) = 1
Shadow(c) == Bit(c, 8) = 1
Tips(c) == IF Bit(c, 9) = 0 THEN 0 ELSE IF Bit(c, 10) = 1 THEN 5 ELSE 2
SameRules(c, d) == \A i \in RuleBits : Bit(c, i) = Bit(d, i)
If(b, s) == IF b THEN s ELSE <<>>
\* code points: three or four; the level; the wind; the optional marks
NameOf(c) ==
  << IF Players(c) = 3 THEN 19977 ELSE 22235 >>
  \o << IF Tips(c) > 0 THEN <<33509, 37504, 29733, 23380>>[Level(c) + 1] ELSE <<33324, 19978, 29305, 40179>>[Level(c) + 1] >>
  \o << IF Winds(c) = 1 THEN 26481 ELSE 21335 >>
  \o If(OpenTanyao(c), <<21936>>) \o If(HasAka(c), <<36196>>) \o If(Fast(c), <<36895>>) \o If(Shadow(c), <<26263>>)
  \o If(Tips(c) > 0, <<31069, 48 + Tips(c)>>)
=============================================================================
