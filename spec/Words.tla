-------------------------------- MODULE Words --------------------------------
(* Texts of the log format and of the reports (kept in words.json, as TLA+    *)
(* sources are ASCII) and the forms of numbers.                               *)
EXTENDS Table, Json, IOUtils
W0 == JsonDeserialize(IOEnv.WORDS)
ReasonWord(type) == IF type = "" THEN "" ELSE W0.reasons[type]
RankWord(dan) == W0.ranks[dan + 1]
YakuWord(y) == W0.yaku[y + 1]
Abs(x) == IF x < 0 THEN -x ELSE x
Two(x) == IF x < 10 THEN "0" \o ToString(x) ELSE ToString(x)
\* hundredths and tenths as decimals
Dec2(x) == (IF x < 0 THEN "-" ELSE "") \o ToString(Abs(x) \div 100) \o "." \o Two(Abs(x) % 100)
Dec1(x) == (IF x < 0 THEN "-" ELSE "") \o ToString(Abs(x) \div 10) \o "." \o ToString(Abs(x) % 10)
Opt(b, t) == IF b THEN t ELSE ""
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
\* the name of the rules of a record
RuleName(c) ==
  (IF R!Players(c) = 3 THEN W0.players["3"] ELSE W0.players["4"])
  \o (IF R!Tips(c) > 0 THEN W0.tiplevels ELSE W0.levels)[R!Level(c) + 1]
  \o (IF R!Winds(c) = 1 THEN W0.east ELSE W0.south)
  \o Opt(R!OpenTanyao(c), W0.kui) \o Opt(R!HasAka(c), W0.aka) \o Opt(R!Fast(c), W0.fast) \o Opt(R!Shadow(c), W0.dark)
  \o Opt(R!Tips(c) > 0, W0.tips \o ToString(R!Tips(c)))
\* seats from the best to the worst: higher first, ties by seat
Standing(n, val(_)) == SortSeq([j \in 1..n |-> j - 1], LAMBDA a, b : val(a) > val(b) \/ (val(a) = val(b) /\ a < b))
=============================================================================
