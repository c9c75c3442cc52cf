----------------------------- MODULE TilesTrace -----------------------------
(* Conformance of tiles, notation, tile sets, numbers, categories and dora.   *)
(* A line is a sequence of calls; sets live in registers.                     *)
EXTENDS Tiles, TraceBase
VARIABLES line, step, regs

SetOf(seq) == {seq[i] : i \in 1..Len(seq)}
Distinct(seq) == Cardinality(SetOf(seq)) = Len(seq)

\* what the registers hold after a call, and what the call answers
Reg(i) == regs[i + 1]
After(c) ==
  IF c.op = "new" THEN [regs EXCEPT ![c.dst + 1] = BagOf(c.tiles)]
  ELSE IF c.op = "parse" THEN [regs EXCEPT ![c.dst + 1] = BagOf(Parse(c.text))]
  ELSE IF c.op \in {"add", "iadd", "update"} THEN [regs EXCEPT ![c.dst + 1] = Plus(Reg(c.a), Reg(c.b))]
  ELSE IF c.op \in {"sub", "isub"} THEN [regs EXCEPT ![c.dst + 1] = Minus(Reg(c.a), Reg(c.b))]
  ELSE IF c.op = "and" THEN [regs EXCEPT ![c.dst + 1] = Meet(Reg(c.a), Reg(c.b))]
  ELSE IF c.op = "or" THEN [regs EXCEPT ![c.dst + 1] = Join(Reg(c.a), Reg(c.b))]
  ELSE IF c.op = "exclude" THEN [regs EXCEPT ![c.dst + 1] = IF Includes(Reg(c.a), Reg(c.b)) THEN Minus(Reg(c.a), Reg(c.b)) ELSE @]
  ELSE IF c.op \in {"copy", "roundtrip"} THEN [regs EXCEPT ![c.dst + 1] = Reg(c.a)]
  ELSE regs
AnswerClauses(c) ==
  IF c.op = "contains" THEN <<Clause("contains", c.res = Includes(Reg(c.a), Reg(c.b)), c)>>
  ELSE IF c.op = "exclude" THEN <<Clause("exclude", c.res = Includes(Reg(c.a), Reg(c.b)), c)>>
  ELSE IF c.op = "eq" THEN <<Clause("equal", c.res = (Reg(c.a) = Reg(c.b)), c)>>
  ELSE IF c.op = "len" THEN <<Clause("size", c.res = SizeOf(Reg(c.a)), c)>>
  ELSE IF c.op = "count" THEN <<Clause("count", c.res = Reg(c.a)[c.tile], c)>>
  ELSE IF c.op = "tiles" THEN <<Clause("listing", BagOf(c.res) = Reg(c.a), c)>>
  ELSE IF c.op = "roundtrip" THEN
       <<Clause("text", WellFormed(c.text) /\ BagOf(Parse(c.text)) = Reg(c.a), c), Clause("text_equal", c.res, c)>>
  ELSE IF c.op = "parse" THEN
       \* the set, and the tiles one by one with their red fives
       <<Clause("parse_order", c.res = Parse(c.text), c)>>
  ELSE <<>>
RegClauses(c, after) ==
  [i \in 1..Len(after) |-> Clause(IF c.op = "parse" THEN "parse" ELSE "registers",
                                  BagOf(c.regs[i]) = after[i], <<c.op, i - 1, c.regs[i]>>)]

\* facts about tiles
TileClauses(c) ==
  LET t == c.tile
  IN <<Clause("face", c.kind = Plain(t) /\ c.red = (t > 100) /\ c.suit = (~IsHonor(t)), c),
       Clause("text_of_tile", Parse(c.text) = <<t>> /\ Len(c.text) = 2, c),
       Clause("successor", c.next = Succ(t), c),
       Clause("run", c.flush = RunFrom(t), c),
       Clause("triplet", c.triplet = Repeated(t, 3), c),
       Clause("pair", c.pair = Repeated(t, 2), c),
       Clause("repeat", \A i \in 1..Len(c.repeat) : c.repeat[i] = Repeated(t, i - 1), c)>>
OrderClauses(c) ==
  <<Clause("equal_tiles", \A i \in 1..Len(c.others) : LET o == c.others[i] IN
             o.eq = SameFace(c.tile, o.tile) /\ o.ne = ~SameFace(c.tile, o.tile), c),
    Clause("order", \A i \in 1..Len(c.others) : LET o == c.others[i] IN
             /\ o.lt = Before(c.tile, o.tile) /\ o.gt = Before(o.tile, c.tile)
             /\ o.le = (o.lt \/ SameFace(c.tile, o.tile)) /\ o.ge = (o.gt \/ SameFace(c.tile, o.tile)), c),
    Clause("hash", \A i \in 1..Len(c.others) : LET o == c.others[i] IN SameFace(c.tile, o.tile) => o.samehash, c)>>
SortClauses(c) ==
  <<Clause("sorting", /\ \A i \in 1..Len(c.res) - 1 : ~Before(c.res[i + 1], c.res[i])
                      /\ BagOf(c.res) = BagOf(c.tiles), c)>>

NumberClauses(c) ==
  <<Clause("number", c.tile = TileOfNumber(c.n), c),
    Clause("position", c.cat = <<SuitOf(FaceOf(c.n)), RankOf(FaceOf(c.n)) - 1, CopyOf(c.n)>> /\ c.back = c.n, c),
    Clause("range_of_number", SetOf(c.range) = NumbersOf(c.tile) /\ Distinct(c.range), c)>>
RangeClauses(c) == <<Clause("range", SetOf(c.range) = NumbersOf(c.tile) /\ Distinct(c.range), c)>>
CatClauses(c) ==
  LET n == CatSize(c.cat)
      l == CatList(c.cat)
  IN <<Clause("category_size", c.size = n, c),
       Clause("category_decode", \A i \in 1..n : c.decoded[i] = l[i], c),
       Clause("category_encode", \A i \in 1..n : c.encoded[i] = i - 1, c),
       Clause("category_encode_tuple", \A i \in 1..n : c.encoded2[i] = i - 1, c),
       Clause("category_names", c.names, c),
       Clause("category_beyond", \A i \in 1..Len(c.refused) : c.refused[i], c)>>
OpenCatClauses(c) ==
  <<Clause("category_size", c.size = 0, c),
    Clause("category_decode", \A i \in 1..Len(c.at) : c.decoded[i] = CatAt(c.cat, c.at[i]), c),
    Clause("category_encode", c.encoded = c.at, c),
    Clause("category_encode_tuple", c.encoded2 = c.at, c)>>

DoraClauses(c) ==
  \* the doras of each indicator in turn
  LET want == [t \in Tiles |-> Cardinality({i \in 1..Len(c.ind) : t \in DoraOf(c.ind[i])})]
  IN <<Clause("doras", \A t \in Tiles : Cardinality({i \in 1..Len(c.res) : c.res[i] = t}) = want[t], c),
       Clause("doras_unknown", SetOf(c.res) \subseteq Tiles, c)>>
PopulationClauses(c) ==
  LET want == Population(c.players, c.aka)
  IN <<Clause("population", \A t \in Tiles : Cardinality({i \in 1..Len(c.res) : c.res[i] = t}) = want[t], <<c.players, c.aka>>),
       Clause("population_unknown", SetOf(c.res) \subseteq Tiles, <<c.players, c.aka>>)>>

CallClauses(c) ==
  IF c.raise # "" THEN <<Clause("raise", FALSE, c)>>
  ELSE IF c.op = "tile" THEN TileClauses(c)
  ELSE IF c.op = "order" THEN OrderClauses(c)
  ELSE IF c.op = "sort" THEN SortClauses(c)
  ELSE IF c.op = "number" THEN NumberClauses(c)
  ELSE IF c.op = "range" THEN RangeClauses(c)
  ELSE IF c.op = "category" THEN CatClauses(c)
  ELSE IF c.op = "opencategory" THEN OpenCatClauses(c)
  ELSE IF c.op = "doras" THEN DoraClauses(c)
  ELSE IF c.op = "population" THEN PopulationClauses(c)
  ELSE AnswerClauses(c) \o RegClauses(c, After(c))

Init == step = 0 /\ line \in 1..Len(Trace) /\ regs = [i \in 1..4 |-> [k \in Kinds |-> 0]]
Next == /\ step < Len(Trace[line].calls)
        /\ step' = step + 1
        /\ line' = line
        /\ LET c == Trace[line].calls[step']
           IN /\ Report(line, step', CallClauses(c))
              /\ regs' = IF c.raise = "" THEN TLCEval(After(c)) ELSE regs
TraceSpec == Init /\ [][Next]_<<line, step, regs>>
=============================================================================
