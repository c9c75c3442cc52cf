------------------------------- MODULE PaifuTrace -------------------------------
(* The flat export of a record and the light table of its file against the    *)
(* events of the record (C25).  A line has the events, the attributes of      *)
(* every element of the file (raw), the rows of the export and the rows of    *)
(* the light table.  Lists of tiles have no order.                            *)
EXTENDS Universe, TraceBase
VARIABLES li, i, s, a, b
vars == <<li, i, s, a, b>>
L == Trace[li]
None == -999999999
Row(type, who) == [type |-> type, who |-> who, see |-> <<>>, show |-> <<>>, open |-> <<>>, from |-> "", score |-> None]
One(t) == <<T!TileOfNumber(t)>>
CallType(c) == CASE c.kind = "chi" -> "CHI" [] c.kind = "pon" -> "PENG" [] c.kind = "addkan" -> "GANG" [] c.kind = "kita" -> "KITA"
                 [] c.kind = "ankan" -> "ANGANG" [] OTHER -> "MINGGANG"
DoraRow(t) == [Row("DORA", 0) EXCEPT !.see = One(t), !.show = One(t)]
Rows(e, t) ==
  CASE e.k = "init" ->
         [p \in 1..t.n |-> [Row("INIT" \o ToString(p), p - 1) EXCEPT !.see = BagOfSet(RangeOf(Of(e.hands, p - 1))), !.score = 100 * e.ten[p]]]
         \o << DoraRow(e.dora), [Row("ROUND", -1) EXCEPT !.score = 1000 * e.sticks] >>
    [] e.k = "draw" -> << [Row("DRAW", e.who) EXCEPT !.see = One(e.t)] >>
    [] e.k = "discard" -> << [Row("DISCARD", e.who) EXCEPT !.show = One(e.t)] >>
    [] e.k = "call" -> LET c == M!Decode(e.m, e.who) IN
         << [Row(CallType(c), e.who) EXCEPT !.show = BagOfSet(c.own), !.open = BagOfSet(c.own \cup c.got),
                                            !.from = IF c.kind = "kita" THEN "" ELSE ToString(c.src)] >>
    [] e.k = "reach" -> IF e.step = 1 THEN << Row("CALLRICHI", e.who) >>
                        ELSE << Row("RICHI", e.who), [Row("SCORE", e.who) EXCEPT !.score = -1000] >>
    [] e.k = "dora" -> << DoraRow(e.t) >>
    [] e.k = "agari" -> << [Row("WIN", e.who) EXCEPT !.from = ToString(e.from)] >>
    [] e.k = "ryuu" -> << [Row("EVEN", -1) EXCEPT !.from = ReasonWord(e.type)] >>
    [] OTHER -> <<>>
Label(t) == <<"E", "S", "W", "N">>[(t.kyoku \div 4) + 1] \o "-" \o ToString((t.kyoku % 4) + 1) \o "-" \o ToString(t.honba)
Final(t) == [p \in 1..t.n |-> [Row("FIN" \o ToString(p), p - 1) EXCEPT !.score = 100 * t.fin[p][1]]]
Bare(r) == [type |-> r.type, who |-> r.who, see |-> Sorted(r.see), show |-> Sorted(r.show), open |-> Sorted(r.open),
            from |-> r.from, score |-> r.score]
Agree(rows, label, want, at) ==
  /\ at + Len(want) <= Len(rows)
  /\ \A j \in 1..Len(want) : Bare(rows[at + j]) = want[j] /\ rows[at + j].hand = label
Part0(rows, at, n) == SubSeq(rows, at + 1, IF at + n < Len(rows) THEN at + n ELSE Len(rows))

\* the light table
Tag(e) == CASE e.k = "draw" -> <<"T", "U", "V", "W">>[e.who + 1]
            [] e.k = "discard" -> <<"D", "E", "F", "G">>[e.who + 1]
            [] e.k = "shuffle" -> "SHUFFLE" [] e.k = "go" -> "GO" [] e.k = "un" -> "UN" [] e.k = "taikyoku" -> "TAIKYOKU"
            [] e.k = "bye" -> "BYE" [] e.k = "init" -> "INIT" [] e.k = "call" -> "N" [] e.k = "reach" -> "REACH"
            [] e.k = "dora" -> "DORA" [] e.k = "agari" -> "AGARI" [] e.k = "ryuu" -> "RYUUKYOKU"
Turn(e) == e.k \in {"draw", "discard"}
Attrs(e, raw) == IF Turn(e) /\ L.abstract THEN {}
                 ELSE {<<"<tag>", Tag(e)>>} \cup (IF Turn(e) THEN {<<"<tag_extra>", ToString(e.t)>>} ELSE {})
                      \cup {<<raw[j][1], raw[j][2]>> : j \in 1..Len(raw)}
RECURSIVE Upto(_, _)
Upto(j, at) == IF j < Len(L.light) /\ L.light[j + 1].index = at THEN Upto(j + 1, at) ELSE j
Light(e, from, to) ==
  LET want == Attrs(e, L.raw[i + 1])
      got == {<<L.light[j].attr, L.light[j].value>> : j \in (from + 1)..to}
  IN << <<"light", got = want /\ to - from = Cardinality(want), <<"got", got, "want", want>> >>,
        <<"light_tag", \A j \in (from + 1)..to : L.light[j].tag = Tag(e) /\ L.light[j].log = L.log, <<Tag(e), L.log>> >> >>

Init == li \in 1..Len(Trace) /\ i = 0 /\ s = Start /\ a = 0 /\ b = 0
Next ==
  /\ i < Len(L.events) /\ li' = li /\ i' = i + 1
  /\ \E e \in {L.events[i + 1]} :
     \E t \in {TLCEval(Step(s, e))} :
     \E want \in {IF t.kyoku < 0 THEN <<>> ELSE TLCEval(Rows(e, t))} :
     \E to \in {Upto(b, i)} :
       /\ Assert(Legal(s, e), <<"not a legal record", li, i, e>>)
       /\ s' = t /\ a' = a + Len(want) /\ b' = to
       /\ IF L.raise # "" THEN (i > 0 \/ Report(li, i, << <<"raise", FALSE, L.raise>> >>))
          ELSE /\ want = <<>> \/ Report(li, i, << <<"rows", Agree(L.rows, Label(t), want, a), <<Part0(L.rows, a, Len(want)), Label(t), want>> >> >>)
               /\ Report(li, i, Light(e, b, to))
               /\ i + 1 = Len(L.events) =>
                    Report(li, i + 1,
                      << <<"final", Agree(L.rows, "", Final(t), a + Len(want)) /\ Len(L.rows) = a + Len(want) + t.n,
                           Part0(L.rows, a + Len(want), 9)>>,
                         <<"light_rest", to = Len(L.light), <<to, Len(L.light)>> >> >>)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
