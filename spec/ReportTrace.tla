------------------------------ MODULE ReportTrace ------------------------------
(* The efficiency report of one player against the record (C26, C27): one     *)
(* section per hand, one row per discard of the player.  What a row has to    *)
(* advise follows from the table (tiles held, calls, tiles the player cannot  *)
(* see) and from Shape (what each discard is worth).                          *)
EXTENDS Views, TraceBase
Sh == INSTANCE Shape
VARIABLES li, i, s, riichi, g, k
vars == <<li, i, s, riichi, g, k>>
L == Trace[li]
Part == IOEnv.PART
P == L.seat

KindOfNum(t) == M!FaceOfNum(t)
\* how many tiles of each kind a set of tile numbers has
Tally(S) == TLCEval([f \in Sh!Kinds |-> Cardinality({t \in S : KindOfNum(t) = f})])
TallySeq(q) == TLCEval([f \in Sh!Kinds |-> Cardinality({j \in 1..Len(q) : q[j] = f})])
Hidden(t) == Unseen(t, t.n) \ t.hand[P]
Fixed(t) == Cardinality({j \in 1..Len(t.calls[P]) : t.calls[P][j].kind # "kita"})
Shapes(t) == << [t |-> "n", m |-> 4 - Fixed(t), p |-> 1] >>
             \o (IF Fixed(t) = 0 THEN << [t |-> "u", m |-> 0, p |-> 7] >> ELSE <<>>)

(* What a discard is worth: <<steps before waiting, useful kinds, unseen useful tiles>> *)
Count(cnt, S) == FoldSet(LAMBDA f, a : a + cnt[f], 0, S)
Worth(cnt, c) == <<c[1] - 1, c[2], Count(cnt, c[2])>>
Both(cnt, x, y) == IF x[1] < y[1] THEN Worth(cnt, x) ELSE IF y[1] < x[1] THEN Worth(cnt, y)
                   ELSE Worth(cnt, <<x[1], x[2] \cup y[2]>>)
Over(cnt, costs, f) == IF Len(costs) = 1 THEN Worth(cnt, costs[1][f]) ELSE Both(cnt, costs[1][f], costs[2][f])
Recommended(worth) ==
  LET lo == Min({worth[f][1] : f \in DOMAIN worth})
      A == {f \in DOMAIN worth : worth[f][1] = lo}
      hi == Max({worth[f][3] : f \in A})
  IN {f \in A : worth[f][3] = hi}

Item(it, w) == it.step = w[1] /\ RangeOf(it.useful) = w[2] /\ Len(it.useful) = Cardinality(w[2]) /\ it.count = w[3]
Once(items) == /\ \A j \in 1..Len(items) : Len(items[j].tiles) = 1
               /\ \A a, b \in 1..Len(items) : a # b => items[a].tiles # items[b].tiles
Tiles1(items) == {items[j].tiles[1] : j \in 1..Len(items)}
\* the list of one shape: its best discards
ShapeList(items, cnt, costs) ==
  /\ Once(items)
  /\ Tiles1(items) = Sh!BestDiscards(costs)
  /\ \A j \in 1..Len(items) : Item(items[j], Worth(cnt, costs[items[j].tiles[1]]))
\* a listed discard that is not recommended: worth what it is in one of the shapes, or in both
Listed(it, cnt, costs, worth) ==
  LET f == it.tiles[1] IN Item(it, worth[f]) \/ \E c \in 1..Len(costs) : Item(it, Worth(cnt, costs[c][f]))
Advice(r, t, d) ==
  LET cnt == Tally(Hidden(t))
      bag == Tally(t.hand[P])
      sh == Shapes(t)
      costs == TLCEval([j \in 1..Len(sh) |-> Sh!DiscardCosts(bag, sh[j], TRUE)])
      worth == TLCEval([f \in DOMAIN costs[1] |-> Over(cnt, costs, f)])
      best == TLCEval(Recommended(worth))
      some == CHOOSE f \in best : TRUE
      me == KindOfNum(d)
  IN << <<"recommended", RangeOf(r.best) = best /\ Len(r.best) = Cardinality(best), <<bag, r.best, best>> >>,
        <<"expected", r.es = worth[some][1] /\ r.ec = worth[some][3], <<bag, r.es, r.ec, worth[some]>> >>,
        <<"actual", r.your = <<me>> /\ r.ys = worth[me][1] /\ r.yc = worth[me][3], <<bag, r.your, r.ys, r.yc, worth[me]>> >>,
        <<"listed", Once(r.merged) /\ best \subseteq Tiles1(r.merged) /\ Tiles1(r.merged) \subseteq DOMAIN worth
                    /\ \A j \in 1..Len(r.merged) :
                         IF r.merged[j].tiles[1] \in best THEN Item(r.merged[j], worth[r.merged[j].tiles[1]])
                         ELSE Listed(r.merged[j], cnt, costs, worth), <<bag, r.merged, worth>> >>,
        <<"normal", ShapeList(r.normal, cnt, costs[1]), <<bag, r.normal, costs[1]>> >>,
        <<"seven", IF Len(sh) = 1 THEN r.seven = <<>> ELSE ShapeList(r.seven, cnt, costs[2]), <<bag, r.seven>> >> >>

(* The row as such.                                                           *)
RECURSIVE Quotient(_, _, _)
Quotient(x, u, n) == IF n = 0 THEN x ELSE Quotient(x \div u, u, n - 1)
\* millionths of the part of useful tiles kept
Kept(r, u) ==
  IF r.ec = 0 THEN IF r.ys = r.es THEN 1000000 ELSE 0
  ELSE Quotient((1000000 * r.yc) \div r.ec, u, r.ys - r.es)
Near(a, b) == a - b \in -2..2
CallTally(t) == [j \in 1..Len(t.calls[P]) |-> Tally(t.calls[P][j].own \cup t.calls[P][j].got)]
Row(r, t, d, rii, at) ==
  LET u == Cardinality(Hidden(t))
      calls == CallTally(t)
  IN << <<"number", r.number = at, <<r.number, at>> >>,
        <<"hand_shown", TallySeq(r.hand) = Tally(t.hand[P]), <<r.hand, t.hand[P]>> >>,
        <<"calls_shown", Len(r.melds) = Len(calls) /\ \A c \in 1..Len(calls) :
                            Cardinality({j \in 1..Len(calls) : calls[j] = calls[c]})
                            = Cardinality({j \in 1..Len(calls) : TallySeq(r.melds[j]) = calls[c]}), <<r.melds, t.calls[P]>> >>,
        <<"discard_shown", r.your = <<KindOfNum(d)>>, <<r.your, d>> >>,
        <<"riichi_shown", r.riichi = rii, <<r.riichi, rii>> >>,
        <<"badness_range", r.inside, r.wrong>>,
        <<"badness_best", r.zero = (KindOfNum(d) \in RangeOf(r.best)), <<r.wrong, r.your, r.best>> >>,
        <<"badness", r.ys >= r.es /\ Near(r.wrong + Kept(r, u), 1000000), <<r.wrong, r.es, r.ec, r.ys, r.yc, u>> >> >>

\* one component, no character that is special in a file name, no hidden or option-like beginning, and an extension
SafeFile(f) == f.parts = 1 /\ f.plain /\ f.head /\ f.tail
Whole ==
  << <<"sections", Len(L.sections) = g /\ Len(L.names) = g, <<Len(L.sections), g>> >>,
     <<"captions", \A j \in 1..Min({Len(L.sections), Len(L.names)}) : L.sections[j].name = L.names[j], L.names>>,
     <<"markup", L.odd = <<>>, L.odd>>,
     <<"player_shown", L.player, L.seat>>,
     <<"record_shown", L.record, L.seat>>,
     <<"links", L.plain /\ L.links = L.linkswant, <<L.links, L.linkswant>> >>,
     <<"file_names", L.nfiles = Len(L.files) /\ \A j \in 1..Len(L.files) : SafeFile(L.files[j]), L.files>> >>

Rows(n) == IF n \in 1..Len(L.sections) THEN L.sections[n].rows ELSE <<>>
Judge(t, d, rii) ==
  LET q == Rows(g)
  IN IF k + 1 > Len(q) THEN << <<"row_missing", FALSE, <<g, k + 1>> >> >>
     ELSE IF Part = "advice" THEN Advice(q[k + 1], t, d) ELSE Row(q[k + 1], t, d, rii, k + 1)
Counted == << <<"rows", Len(Rows(g)) = k, <<g, Len(Rows(g)), k>> >> >>

Init == li \in 1..Len(Trace) /\ i = 0 /\ s = Start /\ riichi = FALSE /\ g = 0 /\ k = 0
Next ==
  /\ i < Len(L.events) /\ li' = li /\ i' = i + 1
  /\ \E e \in {L.events[i + 1]} :
     \E t \in {TLCEval(Step(s, e))} :
     \E mine \in {e.k = "discard" /\ e.who = P} :
       /\ Assert(Legal(s, e), <<"not a legal record", li, i, e>>)
       /\ s' = t
       /\ riichi' = IF e.k = "init" THEN FALSE ELSE riichi \/ e.k = "reach"
       /\ g' = IF e.k = "init" THEN g + 1 ELSE g
       /\ k' = IF e.k = "init" THEN 0 ELSE IF mine THEN k + 1 ELSE k
       /\ IF L.raise # "" THEN (i > 0 \/ Report(li, i, << <<"raise", FALSE, L.raise>> >>))
          ELSE /\ ~mine \/ Report(li, i, Judge(s, e.t, riichi))
               /\ ~(e.k = "init" /\ g > 0) \/ Report(li, i, Counted)
               /\ i + 1 < Len(L.events) \/ Report(li, i + 1, Counted \o (IF Part = "cover" THEN Whole ELSE <<>>))
TraceSpec == Init /\ [][Next]_vars
=============================================================================
