------------------------------- MODULE RecTrace -------------------------------
(* Hands of a record (C12), its summary (C13), questions about events (C34).   *)
EXTENDS Words, TraceBase
VARIABLES li, i, s, g
vars == <<li, i, s, g>>
L == Trace[li]
\* what a hand is, event by event; g: the hands so far
Outcome(e, t) ==
  IF e.k = "ryuu" THEN W0.draw \o " " \o ReasonWord(e.type)
  ELSE IF e.who = e.from THEN t.name[e.who] \o ":" \o W0.tsumo \o "(" \o ToString(e.pts) \o ")"
  ELSE t.name[e.who] \o "<-" \o t.name[e.from] \o ":" \o W0.ron \o "(" \o ToString(e.pts) \o ")"
HandOf(e, at) == [wind |-> e.kyoku \div 4, num |-> e.kyoku % 4, honba |-> e.honba, sticks |-> e.sticks, dora |-> e.dora,
                  oya |-> e.oya, outs |-> <<>>, ends |-> <<>>, evs |-> <<at>>]
After(q, e, t, at) ==
  IF e.k = "init" THEN Append(q, HandOf(e, at))
  ELSE IF q = <<>> THEN q
  ELSE LET k == Len(q)
       IN IF e.k \in {"agari", "ryuu"}
          THEN [q EXCEPT ![k].evs = Append(@, at), ![k].outs = Append(@, Outcome(e, t)), ![k].ends = Append(@, at)]
          ELSE [q EXCEPT ![k].evs = Append(@, at)]
Title(x) == W0.winds[x.wind + 1] \o ToString(x.num + 1) \o W0.kyoku \o ToString(x.honba) \o W0.honba \o " " \o Join(x.outs, ",")

\* C12: every hand owns the events from its deal to the next one
Hands(q, t, o) ==
  << <<"events", o.events = L.events, <<"the record does not have the events of its source">> >>,
     <<"stamps", o.stamps = [j \in 1..Len(L.events) |-> j - 1], o.stamps>>,
     <<"hands", Len(o.hands) = Len(q), <<Len(o.hands), Len(q)>> >>,
     <<"hand_events", Len(o.hands) = Len(q) => \A j \in 1..Len(q) : o.hands[j].events = q[j].evs, <<o.hands, q>> >>,
     <<"hand_playing", Len(o.hands) = Len(q) => \A j \in 1..Len(q) : o.hands[j].playing = Tail(q[j].evs), <<o.hands, q>> >>,
     <<"hand_ends", Len(o.hands) = Len(q) => \A j \in 1..Len(q) : o.hands[j].ends = q[j].ends, <<o.hands, q>> >> >>

\* C13
PlayerText(t, p) == t.name[p] \o " " \o RankWord(t.dan[p]) \o " R" \o Dec2(t.rate[p])
Summary(q, t, o) ==
  LET P == [j \in 1..t.n |-> j - 1]
      fin == t.fin
      order == TLCEval(Standing(t.n, LAMBDA p : fin[p + 1][1]))
      line == RuleName(t.code) \o " "
              \o Join(TLCEval([j \in 1..t.n |-> ToString(j) \o W0.place \o ":" \o t.name[order[j]] \o "(" \o Dec1(fin[order[j] + 1][2]) \o ")"]), ",")
  IN << <<"player_count", Len(o.players) = t.n, o.players>>,
        <<"players", Len(o.players) = t.n => \A j \in 1..t.n : LET x == o.players[j] IN
            x.index = j - 1 /\ x.name = t.name[j - 1] /\ x.level = RankWord(t.dan[j - 1]) /\ x.rate = t.rate[j - 1]
            /\ x.sex = t.sx[j - 1] /\ x.text = PlayerText(t, j - 1), <<o.players, t.name, t.dan, t.rate>> >>,
        <<"rules", o.rules = RuleName(t.code), <<o.rules, RuleName(t.code)>> >>,
        <<"hands", Len(o.hands) = Len(q), o.hands>>,
        <<"hand_facts", Len(o.hands) = Len(q) => \A j \in 1..Len(q) : LET x == o.hands[j]  y == q[j] IN
            x.wind = y.wind /\ x.num = y.num /\ x.honba = y.honba /\ x.sticks = y.sticks /\ x.dora = y.dora /\ x.oya = y.oya,
            <<o.hands, q>> >>,
        <<"hand_text", Len(o.hands) = Len(q) => \A j \in 1..Len(q) : o.hands[j].text = Title(q[j]), <<o.hands, [j \in 1..Len(q) |-> Title(q[j])]>> >>,
        <<"scores", SubSeq(o.scores, 1, t.n) = [j \in 1..t.n |-> 100 * fin[j][1]], <<o.scores, fin>> >>,
        <<"points", SubSeq(o.points, 1, t.n) = [j \in 1..t.n |-> 10 * fin[j][2]], <<o.points, fin>> >>,
        <<"standing", o.text = line, <<o.text, line>> >> >>

\* C13: the description of an event; tiles up to red fives within calls
Plain(q) == T!BagOf(q)
Described(e, x) ==
  CASE e.k = "draw" -> x = [k |-> "draw", who |-> e.who, tile |-> T!TileOfNumber(e.t)]
    [] e.k = "discard" -> x = [k |-> "discard", who |-> e.who, tile |-> T!TileOfNumber(e.t)]
    [] e.k = "call" -> LET c == M!Decode(e.m, e.who)
                           nums(S) == TLCEval([j \in 1..Cardinality(S) |-> T!FaceOf(SetToSeq(S)[j])])
                       IN /\ x.k = "call" /\ x.who = e.who /\ x.src = c.src
                          /\ x.kind = (CASE c.kind \in {"kan", "ankan"} -> "kan" [] OTHER -> c.kind)
                          /\ Plain(x.own) = Plain(nums(c.own)) /\ Plain(x.got) = Plain(nums(c.got))
    [] e.k = "reach" -> x = [k |-> "reach", who |-> e.who]
    [] e.k = "dora" -> x = [k |-> "dora", tile |-> T!TileOfNumber(e.t)]
    [] e.k = "agari" -> x = [k |-> "agari", who |-> e.who, from |-> e.from, pts |-> e.pts]
    [] e.k = "ryuu" -> x = [k |-> "ryuu", reason |-> ReasonWord(e.type)]
    [] OTHER -> x = [k |-> "other"]

Rng(q) == {q[j] : j \in 1..Len(q)}
\* C34: what is true of an event, as a whole and for each player
Whole(e) == (IF e.k \in {"init", "call", "dora", "reach", "agari", "ryuu"} THEN {e.k} ELSE {})
            \cup (IF e.k \in {"agari", "ryuu"} THEN {"end"} ELSE {})
Own(e, p) == IF e.k \notin {"draw", "discard", "call", "reach", "agari"} \/ e.who # p THEN {}
             ELSE {IF e.k = "agari" THEN "win" ELSE e.k}
                  \cup (IF e.k \in {"discard", "call", "agari"} THEN {"choice"} ELSE {})
NumberIf(e, k) == IF e.k = k THEN e.t ELSE -1
TileIf(e, k) == IF e.k = k THEN <<e.who, <<T!TileOfNumber(e.t)>> >> ELSE <<>>
SameCall(e, x) ==
  LET c == M!Decode(e.m, e.who)
  IN /\ Rng(x.own) = c.own /\ Len(x.own) = Cardinality(c.own)
     /\ Rng(x.got) = c.got /\ Len(x.got) = Cardinality(c.got)
     /\ x.src = c.src /\ x.open = (c.got # {})
Answers(e, x, t, q) ==
  << <<"whole", Rng(x.yes) = Whole(e) /\ Len(x.yes) = Cardinality(Whole(e)), <<e, x.yes>> >>,
     <<"drawn", x.drawn = NumberIf(e, "draw") /\ x.drew = TileIf(e, "draw"), <<e, x.drawn, x.drew>> >>,
     <<"dropped", x.dropped = NumberIf(e, "discard") /\ x.left = TileIf(e, "discard"), <<e, x.dropped, x.left>> >>,
     <<"own", Len(x.own) >= 3 /\ \A j \in 1..Len(x.own) : LET y == x.own[j]  w == Own(e, j - 1) IN
         /\ Rng(y.yes) = w /\ Len(y.yes) = Cardinality(w)
         /\ y.drawn = (IF "draw" \in w THEN e.t ELSE -1) /\ y.dropped = (IF "discard" \in w THEN e.t ELSE -1)
         /\ Len(y.call) = (IF "call" \in w THEN 1 ELSE 0) /\ ("call" \in w => SameCall(e, y.call[1])), <<e, x.own>> >>,
     <<"players", e.k \in {"init", "draw", "discard", "call", "agari", "ryuu"} => Len(x.own) = t.n, <<e, Len(x.own)>> >>,
     <<"home", x.home = Len(q) - 1, <<x.home, Len(q)>> >> >>

Init == li \in 1..Len(Trace) /\ i = 0 /\ s = Start /\ g = <<>>
Next ==
  /\ i < Len(L.events) /\ li' = li /\ i' = i + 1
  /\ \E e \in {L.events[i + 1]} :
     \E t \in {TLCEval(Step(s, e))} :
     \E q \in {TLCEval(After(g, e, t, i))} :
       /\ Assert(Legal(s, e), <<"not a legal record", li, i, e>>)
       /\ s' = t /\ g' = q
       /\ IF L.raise # "" THEN (i > 0 \/ Report(li, i, << <<"raise", FALSE, L.raise>> >>))
          ELSE /\ IOEnv.PART = "summary" => Report(li, i + 1, << <<"described", Described(e, L.obs.said[i + 1]), <<e, L.obs.said[i + 1]>> >> >>)
               /\ IOEnv.PART = "asks" => Report(li, i + 1, Answers(e, L.obs.answers[i + 1], t, q))
               /\ (i + 1 = Len(L.events) /\ IOEnv.PART # "asks") =>
                    Report(li, i + 1, IF IOEnv.PART = "hands" THEN Hands(q, t, L.obs) ELSE Summary(q, t, L.obs))
TraceSpec == Init /\ [][Next]_vars
=============================================================================
