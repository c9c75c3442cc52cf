-------------------------------- MODULE Table --------------------------------
(* A game of mahjong as a tenhou log tells it: the state of the table and the *)
(* effect of every kind of event on it.  Step(s, e) is the state after event  *)
(* e, Legal(s, e) says when e may happen in s.  Yaku, fu and points are taken *)
(* as given (they are data of the log); tiles, calls, turns, deposits and     *)
(* scores are modelled.                                                       *)
(* Scores and deposits are in hundreds, as in the log.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt
CONSTANTS HandSize,    \* tiles dealt to each player: 13
          SmallPool,   \* {} for the physical set of tiles, or a small set of tile numbers for exhaustive checking
          LiveDraws    \* 0 for the physical number of draws of a hand, or a small bound
M == INSTANCE Meld
R == INSTANCE Rules
T == INSTANCE Tiles

Pool(n) == IF SmallPool # {} THEN SmallPool
           ELSE IF n = 3 THEN {t \in 0..135 : M!FaceOfNum(t) \notin 2..8} ELSE 0..135
Live(n) == IF LiveDraws > 0 THEN LiveDraws ELSE Cardinality(Pool(n)) - 14 - n * HandSize
Norths == 120..123
Seats(s) == 0..(s.n - 1)
Nxt(s, p) == (p + 1) % s.n
Of(seq, p) == seq[p + 1]                  \* the element of seat p in a list of the log
SumOf(f, S) == FoldSet(LAMBDA p, a : a + f[p], 0, S)

All(v) == [p \in 0..3 |-> v]
Start == [phase |-> "head", n |-> 0, code |-> -1, seed |-> "", oya |-> -1,
          named |-> {}, name |-> All(""), dan |-> All(-127), rate |-> All(-12700), sx |-> All(""), conn |-> All(FALSE),
          graded |-> {},
          kyoku |-> -1, honba |-> 0, sticks |-> 0, dep |-> 0, ten |-> All(0), total |-> 0,
          hand |-> All({}), calls |-> All(<<>>), disc |-> All(<<>>), cut |-> All(<<>>), last |-> All(-1),
          groups |-> All(<<>>), bared |-> All(<<>>), kita |-> All(<<>>), doras |-> <<>>, seen |-> {},
          reach |-> All(0), turn |-> -1, offered |-> {}, owed |-> 0, draws |-> 0, kans |-> 0, hands |-> 0,
          ended |-> FALSE, nobody |-> FALSE, reason |-> "", win |-> All(FALSE), tsumo |-> FALSE, lose |-> All(FALSE),
          yaku |-> All(<<>>), winners |-> {}, from |-> -1, machi |-> -1, drawn |-> FALSE, fin |-> <<>>]

InHand(s) == s.phase \in {"deal", "act", "bare", "extra", "claim"}
Closed(s, p) == \A i \in 1..Len(s.calls[p]) : s.calls[p][i].kind \in {"ankan", "kita"}
\* where every tile of the current hand that has been dealt or drawn is
Held(s) == UNION {s.hand[p] : p \in Seats(s)}
Wall(s) == Pool(s.n) \ (Held(s) \cup s.seen)
RangeOf(q) == {q[i] : i \in 1..Len(q)}

-----------------------------------------------------------------------------
(* Effects.                                                                   *)
StepGo(s, e) == [s EXCEPT !.code = e.type, !.n = R!Players(e.type)]
StepUn(s, e) ==
  LET W == RangeOf(e.who)
      At(p) == CHOOSE i \in 1..Len(e.who) : e.who[i] = p
      full == e.dan # <<>>
  IN [s EXCEPT !.named = @ \cup W,
               !.name = [p \in 0..3 |-> IF p \in W THEN e.names[At(p)] ELSE @[p]],
               !.conn = [p \in 0..3 |-> IF p \in W THEN TRUE ELSE @[p]],
               !.dan = [p \in 0..3 |-> IF full /\ p \in W THEN Of(e.dan, p) ELSE @[p]],
               !.rate = [p \in 0..3 |-> IF full /\ p \in W THEN Of(e.rate, p) ELSE @[p]],
               !.sx = [p \in 0..3 |-> IF full /\ p \in W THEN Of(e.sx, p) ELSE @[p]],
               !.graded = IF full THEN @ \cup W ELSE @]
StepInit(s, e) ==
  [s EXCEPT !.phase = "deal", !.kyoku = e.kyoku, !.honba = e.honba, !.sticks = 10 * e.sticks, !.dep = 10 * e.sticks,
            !.oya = e.oya, !.turn = e.oya,
            !.ten = [p \in 0..3 |-> IF p < s.n THEN Of(e.ten, p) ELSE 0],
            !.total = FoldLeft(+, 0, SubSeq(e.ten, 1, s.n)) + 10 * e.sticks,
            !.hand = [p \in 0..3 |-> IF p < s.n THEN RangeOf(Of(e.hands, p)) ELSE {}],
            !.calls = All(<<>>), !.disc = All(<<>>), !.cut = All(<<>>), !.last = All(-1), !.groups = All(<<>>),
            !.bared = All(<<>>), !.kita = All(<<>>), !.doras = <<e.dora>>, !.seen = {e.dora}, !.reach = All(0),
            !.offered = {}, !.owed = 0, !.draws = 0, !.kans = 0, !.hands = @ + 1, !.ended = FALSE, !.drawn = FALSE,
            !.winners = {}, !.from = -1, !.machi = -1]
StepDraw(s, e) ==
  [s EXCEPT !.phase = "act", !.turn = e.who, !.hand[e.who] = @ \cup {e.t}, !.last[e.who] = e.t, !.draws = @ + 1,
            !.offered = {}]
StepDiscard(s, e) ==
  [s EXCEPT !.phase = "claim", !.turn = e.who, !.hand[e.who] = @ \ {e.t}, !.disc[e.who] = Append(@, e.t),
            !.cut[e.who] = Append(@, e.t # s.last[e.who]), !.last[e.who] = -1, !.seen = @ \cup {e.t},
            !.offered = {e.t}]
\* the triplet of player p that an added tile of face k extends
PonAt(s, p, k) == {i \in 1..Len(s.calls[p]) : s.calls[p][i].kind = "pon" /\ M!FaceOfNum(Min(s.calls[p][i].own)) = k}
StepCall(s, e) ==
  LET c == M!Decode(e.m, e.who)
      k == M!FaceOfNum(Min(c.own))
      part == [kind |-> c.kind, own |-> c.own, got |-> c.got, src |-> c.src]
      i == CHOOSE j \in PonAt(s, e.who, k) : TRUE
  IN [s EXCEPT
        !.phase = IF c.kind \in {"chi", "pon"} THEN "bare" ELSE "extra", !.turn = e.who,
        !.hand[e.who] = @ \ c.own, !.seen = @ \cup c.own, !.last[e.who] = -1,
        !.calls[e.who] = IF c.kind = "addkan"
                         THEN [@ EXCEPT ![i] = [kind |-> "addkan", own |-> @.own \cup c.own, got |-> @.got, src |-> @.src]]
                         ELSE Append(@, part),
        !.groups[e.who] = IF c.kind = "kita" THEN @ ELSE Append(@, c.own \cup c.got),
        !.kita[e.who] = IF c.kind = "kita" THEN @ \o SetToSeq(c.own) ELSE @,
        !.bared[e.who] = @ \o SetToSeq(c.own),
        !.offered = IF c.kind \in {"addkan", "kita", "ankan"} THEN c.own ELSE {},
        !.kans = IF c.kind \in {"kan", "ankan", "addkan"} THEN @ + 1 ELSE @,
        !.owed = IF c.kind \in {"kan", "ankan", "addkan"} THEN @ + 1 ELSE @]
StepReach(s, e) ==
  IF e.step = 1 THEN [s EXCEPT !.reach[e.who] = 1]
  ELSE [s EXCEPT !.reach[e.who] = 2, !.ten[e.who] = @ - 10, !.sticks = @ + 10]
StepDora(s, e) == [s EXCEPT !.doras = Append(@, e.t), !.seen = @ \cup {e.t}, !.owed = @ - 1]
Paid(s, e) == [p \in 0..3 |-> IF p < s.n THEN s.ten[p] + Of(e.delta, p) ELSE 0]
StepAgari(s, e) ==
  [s EXCEPT !.phase = IF e.fin = <<>> THEN "over" ELSE "end",
            !.ten = Paid(s, e), !.sticks = 0, !.ended = TRUE, !.nobody = FALSE,
            !.win = [p \in 0..3 |-> p = e.who], !.tsumo = (e.who = e.from),
            !.lose = [p \in 0..3 |-> e.who # e.from /\ p = e.from],
            !.yaku = [p \in 0..3 |-> IF e.who = e.from \/ p = e.from \/ p = e.who THEN e.yaku ELSE <<>>],
            !.winners = @ \cup {e.who}, !.from = e.from, !.machi = e.machi, !.fin = e.fin]
StepRyuu(s, e) ==
  [s EXCEPT !.phase = IF e.fin = <<>> THEN "over" ELSE "end",
            !.ten = IF e.sc THEN Paid(s, e) ELSE @, !.ended = TRUE, !.drawn = TRUE, !.nobody = TRUE,
            !.reason = IF e.type = "" THEN "exhausted" ELSE e.type,
            !.win = All(FALSE), !.tsumo = FALSE, !.lose = All(FALSE), !.yaku = All(<<>>), !.fin = e.fin]
Step(s, e) ==
  CASE e.k = "shuffle" -> [s EXCEPT !.seed = e.text]
    [] e.k = "go" -> StepGo(s, e)
    [] e.k = "un" -> StepUn(s, e)
    [] e.k = "taikyoku" -> [s EXCEPT !.oya = e.oya, !.phase = "idle"]
    [] e.k = "bye" -> [s EXCEPT !.conn[e.who] = FALSE]
    [] e.k = "init" -> StepInit(s, e)
    [] e.k = "draw" -> StepDraw(s, e)
    [] e.k = "discard" -> StepDiscard(s, e)
    [] e.k = "call" -> StepCall(s, e)
    [] e.k = "reach" -> StepReach(s, e)
    [] e.k = "dora" -> StepDora(s, e)
    [] e.k = "agari" -> StepAgari(s, e)
    [] e.k = "ryuu" -> StepRyuu(s, e)
    [] OTHER -> s

-----------------------------------------------------------------------------
(* When an event may happen.                                                  *)
\* a declared riichi that has not been ronned is paid before anything else happens
Settled(s) == s.phase = "claim" => s.reach[s.turn] # 1
LegalInit(s, e) ==
  /\ s.phase \in {"idle", "over"}
  /\ e.oya = e.kyoku % 4
  /\ e.kyoku < 4 * (R!Winds(s.code) + 1)     \* at most one more wind than agreed
  /\ e.oya \in Seats(s) /\ e.dora \in Pool(s.n)
  /\ \A p \in Seats(s) : Len(Of(e.hands, p)) = HandSize /\ RangeOf(Of(e.hands, p)) \subseteq (Pool(s.n) \ {e.dora})
  /\ Cardinality(UNION {RangeOf(Of(e.hands, p)) : p \in Seats(s)}) = s.n * HandSize
  /\ IF s.hands = 0 THEN e.kyoku = 0 /\ e.honba = 0 /\ e.sticks = 0 /\ e.oya = s.oya
     ELSE /\ 10 * e.sticks = s.sticks
          /\ \A p \in Seats(s) : Of(e.ten, p) = s.ten[p]
          /\ \/ e.kyoku = s.kyoku /\ e.honba = s.honba + 1
             \/ /\ e.kyoku = IF s.n = 3 /\ s.kyoku % 4 = 2 THEN s.kyoku + 2 ELSE s.kyoku + 1
                /\ e.honba \in {0, s.honba + 1}
LegalDraw(s, e) ==
  /\ e.t \in Wall(s) /\ s.draws < Live(s.n)
  /\ \/ s.phase \in {"deal", "extra"} /\ e.who = s.turn
     \/ s.phase = "claim" /\ Settled(s) /\ e.who = Nxt(s, s.turn)
LegalDiscard(s, e) ==
  /\ s.phase \in {"act", "bare"} /\ e.who = s.turn /\ e.t \in s.hand[e.who]
  /\ s.reach[e.who] = 2 => e.t = s.last[e.who]
LegalCall(s, e) ==
  LET c == M!Decode(e.m, e.who)
      k == M!FaceOfNum(Min(c.own))
  IN /\ e.who \in Seats(s) /\ c.own \subseteq s.hand[e.who]
     /\ CASE c.kind = "chi" -> /\ s.n = 4 /\ s.phase = "claim" /\ Settled(s) /\ e.who = Nxt(s, s.turn)
                               /\ s.reach[e.who] = 0
          [] c.kind \in {"pon", "kan"} -> s.phase = "claim" /\ Settled(s) /\ e.who # s.turn /\ s.reach[e.who] = 0
          [] c.kind \in {"ankan", "addkan", "kita"} -> s.phase = "act" /\ e.who = s.turn /\ s.reach[e.who] # 1
          [] OTHER -> FALSE
     /\ c.kind \in {"chi", "pon", "kan"} => c.got = s.offered /\ c.src = s.turn /\ s.draws < Live(s.n)
     /\ c.kind \in {"kan", "ankan", "addkan"} => s.kans < 4 /\ s.draws < Live(s.n)
     /\ c.kind = "addkan" => PonAt(s, e.who, k) # {} /\ s.reach[e.who] = 0
     /\ c.kind = "kita" => s.n = 3 /\ c.own \subseteq Norths /\ s.draws < Live(s.n)
LegalReach(s, e) ==
  IF e.step = 1
  THEN s.phase = "act" /\ e.who = s.turn /\ s.reach[e.who] = 0 /\ Closed(s, e.who) /\ s.ten[e.who] >= 10
  ELSE /\ s.phase = "claim" /\ e.who = s.turn /\ s.reach[e.who] = 1
       /\ \A p \in Seats(s) : Of(e.ten, p) = s.ten[p] - (IF p = e.who THEN 10 ELSE 0)
LegalFin(s, e) == e.fin = <<>> \/ SumOf([p \in 0..3 |-> Of(e.fin, p)[1]], Seats(s)) = s.total
LegalAgari(s, e) ==
  /\ e.who \in Seats(s) /\ e.from \in Seats(s)
  /\ \A p \in Seats(s) : Of(e.base, p) = s.ten[p]
  /\ FoldLeft(+, 0, SubSeq(e.delta, 1, s.n)) = s.sticks
  /\ IF e.who = e.from
     THEN /\ s.phase = "act" /\ e.who = s.turn /\ e.machi = s.last[e.who] /\ RangeOf(e.hai) = s.hand[e.who]
     ELSE /\ e.machi \notin s.hand[e.who] /\ RangeOf(e.hai) = s.hand[e.who] \cup {e.machi}
          /\ \/ s.phase \in {"claim", "extra"} /\ e.from = s.turn /\ e.machi \in s.offered
             \/ s.phase = "over" /\ ~s.drawn /\ e.from = s.from /\ e.machi = s.machi /\ e.who \notin s.winners
  /\ LegalFin(s, e)
LegalRyuu(s, e) ==
  /\ e.sc => /\ \A p \in Seats(s) : Of(e.base, p) = s.ten[p]
             /\ FoldLeft(+, 0, SubSeq(e.delta, 1, s.n)) = 0
  /\ CASE e.type = "yao9" -> s.phase = "act" /\ s.disc[s.turn] = <<>>
       [] e.type = "ron3" -> s.phase \in {"claim", "extra"}
       [] e.type \in {"kaze4", "reach4", "kan4"} -> s.phase = "claim" /\ Settled(s)
       [] e.type \in {"", "nm"} -> s.phase = "claim" /\ Settled(s) /\ s.draws = Live(s.n)
       [] OTHER -> FALSE
  /\ LegalFin(s, e)
Legal(s, e) ==
  CASE e.k = "shuffle" -> s.phase = "head"
    [] e.k = "go" -> s.phase = "head"
    [] e.k = "un" -> IF s.named = {} THEN s.phase = "head" /\ s.n > 0 /\ RangeOf(e.who) = Seats(s)
                     ELSE RangeOf(e.who) \subseteq Seats(s) /\ \A i \in 1..Len(e.who) : e.names[i] = s.name[e.who[i]]
    [] e.k = "taikyoku" -> s.phase = "head" /\ s.named # {} /\ e.oya \in Seats(s)
    [] e.k = "bye" -> s.named # {} /\ e.who \in Seats(s) /\ s.phase # "end"
    [] e.k = "init" -> LegalInit(s, e)
    [] e.k = "draw" -> LegalDraw(s, e)
    [] e.k = "discard" -> LegalDiscard(s, e)
    [] e.k = "call" -> LegalCall(s, e)
    [] e.k = "reach" -> LegalReach(s, e)
    [] e.k = "dora" -> InHand(s) /\ s.owed > 0 /\ e.t \in Wall(s)
    [] e.k = "agari" -> LegalAgari(s, e)
    [] e.k = "ryuu" -> LegalRyuu(s, e)
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* What must always hold.                                                     *)
\* every tile of the game is in exactly one place
TilesOk(s) ==
  s.kyoku >= 0 =>
    /\ \A p, q \in Seats(s) : p # q => s.hand[p] \cap s.hand[q] = {}
    /\ Held(s) \cap s.seen = {}
    /\ Held(s) \subseteq Pool(s.n) /\ s.seen \subseteq Pool(s.n)
    /\ \A p \in Seats(s) : \A i \in 1..Len(s.calls[p]) :
         s.calls[p][i].own \cap s.calls[p][i].got = {} /\ s.calls[p][i].got \subseteq RangeOf(s.disc[s.calls[p][i].src])
    \* a player holds 13 tiles, three less for every call that is not a north, plus the one drawn
    /\ \A p \in Seats(s) :
         LET groups == Cardinality({i \in 1..Len(s.calls[p]) : s.calls[p][i].kind # "kita"})
         IN Cardinality(s.hand[p]) + 3 * groups
              \in (IF InHand(s) THEN {HandSize + IF s.turn = p /\ s.phase \in {"act", "bare"} THEN 1
                                                 ELSE IF s.turn = p /\ s.phase = "extra" THEN 0 ELSE 0}
                   ELSE {HandSize, HandSize + 1})
ScoreOk(s) == s.kyoku >= 0 => SumOf(s.ten, Seats(s)) + s.sticks = s.total
SeenOk(s) ==
  s.kyoku >= 0 =>
    s.seen = RangeOf(s.doras) \cup UNION {RangeOf(s.disc[p]) : p \in Seats(s)}
             \cup UNION {UNION {s.calls[p][i].own : i \in 1..Len(s.calls[p])} : p \in Seats(s)}
=============================================================================
