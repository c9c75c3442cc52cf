------------------------------- MODULE MCTable -------------------------------
(* Every behaviour of small tables: all draws, discards, calls, riichi, dora  *)
(* turns, wins and draws from a few deals, with the trackers of Views folded  *)
(* along.                                                                     *)
EXTENDS Views
CONSTANTS Players,    \* 3 or 4
          Deals,      \* set of deals: [hands, dora]
          MaxHands,   \* hands played
          MaxDepth    \* events of a hand
VARIABLES s,      \* the table
          v,      \* what every tracker shows
          d,      \* events since the deal
          last    \* the event that led here
vars == <<s, v, d, last>>
Deal(hands, dora) == [hands |-> hands, dora |-> dora]
\* four players: runs, triplets, quads by claim; the rest of the pool is the wall
Deals4 == {Deal(<< <<0, 4, 8>>, <<1, 5, 9>>, <<2, 6, 10>>, <<12, 13, 14>> >>, 132),
           Deal(<< <<0, 4, 12>>, <<5, 8, 9>>, <<1, 2, 3>>, <<6, 13, 14>> >>, 132)}
\* three players: norths, added and closed quads
Deals3 == {Deal(<< <<0, 36, 120>>, <<1, 2, 121>>, <<37, 38, 39>> >>, 132),
           Deal(<< <<37, 120, 121>>, <<1, 2, 3>>, <<36, 38, 39>> >>, 132)}
Zero4 == <<250, 250, 250, 250>>
Trackers == {<<t, p>> \in Kinds \X (0..(Players - 1)) : t \in {"dora", "unseen"} => p = 0}
Go == [k |-> "go", type |-> IF Players = 3 THEN 16 ELSE 0]
Un == [k |-> "un", who |-> [j \in 1..Players |-> j - 1], names |-> [j \in 1..Players |-> "x"], dan |-> <<>>, rate |-> <<>>, sx |-> <<>>]
Base == Step(Step(Step(Start, Go), Un), [k |-> "taikyoku", oya |-> 0])
Init == /\ s = Base /\ d = 0
        /\ v = [x \in Trackers |-> IF x[1] \in {"hand"} THEN {} ELSE IF x[1] = "unseen" THEN Pool(Players) ELSE <<>>]
Four(f) == [q \in 1..4 |-> IF q <= s.n THEN f[q - 1] ELSE 0]
InitEvents ==
  {[k |-> "init", kyoku |-> ky, honba |-> hb, sticks |-> s.sticks \div 10, dice |-> <<0, 0>>, dora |-> dl.dora,
    ten |-> IF s.hands = 0 THEN Zero4 ELSE Four(s.ten), oya |-> ky % 4, hands |-> dl.hands] :
      dl \in Deals, ky \in {s.kyoku, s.kyoku + 1} \cap Nat, hb \in {0, s.honba + 1}}
Draws == {[k |-> "draw", who |-> p, t |-> t] : p \in {s.turn, Nxt(s, s.turn)}, t \in Wall(s)}
Discards == {[k |-> "discard", who |-> s.turn, t |-> t] : t \in s.hand[s.turn]}
Call(p, m) == [k |-> "call", who |-> p, m |-> m]
Face(x) == M!FaceOfNum(x)
Chis ==
  IF s.phase # "claim" \/ s.n # 4 THEN {}
  ELSE LET p == Nxt(s, s.turn)  t == Min(s.offered)
           pairs == {<<a, b>> \in s.hand[p] \X s.hand[p] :
                       Face(a) < Face(b) /\ LET A == {Face(a), Face(b), Face(t)} IN Cardinality(A) = 3 /\ Max(A) - Min(A) = 2}
       IN {Call(p, M!ChiCode(M!CallOf("chi", p, s.turn, {x[1], x[2]}, {t}))) : x \in pairs}
Same(p) == {x \in s.hand[p] : Face(x) = Face(Min(s.offered))}
Claims ==
  IF s.phase # "claim" THEN {}
  ELSE UNION {{Call(p, M!PonCode(M!CallOf("pon", p, s.turn, A, s.offered))) : A \in {A \in SUBSET Same(p) : Cardinality(A) = 2}}
              \cup (IF Cardinality(Same(p)) = 3 THEN {Call(p, M!KanCode(M!CallOf("kan", p, s.turn, Same(p), s.offered)))} ELSE {})
              : p \in Seats(s) \ {s.turn}}
Selves ==
  IF s.phase # "act" THEN {}
  ELSE LET p == s.turn  H == s.hand[p]
       IN {Call(p, M!AnkanCode(x)) : x \in {x \in H : M!Quad(Face(x)) \subseteq H /\ x % 4 = 0}}
          \cup {Call(p, M!KitaCode(M!CallOf("kita", p, p, {x}, {}))) : x \in IF s.n = 3 THEN H \cap Norths ELSE {}}
          \cup UNION {{Call(p, M!AddCode(M!CallOf("addkan", p, s.calls[p][i].src, {x}, {}),
                                         M!CallOf("pon", p, s.calls[p][i].src, s.calls[p][i].own, s.calls[p][i].got)))
                       : i \in PonAt(s, p, Face(x))} : x \in H}
Reaches == {[k |-> "reach", who |-> s.turn, step |-> 1, ten |-> <<>>],
            [k |-> "reach", who |-> s.turn, step |-> 2, ten |-> [q \in 1..4 |-> s.ten[q - 1] - IF q - 1 = s.turn THEN 10 ELSE 0]]}
Turned == {[k |-> "dora", t |-> t] : t \in IF s.owed > 0 /\ Wall(s) # {} THEN {Min(Wall(s))} ELSE {}}
Wins ==
  {[k |-> "agari", who |-> p, from |-> IF s.phase = "over" THEN s.from ELSE s.turn,
    hai |-> SetToSortSeq(s.hand[p] \cup {t}, <), ms |-> <<>>, machi |-> t, fu |-> 30, pts |-> 1000, lim |-> 0,
    yaku |-> <<1>>, han |-> <<1>>, yakuman |-> FALSE, dorahai |-> s.doras, ura |-> <<>>, ba |-> <<0, 0>>, base |-> Four(s.ten),
    delta |-> Four([q \in 0..3 |-> s.sticks * (IF q = p THEN 1 ELSE 0) + IF q = p THEN 10 ELSE IF q = (IF s.phase = "over" THEN s.from ELSE IF p = s.turn THEN Nxt(s, p) ELSE s.turn) THEN -10 ELSE 0]),
    fin |-> <<>>] : p \in Seats(s),
                    t \in IF s.phase \in {"over"} THEN {s.machi} ELSE s.offered \cup (IF s.phase = "act" THEN {s.last[s.turn]} ELSE {})}
Evens == {[k |-> "ryuu", type |-> y, ba |-> <<0, 0>>, sc |-> TRUE, base |-> Four(s.ten), delta |-> <<0, 0, 0, 0>>, shown |-> <<>>, fin |-> <<>>]
          : y \in {"", "yao9", "reach4"}}
Events == (IF s.phase \in {"idle", "over"} /\ s.hands < MaxHands THEN InitEvents ELSE {})
          \cup (IF InHand(s) THEN (IF d < MaxDepth THEN Draws \cup Discards \cup Chis \cup Claims \cup Selves \cup Reaches \cup Turned ELSE {})
                                  \cup Wins \cup Evens
                ELSE IF s.phase = "over" THEN Wins ELSE {})
Next == \E e \in {x \in Events : Legal(s, x)} :
          /\ s' = TLCEval(Step(s, e)) /\ last' = e
          /\ v' = TLCEval([x \in Trackers |-> Fold(x[1], x[2], Players, v[x], e)])
          /\ d' = IF e.k = "init" THEN 0 ELSE d + 1
Spec == Init /\ last = <<>> /\ [][Next]_vars

Tiles0 == TilesOk(s) /\ SeenOk(s)
Scores0 == ScoreOk(s)
\* the trackers show the table
Tracked == \A x \in Trackers : v[x] = View(s, Players, x[1], x[2])
\* unseen and revealed tiles make up the set at all times, and the unseen ones are those in hands or in the wall
Partition == Unseen(s, Players) \cup s.seen = Pool(Players) /\ Unseen(s, Players) = Held(s) \cup Wall(s)
\* an event that a tracker does not react to changes nothing it shows, so batches need only look at key events
Quiet == [][\A x \in Trackers : ~Key(x[1], x[2], last') => View(s', Players, x[1], x[2]) = View(s, Players, x[1], x[2])]_vars
\* scores move only with an accepted riichi and with results
Moves == [][s'.ten # s.ten => last'.k \in {"reach", "agari", "ryuu"} \/ (last'.k = "init" /\ s.hands = 0)]_vars
Shown == <<s, v, d>>
=============================================================================
