------------------------------- MODULE Universe -------------------------------
(* What the universal format says of the table: U(s, seat, property), the     *)
(* value that the property of a seat (-1 for those of the game and of the     *)
(* record) has when the table is in state s.                                  *)
(* A value is a pair of its type and content: <<"num", hundredths>>,          *)
(* <<"bool", b>>, <<"str", text>>, <<"tiles", sorted or ordered codes>>,      *)
(* <<"melds", groups>>, <<"bools", q>>, <<"strs", q>>, <<"empty">> for an     *)
(* empty list whatever its elements would be, <<"unset">> for one that has    *)
(* not been given a value yet.                                                *)
EXTENDS Words
Unset == <<"unset">>
Num(x) == <<"num", 100 * x>>
Points100(x) == <<"num", 10000 * x>>           \* of hundreds of points
Bool(b) == <<"bool", b>>
Str(t) == <<"str", t>>
List(type, q) == IF Len(q) = 0 THEN <<"empty">> ELSE <<type, q>>
CodesOf(q) == TLCEval([i \in 1..Len(q) |-> T!TileOfNumber(q[i])])
Sorted(q) == TLCEval(SortSeq(q, <))
BagOfSet(S) == TLCEval(SortSeq(CodesOf(SetToSeq(S)), <))
TileList(q) == List("tiles", CodesOf(q))
TileBag(S) == List("tiles", BagOfSet(S))
\* every tile of the game, sorted
RECURSIVE Copies(_, _)
Copies(t, k) == IF k = 0 THEN <<>> ELSE <<t>> \o Copies(t, k - 1)
Used(n, aka) == LET pop == T!Population(n, aka)
                    q == TLCEval(SetToSortSeq(T!Tiles, <))
                IN FlattenSeq(TLCEval([i \in 1..Len(q) |-> Copies(q[i], pop[q[i]])]))

Dealt(s) == s.hands > 0
Ever(s) == s.ended \/ s.hands > 1              \* a hand has come to an end
Ranks(s) == LET order == TLCEval(Standing(s.n, LAMBDA p : s.fin[p + 1][1]))
            IN [p \in 0..(s.n - 1) |-> CHOOSE j \in 1..s.n : order[j] = p]

OfPlayer(s, p, prop) ==
  CASE prop = "name" -> IF p \in s.named THEN Str(s.name[p]) ELSE Unset
    [] prop = "level" -> IF p \in s.graded THEN Str(RankWord(s.dan[p])) ELSE Unset
    [] prop = "extra_level" -> IF p \in s.graded THEN <<"num", s.rate[p]>> ELSE Unset
    [] prop = "disconnected" -> IF p \in s.named THEN Bool(~s.conn[p]) ELSE Unset
    [] prop = "is_dealer" -> IF s.oya >= 0 THEN Bool(s.oya = p) ELSE Unset
    [] prop = "hand" -> IF Dealt(s) THEN TileBag(s.hand[p]) ELSE Unset
    [] prop = "in_richii" -> IF Dealt(s) THEN Bool(s.reach[p] > 0) ELSE Unset
    [] prop = "discard_tiles" -> IF Dealt(s) THEN TileList(s.disc[p]) ELSE Unset
    [] prop = "discard_from_hand" -> IF Dealt(s) THEN List("bools", s.cut[p]) ELSE Unset
    [] prop = "fixed_meld" -> IF Dealt(s) THEN LET g == s.groups[p]
                                               IN List("melds", TLCEval([i \in 1..Len(g) |-> BagOfSet(g[i])])) ELSE Unset
    [] prop = "meld_public_tiles" -> IF Dealt(s) THEN List("tiles", Sorted(CodesOf(s.bared[p]))) ELSE Unset
    [] prop = "bonus_tiles" -> IF Dealt(s) THEN List("tiles", Sorted(CodesOf(s.kita[p]))) ELSE Unset
    [] prop = "round" -> IF Dealt(s) THEN Num(Len(s.disc[p])) ELSE Unset
    [] prop = "score" -> IF Dealt(s) THEN Points100(s.ten[p]) ELSE Unset
    [] prop = "is_win" -> IF Ever(s) THEN Bool(s.win[p]) ELSE Unset
    [] prop = "is_self_win" -> IF Ever(s) THEN Bool(s.tsumo) ELSE Unset
    [] prop = "is_discard_lose_game" -> IF Ever(s) THEN Bool(s.lose[p]) ELSE Unset
    [] prop = "faans" -> IF Ever(s) THEN LET y == s.yaku[p]
                                         IN List("strs", TLCEval([i \in 1..Len(y) |-> YakuWord(y[i])])) ELSE Unset
    [] prop = "rank" -> IF s.fin # <<>> THEN Num(Ranks(s)[p]) ELSE Unset
    [] prop = "final_score" -> IF s.fin # <<>> THEN Points100(s.fin[p + 1][1]) ELSE Unset
    [] prop = "final_point" -> IF s.fin # <<>> THEN <<"num", 10 * s.fin[p + 1][2]>> ELSE Unset
OfGame(s, prop) ==
  CASE prop = "wind" -> IF Dealt(s) THEN Num(s.kyoku \div 4) ELSE Unset
    [] prop = "round" -> IF Dealt(s) THEN Num(s.kyoku % 4) ELSE Unset
    [] prop = "sub_round" -> IF Dealt(s) THEN Num(s.honba) ELSE Unset
    [] prop = "dora_indicators" -> IF Dealt(s) THEN TileList(s.doras) ELSE Unset
    [] prop = "richii_remain_scores" -> IF Dealt(s) THEN Points100(s.dep) ELSE Unset
    [] prop = "nobody_win" -> IF Ever(s) THEN Bool(s.nobody) ELSE Unset
    [] prop = "extra_reason" -> IF s.reason = "" THEN Unset
                                ELSE Str(IF s.reason = "exhausted" THEN W0.exhausted ELSE ReasonWord(s.reason))
OfRecord(s, prop) ==
  IF prop = "seed" THEN (IF s.seed = "" THEN Unset ELSE Str(s.seed))
  ELSE IF s.n = 0 THEN Unset
  ELSE CASE prop = "player_count" -> Num(s.n)
         [] prop = "play_level" -> Str((IF R!Tips(s.code) > 0 THEN W0.tiplevels ELSE W0.levels)[R!Level(s.code) + 1])
         [] prop = "show_discard_shadow" -> Bool(R!Shadow(s.code))
         [] prop = "play_wind_count" -> Num(R!Winds(s.code))
         [] prop = "allow_tanyao_open" -> Bool(R!OpenTanyao(s.code))
         [] prop = "speed_up" -> Bool(R!Fast(s.code))
         [] prop = "using_tiles" -> <<"tiles", Used(s.n, R!HasAka(s.code))>>

PlayerProps == {"name", "level", "extra_level", "disconnected", "is_dealer", "hand", "in_richii", "discard_tiles",
                "discard_from_hand", "fixed_meld", "meld_public_tiles", "bonus_tiles", "round", "score", "is_win",
                "is_self_win", "is_discard_lose_game", "faans", "rank", "final_score", "final_point"}
GameProps == {"wind", "round", "sub_round", "dora_indicators", "richii_remain_scores", "nobody_win", "extra_reason"}
RecordProps == {"seed", "player_count", "play_level", "show_discard_shadow", "play_wind_count", "allow_tanyao_open",
                "speed_up", "using_tiles"}
\* a key is <<scope, seat, property>>
Keys(n) == ({"player"} \X (0..(n - 1)) \X PlayerProps) \cup ({"game"} \X {-1} \X GameProps) \cup ({"record"} \X {-1} \X RecordProps)
U(s, k) == CASE k[1] = "player" -> OfPlayer(s, k[2], k[3])
             [] k[1] = "game" -> OfGame(s, k[3])
             [] k[1] = "record" -> OfRecord(s, k[3])

\* which keys are about what
Mirror == {"hand", "discard_tiles", "meld_public_tiles", "fixed_meld", "bonus_tiles", "dora_indicators"}
Money == {"score", "final_score", "final_point", "rank"}
Subject(k) == IF k[3] \in Mirror THEN "tiles" ELSE IF k[3] \in Money THEN "scores" ELSE "facts"

\* values whose elements have no order
Bags == {"hand", "meld_public_tiles", "bonus_tiles", "using_tiles"}
Norm(k, v) ==
  IF v[1] = "tiles" /\ k[3] \in Bags THEN <<"tiles", Sorted(v[2])>>
  ELSE IF v[1] = "melds" THEN <<"melds", TLCEval([i \in 1..Len(v[2]) |-> Sorted(v[2][i])])>>
  ELSE v

\* the kind of event a command is labelled with
KindOf(e, prop) ==
  CASE e.k \in {"shuffle", "go"} -> "record_init"
    [] e.k = "un" -> IF prop = "disconnected" THEN "connect_change" ELSE "record_init"
    [] e.k = "taikyoku" -> "game_init"
    [] e.k = "init" -> IF prop = "dora_indicators" THEN "new_dora" ELSE "game_init"
    [] e.k = "reach" -> "richii"
    [] e.k = "draw" -> "draw"
    [] e.k = "discard" -> "discard"
    [] e.k = "call" -> "open_hand"
    [] e.k = "dora" -> "new_dora"
    [] e.k \in {"agari", "ryuu"} -> IF prop \in {"final_score", "final_point", "rank"} THEN "record_finish" ELSE "game_finish"
    [] e.k = "bye" -> "connect_change"
=============================================================================
