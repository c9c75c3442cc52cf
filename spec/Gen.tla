--------------------------------- MODULE Gen ---------------------------------
(* Generates records: behaviours of Table whose choices (walls, what to do    *)
(* next, what a hand is worth) are resolved by supplied numbers, so that they *)
(* are reproducible and can be biased towards rare events.  Prints one event  *)
(* per step and checks that Table allows it and keeps its invariants.         *)
EXTENDS Table, Json, IOUtils
Plans == ndJsonDeserialize(IOEnv.PLANS)
VARIABLES id, i, s, h, pos, rin, dn, codes
vars == <<id, i, s, h, pos, rin, dn, codes>>

P == Plans[id]
\* the numbers of this step
Rnd(j) == LET q == P.r IN q[((4 * i + j) % Len(q)) + 1]
Weight(g) == P.w[g]
W == P.walls[h]
Init == id \in 1..Len(Plans) /\ i = 0 /\ s = Start /\ h = 0 /\ pos = 0 /\ rin = 0 /\ dn = 0 /\ codes = All(<<>>)
Sorted(S) == TLCEval(SetToSortSeq(TLCEval(S), <))
Faces(S) == {M!FaceOfNum(x) : x \in S}
Face(x) == M!FaceOfNum(x)
Map(q, f(_)) == [j \in 1..Len(q) |-> f(q[j])]
CodeEvents(p, q) == LET v == TLCEval(q) IN TLCEval([j \in 1..Len(v) |-> [k |-> "call", who |-> p, m |-> v[j]]])

-----------------------------------------------------------------------------
(* Candidates, as sequences of events.                                        *)
DrawTile == IF s.phase = "extra" THEN W[Len(W) - rin] ELSE W[pos]
Draws == LET who == IF s.phase = "claim" THEN Nxt(s, s.turn) ELSE s.turn
         IN IF s.phase \in {"deal", "extra"} \/ (s.phase = "claim" /\ Settled(s) /\ s.draws < Live(s.n))
            THEN << [k |-> "draw", who |-> who, t |-> DrawTile] >> ELSE <<>>
Discards ==
  IF s.phase \in {"act", "bare"}
  THEN LET q == IF s.reach[s.turn] = 2 THEN <<s.last[s.turn]>> ELSE Sorted(s.hand[s.turn])
       IN TLCEval([j \in 1..Len(q) |-> [k |-> "discard", who |-> s.turn, t |-> q[j]]])
  ELSE <<>>
\* discarding the tile just drawn has a group of its own, so that turns are often passed
Tsumogiri == IF s.phase = "act" /\ s.reach[s.turn] # 1 THEN << [k |-> "discard", who |-> s.turn, t |-> s.last[s.turn]] >> ELSE <<>>
Reaches ==
  IF s.phase = "act" /\ s.reach[s.turn] = 0 /\ Closed(s, s.turn) /\ s.ten[s.turn] >= 10
  THEN << [k |-> "reach", who |-> s.turn, step |-> 1, ten |-> <<>>] >>
  ELSE IF s.phase = "claim" /\ s.reach[s.turn] = 1
  THEN << [k |-> "reach", who |-> s.turn, step |-> 2,
           ten |-> [q \in 1..4 |-> IF q - 1 = s.turn THEN s.ten[s.turn] - 10 ELSE s.ten[q - 1]]] >>
  ELSE <<>>
CanKan == s.kans < 4 /\ s.draws < Live(s.n)
Ankans ==
  IF s.phase = "act" /\ s.reach[s.turn] # 1 /\ CanKan
  THEN LET H == s.hand[s.turn]
           ks == {f \in Faces(H) : M!Quad(f) \subseteq H}
       IN CodeEvents(s.turn, Sorted({M!AnkanCode(M!NumOf(f, Rnd(3) % 4)) : f \in ks}))
  ELSE <<>>
AddKans ==
  IF s.phase = "act" /\ s.reach[s.turn] = 0 /\ CanKan
  THEN LET who == s.turn
           hits == {x \in s.hand[who] : PonAt(s, who, Face(x)) # {}}
           Code(x) == LET c == s.calls[who][CHOOSE j \in PonAt(s, who, Face(x)) : TRUE]
                      IN M!AddCode(M!CallOf("addkan", who, c.src, {x}, {}), M!CallOf("pon", who, c.src, c.own, c.got))
       IN CodeEvents(who, Sorted({Code(x) : x \in hits}))
  ELSE <<>>
Kitas ==
  IF s.phase = "act" /\ s.n = 3 /\ s.reach[s.turn] # 1 /\ s.draws < Live(s.n)
  THEN CodeEvents(s.turn, Sorted({M!KitaCode(M!CallOf("kita", s.turn, s.turn, {x}, {})) : x \in s.hand[s.turn] \cap Norths}))
  ELSE <<>>
Claimable == s.phase = "claim" /\ Settled(s) /\ s.draws < Live(s.n)
IsRun(A) == Cardinality(A) = 3 /\ Max(A) - Min(A) = 2 /\ Max(A) <= 27 /\ (Min(A) - 1) \div 9 = (Max(A) - 1) \div 9
Chis ==
  IF Claimable /\ s.n = 4
  THEN LET who == Nxt(s, s.turn)
           t == Min(s.offered)
           near == {x \in s.hand[who] : Face(x) - Face(t) \in {-2, -1, 1, 2}}
           pairs == {pr \in near \X near : IsRun({Face(pr[1]), Face(pr[2]), Face(t)}) /\ Face(pr[1]) < Face(pr[2])}
       IN IF s.reach[who] # 0 THEN <<>>
          ELSE CodeEvents(who, Sorted({M!ChiCode(M!CallOf("chi", who, s.turn, {pr[1], pr[2]}, {t})) : pr \in pairs}))
  ELSE <<>>
Others == {p \in Seats(s) : p # s.turn /\ s.reach[p] = 0}
Same(p) == {x \in s.hand[p] : Face(x) = Face(Min(s.offered))}
Pons ==
  IF Claimable
  THEN FlattenSeq(TLCEval([j \in 1..s.n |->
         IF (j - 1) \notin Others \/ Cardinality(Same(j - 1)) < 2 THEN <<>>
         ELSE CodeEvents(j - 1, Sorted({M!PonCode(M!CallOf("pon", j - 1, s.turn, A, s.offered)) : A \in kSubset(2, Same(j - 1))}))]))
  ELSE <<>>
Kans ==
  IF Claimable /\ CanKan
  THEN FlattenSeq(TLCEval([j \in 1..s.n |->
         IF (j - 1) \notin Others \/ Cardinality(Same(j - 1)) < 3 THEN <<>>
         ELSE CodeEvents(j - 1, <<M!KanCode(M!CallOf("kan", j - 1, s.turn, Same(j - 1), s.offered))>>)]))
  ELSE <<>>
Doras == IF s.phase \in {"act", "bare", "claim", "extra"} /\ s.owed > 0 THEN << [k |-> "dora", t |-> W[Len(W) - 8 - dn]] >> ELSE <<>>

-----------------------------------------------------------------------------
(* Results.                                                                   *)
Points == <<10, 13, 20, 26, 39, 52, 77, 80, 120, 160, 240, 320, 10, 15>>
LastHand == h = Len(P.walls)
Four(f) == [q \in 1..4 |-> IF q <= s.n THEN f[q - 1] ELSE 0]
\* sticks left go to the best player at the end; points follow an arbitrary rule of the table
FinOf(ten, sticks) ==
  LET best == CHOOSE p \in Seats(s) : \A q \in Seats(s) : ten[p] > ten[q] \/ (ten[p] = ten[q] /\ p <= q)
  IN [q \in 1..4 |-> IF q > s.n THEN <<0, 0>>
                     ELSE LET v == ten[q - 1] + IF q - 1 = best THEN sticks ELSE 0 IN <<v, v - 300 + P.fin[q]>>]
Win(p, from, machi, more) ==
  LET pts == Points[(Rnd(2) % Len(Points)) + 1]
      first == s.phase # "over"
      bonus == IF first THEN 3 * s.honba ELSE 0
      pot == s.sticks
      each(q) == pts + (IF q = s.oya THEN pts ELSE 0) + (IF first THEN s.honba ELSE 0)
      delta == TLCEval(IF p = from
               THEN [q \in 0..3 |-> IF q >= s.n THEN 0
                                    ELSE IF q = p THEN FoldSet(LAMBDA x, a : a + each(x), 0, Seats(s) \ {p}) + pot ELSE -each(q)]
               ELSE [q \in 0..3 |-> IF q = p THEN pts + bonus + pot ELSE IF q = from THEN -(pts + bonus) ELSE 0])
      yakuman == Rnd(3) % 7 = 0
      n == (Rnd(1) % 4) + 1
      ids == IF yakuman THEN Sorted({37 + (Rnd(1) % 15), 37 + ((IF n = 1 THEN Rnd(1) ELSE Rnd(2)) % 15)})
             ELSE Sorted({(Rnd(2) + j * ((Rnd(3) % 11) + 1)) % 52 : j \in 1..n}) \o << 52 + (Rnd(0) % 3) >>
  IN [k |-> "agari", who |-> p, from |-> from, hai |-> Sorted(s.hand[p] \cup {machi}), ms |-> codes[p],
      machi |-> machi, fu |-> 30, pts |-> 100 * pts, lim |-> IF pts >= 80 THEN 1 ELSE 0,
      yaku |-> ids, han |-> IF yakuman THEN <<>> ELSE [j \in 1..Len(ids) |-> (Rnd(1) + j) % 7], yakuman |-> yakuman,
      dorahai |-> s.doras, ura |-> IF s.reach[p] = 2 THEN << W[Len(W) - 13] >> ELSE <<>>,
      ba |-> <<s.honba, s.sticks \div 10>>, base |-> Four(s.ten), delta |-> Four(delta),
      fin |-> IF LastHand /\ ~more THEN FinOf(TLCEval([q \in 0..3 |-> s.ten[q] + delta[q]]), 0) ELSE <<>>]
\* with the choice whether another player wins on the same tile
More == Rnd(0) % 3 = 0
\* results are worked out only when chosen
WinStub(p, from, machi, more) == [k |-> "win", p |-> p, from |-> from, machi |-> machi, more |-> more]
DrawStub(type, how) == [k |-> "even", type |-> type, how |-> how]
Tsumos == IF s.phase = "act" /\ s.reach[s.turn] # 1 THEN << WinStub(s.turn, s.turn, s.last[s.turn], FALSE) >> ELSE <<>>
Rons ==
  IF s.phase \in {"claim", "extra"} /\ s.offered # {}
  THEN LET q == Sorted(Seats(s) \ {s.turn})
           more == More /\ s.n > 2
       IN TLCEval([j \in 1..Len(q) |-> WinStub(q[j], s.turn, Sorted(s.offered)[(Rnd(3) % Cardinality(s.offered)) + 1], more)])
  ELSE <<>>
\* the winners that follow on the same tile
Seconds ==
  IF s.phase = "over" /\ ~s.drawn /\ s.from \notin s.winners
  THEN LET q == Sorted(Seats(s) \ ({s.from} \cup s.winners))
       IN TLCEval([j \in 1..Len(q) |-> WinStub(q[j], s.from, s.machi, FALSE)])
  ELSE <<>>
Noten ==
  LET k == Rnd(2) % (s.n + 1)
      start == Rnd(3) % s.n
      T0 == {(start + j) % s.n : j \in 0..(k - 1)}
      pool == 10 * (s.n - 1)
  IN [ten |-> T0, delta |-> [q \in 0..3 |-> IF q >= s.n \/ k = 0 \/ k = s.n THEN 0
                                            ELSE IF q \in T0 THEN pool \div k ELSE -(pool \div (s.n - k))]]
Draw(type, res) ==
  LET ten2 == TLCEval([q \in 0..3 |-> s.ten[q] + res.delta[q]])
  IN [k |-> "ryuu", type |-> type, ba |-> <<s.honba, s.sticks \div 10>>, sc |-> TRUE, base |-> Four(s.ten),
      delta |-> Four(res.delta),
      shown |-> LET q == Sorted(res.ten) IN [j \in 1..Len(q) |-> <<q[j], Sorted(s.hand[q[j]])>>],
      fin |-> IF LastHand THEN FinOf(ten2, s.sticks) ELSE <<>>]
None0 == [ten |-> {}, delta |-> All(0)]
Mangan == LET p == Rnd(2) % s.n IN [ten |-> {p}, delta |-> [q \in 0..3 |-> IF q >= s.n THEN 0 ELSE IF q = p THEN 40 * (s.n - 1) ELSE -40]]
Nines == IF s.phase = "act" /\ s.disc[s.turn] = <<>> /\ s.reach[s.turn] = 0 THEN << DrawStub("yao9", "turn") >> ELSE <<>>
Aborts == IF s.phase = "claim" /\ Settled(s)
          THEN << DrawStub("kaze4", "none"), DrawStub("reach4", "all"), DrawStub("kan4", "none") >>
          ELSE IF s.phase = "claim" THEN << DrawStub("ron3", "none") >> ELSE <<>>
Exhausted == IF s.phase = "claim" /\ Settled(s) /\ s.draws = Live(s.n)
             THEN << DrawStub("", "noten"), DrawStub("", "noten"), DrawStub("nm", "mangan") >> ELSE <<>>
-----------------------------------------------------------------------------
(* Dealing, connection changes, the head of the record.                       *)
Deal ==
  LET first == s.hands = 0
      w == P.walls[h + 1]
      stay == P.hold \/ (~P.rot /\ Rnd(1) % 3 = 0)
      nextk == IF s.n = 3 /\ s.kyoku % 4 = 2 THEN s.kyoku + 2 ELSE s.kyoku + 1
      kyoku == IF first THEN 0 ELSE IF stay \/ nextk >= 4 * (R!Winds(s.code) + 1) THEN s.kyoku ELSE nextk
      begin == IF s.n = 3 THEN 350 ELSE 250
  IN [k |-> "init", kyoku |-> kyoku, honba |-> IF first THEN 0 ELSE IF kyoku = s.kyoku \/ Rnd(2) % 2 = 0 THEN s.honba + 1 ELSE 0,
      sticks |-> IF first THEN 0 ELSE s.sticks \div 10, dice |-> <<Rnd(1) % 6, Rnd(2) % 6>>, dora |-> w[Len(w) - 8],
      ten |-> IF first THEN Four(All(begin)) ELSE Four(s.ten), oya |-> kyoku % 4,
      hands |-> [q \in 1..s.n |-> SubSeq(w, (q - 1) * HandSize + 1, q * HandSize)]]
Next0 == IF s.phase \in {"idle", "over"} /\ h < Len(P.walls) THEN << [k |-> "deal"] >> ELSE <<>>
Conns ==
  IF InHand(s) \/ s.phase \in {"idle", "over"}
  THEN [j \in 1..s.n |-> IF s.conn[j - 1] THEN [k |-> "bye", who |-> j - 1]
                         ELSE [k |-> "un", who |-> <<j - 1>>, names |-> <<s.name[j - 1]>>, dan |-> <<>>, rate |-> <<>>, sx |-> <<>>]]
  ELSE <<>>
N0 == R!Players(P.code)
Header ==
  IF s.phase # "head" THEN <<>>
  ELSE IF P.shuffle /\ s.seed = "" THEN << [k |-> "shuffle", text |-> "seed"] >>
  ELSE IF s.n = 0 THEN << [k |-> "go", type |-> P.code] >>
  ELSE IF s.named = {} THEN << [k |-> "un", who |-> [j \in 1..N0 |-> j - 1], names |-> [j \in 1..N0 |-> ToString(j - 1)],
                                dan |-> P.dan, rate |-> P.rate, sx |-> P.sx] >>
  ELSE << [k |-> "taikyoku", oya |-> 0] >>

Expand(x) ==
  CASE x.k = "win" -> Win(x.p, x.from, x.machi, x.more)
    [] x.k = "even" -> Draw(x.type, TLCEval(CASE x.how = "turn" -> [ten |-> {s.turn}, delta |-> All(0)]
                                             [] x.how = "all" -> [ten |-> Seats(s), delta |-> All(0)]
                                             [] x.how = "noten" -> Noten
                                             [] x.how = "mangan" -> Mangan
                                             [] OTHER -> None0))
    [] x.k = "deal" -> Deal
    [] OTHER -> x

\* groups with the index of their weight
Groups == << <<1, Draws>>, <<2, Discards>>, <<3, Tsumogiri>>, <<4, Reaches>>, <<5, Ankans>>, <<6, AddKans>>, <<7, Kitas>>,
             <<8, Chis>>, <<9, Pons>>, <<10, Kans>>, <<11, Doras>>, <<12, Tsumos>>, <<13, Rons>>, <<14, Seconds>>,
             <<15, Nines>>, <<16, Aborts>>, <<17, Exhausted>>, <<18, Next0>>, <<19, Conns>>, <<20, Header>> >>
Open0 == TLCEval(SelectSeq(Groups, LAMBDA g : Weight(g[1]) > 0 /\ g[2] # <<>>))
\* a first win of several is followed by another one; a discard that must come does come
Options ==
  IF s.phase = "over" /\ LastHand THEN SelectSeq(Open0, LAMBDA g : g[1] = 14) ELSE Open0
RECURSIVE Pick(_, _)
Pick(gs, x) == IF x < Weight(gs[1][1]) THEN gs[1][2] ELSE Pick(Tail(gs), x - Weight(gs[1][1]))
TotalOf(gs) == FoldLeft(LAMBDA a, g : a + Weight(g[1]), 0, gs)

Emit(e) == PrintT("EV|" \o ToJson([id |-> id, i |-> i, e |-> e]))
\* values are bound by quantifiers, as TLC evaluates definitions in actions again at every use
Next ==
  /\ s.phase # "end"
  /\ \E gs \in {TLCEval(Options)} :
     /\ Len(gs) > 0
     /\ \E evs \in {Pick(gs, Rnd(0) % TotalOf(gs))} :
        \E e \in {TLCEval(Expand(evs[(Rnd(1) % Len(evs)) + 1]))} :
        \E t \in {TLCEval(Step(s, e))} :
           /\ Assert(Legal(s, e), <<"generated event is not legal", id, i, e>>)
           /\ Assert(TilesOk(t) /\ SeenOk(t) /\ ScoreOk(t), <<"invariant", id, i, e>>)
           /\ Emit(e)
           /\ s' = t /\ id' = id /\ i' = i + 1
           /\ h' = IF e.k = "init" THEN h + 1 ELSE h
           /\ pos' = IF e.k = "init" THEN s.n * HandSize + 1 ELSE IF e.k = "draw" /\ s.phase # "extra" THEN pos + 1 ELSE pos
           /\ rin' = IF e.k = "init" THEN 0 ELSE IF e.k = "draw" /\ s.phase = "extra" THEN rin + 1 ELSE rin
           /\ dn' = IF e.k = "init" THEN 1 ELSE IF e.k = "dora" THEN dn + 1 ELSE dn
           /\ codes' = IF e.k = "init" THEN All(<<>>)
                       ELSE IF e.k # "call" THEN codes
                       ELSE LET c == M!Decode(e.m, e.who)
                            IN IF c.kind = "addkan"
                               THEN [codes EXCEPT ![e.who] = [j \in 1..Len(@) |-> IF j = CHOOSE x \in PonAt(s, e.who, Face(Min(c.own))) : TRUE THEN e.m ELSE @[j]]]
                               ELSE [codes EXCEPT ![e.who] = Append(@, e.m)]
Spec == Init /\ [][Next]_vars
=============================================================================
