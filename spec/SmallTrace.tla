----------------------------- MODULE SmallTrace -----------------------------
(* Conformance of grouping (C12), snapshots (C24), walls (C28, C29) and       *)
(* construction scopes (C31).  A line has a kind and the observations made    *)
(* after each call.                                                           *)
EXTENDS Stages, Persist, Scopes, Wall, TraceBase
Sh == INSTANCE Shape
VARIABLES line, step, st

SetOf(seq) == {seq[i] : i \in 1..Len(seq)}
L == Trace[line]
C == L.calls[step + 1]
NoState == [x |-> 0]

-----------------------------------------------------------------------------
(* Grouping: st = [g |-> group number, off |-> items read of it, gs |-> groups] *)
GInit(l) == [g |-> 0, off |-> 0, gs |-> Groups(l.keys, l.stages)]
GSize(s, g) == s.gs[g][2] - s.gs[g][1] + 1
GAfter(c, s) ==
  IF c.op = "advance" THEN IF s.g < Len(s.gs) THEN [s EXCEPT !.g = @ + 1, !.off = 0]
       \* asking for a group that does not exist leaves the last one behind
       ELSE IF s.g > 0 THEN [s EXCEPT !.off = GSize(s, s.g)] ELSE s
  ELSE IF c.handle = s.g /\ s.g > 0 /\ s.off < GSize(s, s.g) THEN [s EXCEPT !.off = @ + 1]
  ELSE s
GClauses(c, s, l) ==
  IF c.op = "advance"
  THEN IF s.g < Len(s.gs)
       THEN <<Clause("group_missing", ~c.stop, <<l.keys, l.stages, s, c>>),
              Clause("group_key", c.stop \/ (c.known = GroupKey(l.keys, l.stages, s.gs[s.g + 1]).known
                                 /\ c.rest = GroupKey(l.keys, l.stages, s.gs[s.g + 1]).rest), <<l.keys, l.stages, s, c>>)>>
       ELSE <<Clause("group_extra", c.stop, <<l.keys, l.stages, s, c>>)>>
  ELSE IF c.handle = s.g /\ s.off < GSize(s, s.g)
       THEN <<Clause("item_missing", ~c.stop, <<l.keys, l.stages, s, c>>),
              \* without a key function only the key of an item is known
              Clause("item", c.stop \/ (IF c.item > 1000 THEN c.item - 1000 = l.keys[s.gs[s.g][1] + s.off]
                                        ELSE c.item = s.gs[s.g][1] + s.off), <<l.keys, l.stages, s, c>>)>>
       ELSE <<Clause("item_extra", c.stop, <<l.keys, l.stages, s, c>>)>>

-----------------------------------------------------------------------------
(* Snapshots: st = sequence of trees                                          *)
PInit(l) == <<TreeOf(l.start)>>
PAfter(c, s) ==
  IF c.op = "set" THEN Append(s, SetAt(s[c.snap], c.path, c.key, TreeOf(c.value)))
  ELSE IF c.op = "default" THEN Append(s, DefaultAt(s[c.snap], c.path, c.key, TreeOf(c.value)))
  ELSE IF c.op = "drop" THEN Append(s, DropAt(s[c.snap], c.path, c.key))
  ELSE s
PClauses(c, s) ==
  LET n == PAfter(c, s)
  IN IF c.op = "mutate" THEN
       <<Clause("mutation_allowed", c.refused, c),
         Clause("changed_by_mutation", \A i \in 1..Len(s) : TreeOf(c.seen[i]) = s[i], c)>>
     ELSE IF c.op = "meddle" THEN
       <<Clause("changed_by_caller", Len(c.seen) = Len(s) /\ \A i \in 1..Len(s) : TreeOf(c.seen[i]) = s[i], c)>>
     ELSE <<Clause("snapshots", Len(c.seen) = Len(n), c),
            Clause("update_wrong", Len(c.seen) = Len(n) => TreeOf(c.seen[Len(n)]) = n[Len(n)], <<c, n[Len(n)]>>),
            Clause("earlier_changed", Len(c.seen) = Len(n) => \A i \in 1..(Len(n) - 1) : TreeOf(c.seen[i]) = n[i], c),
            Clause("flat_view", Len(c.seen) = Len(n) =>
                     /\ {c.flat[i][1] : i \in 1..Len(c.flat)} = {p \in DOMAIN n[Len(n)] : n[Len(n)][p] # 0}
                     /\ \A i \in 1..Len(c.flat) : c.flat[i][2] = n[Len(n)][c.flat[i][1]], <<c.flat, n[Len(n)]>>)>>

-----------------------------------------------------------------------------
(* Walls: st = sequence of walls, samplings = sequence of walls               *)
WInit(l) == [walls |-> <<InWall(l.start)>>, iters |-> <<>>]
WAfter(c, s) ==
  IF c.op = "pick" THEN [s EXCEPT !.walls = Append(@, Draw(s.walls[c.wall], c.tile))]
  ELSE IF c.op = "sampler" THEN [s EXCEPT !.iters = Append(@, [wall |-> s.walls[c.wall], left |-> c.count])]
  ELSE IF c.op = "next" /\ ~c.stop THEN
    [s EXCEPT !.iters[c.iter].wall = IF CanDraw(@, c.tile) THEN Draw(@, c.tile) ELSE @, !.iters[c.iter].left = IF @ > 0 THEN @ - 1 ELSE 0]
  ELSE s
WallSeen(c, ws) == \A i \in 1..Len(ws) : \A k \in 1..34 : (c.weights[i][k] > 0) = CanDraw(ws[i], k)
WClauses(c, s) ==
  LET n == WAfter(c, s)
  IN <<Clause("wall_changed", Len(c.weights) = Len(n.walls) /\ WallSeen(c, n.walls), c)>>
     \o (IF c.op = "next" THEN
           IF s.iters[c.iter].left = 0 THEN <<Clause("too_many_draws", c.stop, c)>>
           ELSE <<Clause("draw_missing", ~c.stop, c),
                  Clause("drawn_not_left", c.stop \/ CanDraw(s.iters[c.iter].wall, c.tile), <<c, s.iters[c.iter]>>)>>
         ELSE IF c.op = "all" THEN
           <<Clause("exhausting", InWall(c.tiles) = s.walls[c.wall], c),
             Clause("draw_order", DrawsOk(s.walls[c.wall], c.tiles), c)>>
         ELSE IF c.op = "many" THEN
           <<Clause("sample_size", \A i \in 1..Len(c.samples) : Len(c.samples[i]) = c.count, c),
             Clause("drawn_not_left", \A i \in 1..Len(c.samples) : DrawsOk(s.walls[c.wall], c.samples[i]), c),
             Clause("never_comes", c.trials >= 200 =>
                   {c.samples[i][1] : i \in 1..Len(c.samples)} = {k \in 1..34 : CanDraw(s.walls[c.wall], k)}, c),
             Clause("unfair", c.trials >= 200 =>
                   \A j \in {1, c.count} : Fair(s.walls[c.wall], [i \in 1..Len(c.samples) |-> c.samples[i][j]]), c)>>
         ELSE <<>>)

-----------------------------------------------------------------------------
(* The win rate tool: hand, experiments (drawn tiles), reported rows          *)
Std == [t |-> "n", m |-> 4, p |-> 1]
Seven == [t |-> "u", m |-> 0, p |-> 7]
\* the kinds that may be discarded from the hand so that hand and drawn tiles contain a winning hand
WinningDiscards(hand, drawn) ==
  LET all == Sh!BagOf(hand \o drawn)
      std == TLCEval(Sh!DiscardCosts(all, Std, FALSE))
      sev == TLCEval(Sh!DiscardCosts(all, Seven, FALSE))
  IN {k \in Sh!Kinds : all[k] > 0 /\ (std[k][1] = 0 \/ sev[k][1] = 0)}
RClauses(c) ==
  LET drawn == {c.drawn[e] : e \in 1..Len(c.drawn)}
      winning == TLCEval([d \in drawn |-> WinningDiscards(c.hand, d)])
      wins == TLCEval([e \in 1..Len(c.drawn) |-> winning[c.drawn[e]]])
      held == {Sh!PlainKind(c.hand[i]) : i \in 1..Len(c.hand)}
      n == Len(c.drawn)
      left == [k \in 1..34 |-> 4 - Cardinality({i \in 1..Len(c.hand) : Sh!PlainKind(c.hand[i]) = k})]
  IN <<Clause("rows_once", {c.rows[i].tile : i \in 1..Len(c.rows)} = held /\ Len(c.rows) = Cardinality(held), <<c.hand, c.rows>>),
       Clause("experiments", n = c.tries /\ \A e \in 1..n : Len(c.drawn[e]) = c.count, <<c.tries, c.count, c.drawn>>),
       Clause("drawn_not_left", \A e \in 1..n : DrawsOk(left, c.drawn[e]), <<c.hand, c.drawn>>),
       Clause("win_count", \A i \in 1..Len(c.rows) : LET r == c.rows[i] IN
                 r.total = n /\ r.wins = Cardinality({e \in 1..n : r.tile \in wins[e]}), <<c.hand, c.drawn, c.rows>>),
       Clause("win_rate", \A i \in 1..Len(c.rows) : LET r == c.rows[i]
                                                        exact == (r.wins * 10000) \div r.total
                                                    IN r.rate \in exact..(exact + 1), <<c.hand, c.rows>>)>>

-----------------------------------------------------------------------------
(* Scopes: st = the stacks of defaults, one of each family of builders; c.fam
   is the family a call is about.  probe is what a plain builder of every family
   builds afterwards.                                                          *)
AsFields(seq) == TLCEval([x \in {seq[i][1] : i \in 1..Len(seq)} |-> seq[CHOOSE i \in 1..Len(seq) : seq[i][1] = x][2]])
SAfter(c, s) ==
  IF c.op = "enter" THEN [s EXCEPT ![c.fam] = Append(@, AsFields(c.fields))]
  ELSE IF c.op = "leave" THEN [s EXCEPT ![c.fam] = Pop(@)]
  ELSE s
SClauses(c, s) ==
  IF c.op \in {"build", "failbuild"}
  THEN LET want == Over(Merged(s[c.fam]), AsFields(c.fields))
       IN <<Clause("build", AsFields(c.got) = want /\ Len(c.got) = Cardinality(DOMAIN want), <<c, s>>)>>
  ELSE LET now == SAfter(c, s)
       IN <<Clause("defaults", /\ Len(c.probe) = Len(now)
                               /\ \A f \in 1..Len(now) : LET want == Merged(now[f])
                                                        IN AsFields(c.probe[f]) = want /\ Len(c.probe[f]) = Cardinality(DOMAIN want),
                  <<c, now>>)>>

-----------------------------------------------------------------------------
StartOf(l) == IF l.kind = "groups" THEN GInit(l) ELSE IF l.kind = "tree" THEN PInit(l)
              ELSE IF l.kind = "wall" THEN WInit(l) ELSE IF l.kind = "scopes" THEN [f \in 1..l.families |-> <<>>] ELSE NoState
AfterOf(l, c, s) == IF l.kind = "groups" THEN GAfter(c, s) ELSE IF l.kind = "tree" THEN PAfter(c, s)
                    ELSE IF l.kind = "wall" THEN WAfter(c, s) ELSE IF l.kind = "scopes" THEN SAfter(c, s) ELSE s
ClausesOf(l, c, s) ==
  IF c.raise # "" THEN <<Clause("raise", FALSE, c)>>
  ELSE IF l.kind = "groups" THEN GClauses(c, s, l) ELSE IF l.kind = "tree" THEN PClauses(c, s)
  ELSE IF l.kind = "wall" THEN WClauses(c, s) ELSE IF l.kind = "scopes" THEN SClauses(c, s) ELSE RClauses(c)

Init == step = 0 /\ line \in 1..Len(Trace) /\ st = StartOf(Trace[line])
Next == /\ step < Len(L.calls)
        /\ step' = step + 1
        /\ line' = line
        /\ Report(line, step', ClausesOf(L, C, st))
        /\ st' = IF C.raise = "" THEN TLCEval(AfterOf(L, C, st)) ELSE st
TraceSpec == Init /\ [][Next]_<<line, step, st>>
=============================================================================
