-------------------------------- MODULE Views --------------------------------
(* What the trackers of mahjong.record.state show of the table.               *)
EXTENDS Table
Unseen(s, n) == Pool(n) \ s.seen
CallView(c) == <<c.own, c.got, c.src>>
CallsView(s, p) == LET q == s.calls[p] IN TLCEval([i \in 1..Len(q) |-> CallView(q[i])])
Kinds == {"hand", "calls", "disc", "dora", "unseen"}
View(s, n, t, p) ==
  CASE t = "hand" -> s.hand[p]
    [] t = "calls" -> CallsView(s, p)
    [] t = "disc" -> s.disc[p]
    [] t = "dora" -> s.doras
    [] t = "unseen" -> Unseen(s, n)
\* the events a tracker reacts to
Key(t, p, e) ==
  \/ e.k = "init"
  \/ t = "hand" /\ e.k \in {"draw", "discard", "call"} /\ e.who = p
  \/ t = "calls" /\ e.k = "call" /\ e.who = p
  \/ t = "disc" /\ e.k = "discard" /\ e.who = p
  \/ t = "dora" /\ e.k = "dora"
  \/ t = "unseen" /\ e.k \in {"discard", "call", "dora"}
-----------------------------------------------------------------------------
(* The same views computed event by event from what the events say alone,     *)
(* without the rest of the table: that this is enough is checked in MCTable.  *)
Fold(t, p, n, v, e) ==
  LET c == M!Decode(e.m, e.who)
  IN IF ~Key(t, p, e) THEN v
     ELSE CASE t = "hand" -> (CASE e.k = "init" -> RangeOf(Of(e.hands, p))
                                [] e.k = "draw" -> v \cup {e.t}
                                [] e.k = "discard" -> v \ {e.t}
                                [] OTHER -> v \ c.own)
            [] t = "calls" -> (IF e.k = "init" THEN <<>>
                               ELSE IF c.kind = "addkan"
                               THEN [i \in 1..Len(v) |->
                                       IF \E x \in v[i][2] : \A y \in v[i][1] \cup c.own : M!FaceOfNum(x) = M!FaceOfNum(y)
                                       THEN <<v[i][1] \cup c.own, v[i][2], v[i][3]>> ELSE v[i]]
                               ELSE Append(v, <<c.own, c.got, c.src>>))
            [] t = "disc" -> (IF e.k = "init" THEN <<>> ELSE Append(v, e.t))
            [] t = "dora" -> (IF e.k = "init" THEN <<e.dora>> ELSE Append(v, e.t))
            [] t = "unseen" -> (CASE e.k = "init" -> Pool(n) \ {e.dora}
                                  [] e.k = "call" -> v \ c.own
                                  [] OTHER -> v \ {e.t})
=============================================================================
