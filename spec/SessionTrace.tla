------------------------------ MODULE SessionTrace ------------------------------
(* Recorded runs of the tools: the steps seen from outside (requests, the       *)
(* players offered, the files found afterwards, the end) are steps of Session.  *)
(* A report is about the player whose discards it goes through.                 *)
EXTENDS Session, TraceBase
M == INSTANCE Meld
VARIABLES line, step, st
L == Trace[line]
C == L.calls[step + 1]
\* discards of a seat, hand by hand: kinds of tiles
HandOf(ev, j) == Cardinality({x \in 1..j : ev[x].k = "init"})
DiscardsOf(ev, p) ==
  [h \in 1..Cardinality({x \in 1..Len(ev) : ev[x].k = "init"}) |->
     LET q == SelectSeq([j \in 1..Len(ev) |-> <<ev[j], HandOf(ev, j)>>], LAMBDA x : x[2] = h /\ x[1].k = "discard" /\ x[1].who = p)
     IN [j \in 1..Len(q) |-> M!FaceOfNum(q[j][1].t)]]
StepOf(c, s) ==
  IF c.op = "fetch" /\ CanFetch(s, c.at) THEN Fetch(s, c.moved)
  ELSE IF c.op = "offer" /\ CanOffer(s) THEN Offer(s)
  ELSE IF c.op = "write" /\ CanWrite(s, c.w) THEN Write(s, c.w)
  ELSE IF c.op = "end" THEN End(s) ELSE s
ClausesOf(c, s) ==
  IF c.op = "raise" THEN <<Clause("raise", FALSE, <<c, L.text, L.choice>>)>>
  ELSE IF c.op = "fetch"
  THEN <<Clause("fetch", CanFetch(s, c.at), <<c, s>>),
         Clause("record", c.id = s.id /\ c.at # "odd", <<c, s.id>>),
         Clause("wait", c.wait = L.wait \/ (L.wait = 0 /\ c.wait > 0), <<c, L.wait>>)>>
  ELSE IF c.op = "offer" THEN <<Clause("offer", CanOffer(s) /\ c.seats = [p \in 1..s.n |-> p - 1], <<c, s>>)>>
  ELSE IF c.op = "write"
  THEN <<Clause("written", CanWrite(s, c.w), <<c, s, L.text>>),
         Clause("named", c.id = s.id, <<c, s.id>>),
         Clause("content", c.w.what # "report" \/ c.w.seat >= s.n \/ c.sections = DiscardsOf(L.events, c.w.seat), <<c, L.text>>)>>
  ELSE <<Clause("end", CanEnd(s), <<s, L.text>>)>>
Init == step = 0 /\ line \in 1..Len(Trace) /\ st = Start(Trace[line].tool, Trace[line].n, Trace[line].params, Trace[line].choice)
Next == /\ step < Len(L.calls)
        /\ step' = step + 1
        /\ line' = line
        /\ Report(line, step', ClausesOf(C, st))
        /\ st' = TLCEval(StepOf(C, st))
TraceSpec == Init /\ [][Next]_<<line, step, st>>
=============================================================================
