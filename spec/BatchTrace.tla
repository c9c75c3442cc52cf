------------------------------ MODULE BatchTrace ------------------------------
(* One tracker (or all of them together) applied to the events of a record in *)
(* batches by different methods (C16).                                        *)
(* line: events, n, tracker, p, keys (key flag of every event), batches       *)
(* [upto, runs]: runs of different methods from the same state, each with     *)
(* method, got: the values obtained, again: the same states read at the end.  *)
EXTENDS Views, TraceBase
VARIABLES li, i, b, s, acc, kacc
vars == <<li, i, b, s, acc, kacc>>
L == Trace[li]
P == 0..(L.n - 1)
Parts == [hand |-> P, calls |-> P, disc |-> P, dora |-> {0}, unseen |-> {0}]
Norm(t, v) == CASE t \in {"hand", "unseen"} -> (IF Cardinality(RangeOf(v)) = Len(v) THEN RangeOf(v) ELSE {-1})
                [] t = "calls" -> TLCEval([j \in 1..Len(v) |-> <<RangeOf(v[j][1]), RangeOf(v[j][2]), v[j][3]>>])
                [] OTHER -> v
\* is the recorded value v what the tracker must show for the view w
Truth(t) == IF L.tracker = "all" THEN TLCEval([x \in Kinds |-> [p \in Parts[x] |-> View(t, L.n, x, p)]])
            ELSE View(t, L.n, L.tracker, L.p)
Same(v, w) == IF L.tracker = "all"
              THEN /\ Len(v) = 3 * L.n + 2
                   /\ \A j \in 1..Len(v) : Norm(v[j][1], v[j][3]) = w[v[j][1]][v[j][2]]
                   /\ \A x \in Kinds : \A p \in Parts[x] : \E j \in 1..Len(v) : v[j][1] = x /\ v[j][2] = p
              ELSE Norm(L.tracker, v) = w
IsKey(e) == IF L.tracker = "all" THEN \E x \in Kinds : \E p \in Parts[x] : Key(x, p, e) ELSE Key(L.tracker, L.p, e)
Want(m, a, k, t) == CASE m = "with_events" -> a [] m = "with_key_events" -> k [] OTHER -> <<t>>
AllSame(got, want) == Len(got) = Len(want) /\ \A j \in 1..Len(got) : Same(got[j], want[j])
Init == /\ li \in 1..Len(Trace) /\ i = 0 /\ b = 1 /\ s = Start /\ acc = <<>> /\ kacc = <<>>
Next ==
  /\ i < Len(L.events) /\ li' = li /\ i' = i + 1
  /\ \E e \in {L.events[i + 1]} :
     \E t \in {TLCEval(Step(s, e))} :
     \E a \in {TLCEval(Append(acc, Truth(t)))} :
     \E k \in {IF IsKey(e) THEN Append(kacc, a[Len(a)]) ELSE kacc} :
       /\ Assert(Legal(s, e), <<"not a legal record", li, i, e>>)
       /\ s' = t
       /\ IF L.raise # "" THEN (i > 0 \/ Report(li, i, << <<"raise", FALSE, L.raise>> >>)) /\ UNCHANGED <<b, acc, kacc>>
          ELSE /\ Report(li, i + 1, << <<"key_event", L.keys[i + 1] = IsKey(e), <<L.tracker, L.p, e>> >> >>)
               /\ IF L.batches[b].upto = i + 1
                  THEN /\ \A j \in 1..Len(L.batches[b].runs) :
                            LET r == L.batches[b].runs[j]
                                want == TLCEval(Want(r.method, a, k, a[Len(a)]))
                            IN Report(li, i + 1, << <<"batch", AllSame(r.got, want), <<L.tracker, L.p, r, want>> >>,
                                                    <<"history", AllSame(r.again, want), <<L.tracker, L.p, r>> >> >>)
                       /\ b' = b + 1 /\ acc' = <<>> /\ kacc' = <<>>
                  ELSE b' = b /\ acc' = a /\ kacc' = k
TraceSpec == Init /\ [][Next]_vars
=============================================================================
