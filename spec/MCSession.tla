------------------------------- MODULE MCSession -------------------------------
(* Every run of both tools.                                                     *)
EXTENDS Session
VARIABLES s
Params == {<<<<"log", "r1">>>>, <<<<"tw", "1">>, <<"log", "r1">>>>, <<<<"log", "r1">>, <<"log", "r2">>>>, <<<<"log", "">>, <<"x", "log">>, <<"log", "r1">>>>}
Init == \E t \in {"report", "extract"}, n \in 3..4, p \in Params, c \in 0..6 : s = Start(t, n, p, c)
Next == \/ CanFetch(s, "log") /\ \E moved \in BOOLEAN : s' = Fetch(s, moved)
        \/ CanFetch(s, "moved") /\ s' = Fetch(s, FALSE)
        \/ CanOffer(s) /\ s' = Offer(s)
        \/ \E w \in Wanted(s) : CanWrite(s, w) /\ s' = Write(s, w)
        \/ CanEnd(s) /\ s' = End(s)
Spec == Init /\ [][Next]_s /\ WF_s(Next)
Named == s.id = "r1"
\* nothing is written that was not asked for; somebody is always served
Asked == /\ s.written \subseteq Wanted(s) /\ Wanted(s) # {}
         /\ s.tool = "report" => \A w \in s.written : w.seat < s.n /\ (s.choice \in 1..s.n => w.seat = s.choice - 1)
All == s.phase = "ended" => s.written = Wanted(s)
Everyone == (s.phase = "ended" /\ s.tool = "report" /\ s.choice \notin 1..s.n) => Cardinality(s.written) = s.n
Ends == <>(s.phase = "ended")
=============================================================================
