------------------------------- MODULE MCMeld -------------------------------
(* All legal calls of all seats: coding and decoding are inverse, codes of    *)
(* one seat are unambiguous, and the tiles of a call form its group.          *)
(* Writes the codes to a file for the conformance check.                      *)
EXTENDS Meld, Json, IOUtils
VARIABLES seat, todo, cur
Init == seat \in 0..3 /\ todo = "load" /\ cur = {}
\* one state per chunk of calls
Load == /\ todo = "load" /\ todo' = "check" /\ seat' = seat
        /\ cur' \in {Chis(seat), Pons(seat), Adds(seat), Kans(seat), Ankans(seat), Kitas(seat)}
Next == Load
Spec == Init /\ [][Next]_<<seat, todo, cur>>

FacesOf(S) == {FaceOfNum(n) : n \in S}
GroupOk(c) ==
  LET all == c.own \cup c.got
  IN /\ c.own \cap c.got = {}
     /\ CASE c.kind = "chi" -> Cardinality(c.own) = 2 /\ Cardinality(c.got) = 1 /\ \E k \in RunStarts : FacesOf(all) = {k, k + 1, k + 2}
          [] c.kind = "pon" -> Cardinality(c.own) = 2 /\ Cardinality(c.got) = 1 /\ Cardinality(FacesOf(all)) = 1
          [] c.kind = "kan" -> Cardinality(c.own) = 3 /\ Cardinality(c.got) = 1 /\ Cardinality(FacesOf(all)) = 1
          [] c.kind = "ankan" -> Cardinality(c.own) = 4 /\ c.got = {} /\ Cardinality(FacesOf(all)) = 1
          [] OTHER -> Cardinality(c.own) = 1 /\ c.got = {}
     /\ (c.got # {}) => c.src # c.who
RoundTrip == \A x \in cur : x.m \in 0..65535 /\ Decode(x.m, seat) = x.call /\ GroupOk(x.call)

ASSUME ndJsonSerialize(IOEnv.OUT, <<[codes |-> SetToSeq({x.m : x \in LegalCalls(0)})]>>)
=============================================================================
