--------------------------------- MODULE MCExec ---------------------------------
(* Command sequences over a few properties, all of them up to a length; each  *)
(* is printed to be executed by the code.                                     *)
EXTENDS Exec
CONSTANTS Depth, Size
VARIABLES st, h
vars == <<st, h>>
P(seat, prop) == [scope |-> "player", seat |-> seat, prop |-> prop]
G(prop) == [scope |-> "game", seat |-> -1, prop |-> prop]
C(k, method, v) == k @@ [method |-> method, value |-> v]
Tl(q) == List("tiles", q)
Sets(k, vs) == {C(k, m, v) : m \in {"REPLACE", "ASSERT_EQUAL_OR_SET"}, v \in vs}
Moves(k, vs) == {C(k, m, v) : m \in {"ADD", "REMOVE"}, v \in vs}
Reset(k) == {C(k, "RESET_DEFAULT", <<"none">>)}
Small ==
  Sets(P(0, "hand"), {Tl(<<5, 105>>), Tl(<<105, 5>>), Tl(<<5, 5>>)}) \cup Moves(P(0, "hand"), {Tl(<<5>>), Tl(<<105>>)})
  \cup Sets(P(1, "hand"), {Tl(<<5, 105>>)})
  \cup Sets(P(0, "score"), {Num(25000), Num(24000)}) \cup Moves(P(0, "score"), {Num(1000)})
  \cup Sets(G("dora_indicators"), {Tl(<<1>>)}) \cup Moves(G("dora_indicators"), {Tl(<<2>>)})
  \cup Reset(P(0, "round")) \cup Moves(P(0, "round"), {Num(1)}) \cup Reset(P(0, "fixed_meld"))
  \cup Moves(P(0, "fixed_meld"), {<<"melds", << <<1, 2, 3>> >> >>})
Large == Small
  \cup Sets(P(1, "name"), {Str("1e3"), Str("NA")}) \cup Sets(P(1, "in_richii"), {Bool(TRUE), Bool(FALSE)})
  \cup Sets(G("richii_remain_scores"), {Num(0), Num(1000)}) \cup Sets(P(2, "meld_public_tiles"), {Tl(<<>>), Tl(<<7, 7>>)})
  \cup Moves(P(2, "meld_public_tiles"), {Tl(<<7>>), Tl(<<7, 8>>)}) \cup Reset(P(2, "meld_public_tiles"))
  \cup Sets(P(3, "discard_from_hand"), {<<"empty">>}) \cup Moves(P(3, "discard_from_hand"), {<<"bools", <<TRUE>>>>, <<"bools", <<FALSE>>>>})
  \cup Sets(P(3, "faans"), {<<"strs", <<"a", "b">>>>, <<"strs", <<"b", "a">>>>, <<"empty">>})
  \cup Sets(P(2, "extra_level"), {<<"num", 150050>>, <<"none">>}) \cup Sets(G("extra_reason"), {<<"none">>, Str("x")}) \cup Sets(G("round"), {Num(1)}) \cup Sets(P(0, "final_score"), {Num(100)})
Cmds == IF Size = "small" THEN Small ELSE Large
Init == st = <<>> /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E x \in {y \in Cmds : Defined(y.method, Get(st, Key(y)), y.value)} : st' = Apply(st, x) /\ h' = Append(h, x)
Spec == Init /\ [][Next]_vars
\* a command touches its own property only, and setting what is expected twice contradicts nothing
Local == [][\A k \in DOMAIN st : st[k] # Get(st', k) => k = Key(h'[Len(h')])]_vars
Agreed == \A x \in Cmds : x.method = "ASSERT_EQUAL_OR_SET" => ~Contradicts(Apply(st, x), x)
\* taking away what was added restores the value, up to the order of tiles
Undone == \A x \in Cmds : LET k == Key(x)  old == Get(st, k) IN
  x.method = "ADD" /\ Defined("ADD", old, x.value) =>
    LET s1 == Apply(st, x)  IN Defined("REMOVE", Get(s1, k), x.value)
       /\ LET r == Result(k, "REMOVE", Get(s1, k), x.value)
          IN IF r[1] \in {"bools", "strs"} THEN Len(r[2]) = Len(Elems(old))
             ELSE IF r[1] = "melds" THEN r = old ELSE Same(k, r, old)
Show == Len(h) = Depth => PrintT("SEQ|" \o ToJson(h))
=============================================================================
