---------------------------------- MODULE Exec ----------------------------------
(* Execution of universal commands on a store of properties.                  *)
EXTENDS Universe
Methods == {"REPLACE", "ADD", "REMOVE", "RESET_DEFAULT", "ASSERT_EQUAL_OR_SET"}
IsList(v) == v[1] \in {"empty", "tiles", "melds", "bools", "strs"}
Elems(v) == IF v[1] = "empty" THEN <<>> ELSE v[2]
ListType(a, b) == IF a[1] = "empty" THEN b[1] ELSE a[1]
\* one occurrence of every element of b less
RECURSIVE Less(_, _)
Drop1(q, x) == LET i == CHOOSE j \in 1..Len(q) : q[j] = x /\ \A h \in 1..(j - 1) : q[h] # x IN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Less(q, b) == IF b = <<>> THEN q ELSE Less(Drop1(q, b[1]), Tail(b))
CountOf(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Counters == {"round", "wind", "sub_round", "player_count", "play_wind_count"}
Default(k) == IF k[3] \in Counters THEN Num(0) ELSE <<"empty">>
Key(x) == <<x.scope, x.seat, x.prop>>
Get(st, k) == IF k \in DOMAIN st THEN st[k] ELSE Unset
\* what the property becomes, in the order of the code
Result(k, method, old, v) ==
  CASE method \in {"REPLACE", "ASSERT_EQUAL_OR_SET"} -> v
    [] method = "RESET_DEFAULT" -> Default(k)
    [] method = "ADD" -> IF v[1] = "num" THEN <<"num", old[2] + v[2]>> ELSE List(ListType(old, v), Elems(old) \o Elems(v))
    [] method = "REMOVE" -> IF v[1] = "num" THEN <<"num", old[2] - v[2]>> ELSE List(old[1], Less(Elems(old), Elems(v)))
\* when the result is defined
Defined(method, old, v) ==
  CASE method \in {"ADD", "REMOVE"} ->
         /\ old # Unset
         /\ IF v[1] = "num" THEN old[1] = "num"
            ELSE /\ IsList(v) /\ IsList(old)
                 /\ method = "ADD" => old[1] = "empty" \/ v[1] = "empty" \/ old[1] = v[1]
                 /\ method = "REMOVE" => LET o == Elems(old)  w == Elems(v) IN
                      \A i \in 1..Len(w) : CountOf(o, w[i]) >= CountOf(w, w[i])
    [] OTHER -> TRUE
Same(k, a, b) == IF a[1] \in {"tiles", "empty"} /\ b[1] \in {"tiles", "empty"}
                 THEN (IF k[3] \in {"hand", "meld_public_tiles", "bonus_tiles", "discard_tiles", "dora_indicators"}
                       THEN Sorted(Elems(a)) = Sorted(Elems(b)) ELSE Elems(a) = Elems(b))
                 ELSE a = b
\* an expectation that the store contradicts
Contradicts(st, x) == x.method = "ASSERT_EQUAL_OR_SET" /\ Key(x) \in DOMAIN st /\ ~Same(Key(x), st[Key(x)], x.value)
Put(st, k, v) == (k :> v) @@ st
Apply(st, x) == Put(st, Key(x), Result(Key(x), x.method, Get(st, Key(x)), x.value))
=============================================================================
