------------------------------- MODULE MCRouting -------------------------------
(* Every way to register up to MaxRegs translations of a small menu, and every  *)
(* event of a small set: what is special wins over what is general, what was    *)
(* registered first over what came later, and an event is only left without     *)
(* commands when nobody has any.                                                *)
EXTENDS Routing, Json
CONSTANTS MaxRegs
VARIABLE reg
One == <<[key |-> "k1", method |-> "REPLACE", value |-> 1, from |-> "", kind |-> ""]>>
Names == {<<"A">>, <<"A", "B">>}
Attrs == {"x", "y"}
Goes == {<<1>>, <<2, 1>>}
M(how, n, a, g, c) == [how |-> how, names |-> n, attr |-> a, answers |-> g, cmds |-> c, kind |-> "draw"]
Menu == {M("name", n, "", g, One) : n \in Names, g \in Goes}
        \cup {M("attr", <<>>, a, g, One) : a \in Attrs, g \in Goes}
        \cup {M("both", <<"A">>, a, g, One) : a \in Attrs, g \in Goes}
        \cup {M("both", <<"B">>, "x", <<1>>, One), M("name", <<"B">>, "", <<1>>, <<>>)}
        \cup {M("rest", <<>>, "", g, One) : g \in Goes}
Events == {[tag |-> t, attrs |-> a, go |-> g] : t \in {"A", "B"}, a \in {<<>>, <<"x">>, <<"x", "y">>, <<"y", "x">>}, g \in {1, 2}}
Init == reg = <<>>
Register(m) == Len(reg) < MaxRegs /\ reg' = Append(reg, m)
Next == \E m \in Menu : Register(m)
Spec == Init /\ [][Next]_reg

Fits(m, e) == CASE m.how = "name" -> e.tag \in Members(m.names)
                [] m.how = "attr" -> m.attr \in Members(e.attrs)
                [] m.how = "both" -> e.tag \in Members(m.names) /\ m.attr \in Members(e.attrs)
                [] OTHER -> TRUE
Rank(how) == CASE how = "both" -> 1 [] how = "name" -> 2 [] how = "attr" -> 3 [] OTHER -> 4
Can(e) == {i \in 1..Len(reg) : Fits(reg[i], e) /\ Answers(reg[i], e)}
\* somebody answers exactly when somebody can
Heard == \A e \in Events : (Winner(reg, e) = 0) = (Can(e) = {})
\* nobody more special, and nobody of the same kind for the same attribute registered earlier, could have answered
Best == \A e \in Events : Winner(reg, e) # 0 =>
  LET m == Chosen(reg, e)
      at == CHOOSE i \in Can(e) : reg[i] = m /\ \A j \in Can(e) : reg[j] = m => i <= j
  IN \A i \in Can(e) : /\ Rank(reg[i].how) >= Rank(m.how)
                       /\ (reg[i].how = m.how /\ reg[i].attr = m.attr) => i >= at
\* nobody is asked who is not meant
OnlyFits == \A e \in Events : \A i \in 1..Len(Asked(reg, e)) : Fits(Asked(reg, e)[i], e)
\* a newcomer only takes events over from those less special (or for a later attribute)
Newcomer == [][ \A e \in Events : (Winner(reg, e) # 0 /\ Rank(Chosen(reg, e).how) < Rank(reg'[Len(reg')].how)) => Chosen(reg', e) = Chosen(reg, e) ]_reg
Show == Len(reg) < MaxRegs \/ PrintT("SEQ|" \o ToJson(reg))
=============================================================================
