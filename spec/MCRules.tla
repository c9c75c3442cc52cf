------------------------------- MODULE MCRules -------------------------------
(* Every rule code: the name determines the rules that it spells, and codes   *)
(* with the same rules have the same name.                                    *)
EXTENDS Rules
VARIABLE code
Init == code = 0
Next == code < 2047 /\ code' = code + 1
Spec == Init /\ [][Next]_code
\* decode a name again
Has(s, p) == \E i \in 1..Len(s) : s[i] = p
NameTells == LET s == NameOf(code) IN
  /\ (s[1] = 19977) = (Players(code) = 3)
  /\ Has(s, 36196) = HasAka(code)
  /\ Has(s, 21936) = OpenTanyao(code)
  /\ Has(s, 36895) = Fast(code)
  /\ Has(s, 26263) = Shadow(code)
  /\ Has(s, 31069) = (Tips(code) > 0)
SameName == \A b \in {0, 11, 12, 13, 14, 15} : LET d == code + (IF Bit(code, b) = 0 THEN 2 ^ b ELSE 0) IN
  SameRules(code, d) /\ NameOf(code) = NameOf(d)
=============================================================================
