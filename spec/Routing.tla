-------------------------------- MODULE Routing --------------------------------
(* Which translation an event gets.  Translations are registered for the       *)
(* events with one of some names, for the events carrying an attribute, for the *)
(* events of a name carrying an attribute, or for whatever is left.  The most   *)
(* special ones are asked first, those of a kind in the order they were         *)
(* registered, and the first that has commands for the event wins.  The         *)
(* commands change a store of numbers which translations can read.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Members(s) == {s[i] : i \in 1..Len(s)}

\* a translation: [id, how, names, attr, answers, cmds, kind]; an event: [tag, attrs, go]
OfBoth(reg, e, a) == SelectSeq(reg, LAMBDA m : m.how = "both" /\ e.tag \in Members(m.names) /\ m.attr = a)
OfName(reg, e) == SelectSeq(reg, LAMBDA m : m.how = "name" /\ e.tag \in Members(m.names))
OfAttr(reg, a) == SelectSeq(reg, LAMBDA m : m.how = "attr" /\ m.attr = a)
OfRest(reg) == SelectSeq(reg, LAMBDA m : m.how = "rest")
\* the translations for an event in the order they are asked; attributes come in the order of the event
Asked(reg, e) == FlattenSeq([i \in 1..Len(e.attrs) |-> OfBoth(reg, e, e.attrs[i])]) \o OfName(reg, e)
                 \o FlattenSeq([i \in 1..Len(e.attrs) |-> OfAttr(reg, e.attrs[i])]) \o OfRest(reg)
Answers(m, e) == e.go \in Members(m.answers) /\ m.cmds # <<>>
\* position of the one that wins among those asked; 0 if none does
Winner(reg, e) == LET q == Asked(reg, e)
                      w == {i \in 1..Len(q) : Answers(q[i], e)}
                  IN IF w = {} THEN 0 ELSE CHOOSE i \in w : \A j \in w : i <= j
Chosen(reg, e) == LET q == Asked(reg, e) IN q[Winner(reg, e)]

(* Commands: [key, method, value, from, kind]; from names what the translation  *)
(* reads before it answers.                                                     *)
After1(store, c, v) ==
  CASE c.method = "ADD" -> [store EXCEPT ![c.key] = @ + v]
    [] c.method = "REMOVE" -> [store EXCEPT ![c.key] = @ - v]
    [] c.method = "RESET_DEFAULT" -> [store EXCEPT ![c.key] = 0]
    [] OTHER -> [store EXCEPT ![c.key] = v]
\* the value a command carries, given what the translation could see
ValueOf(seen, c) == IF c.from = "" THEN c.value ELSE c.value + seen[c.from]
\* stores after each command of a translation
Stores(store, cmds) ==
  LET vals == [i \in 1..Len(cmds) |-> ValueOf(store, cmds[i])]
      all[i \in 0..Len(cmds)] == IF i = 0 THEN store ELSE After1(all[i - 1], cmds[i], vals[i])
  IN all
StoreAfter(store, reg, e) ==
  IF Winner(reg, e) = 0 THEN store ELSE LET m == Chosen(reg, e) IN Stores(store, m.cmds)[Len(m.cmds)]
\* what comes out: key, kind, value and state of every command
Outcome(store, reg, e) ==
  IF Winner(reg, e) = 0 THEN <<>>
  ELSE LET m == Chosen(reg, e)
           s == Stores(store, m.cmds)
       IN [i \in 1..Len(m.cmds) |-> [key |-> m.cmds[i].key, kind |-> IF m.cmds[i].kind # "" THEN m.cmds[i].kind ELSE m.kind,
                                     value |-> IF m.cmds[i].method = "RESET_DEFAULT" THEN 0 ELSE ValueOf(store, m.cmds[i]),
                                     st |-> s[i][m.cmds[i].key]]]
=============================================================================
