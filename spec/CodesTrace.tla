----------------------------- MODULE CodesTrace -----------------------------
(* Conformance of call codes and rule codes.                                  *)
EXTENDS Meld, Rules, TraceBase
VARIABLES line, step
SetOf(seq) == {seq[i] : i \in 1..Len(seq)}
OneEach(seq) == Cardinality(SetOf(seq)) = Len(seq)

KindName == [chi |-> "flush", pon |-> "triplet", kan |-> "kan", ankan |-> "kan", addkan |-> "add_kan", kita |-> "kita"]
MeldClauses(c) ==
  LET d == TLCEval(Decode(c.m, c.who))
  IN <<Clause("call_kind", c.kind = KindName[d.kind] /\ c.isa = KindName[d.kind], <<c, d>>),
       Clause("call_own", SetOf(c.own) = d.own /\ OneEach(c.own), <<c, d>>),
       Clause("call_taken", SetOf(c.got) = d.got /\ OneEach(c.got), <<c, d>>),
       Clause("call_source", c.src = d.src, <<c, d>>),
       Clause("call_opened", c.opened = (d.got # {}), <<c, d>>),
       Clause("open_quad", d.kind \in {"kan", "ankan"} => c.openquad = (d.kind = "kan"), <<c, d>>)>>
ExtendClauses(c) ==
  LET p == Decode(c.pon, c.who)
      a == Decode(c.add, c.who)
      same == {FaceOfNum(n) : n \in p.own} = {FaceOfNum(n) : n \in a.own}
  IN <<Clause("extends", c.extends = same, c),
       Clause("extended_call", same => /\ SetOf(c.own) = p.own \cup a.own /\ SetOf(c.got) = p.got
                                       /\ c.src = p.src /\ c.opened /\ c.openquad, c)>>
RuleClauses(c) ==
  <<Clause("players", c.players = Players(c.code), c),
    Clause("winds", c.winds = Winds(c.code) /\ c.games = Winds(c.code) * Players(c.code), c),
    Clause("aka", c.aka = HasAka(c.code), c),
    Clause("tanyao", c.tanyao = OpenTanyao(c.code), c),
    Clause("level", c.level = Level(c.code), c),
    Clause("speed", c.speed = Fast(c.code), c),
    Clause("shadow", c.shadow = Shadow(c.code), c),
    Clause("tips", c.tips = Tips(c.code) /\ c.withtips = (Tips(c.code) > 0), c),
    Clause("name", c.name = NameOf(c.code), c),
    Clause("same_rules", \A i \in 1..Len(c.others) : LET o == c.others[i] IN
             o.eq = SameRules(c.code, o.code) /\ o.ne = ~SameRules(c.code, o.code), c)>>
CallClauses(c) ==
  IF c.raise # "" THEN <<Clause("raise", FALSE, c)>>
  ELSE IF c.op = "meld" THEN MeldClauses(c)
  ELSE IF c.op = "extend" THEN ExtendClauses(c)
  ELSE RuleClauses(c)
Init == step = 0 /\ line \in 1..Len(Trace)
Next == /\ step < Len(Trace[line].calls)
        /\ step' = step + 1
        /\ line' = line
        /\ Report(line, step', CallClauses(Trace[line].calls[step']))
TraceSpec == Init /\ [][Next]_<<line, step>>
=============================================================================
