---------------------------- MODULE TraceSyntax ----------------------------
(***************************************************************************)
(* What the real grammar parser read from each recorded text, against the  *)
(* reading machine.                                                        *)
(***************************************************************************)
EXTENDS Syntax, TLC, Json, IOUtils

ASSUME TLCSet(1, 0) /\ TLCSet(2, ndJsonDeserialize(IOEnv.CASES))
RecText(k) == TLCGet(2)[k].inp
RecInit == \E k \in 1..Len(TLCGet(2)) : GrammarInit(k)
Row0 == TLCGet(2)[gtext]
Bad(tag, want, got) == PrintT(<<"BAD", Row0.id, tag, want, got>>)
Eq(tag, want, got) == want = got \/ Bad(tag, want, got)

Offset(i) == Bytes(G, i - 1)
\* e with n put for the name x, wherever x stands alone
RECURSIVE Put(_, _, _)
Put(e, x, n) ==
  CASE e[1] = "path" -> IF e[2] = <<x>> THEN n ELSE e
    [] e[1] = "call" -> <<"call", e[2], [i \in 1..Len(e[3]) |-> Put(e[3][i], x, n)]>>
    [] e[1] \in {"seq", "choice"} -> [i \in 1..Len(e) |-> IF i \in {2, 3} THEN Put(e[i], x, n) ELSE e[i]]
    [] e[1] \in {"pos", "neg", "opt", "star", "plus", "rep", "sep"} -> [i \in 1..Len(e) |-> IF i = 2 THEN Put(e[i], x, n) ELSE e[i]]
    [] OTHER -> e
RECURSIVE Mentions(_, _)
Mentions(e, x) ==
  CASE e[1] = "path" -> e[2] = <<x>>
    [] e[1] = "call" -> \E i \in 1..Len(e[3]) : Mentions(e[3][i], x)
    [] e[1] \in {"seq", "choice"} -> Mentions(e[2], x) \/ Mentions(e[3], x)
    [] e[1] \in {"pos", "neg", "opt", "star", "plus", "rep", "sep"} -> Mentions(e[2], x)
    [] OTHER -> FALSE
RuleShape(r) == <<r[1], r[2], r[3], r[4]>>
Verdict ==
  IF gstage = "read" THEN
    IF Row0.res # "ok" THEN Bad("accept", "ok", <<Row0.res, Row0.at>>)
    ELSE /\ Eq("docs", gdocs, Row0.doc)
         /\ Eq("imports", [k \in 1..Len(gimports) |-> SubSeq(gimports[k], 1, 2)], [k \in 1..Len(Row0.imports) |->
                 IF Row0.imports[k][2] = <<>> THEN SubSeq(gimports[k], 1, 2) ELSE Row0.imports[k]])
         /\ IF Len(grules) # Len(Row0.rules) THEN Bad("rules", Len(grules), Len(Row0.rules))
            ELSE \A k \in 1..Len(grules) :
                 /\ Eq("rules", RuleShape(grules[k]), RuleShape(Row0.rules[k]))
                 /\ Eq("expr", grules[k][5], Row0.rules[k][5])
         /\ "puts" \in DOMAIN Row0 => \A k \in 1..Len(grules) : \A i \in 1..Len(Row0.puts[k]) :
               LET u == Row0.puts[k][i]  e == grules[k][5] IN
               Eq("put", <<Mentions(e, u[1]), Put(e, u[1], grules[Len(grules)][5])>>, <<u[2], u[3]>>)
  ELSE IF Row0.res # "err" THEN Bad("reject", "err", <<Row0.res, Row0.rules>>)
  \* the report lies in the text; for a literal or bound that denotes nothing, it starts inside it
  ELSE IF goff = {} THEN
         (0 <= Row0.at[1] /\ Row0.at[1] <= Row0.at[2] /\ Row0.at[2] <= Bytes(G, Len(G)))
           \/ Bad("at", "in the text", Row0.at)
  ELSE (\E o \in goff : Offset(o[1]) <= Row0.at[1] /\ Row0.at[1] < Offset(o[2]) /\ Row0.at[2] > Row0.at[1])
         \/ Bad("at", {<<Offset(o[1]), Offset(o[2])>> : o \in goff}, Row0.at)
Judge == GrammarDone => Verdict /\ TLCSet(1, TLCGet(1) + 1)
AllJudged == TLCGet(1) = Len(TLCGet(2))
Summary == PrintT(<<"JUDGED", TLCGet(1), Len(TLCGet(2)), TLCGet("stats").distinct, TLCGet("stats").generated>>) /\ AllJudged
=============================================================================
