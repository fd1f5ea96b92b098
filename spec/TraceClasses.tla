---------------------------- MODULE TraceClasses ----------------------------
(***************************************************************************)
(* For each built-in class: walk the code space from interval to interval  *)
(* and compare what the class denotes with what the library accepted.      *)
(***************************************************************************)
EXTENDS CharClasses, TLC, Json, IOUtils

ASSUME TLCSet(1, 0) /\ TLCSet(2, ndJsonDeserialize(IOEnv.CASES)) /\ TLCSet(3, ndJsonDeserialize("unicode_classes.ndjson"))
VARIABLES ci, at, k, inside
vars == <<ci, at, k, inside>>
Obs == TLCGet(2)[ci]
Denotes(o) == CASE o.kind = "ascii" -> AsciiClass[o.name]
                [] o.kind = "range" -> RangeSet(o.args[1], o.args[2])
                [] o.kind = "str" -> StrSet(o.args[1])
                [] o.kind = "insens" -> InsensSet(o.args[1])
                [] o.kind = "unicode" -> LET t == TLCGet(3)[o.row] IN IF t.name = o.name THEN t.set ELSE <<"no such class">>
Bad(tag, want, got) == PrintT(<<"BAD", Obs.id, tag, want, got>>)

\* at: first code point of the current stretch, which is inside or outside of the class; k: intervals left behind
Init == \E i \in 1..Len(TLCGet(2)) : ci = i /\ at = 0 /\ k = 0 /\ inside = FALSE
More == k < Len(Denotes(Obs))
Enter == More /\ ~inside /\ inside' = TRUE /\ at' = Denotes(Obs)[k + 1][1] /\ UNCHANGED <<ci, k>>
Leave == inside /\ inside' = FALSE /\ at' = Denotes(Obs)[k + 1][2] + 1 /\ k' = k + 1 /\ UNCHANGED ci
Next == Enter \/ Leave

JudgeStretch == \* the observed k-th stretches start and end exactly here
  inside => \A f \in {"acc", "chk"} :
     \/ k + 1 <= Len(Obs[f]) /\ Obs[f][k + 1] = Denotes(Obs)[k + 1]
     \/ Bad(f, Denotes(Obs)[k + 1], IF k + 1 <= Len(Obs[f]) THEN Obs[f][k + 1] ELSE <<>>)
JudgeEnd == (~inside /\ ~More) =>
  /\ \A f \in {"acc", "chk"} : Len(Obs[f]) = k \/ Bad(f, k, Len(Obs[f]))
  /\ Obs.wrong = <<>> \/ Bad("one", <<>>, Obs.wrong)
  /\ Obs.panicked = <<>> \/ Bad("panic", <<>>, Obs.panicked)
  /\ WellFormed(Denotes(Obs)) \/ Bad("spec", "well formed", Denotes(Obs))
  /\ TLCSet(1, TLCGet(1) + 1)
Judge == JudgeStretch /\ JudgeEnd
AllJudged == TLCGet(1) = Len(TLCGet(2))
Summary == PrintT(<<"JUDGED", TLCGet(1), Len(TLCGet(2)), TLCGet("stats").distinct, TLCGet("stats").generated>>) /\ AllJudged
=============================================================================
