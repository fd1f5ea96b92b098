---------------------------- MODULE TraceHistory -----------------------------
(***************************************************************************)
(* Replays every recorded history and compares all answers.                *)
(***************************************************************************)
EXTENDS History, Json, IOUtils

ASSUME TLCSet(1, 0) /\ TLCSet(2, ndJsonDeserialize(IOEnv.CASES))
ASSUME TLCSet(4, LET u == ndJsonDeserialize(IOEnv.UNI) IN {u[i] : i \in 1..Len(u)})
RecHistory(k) == TLCGet(2)[k]
RecUni(n) == n \in TLCGet(4)
RecInit == \E k \in 1..Len(TLCGet(2)) : HistoryInit(k)
Bad(tag, want, got) == PrintT(<<"BAD", Record(proj[1]).id, tag, want, got>>)
Judge == /\ Deserved \/ Bad("deserved", <<proj[2], lstage, lwhy>>, Here.res)
         /\ SameAgain \/ Bad("again", <<proj[2]>>, Here.dig)
         /\ ~Answered \/ proj[2] < Len(Record(proj[1]).steps) \/ TLCSet(1, TLCGet(1) + 1)
AllJudged == TLCGet(1) = Len(TLCGet(2))
Summary == PrintT(<<"JUDGED", TLCGet(1), Len(TLCGet(2)), TLCGet("stats").distinct, TLCGet("stats").generated>>) /\ AllJudged
=============================================================================
