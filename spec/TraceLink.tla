------------------------------ MODULE TraceLink ------------------------------
(***************************************************************************)
(* Links every recorded project, compares the verdict with what the real   *)
(* generator did, and writes the programs the projects mean to a file.     *)
(***************************************************************************)
EXTENDS Refusal, Json, IOUtils

ASSUME TLCSet(1, 0) /\ TLCSet(2, ndJsonDeserialize(IOEnv.CASES)) /\ TLCSet(3, <<>>)
ASSUME TLCSet(4, LET u == ndJsonDeserialize(IOEnv.UNI) IN {u[i] : i \in 1..Len(u)})
RecProject(k) == TLCGet(2)[k]
RecText(g) == TLCGet(2)[g[1]].files[g[2]].text
RecUni(n) == n \in TLCGet(4)
RecInit == \E k \in 1..Len(TLCGet(2)) : ProjInit(k)
Bad(tag, want, got) == PrintT(<<"BAD", Pj.id, tag, want, got>>)
\* res: what the generator did with the project: "built", "refused", or "" (not asked)
Verdict == Pj.res \in {"", lstage} \/ lstage = "too big" \/ Bad("verdict", <<lstage, lwhy>>, Pj.res)
\* docs: what is said in the generated code, as <<module, rule or "", text>> (asked: whether it was looked at)
Documented == ~Pj.asked \/ Pj.res # "built" \/ lstage # "built" \/ {Pj.docs[i] : i \in 1..Len(Pj.docs)} = Documentation
        \/ Bad("docs", Documentation, Pj.docs)
\* said: what was said when it was refused (told: whether it was looked at)
Told == Pj.told = "" \/ Pj.res # "refused" \/ lstage # "refused" \/ Explains(Pj.said)
        \/ Bad("said", <<lwhy, IF Given(Pj) = "" THEN TextFaults ELSE {}, IF lstage = "refused" /\ linst # <<>> THEN AllFaults ELSE {}>>, Pj.said)
Judge == Linked => /\ Verdict /\ Documented /\ Told
                   /\ TLCSet(1, TLCGet(1) + 1)
                   /\ TLCSet(3, Append(TLCGet(3), [id |-> Pj.id, out |-> Outcome]))
AllJudged == TLCGet(1) = Len(TLCGet(2))
Summary == /\ ndJsonSerialize(IOEnv.CASES \o ".out", TLCGet(3))
           /\ PrintT(<<"JUDGED", TLCGet(1), Len(TLCGet(2)), TLCGet("stats").distinct, TLCGet("stats").generated>>) /\ AllJudged
=============================================================================
