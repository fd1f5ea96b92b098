---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Judges what the real tracker reports after a script of events.          *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils, Report

VARIABLES si, k
ASSUME TLCSet(1, 0) /\ TLCSet(2, ndJsonDeserialize(IOEnv.CASES))
C == TLCGet(2)[si]
TInit == \E i \in 1..Len(TLCGet(2)) : si = i /\ k = 0 /\ SInit(TLCGet(2)[i].start)
TNext == k < Len(C.script) /\ Do(C.script[k + 1]) /\ k' = k + 1 /\ UNCHANGED si

Name(r) == IF r = 0 THEN "EOI" ELSE "R" \o ToString(r)
Bad(tag, want, got) == PrintT(<<"BAD", C.id, tag, want, got>>)
Eq(tag, want, got) == want = got \/ Bad(tag, want, got)
Range_(s) == {s[i] : i \in 1..Len(s)}
AttOf(a) == [u \in {a[i][1] : i \in 1..Len(a)} |->
               LET i == CHOOSE i \in 1..Len(a) : a[i][1] = u
               IN [exp |-> Range_(a[i][2]), unx |-> Range_(a[i][3]), sp |-> Range_(a[i][4])]]
EntriesOf(rep) == [i \in 1..Len(rep.att) |->
                     <<rep.att[i][1], Range_(rep.att[i][2]), Range_(rep.att[i][3]), rep.att[i][4]>>]
Ends == /\ Eq("panic", <<>>, C.obs.panics)
        /\ C.obs.panics = <<>> =>
             /\ Eq("closed", TRUE, open = <<>>)
             /\ Eq("meant", Meant(C.script, C.start), trk)
             /\ Eq("given", TRUE, C.obs.given)
             /\ Eq("rep", trk.pos, C.obs.rep.pos)
             /\ LET got == AttOf(C.obs.rep.att)
                IN \/ DOMAIN got = DOMAIN trk.att /\ \A u \in DOMAIN got : got[u] = trk.att[u]
                   \/ Bad("rep", trk.att, C.obs.rep.att)
             /\ Eq("msg", Message(C.inp, C.chs, C.obs.rep.pos, EntriesOf(C.obs.rep), Name), C.obs.err.msg)
             /\ Eq("msg", <<LineNo(C.inp, trk.pos), Column(C.inp, trk.pos), trk.pos>>, <<C.obs.err.lc[1], C.obs.err.lc[2], C.obs.err.at>>)
Judge == k = Len(C.script) => Ends /\ TLCSet(1, TLCGet(1) + 1)
AllJudged == TLCGet(1) = Len(TLCGet(2))
Summary == PrintT(<<"JUDGED", TLCGet(1), Len(TLCGet(2)), TLCGet("stats").distinct, TLCGet("stats").generated>>) /\ AllJudged
=============================================================================
