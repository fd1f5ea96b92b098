------------------------------ MODULE MCSession ------------------------------
(***************************************************************************)
(* Every way to drive a tracker with up to MaxLen events, and what the     *)
(* report then is: the machine against what is meant (Meant).              *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils, SequencesExt

VARIABLE h
ToNat(s) == CHOOSE n \in 0..99 : ToString(n) = s
MaxLen == ToNat(IOEnv.MAXLEN)
Start == ToNat(IOEnv.START)

Hows == <<"option", "result", "empty">>
Events == {<<"enter", r, p, Hows[((r + p) % 3) + 1]>> : r \in {1, 2}, p \in {1, 2}}
          \cup {<<"leave", b>> : b \in BOOLEAN} \cup {<<"pol", b>> : b \in BOOLEAN} \cup {<<"unpol">>}
          \cup {<<"slice", 1, 0, 3>>, <<"empty", 2>>, <<"repeat", 2>>}
ASSUME TLCSet(4, <<>>)
MCInit == SInit(Start) /\ h = <<>>
MCNext == Len(h) < MaxLen /\ \E e \in Events : Do(e) /\ h' = Append(h, e) /\ Len(open') \* what is open can be closed again
            <= MaxLen - Len(h')
MCSpec == MCInit /\ [][MCNext]_<<svars, h>>
AsMeant == trk = Meant(h, Start)
Scoped == /\ open = <<>> => pol /\ rst = <<>>
          /\ pol = PolAt(h, Len(h))
          /\ Len(rst) = Len(RulesIn(h, OpenAt(h, Len(h))))
Forward == [][trk'.pos >= trk.pos]_<<svars, h>>
Write == (open = <<>> /\ Len(h) > 0) => TLCSet(4, Append(TLCGet(4), h))
Done == /\ ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(TLCGet(4)) |-> [script |-> TLCGet(4)[i]]])
        /\ PrintT(<<"MADE", Len(TLCGet(4)), TLCGet("stats").distinct, TLCGet("stats").generated>>)
=============================================================================
