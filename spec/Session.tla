------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* The tracker of failures as somebody drives it who writes a node by      *)
(* hand: rules are entered and left again, polarities hold for a scope,    *)
(* and mishaps are reported at a place. Events:                            *)
(*   <<"enter", r, p, how>>   a rule is tried at p (how: which method)     *)
(*   <<"leave", ok>>          and is done                                  *)
(*   <<"pol", b>>, <<"unpol">>   a scope that expects matches, or not      *)
(*   <<"slice", p, a>>, <<"slice", p, a, b>>, <<"empty", p>>,              *)
(*   <<"repeat", p>>          mishaps at p                                 *)
(***************************************************************************)
EXTENDS Tracker, FiniteSets

VARIABLES
  trk,     \* the report
  rst,     \* open rules
  pol,     \* polarity
  open     \* what has been opened: <<"rule">> or <<"pol", polarity before>>, innermost last
svars == <<trk, rst, pol, open>>

SInit(start) == trk = EmptyReport(start) /\ rst = <<>> /\ pol = TRUE /\ open = <<>>
Inner == open[Len(open)]
Outer == SubSeq(open, 1, Len(open) - 1)
HasKid == IF rst = <<>> THEN rst ELSE [rst EXCEPT ![Len(rst)].kids = TRUE]

Enter(e) == /\ e[1] = "enter" /\ UNCHANGED <<trk, pol>>
            /\ rst' = Append(HasKid, [r |-> e[2], pos |-> e[3], kids |-> FALSE])
            /\ open' = Append(open, <<"rule">>)
Leave(e) == /\ e[1] = "leave" /\ open # <<>> /\ Inner[1] = "rule" /\ UNCHANGED pol
            /\ LET me == rst[Len(rst)] IN
               /\ rst' = SubSeq(rst, 1, Len(rst) - 1)
               /\ trk' = IF me.kids THEN trk ELSE Record(trk, rst', me.r, me.pos, e[2], pol)
            /\ open' = Outer
Scope(e) == /\ e[1] = "pol" /\ UNCHANGED <<trk, rst>>
            /\ pol' = e[2] /\ open' = Append(open, <<"pol", pol>>)
Unscope(e) == /\ e[1] = "unpol" /\ open # <<>> /\ Inner[1] = "pol" /\ UNCHANGED <<trk, rst>>
              /\ pol' = Inner[2] /\ open' = Outer
Mishap(e) == /\ e[1] \in {"slice", "empty", "repeat"} /\ UNCHANGED <<rst, pol, open>>
             /\ trk' = Special(trk, rst, e[2], <<e[1]>> \o SubSeq(e, 3, Len(e)))
Do(e) == Enter(e) \/ Leave(e) \/ Scope(e) \/ Unscope(e) \/ Mishap(e)

-----------------------------------------------------------------------------
(* What a report is, told from the history h alone. *)
RECURSIVE OpenAt(_, _)
\* the events that opened what is still open after the first i events
OpenAt(h, i) ==
  IF i = 0 THEN <<>>
  ELSE LET o == OpenAt(h, i - 1)  k == h[i][1] IN
       CASE k \in {"enter", "pol"} -> Append(o, i)
         [] k \in {"leave", "unpol"} -> SubSeq(o, 1, Len(o) - 1)
         [] OTHER -> o
RulesIn(h, o) == SelectSeq(o, LAMBDA i : h[i][1] = "enter")
ScopesIn(h, o) == SelectSeq(o, LAMBDA i : h[i][1] = "pol")
PolAt(h, i) == LET s == ScopesIn(h, OpenAt(h, i)) IN IF s = <<>> THEN TRUE ELSE h[s[Len(s)]][2]
\* the enclosing rule an event at p is reported under, after i events
UpperAt(h, i, p) == LET rs == RulesIn(h, OpenAt(h, i))
                        far == {k \in 1..Len(rs) : h[rs[k]][3] # p}
                    IN IF far = {} THEN NoRule ELSE h[rs[CHOOSE k \in far : \A m \in far : m <= k]][2]
\* attempts of rules in which no other rule was tried: <<rule, place, under, as expected, polarity>>
Attempts(h) ==
  {LET o == OpenAt(h, j - 1)  i == o[Len(o)]
   IN <<h[i][2], h[i][3], UpperAt(h, i - 1, h[i][3]), h[j][2] = PolAt(h, i - 1), PolAt(h, i - 1)>>
   : j \in {j \in 1..Len(h) : h[j][1] = "leave"
                              /\ LET o == OpenAt(h, j - 1) IN \A m \in o[Len(o)] + 1..j - 1 : h[m][1] # "enter"}}
Mishaps(h) == {<<h[j][2], UpperAt(h, j, h[j][2]), <<h[j][1]>> \o SubSeq(h[j], 3, Len(h[j]))>>
               : j \in {j \in 1..Len(h) : h[j][1] \in {"slice", "empty", "repeat"}}}
Meant(h, start) ==
  LET at == Attempts(h)  ms == Mishaps(h)
      places == {start} \cup {a[2] : a \in at} \cup {m[1] : m \in ms}
      far == CHOOSE p \in places : \A q \in places : q <= p
      bad == {a \in at : a[2] = far /\ ~a[4]}  mis == {m \in ms : m[1] = far}
  IN [pos |-> far,
      att |-> [u \in {a[3] : a \in bad} \cup {m[2] : m \in mis} |->
                 [exp |-> {a[1] : a \in {a \in bad : a[3] = u /\ a[5]}},
                  unx |-> {a[1] : a \in {a \in bad : a[3] = u /\ ~a[5]}},
                  sp  |-> {m[3] : m \in {m \in mis : m[2] = u}}]]]
=============================================================================
