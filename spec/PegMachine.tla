----------------------------- MODULE PegMachine -----------------------------
(***************************************************************************)
(* The parsing machine of pest3 as an explicit state-transition system.    *)
(*                                                                         *)
(* A program is a record                                                   *)
(*   inp   : sequence of code points (the input)                           *)
(*   off   : off[i+1] = byte offset of the i-th character boundary         *)
(*   start : number of characters before the position parsing starts at    *)
(*   stk0  : initial matching stack, spans <<from, to>> in characters      *)
(*   nodes : sequence of expression nodes, root : index of the start node  *)
(*                                                                         *)
(* A node is [op, k, t, s, lo, hi]: children k, trivia nodes t (t[i] is    *)
(* what is skipped before child i, 0 = nothing), text s, bounds lo / hi    *)
(* (hi = -1: unbounded), for op = "rule" lo is the rule number.            *)
(*                                                                         *)
(* State: input position, matching stack, pile of snapshots, control       *)
(* frames, last result, polarity, failure report, stack of open rules.     *)
(* One action per step that the implementation takes at a node: entering,  *)
(* going on with the next child, committing, backtracking, returning.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Tracker

CONSTANT Case(_)         \* Case(i): the i-th program

VARIABLES
  ci,      \* which program this behaviour runs (never changes)
  pos,     \* characters consumed, counted from the start of the input
  stk,     \* matching stack: sequence of spans <<from, to>>, top last
  snaps,   \* outstanding snapshots of the stack, newest last
  ctl,     \* control frames, innermost last
  ret,     \* result of the node evaluated last
  pol,     \* TRUE: expecting matches; FALSE: directly under a negative lookahead
  trk,     \* failure report: [pos, att]
  rst,     \* open rules, innermost last: [r, pos, kids]
  stage    \* "run" | "partial" | "full"

vars == <<ci, pos, stk, snaps, ctl, ret, pol, trk, rst, stage>>

P == Case(ci)
Node(n) == P.nodes[n]
Len0 == Len(P.inp)
EOIRule == 0                       \* the rule that stands for "end of input"

NONE == [t |-> "none", v |-> <<>>]
FAIL == [t |-> "fail", v |-> <<>>]
OK(tree) == [t |-> "ok", v |-> tree]
\* derivation tree: node, from, to, what it captured, sub-trees
Tree(n, a, b, x, ks) == <<n, a, b, x, ks>>

Frame(n, p) == [n |-> n, ph |-> 0, p0 |-> p, pl |-> p, ks |-> <<>>, pol |-> pol]
Top == ctl[Len(ctl)]
Op == Node(Top.n).op
Under == SubSeq(ctl, 1, Len(ctl) - 1)

-----------------------------------------------------------------------------
(* Text *)
Sub(a, b) == SubSeq(P.inp, a + 1, b)
MatchesAt(s, p) == /\ p + Len(s) <= Len0
                   /\ \A i \in 1..Len(s) : P.inp[p + i] = s[i]
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
MatchesInsensAt(s, p) == /\ p + Len(s) <= Len0
                         /\ \A i \in 1..Len(s) : Lower(P.inp[p + i]) = Lower(s[i])
InRange(c, lo, hi) == lo <= c /\ c <= hi
Digit(c) == InRange(c, 48, 57)
LowerAlpha(c) == InRange(c, 97, 122)
UpperAlpha(c) == InRange(c, 65, 90)
\* built-in ASCII classes
InClass(cls, c) ==
  CASE cls = "digit"    -> Digit(c)
    [] cls = "nzdigit"  -> InRange(c, 49, 57)
    [] cls = "bin"      -> InRange(c, 48, 49)
    [] cls = "oct"      -> InRange(c, 48, 55)
    [] cls = "hex"      -> Digit(c) \/ InRange(c, 97, 102) \/ InRange(c, 65, 70)
    [] cls = "lower"    -> LowerAlpha(c)
    [] cls = "upper"    -> UpperAlpha(c)
    [] cls = "alpha"    -> LowerAlpha(c) \/ UpperAlpha(c)
    [] cls = "alnum"    -> LowerAlpha(c) \/ UpperAlpha(c) \/ Digit(c)
    [] cls = "ascii"    -> InRange(c, 0, 127)
    [] cls = "any"      -> TRUE
Classes == {"digit","nzdigit","bin","oct","hex","lower","upper","alpha","alnum","ascii","any"}

\* text of stack spans, concatenated in the given order
RECURSIVE Cat(_)
Cat(spans) == IF spans = <<>> THEN <<>>
              ELSE Sub(spans[1][1], spans[1][2]) \o Cat(Tail(spans))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* slice bounds: non-negative from the bottom, negative from the top
InSlice(i) == IF i >= 0 THEN i <= Len(stk) ELSE -i <= Len(stk)
AbsIdx(i) == IF i >= 0 THEN i ELSE Len(stk) + i
SliceHi(n) == IF Node(n).op = "sl1" THEN Len(stk) ELSE AbsIdx(Node(n).hi)
SliceOk(n) == InSlice(Node(n).lo) /\ (Node(n).op = "sl1" \/ InSlice(Node(n).hi))
SliceText(n) == LET a == AbsIdx(Node(n).lo)  b == SliceHi(n)
                IN IF b <= a THEN <<>> ELSE Cat(SubSeq(stk, a + 1, b))

-----------------------------------------------------------------------------
InitOf(i) ==
  LET c == Case(i) IN
  /\ ci = i
  /\ pos = c.start
  /\ stk = c.stk0
  /\ snaps = <<>>
  /\ ret = NONE
  /\ pol = TRUE
  /\ trk = EmptyReport(c.start)
  /\ rst = <<>>
  /\ stage = "run"
  /\ ctl = <<[n |-> c.root, ph |-> 0, p0 |-> c.start, pl |-> c.start, ks |-> <<>>, pol |-> TRUE]>>

Running == stage = "run" /\ ctl # <<>>
At(op) == Running /\ Op = op
Fresh == ret = NONE /\ Top.ph = 0
Got(t) == ret.t = t

(* Result of the innermost frame: success having reached q, or failure. *)
Succeed(q, x, ks) == /\ pos' = q
                     /\ ret' = OK(Tree(Top.n, Top.p0, q, x, ks))
                     /\ ctl' = Under
Fail == /\ pos' = Top.p0
        /\ ret' = FAIL
        /\ ctl' = Under
(* Evaluate child m next, with the innermost frame becoming f. *)
Call(m, f) == /\ ctl' = Under \o <<f, Frame(m, pos)>>
              /\ ret' = NONE
              /\ UNCHANGED pos

(* Leaves that depend on the text only. *)
LeafFrame == UNCHANGED <<ci, stk, snaps, pol, trk, rst, stage>>
Str == /\ At("str") /\ LeafFrame
       /\ IF MatchesAt(Node(Top.n).s, pos) THEN Succeed(pos + Len(Node(Top.n).s), <<>>, <<>>) ELSE Fail
Insens == /\ At("ins") /\ LeafFrame
          /\ IF MatchesInsensAt(Node(Top.n).s, pos)
             THEN LET q == pos + Len(Node(Top.n).s) IN Succeed(q, Sub(pos, q), <<>>)
             ELSE Fail
CharRange == /\ At("rng") /\ LeafFrame
         /\ IF pos < Len0 /\ InRange(P.inp[pos + 1], Node(Top.n).lo, Node(Top.n).hi)
            THEN Succeed(pos + 1, <<P.inp[pos + 1]>>, <<>>) ELSE Fail
Class == /\ Running /\ Op \in Classes /\ LeafFrame
         /\ IF pos < Len0 /\ InClass(Op, P.inp[pos + 1])
            THEN Succeed(pos + 1, <<P.inp[pos + 1]>>, <<>>) ELSE Fail
\* a Unicode class: P.uni[lo] lists its members among the characters of the input
Unicode == /\ At("uni") /\ LeafFrame
           /\ IF pos < Len0 /\ \E i \in 1..Len(P.uni[Node(Top.n).lo]) : P.uni[Node(Top.n).lo][i] = P.inp[pos + 1]
              THEN Succeed(pos + 1, <<P.inp[pos + 1]>>, <<>>) ELSE Fail
Skip == /\ At("skip") /\ LeafFrame
        /\ IF pos + Node(Top.n).lo <= Len0
           THEN LET q == pos + Node(Top.n).lo IN Succeed(q, Sub(pos, q), <<>>) ELSE Fail
NewLine == /\ At("nl") /\ LeafFrame
           /\ CASE MatchesAt(<<13, 10>>, pos) -> Succeed(pos + 2, <<1>>, <<>>)
                [] MatchesAt(<<10>>, pos) -> Succeed(pos + 1, <<2>>, <<>>)
                [] MatchesAt(<<13>>, pos) /\ ~MatchesAt(<<13, 10>>, pos) -> Succeed(pos + 1, <<3>>, <<>>)
                [] OTHER -> Fail
Soi == At("soi") /\ LeafFrame /\ IF pos = 0 THEN Succeed(pos, <<>>, <<>>) ELSE Fail
Eoi == At("eoi") /\ LeafFrame /\ IF pos = Len0 THEN Succeed(pos, <<>>, <<>>) ELSE Fail
Empty == At("empty") /\ LeafFrame /\ Succeed(pos, <<>>, <<>>)
Never == At("never") /\ LeafFrame /\ Fail

(* Leaves that use the matching stack. *)
Misuse(what) == trk' = Special(trk, rst, pos, what)
Peek == /\ At("peek") /\ UNCHANGED <<ci, stk, snaps, pol, rst, stage>>
        /\ IF stk = <<>> THEN Misuse(<<"empty">>) /\ Fail
           ELSE /\ UNCHANGED trk
                /\ LET s == Cat(<<stk[Len(stk)]>>)
                   IN IF MatchesAt(s, pos) THEN Succeed(pos + Len(s), s, <<>>) ELSE Fail
Pop == /\ At("pop") /\ UNCHANGED <<ci, snaps, pol, rst, stage>>
       /\ IF stk = <<>> THEN Misuse(<<"empty">>) /\ Fail /\ UNCHANGED stk
          ELSE /\ UNCHANGED trk
               /\ stk' = SubSeq(stk, 1, Len(stk) - 1)
               /\ LET s == Cat(<<stk[Len(stk)]>>)
                  IN IF MatchesAt(s, pos) THEN Succeed(pos + Len(s), s, <<>>) ELSE Fail
Drop == /\ At("drop") /\ UNCHANGED <<ci, snaps, pol, rst, stage>>
        /\ IF stk = <<>> THEN Misuse(<<"empty">>) /\ Fail /\ UNCHANGED stk
           ELSE UNCHANGED trk /\ stk' = SubSeq(stk, 1, Len(stk) - 1) /\ Succeed(pos, <<>>, <<>>)
PeekAll == /\ At("peekall") /\ LeafFrame
           /\ LET s == Cat(Rev(stk))
              IN IF MatchesAt(s, pos) THEN Succeed(pos + Len(s), s, <<>>) ELSE Fail
PopAll == /\ At("popall") /\ UNCHANGED <<ci, snaps, pol, trk, rst, stage>>
          /\ LET s == Cat(Rev(stk))
             IN IF MatchesAt(s, pos) THEN stk' = <<>> /\ Succeed(pos + Len(s), s, <<>>)
                ELSE UNCHANGED stk /\ Fail
Slice == /\ Running /\ Op \in {"sl1", "sl2"} /\ UNCHANGED <<ci, stk, snaps, pol, rst, stage>>
         /\ IF ~SliceOk(Top.n)
            THEN /\ Misuse(IF Op = "sl1" THEN <<"slice", Node(Top.n).lo>>
                           ELSE <<"slice", Node(Top.n).lo, Node(Top.n).hi>>)
                 /\ Fail
            ELSE /\ UNCHANGED trk
                 /\ LET s == SliceText(Top.n)
                    IN IF MatchesAt(s, pos) THEN Succeed(pos + Len(s), <<>>, <<>>) ELSE Fail

(* Snapshots. *)
TakeSnap == snaps' = Append(snaps, stk) /\ UNCHANGED stk
DropSnap == snaps' = SubSeq(snaps, 1, Len(snaps) - 1) /\ UNCHANGED stk
Restore  == snaps' = SubSeq(snaps, 1, Len(snaps) - 1) /\ stk' = snaps[Len(snaps)]
Resnap   == snaps' = snaps /\ stk' = snaps[Len(snaps)]   \* restore, then snapshot again
Commit   == snaps' = [snaps EXCEPT ![Len(snaps)] = stk] /\ UNCHANGED stk  \* drop, then snapshot again
NoSnap   == UNCHANGED <<snaps, stk>>
Ctrl == UNCHANGED <<ci, pol, trk, rst, stage>>
Kid(i) == Node(Top.n).k[i]
NKids == Len(Node(Top.n).k)
Triv(i) == Node(Top.n).t[i]
Phase(i) == [Top EXCEPT !.ph = i]
PhaseK(i) == [Top EXCEPT !.ph = i, !.ks = Append(@, ret.v)]

(* Sequence: ph = 2i while child i runs, 2i+1 while the trivia before child i+1 runs. *)
SeqEnter == At("seq") /\ Fresh /\ Ctrl /\ NoSnap /\ Call(Kid(1), Phase(2))
SeqItemDone ==
  /\ At("seq") /\ Got("ok") /\ Top.ph % 2 = 0 /\ Ctrl /\ NoSnap
  /\ LET i == Top.ph \div 2
     IN IF i = NKids THEN Succeed(pos, <<>>, Append(Top.ks, ret.v))
        ELSE IF Triv(i + 1) = 0 THEN Call(Kid(i + 1), PhaseK(2 * i + 2))
        ELSE Call(Triv(i + 1), PhaseK(2 * i + 1))
SeqTriviaDone == /\ At("seq") /\ Got("ok") /\ Top.ph % 2 = 1 /\ Ctrl /\ NoSnap
                 /\ LET i == Top.ph \div 2 IN Call(Kid(i + 1), Phase(2 * i + 2))
SeqFail == At("seq") /\ Got("fail") /\ Ctrl /\ NoSnap /\ Fail

(* Prioritised choice: ph = i while alternative i runs under a snapshot. *)
ChoiceEnter == At("cho") /\ Fresh /\ Ctrl /\ TakeSnap /\ Call(Kid(1), Phase(1))
ChoiceTaken == At("cho") /\ Got("ok") /\ Ctrl /\ DropSnap /\ Succeed(pos, <<Top.ph - 1>>, <<ret.v>>)
ChoiceNext == /\ At("cho") /\ Got("fail") /\ Top.ph < NKids /\ Ctrl /\ Resnap
              /\ Call(Kid(Top.ph + 1), Phase(Top.ph + 1))
ChoiceFail == At("cho") /\ Got("fail") /\ Top.ph = NKids /\ Ctrl /\ Restore /\ Fail

(* Optional. *)
OptEnter == At("opt") /\ Fresh /\ Ctrl /\ TakeSnap /\ Call(Kid(1), Phase(1))
OptSome == At("opt") /\ Got("ok") /\ Ctrl /\ DropSnap /\ Succeed(pos, <<>>, <<ret.v>>)
OptNone == At("opt") /\ Got("fail") /\ Ctrl /\ Restore /\ Succeed(Top.p0, <<>>, <<>>)

(* Repetition: ph = 1 while the trivia before an iteration runs, 2 while its body runs;
   pl = where the last complete iteration ended; one snapshot per iteration. *)
RepMax(n) == Node(n).hi
RepEnter == /\ At("rep") /\ Fresh /\ Ctrl
            /\ IF RepMax(Top.n) = 0 THEN NoSnap /\ Succeed(pos, <<>>, <<>>)
               ELSE TakeSnap /\ Call(Kid(1), Phase(2))
RepTriviaDone == At("rep") /\ Got("ok") /\ Top.ph = 1 /\ Ctrl /\ NoSnap /\ Call(Kid(1), Phase(2))
RepIterDone ==
  /\ At("rep") /\ Got("ok") /\ Top.ph = 2 /\ Ctrl
  /\ LET n == Len(Top.ks) + 1
     IN IF n = RepMax(Top.n) THEN DropSnap /\ Succeed(pos, <<>>, Append(Top.ks, ret.v))
        ELSE /\ Commit
             /\ IF Triv(1) = 0 THEN Call(Kid(1), [PhaseK(2) EXCEPT !.pl = pos])
                ELSE Call(Triv(1), [PhaseK(1) EXCEPT !.pl = pos])
RepStop == /\ At("rep") /\ Got("fail") /\ Ctrl /\ Restore
           /\ IF Len(Top.ks) >= Node(Top.n).lo THEN Succeed(Top.pl, <<>>, Top.ks) ELSE Fail

(* Lookahead. *)
LookEnter == /\ Running /\ Op \in {"pos", "neg"} /\ Fresh /\ TakeSnap
             /\ pol' = (Op = "pos")
             /\ UNCHANGED <<ci, trk, rst, stage>>
             /\ Call(Kid(1), [Phase(1) EXCEPT !.pol = pol])
LookDone == /\ Running /\ Op \in {"pos", "neg"} /\ Top.ph = 1 /\ ret # NONE /\ Restore
            /\ pol' = Top.pol
            /\ UNCHANGED <<ci, trk, rst, stage>>
            /\ IF Op = "pos"
               THEN IF Got("ok") THEN Succeed(Top.p0, <<>>, <<ret.v>>) ELSE Fail
               ELSE IF Got("fail") THEN Succeed(Top.p0, <<>>, <<>>) ELSE Fail

(* Push. *)
PushEnter == At("push") /\ Fresh /\ Ctrl /\ NoSnap /\ Call(Kid(1), Phase(1))
PushDone == /\ At("push") /\ ret # NONE /\ Ctrl /\ UNCHANGED snaps
            /\ IF Got("ok") THEN stk' = Append(stk, <<Top.p0, pos>>) /\ Succeed(pos, <<>>, <<ret.v>>)
               ELSE UNCHANGED stk /\ Fail

(* Rules. *)
MarkParent == IF rst = <<>> THEN rst ELSE [rst EXCEPT ![Len(rst)].kids = TRUE]
RuleEnter == /\ At("rule") /\ Fresh /\ NoSnap /\ UNCHANGED <<ci, pol, trk, stage>>
             /\ rst' = Append(MarkParent, [r |-> Node(Top.n).lo, pos |-> pos, kids |-> FALSE])
             /\ Call(Kid(1), Phase(1))
RuleDone == /\ At("rule") /\ ret # NONE /\ NoSnap /\ UNCHANGED <<ci, pol, stage>>
            /\ rst' = SubSeq(rst, 1, Len(rst) - 1)
            /\ trk' = IF rst[Len(rst)].kids THEN trk
                      ELSE Record(trk, rst', Node(Top.n).lo, Top.p0, Got("ok"), pol)
            /\ IF Got("ok") THEN Succeed(pos, <<Top.p0, pos>>, <<ret.v>>) ELSE Fail

(* The partial parse is over; the whole-input form goes on to the end-of-input rule. *)
Finish == /\ stage = "run" /\ ctl = <<>> /\ stage' = "partial"
          /\ UNCHANGED <<ci, pos, stk, snaps, ctl, ret, pol, trk, rst>>
EndOfInput == /\ stage = "partial" /\ stage' = "full"
              /\ IF Got("ok")
                 THEN /\ trk' = Record(trk, rst, EOIRule, pos, pos = Len0, pol)
                      /\ ret' = IF pos = Len0 THEN ret ELSE FAIL
                 ELSE UNCHANGED <<trk, ret>>
              /\ UNCHANGED <<ci, pos, stk, snaps, ctl, pol, rst>>

Terminal == Str \/ Insens \/ CharRange \/ Class \/ Unicode \/ Skip \/ NewLine \/ Soi \/ Eoi \/ Empty \/ Never
StackLeaf == Peek \/ Pop \/ Drop \/ PeekAll \/ PopAll \/ Slice
Control == \/ SeqEnter \/ SeqItemDone \/ SeqTriviaDone \/ SeqFail
           \/ ChoiceEnter \/ ChoiceTaken \/ ChoiceNext \/ ChoiceFail
           \/ OptEnter \/ OptSome \/ OptNone
           \/ RepEnter \/ RepTriviaDone \/ RepIterDone \/ RepStop
           \/ LookEnter \/ LookDone \/ PushEnter \/ PushDone \/ RuleEnter \/ RuleDone
Next == Terminal \/ StackLeaf \/ Control \/ Finish \/ EndOfInput

-----------------------------------------------------------------------------
(* Properties of the design, checked on bounded universes by MCPeg. *)
TypeOK == /\ pos \in P.start..Len0
          /\ \A i \in 1..Len(stk) : 0 <= stk[i][1] /\ stk[i][1] <= stk[i][2] /\ stk[i][2] <= Len0
          /\ stage \in {"run", "partial", "full"}
          /\ pol \in BOOLEAN
\* one snapshot per frame that holds one
Holds(f) == \/ Node(f.n).op \in {"cho", "opt", "rep", "pos", "neg"} /\ f.ph > 0
HoldCount == Cardinality({i \in 1..Len(ctl) : Holds(ctl[i])})
SnapshotsBalanced == Len(snaps) = HoldCount
RulesBalanced == Len(rst) = Cardinality({i \in 1..Len(ctl) : Node(ctl[i].n).op = "rule" /\ ctl[i].ph > 0})
PolarityScoped == ctl = <<>> => pol
\* open rules enclose each other
RulesNested == \A i \in 1..Len(rst) - 1 : rst[i].pos <= rst[i + 1].pos
\* a backtracking step gives back the snapshot it took
ReportAhead == trk.pos >= P.start /\ trk.pos <= Len0
ReportMonotone == [][trk'.pos >= trk.pos]_vars
LookaheadNeutral == [][(Running /\ Op \in {"pos", "neg"} /\ Len(ctl') < Len(ctl))
                        => /\ pos' = Top.p0 /\ stk' = snaps[Len(snaps)]]_vars
Terminates == <>(stage = "full")
=============================================================================
