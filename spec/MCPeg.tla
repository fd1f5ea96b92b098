-------------------------------- MODULE MCPeg --------------------------------
(***************************************************************************)
(* Every program of a bounded universe on every input of a bounded length: *)
(* TLC explores all behaviours, checks the invariants of the machine and   *)
(* that it computes the meaning of the program (PegMeaning), and writes    *)
(* down what each program does, to be replayed into the implementation.    *)
(*                                                                         *)
(* A program is first a term [op, k, t, s, lo, hi] whose k and t are       *)
(* sequences of terms; NoTrivia stands for "nothing is skipped here".      *)
(***************************************************************************)
EXTENDS PegMeaning, Json, IOUtils, SequencesExt, FiniteSetsExt

U == IOEnv.UNIVERSE
Part == atoi(IOEnv.PART)
Parts == atoi(IOEnv.PARTS)
MaxLen == atoi(IOEnv.MAXLEN)

\* terms
Term(op, ks, ts, s, lo, hi) == [op |-> op, k |-> ks, t |-> ts, s |-> s, lo |-> lo, hi |-> hi]
L(op) == Term(op, <<>>, <<>>, <<>>, 0, 0)
NoTrivia == L("-")
S(w) == Term("str", <<>>, <<>>, w, 0, 0)
I(w) == Term("ins", <<>>, <<>>, w, 0, 0)
A == S(<<97>>)
B == S(<<98>>)
AB == S(<<97, 98>>)
Blank == S(<<32>>)
RngAB == Term("rng", <<>>, <<>>, <<>>, 97, 98)
Skip1 == Term("skip", <<>>, <<>>, <<>>, 1, 0)
Sl(a, b) == Term("sl2", <<>>, <<>>, <<>>, a, b)
SlFrom(a) == Term("sl1", <<>>, <<>>, <<>>, a, 0)
Un(op, x) == Term(op, <<x>>, <<>>, <<>>, 0, 0)
SeqT(ks, tr) == Term("seq", ks, [i \in 1..Len(ks) |-> IF i = 1 THEN NoTrivia ELSE tr], <<>>, 0, 0)
Sq(ks) == SeqT(ks, NoTrivia)
Cho(ks) == Term("cho", ks, <<>>, <<>>, 0, 0)
RepT(x, lo, hi, tr) == Term("rep", <<x>>, <<tr>>, <<>>, lo, hi)
Rule(r, x) == Term("rule", <<x>>, <<>>, <<>>, r, 0)

Tuples(S0, n) == [1..n -> S0]
Sq2(X, Y) == {Sq(<<x, y>>) : x \in X, y \in Y}
Cho2(X, Y) == {Cho(<<x, y>>) : x \in X, y \in Y}

\* a term that may match nothing must not be repeated without bound
RECURSIVE Nullable(_)
Nullable(t) ==
  CASE t.op \in {"str", "ins"} -> t.s = <<>>
    [] t.op \in {"rng", "nl", "never", "skip"} \cup Classes -> FALSE
    [] t.op = "seq" -> \A i \in 1..Len(t.k) : Nullable(t.k[i])
    [] t.op = "cho" -> \E i \in 1..Len(t.k) : Nullable(t.k[i])
    [] t.op = "rep" -> t.lo = 0 \/ Nullable(t.k[1])
    [] t.op \in {"rule", "push"} -> Nullable(t.k[1])
    [] OTHER -> TRUE
Bounds == {<<0, -1>>, <<1, -1>>, <<2, -1>>, <<0, 0>>, <<0, 2>>, <<1, 2>>, <<2, 2>>, <<2, 3>>, <<3, 3>>}
RepsOf(X, Tr) == {RepT(x, b[1], b[2], tr) : x \in X, b \in Bounds, tr \in Tr}
Safe(X) == {t \in X : t.op = "rep" => t.hi >= 0 \/ ~Nullable(t.k[1])}

\* plain: literals, ranges, any, ends; sequence, choice, option, two levels deep
Plain0 == {A, AB, I(<<97>>), RngAB, L("any"), L("eoi")}
Plain1 == Sq2(Plain0, Plain0) \cup Cho2(Plain0, Plain0) \cup {Un("opt", x) : x \in Plain0}
Plain == Plain0 \cup Plain1 \cup Sq2(Plain1, {A, B, L("eoi")}) \cup Cho2(Plain1, {AB, L("any")})
         \cup Sq2({A, Un("opt", AB)}, Plain1) \cup Cho2({AB}, Plain1)
         \cup {Cho(x) : x \in Tuples({A, AB, L("eoi"), Sq(<<A, A>>)}, 3)}
         \cup {Sq(x) : x \in Tuples({A, Un("opt", A), Un("opt", AB), L("soi")}, 3)}
\* repetition with and without trivia, of bodies that may match nothing
Tr0 == {NoTrivia, Blank, Un("opt", Blank)}
RepB == {A, AB, Sq(<<A, B>>), Cho(<<A, B>>), Un("opt", A), L("any"), Un("pos", A), Sq(<<A, Un("opt", B)>>)}
Reps1 == Safe(RepsOf(RepB, Tr0))
Reps == Reps1 \cup Sq2(Reps1, {A, B, L("eoi")}) \cup Safe(RepsOf({r \in Reps1 : r.hi = 2}, {NoTrivia, Blank}))
\* runs of stack operations
PushA == Un("push", A)
PushAny == Un("push", L("any"))
PushE == Un("push", L("empty"))
StkOps == {PushA, PushAny, L("peek"), L("pop"), L("drop"), L("peekall"), L("popall"), Sl(0, 1), Sl(0, -1), Sl(-1, 2), SlFrom(1), SlFrom(-2)}
Stack == {Sq(x) : x \in Tuples(StkOps, 2)} \cup {Sq(<<PushAny>> \o x) : x \in Tuples(StkOps, 2)}
         \cup {Sq(<<PushAny, PushAny>> \o x) : x \in Tuples(StkOps, 2)}
\* attempts that change the stack, fail or not, inside everything that may take them back
Moves == {PushA, PushE, L("pop"), L("drop"), L("popall")}
Runs == Moves \cup {Sq(x) : x \in Tuples(Moves, 2)}
Fails == {Sq(<<x, L("never")>>) : x \in Runs} \cup {Sq(<<x, B>>) : x \in Runs}
Undo(X) == {Un("opt", x) : x \in X} \cup {Cho(<<x, L("empty")>>) : x \in X} \cup {Cho(<<x, y>>) : x \in X, y \in {PushA, L("drop")}}
           \cup {RepT(x, lo, 2, NoTrivia) : x \in X, lo \in {0, 1}}
Seen == {L("peek"), L("peekall"), L("pop")}
\* what nothing encloses: the caller sees the stack
Bare == Undo(Fails) \cup {Cho(<<x, y>>) : x \in Fails, y \in {Sq(<<m, L("never")>>) : m \in Moves}}
        \cup {RepT(Sq(<<m, B>>), 2, 3, NoTrivia) : m \in Runs} \cup {RepT(Sq(<<L("any"), m>>), 3, -1, NoTrivia) : m \in Runs}
Back == Bare \cup Sq2(Undo(Fails), Seen) \cup Sq2(Undo({Sq(<<u, L("never")>>) : u \in Undo({Sq(<<x, L("never")>>) : x \in Moves})}), {L("peekall")})
        \cup Sq2(Undo({Sq(<<u, x, L("never")>>) : u \in Undo({Sq(<<m, L("never")>>) : m \in Moves}), x \in {PushE, L("drop")}}), {L("peekall")})
Looks(X) == {Un(o, x) : o \in {"pos", "neg"}, x \in X}
Look == Sq2(Looks(Runs \cup Fails \cup {A, B, L("any")}), Seen \cup {A})
        \cup Sq2(Looks(Looks(Runs) \cup {Sq(<<x, y>>) : x \in Looks(Moves), y \in Moves}), {L("peekall"), PushA})
\* reports: rules within rules, lookaheads, misuse of the stack
R0 == {A, B, L("peek"), L("drop")}
R1 == {Rule(2, x) : x \in R0}
R2 == R1 \cup {Rule(3, A)}
RB == Sq2(R2, R2) \cup Cho2(R2, R2) \cup {Un(o, x) : o \in {"pos", "neg", "opt"}, x \in R2} \cup {Un("neg", Un(o, x)) : o \in {"pos", "neg"}, x \in R2}
Rep2 == {Sq(<<x, y>>) : x \in {Un("neg", r) : r \in R2} \cup {Un("opt", r) : r \in R2} \cup {Un("pos", r) : r \in R2}, y \in R2}
        \cup {Cho(<<Sq(<<A, x>>), y>>) : x \in R2, y \in R2}
Report == {Rule(1, x) : x \in RB \cup Rep2} \cup {Sq(<<A, Rule(1, x)>>) : x \in RB \cup Rep2} \cup {Rule(4, Cho(<<Rule(1, x), Rule(5, x)>>)) : x \in RB}
          \cup {Rule(4, Sq(<<A, Rule(1, x)>>)) : x \in RB}

Terms == CASE U = "plain" -> Plain [] U = "rep" -> Reps [] U = "stack" -> Stack [] U = "back" -> Back
           [] U = "look" -> Look [] U = "report" -> Report
Alphabet == IF U = "rep" THEN {97, 98, 32} ELSE {97, 98}
Inputs == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Stacks(w) == IF U \in {"stack", "back", "look"} /\ Len(w) > 0
             THEN {<<>>, <<(<<0, 1>>)>>, <<(<<0, 1>>), (<<0, 0>>)>>}
                  \cup (IF U = "stack" /\ Len(w) > 1
                        THEN {<<(<<0, 1>>), (<<1, 2>>)>>, <<(<<1, 2>>), (<<0, 1>>)>>, <<(<<0, 1>>), (<<1, 1>>), (<<1, 2>>)>>} ELSE {})
             ELSE {<<>>}

\* terms to nodes, children first
RECURSIVE Flat(_, _), FlatAll(_, _, _)
FlatAll(ts, acc, ids) ==
  IF ts = <<>> THEN <<acc, ids>>
  ELSE IF Head(ts).op = "-" THEN FlatAll(Tail(ts), acc, Append(ids, 0))
  ELSE LET f == Flat(Head(ts), acc) IN FlatAll(Tail(ts), f, Append(ids, Len(f)))
Flat(t, acc) ==
  LET a == FlatAll(t.k, acc, <<>>)
      b == FlatAll(t.t, a[1], <<>>)
  IN Append(b[1], [op |-> t.op, c |-> t.op, k |-> a[2], t |-> b[2], s |-> t.s, lo |-> t.lo, hi |-> t.hi])

RECURSIVE Mine(_, _)
Mine(q, i) == IF i > Len(q) THEN <<>> ELSE (IF i % Parts = Part THEN <<q[i]>> ELSE <<>>) \o Mine(q, i + Parts)
MyTerms == LET q == SetToSeq(Terms) IN Mine(q, IF Part = 0 THEN Parts ELSE Part)
Situations == SetToSeq(UNION {{<<w, s>> : s \in Stacks(w)} : w \in Inputs})
\* register 2: the flattened programs; 3: the situations; 4: what was found out
ASSUME /\ TLCSet(2, LET q == MyTerms IN [i \in 1..Len(q) |-> Flat(q[i], <<>>)])
       /\ TLCSet(3, Situations) /\ TLCSet(4, <<>>)
NSit == Len(TLCGet(3))
Total == Len(TLCGet(2)) * NSit
ThisCase(i) ==
  LET nodes == TLCGet(2)[((i - 1) \div NSit) + 1]
      sit == TLCGet(3)[((i - 1) % NSit) + 1]
  IN [inp |-> sit[1], start |-> 0, stk0 |-> sit[2], nodes |-> nodes, root |-> Len(nodes)]
MCInit == \E i \in 1..Total : InitOf(i)
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* the machine computes the meaning of the program
Faithful == stage = "partial" =>
  LET m == Mean(P.root, P.start, P.stk0)
  IN /\ m.ok = (ret.t = "ok")
     /\ m.ok => m.pos = pos /\ m.stk = stk
\* and so does every part of it: the node evaluated last, where and from where it was evaluated
DeepFaithful == (ret.t = "ok" /\ stage = "run") =>
  LET t == ret.v IN t[2] <= t[3] /\ t[3] = pos /\ t[3] <= Len0
Deterministic == TRUE
Unstuck == stage = "full" \/ ENABLED Next
Ended == stage = "full" => snaps = <<>> /\ rst = <<>> /\ ctl = <<>> /\ pol
\* a report names what was tried: an accepted complete parse without lookahead has nothing further than its end
ReportInside == stage # "run" => trk.pos \in P.start..Len0

\* the stack a failing attempt leaves is the business of what encloses it: on failure it is only told for what takes attempts back
Settled == ret.t = "ok" \/ Node(P.root).op \in {"pos", "neg", "cho", "rep"}
RECURSIVE MPairs(_), MPairsAll(_)
MPairsAll(ts) == IF ts = <<>> THEN <<>> ELSE MPairs(Head(ts)) \o MPairsAll(Tail(ts))
MPairs(t) == IF Node(t[1]).op = "rule" THEN <<(<<Node(t[1]).lo, t[2], t[3], MPairsAll(t[5])>>)>>
             ELSE IF Node(t[1]).op = "pos" THEN <<>> ELSE MPairsAll(t[5])
SortedBy(S0) == SetToSortSeq(S0, <)
RepOut == LET us == SortedBy(DOMAIN trk.att)
          IN [pos |-> trk.pos,
              att |-> [i \in 1..Len(us) |-> <<us[i], SortedBy(trk.att[us[i]].exp), SortedBy(trk.att[us[i]].unx), SetToSeq(trk.att[us[i]].sp)>>]]
Vector == [id |-> ci, part |-> Part, stage |-> stage, ok |-> ret.t = "ok", end |-> pos, settled |-> Settled, stk |-> stk,
           tree |-> IF ret.t = "ok" THEN ret.v ELSE <<>>, pairs |-> IF ret.t = "ok" THEN MPairs(ret.v) ELSE <<>>,
           rep |-> RepOut, nodes |-> IF stage = "partial" THEN P.nodes ELSE <<>>, inp |-> P.inp, stk0 |-> P.stk0, root |-> P.root]
Write == stage \in {"partial", "full"} => TLCSet(4, Append(TLCGet(4), Vector))
Done == /\ ndJsonSerialize(IOEnv.OUT, TLCGet(4))
        /\ PrintT(<<"MADE", Total, Len(TLCGet(2)), TLCGet("stats").distinct, TLCGet("stats").generated>>)
=============================================================================
