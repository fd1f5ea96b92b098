------------------------------ MODULE TracePeg ------------------------------
(***************************************************************************)
(* Judges observations recorded from the real combinators against the      *)
(* machine: every recorded run is executed by PegMachine, and what the     *)
(* implementation reported is compared in the states "partial" and "full". *)
(* Disagreements are printed as <<"BAD", case, tag, expected, got>>.       *)
(***************************************************************************)
EXTENDS PegMachine, Json, IOUtils, Report

\* read once; register 2 holds the recorded runs
ASSUME TLCSet(1, 0) /\ TLCSet(2, ndJsonDeserialize(IOEnv.CASES))
RecCase(i) == TLCGet(2)[i]
RecInit == \E i \in 1..Len(TLCGet(2)) : InitOf(i)
Obs == P.obs
\* programs made from grammars carry the names of their rules, and more about each node (Link)
Gen == "names" \in DOMAIN P
Name(r) == IF r = 0 THEN "EOI" ELSE IF Gen THEN P.names[r] ELSE "R" \o ToString(r)
Silent(n) == Gen /\ Node(n).silent

Bad(tag, want, got) == PrintT(<<"BAD", P.id, tag, want, got>>)
Eq(tag, want, got) == want = got \/ Bad(tag, want, got)
Has(o) == o \in DOMAIN Obs

Range_(s) == {s[i] : i \in 1..Len(s)}
\* observed report -> [pos, att]
AttOf(a) == [u \in {a[i][1] : i \in 1..Len(a)} |->
               LET i == CHOOSE i \in 1..Len(a) : a[i][1] = u
               IN [exp |-> Range_(a[i][2]), unx |-> Range_(a[i][3]), sp |-> Range_(a[i][4])]]
RepEq(tag, rep) ==
  /\ Eq(tag, trk.pos, rep.pos)
  /\ LET got == AttOf(rep.att)
     IN \/ DOMAIN got = DOMAIN trk.att /\ \A u \in DOMAIN got : got[u] = trk.att[u]
        \/ Bad(tag, trk.att, rep.att)
SameRep(tag, a, b) == \/ a.pos = b.pos /\ Len(a.att) = Len(b.att) /\ AttOf(a.att) = AttOf(b.att)
                      \/ Bad(tag, a, b)

RECURSIVE PairsOf(_)
RECURSIVE PairsOfAll(_)
PairsOfAll(ts) == IF ts = <<>> THEN <<>> ELSE PairsOf(Head(ts)) \o PairsOfAll(Tail(ts))
PairsOf(t) ==
  CASE Silent(t[1]) -> <<>>
    [] Node(t[1]).op = "rule" -> <<(<<Node(t[1]).lo, t[2], t[3], PairsOfAll(t[5])>>)>>
    [] Node(t[1]).op = "pos" -> <<>>
    [] OTHER -> PairsOfAll(t[5])

\* The typed tree of a generated parser; full: with what every accessor returns.
RECURSIVE Has2(_, _), Val(_, _, _), Shape(_, _)
EdgeHas(n, i, lab) == Node(n).l[i] = lab \/ (Node(n).l[i] = "" /\ Has2(Node(n).k[i], lab))
Has2(n, lab) == Node(n).op \in {"seq", "cho", "opt", "rep", "pos"} /\ \E i \in 1..Len(Node(n).k) : EdgeHas(n, i, lab)
Told(t) == <<Name(Node(t[1]).lo), t[2], t[3]>>
Brief(t) == IF Node(t[1]).op = "rule" THEN <<"R", Told(t)>> ELSE Shape(t, FALSE)
EdgeVal(n, i, t, lab) == IF Node(n).l[i] = lab THEN <<"N", Brief(t)>> ELSE Val(Node(n).k[i], t, lab)
Maybe(v) == IF v[1] = "O" THEN v ELSE <<"O", v>>
\* one mention: its value; several: a tuple of them
Joined(vs) == IF Len(vs) = 1 THEN vs[1] ELSE <<"T">> \o vs
RECURSIVE Mentions(_, _, _)
Mentions(n, i, lab) == IF i > Len(Node(n).k) THEN <<>>
                       ELSE (IF EdgeHas(n, i, lab) THEN <<i>> ELSE <<>>) \o Mentions(n, i + 1, lab)
Val(n, t, lab) ==
  LET m == Mentions(n, 1, lab) IN
  CASE Node(n).op = "seq" -> Joined([j \in 1..Len(m) |-> EdgeVal(n, m[j], t[5][m[j]], lab)])
    [] Node(n).op = "cho" -> Joined([j \in 1..Len(m) |->
                               IF t[4][1] + 1 = m[j] THEN Maybe(EdgeVal(n, m[j], t[5][1], lab)) ELSE <<"O">>])
    [] Node(n).op = "opt" -> IF t[5] = <<>> THEN <<"O">> ELSE Maybe(EdgeVal(n, 1, t[5][1], lab))
    [] Node(n).op = "rep" -> <<"V">> \o [j \in 1..Len(t[5]) |-> EdgeVal(n, 1, t[5][j], lab)]
    [] Node(n).op = "pos" -> EdgeVal(n, 1, t[5][1], lab)
\* some classes are choices of smaller ones, and their trees say which was taken
RECURSIVE Pieces(_, _)
Pieces(op, v) ==
  LET c == v[1]
      lower == c \in 97..122  upper == c \in 65..90
      one(i, x) == <<"cho", <<i>>, x>> IN
  CASE op = "hex" -> one(IF lower THEN 1 ELSE IF upper THEN 2 ELSE 0, <<"c", v>>)
    [] op = "alpha" -> one(IF lower THEN 0 ELSE 1, <<"c", v>>)
    [] op = "alnum" -> IF lower \/ upper THEN one(0, Pieces("alpha", v)) ELSE one(1, <<"c", v>>)
Shape(t, full) ==
  LET nd == Node(t[1])
      ks == [i \in 1..Len(t[5]) |-> Shape(t[5][i], full)] IN
  CASE nd.op = "str" -> <<"str", nd.s>>
    [] nd.op \in {"hex", "alpha", "alnum"} -> Pieces(nd.op, t[4])
    [] nd.op \in {"rng", "uni"} \cup Classes -> <<"c", t[4]>>
    [] nd.op \in {"sl1"} -> <<"sl1", <<nd.lo>> >>
    [] nd.op \in {"sl2"} -> <<"sl2", <<nd.lo, nd.hi>> >>
    [] nd.op = "rule" ->
         LET r == <<"rule", Told(t), ks[1]>>
             vals == [i \in 1..Len(nd.accs) |->
                        <<nd.accs[i], EdgeVal(t[1], 1, t[5][1], nd.accs[i])>>] IN
         IF full THEN Append(r, vals) ELSE r
    [] OTHER -> <<nd.op, t[4]>> \o ks
TreeOf(t) == IF Gen THEN Shape(t, TRUE) ELSE t

\* Trees are values: two of them are equal exactly if they have the same shape, over the same spans where they name rules.
\* (What the words matched against the stack are compared by is left open.)
RECURSIVE Settled_(_), Alike(_, _), SameParts(_)
Settled_(t) == Node(t[1]).op \notin {"peek", "peekall", "pop", "popall"} /\ \A i \in 1..Len(t[5]) : Settled_(t[5][i])
Alike(a, b) ==
  /\ a[1] = b[1]
  /\ CASE Node(a[1]).op \in {"neg", "str", "soi", "eoi", "drop", "sl1", "sl2"} -> TRUE
       [] Node(a[1]).op = "rule" -> a[2] = b[2] /\ a[3] = b[3] /\ Alike(a[5][1], b[5][1])
       [] OTHER -> a[4] = b[4] /\ Len(a[5]) = Len(b[5]) /\ \A i \in 1..Len(a[5]) : Alike(a[5][i], b[5][i])
Firsts(n) == IF n < 6 THEN n ELSE 6
RECURSIVE Joins(_)
Joins(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Joins(Tail(ss))
\* for every repetition, outermost first, which of its first iterations are equal
SameParts(t) ==
  LET n == Firsts(Len(t[5]))
      one(i, j) == IF ~Settled_(t[5][i]) \/ ~Settled_(t[5][j]) THEN 2 ELSE IF Alike(t[5][i], t[5][j]) THEN 1 ELSE 0
      all == Joins([i \in 1..n |-> [d \in 1..(n - i) |-> one(i, i + d)]]) IN
  (IF Node(t[1]).op = "rep" THEN <<all>> ELSE <<>>) \o Joins([i \in 1..Len(t[5]) |-> SameParts(t[5][i])])
EqsMatch(want, got) == Len(want) = Len(got) /\ \A i \in 1..Len(want) : Len(want[i]) = Len(got[i]) /\ \A j \in 1..Len(want[i]) : want[i][j] \in {2, got[i][j]}

Ok == Got("ok")
EndP == IF Ok THEN pos ELSE -1
TreeP == IF Ok THEN TreeOf(ret.v) ELSE <<>>
PairsP == IF Ok THEN PairsOf(ret.v) ELSE <<>>
\* the stack is settled after success, and after a failure of what takes failed attempts back itself
Settled == Ok \/ Node(P.root).op \in {"pos", "neg", "cho", "rep"}

EntriesOf(rep) == [i \in 1..Len(rep.att) |->
                     <<rep.att[i][1], Range_(rep.att[i][2]), Range_(rep.att[i][3]), rep.att[i][4]>>]
MsgEq(tag, err, rep) ==
  /\ Eq(tag, Message(P.inp, P.chs, rep.pos, EntriesOf(rep), Name), err.msg)
  /\ Eq(tag, LineCol(P.inp, rep.pos), err.lc)
  /\ Eq(tag, rep.pos, err.at)

NonNeg(s) == \A i \in 1..Len(s) : s[i][1] >= 0 /\ s[i][2] >= s[i][1] /\ s[i][2] <= Len0
RECURSIVE PairsWithin(_, _, _)
PairsWithin(ps, a, b) == \A i \in 1..Len(ps) :
   /\ a <= ps[i][2] /\ ps[i][2] <= ps[i][3] /\ ps[i][3] <= b
   /\ i > 1 => ps[i - 1][3] <= ps[i][2]
   /\ PairsWithin(ps[i][4], ps[i][2], ps[i][3])

JudgePartial ==
  /\ Eq("panic", <<>>, Obs.panics)
  /\ Has("p") =>
     /\ Eq("out", <<Ok, EndP>>, <<Obs.p.ok, Obs.p.end>>)
     /\ Settled /\ Obs.p.ok = Ok => Eq("stk", stk, Obs.p.stk)
     /\ Eq("bal", TRUE, Obs.p.bal)
     /\ RepEq("rep", Obs.p.rep)
     /\ Obs.p.ok /\ Ok => Eq("tree", TreeP, Obs.p.tree) /\ ("pairs" \in DOMAIN Obs.p => Eq("pairs", PairsP, Obs.p.pairs))
     /\ (NonNeg(Obs.p.stk) /\ (Obs.p.ok => Obs.p.end \in P.start..Len0) /\ Obs.p.rep.pos >= P.start)
          \/ Bad("bound", "on a boundary", Obs.p)
     /\ Obs.p.ok /\ Ok /\ "eqs" \in DOMAIN Obs.p => LET w == SameParts(ret.v) IN EqsMatch(w, Obs.p.eqs) \/ Bad("equal", w, Obs.p.eqs)
     /\ "views" \in DOMAIN Obs.p => Eq("views", TRUE, Obs.p.views)
     /\ "disp" \in DOMAIN Obs.p => Eq("disp", TRUE, Obs.p.disp)
     /\ Obs.p.ok /\ "pairs" \in DOMAIN Obs.p => (PairsWithin(Obs.p.pairs, P.start, Obs.p.end) \/ Bad("nest", "nested", Obs.p.pairs))
  /\ Has("c") =>
     /\ Eq("outc", <<Ok, EndP>>, <<Obs.c.ok, Obs.c.end>>)
     /\ Settled /\ Obs.c.ok = Ok => Eq("stkc", stk, Obs.c.stk)
     /\ Eq("balc", TRUE, Obs.c.bal)
     /\ RepEq("repc", Obs.c.rep)
  /\ Has("p") /\ Has("c") =>
     /\ Eq("twin", <<Obs.p.ok, Obs.p.end>>, <<Obs.c.ok, Obs.c.end>>)
     /\ Obs.p.ok => Eq("twinstk", Obs.p.stk, Obs.c.stk)
     /\ SameRep("twinrep", Obs.p.rep, Obs.c.rep)
  /\ Obs.hasnf /\ Has("nf") => Eq("nf", <<pos, stk, ret.v[5]>>, <<Obs.nf.end, Obs.nf.stk, Obs.nf.ks>>)
  /\ Obs.entry /\ Has("epp") =>
       /\ Eq("epp", <<Ok, EndP, TreeP>>, <<Obs.epp.ok, Obs.epp.end, Obs.epp.tree>>)
       /\ ~Obs.epp.ok => MsgEq("msg", Obs.epp.err, Obs.p.rep)
  /\ Obs.entry /\ Has("ecp") =>
       /\ Eq("ecp", <<Ok, EndP>>, <<Obs.ecp.ok, Obs.ecp.end>>)
       /\ ~Obs.ecp.ok => MsgEq("msg", Obs.ecp.err, Obs.c.rep)
  /\ Has("through") => Eq("tpp", TRUE, Obs.through[1])
  /\ Obs.entry /\ Has("tpp") => Eq("tpp", <<Obs.epp.ok, Obs.epp.end, Obs.epp.tree, Obs.epp.err>>,
                                   <<Obs.tpp.ok, Obs.tpp.end, Obs.tpp.tree, Obs.tpp.err>>)
  /\ Obs.entry /\ Has("epp") /\ Has("ecp") => Eq("twinmsg", <<Obs.epp.ok, Obs.epp.err>>, <<Obs.ecp.ok, Obs.ecp.err>>)
JudgeFull ==
  /\ Has("fp") =>
       /\ Eq("fout", Ok, Obs.fp.ok)
       /\ RepEq("frep", Obs.fp.rep)
       /\ Ok /\ Obs.fp.ok => Eq("fstk", stk, Obs.fp.stk) /\ Eq("ftree", TreeP, Obs.fp.tree)
  /\ Has("fc") =>
       /\ Eq("foutc", Ok, Obs.fc.ok)
       /\ RepEq("frepc", Obs.fc.rep)
       /\ Ok /\ Obs.fc.ok => Eq("fstkc", stk, Obs.fc.stk)
  /\ Has("fp") /\ Has("fc") =>
       /\ Eq("ftwin", Obs.fp.ok, Obs.fc.ok)
       /\ SameRep("ftwinrep", Obs.fp.rep, Obs.fc.rep)
  /\ Obs.entry /\ Has("epf") =>
       /\ Eq("epf", <<Ok, TreeP>>, <<Obs.epf.ok, Obs.epf.tree>>)
       /\ ~Obs.epf.ok => MsgEq("msgf", Obs.epf.err, Obs.fp.rep)
  /\ Obs.entry /\ Has("ecf") =>
       /\ Eq("ecf", Ok, Obs.ecf.ok)
       /\ ~Obs.ecf.ok => MsgEq("msgf", Obs.ecf.err, Obs.fc.rep)
  /\ Has("through") => Eq("tpf", TRUE, Obs.through[2])
  /\ Obs.entry /\ Has("tpf") => Eq("tpf", <<Obs.epf.ok, Obs.epf.tree, Obs.epf.err>>,
                                   <<Obs.tpf.ok, Obs.tpf.tree, Obs.tpf.err>>)
  /\ Obs.entry /\ Has("epf") /\ Has("ecf") => Eq("ftwinmsg", <<Obs.epf.ok, Obs.epf.err>>, <<Obs.ecf.ok, Obs.ecf.err>>)

Count(k) == TLCSet(k, TLCGet(k) + 1)
\* evaluated once per state; always true, disagreements are printed
Judge ==
  /\ stage = "partial" => JudgePartial
  /\ stage = "full" => JudgeFull /\ Count(1)
AllJudged == TLCGet(1) = Len(TLCGet(2))
Summary == PrintT(<<"JUDGED", TLCGet(1), Len(TLCGet(2)), TLCGet("stats").distinct, TLCGet("stats").generated>>) /\ AllJudged
=============================================================================
