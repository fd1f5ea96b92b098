------------------------------- MODULE Tracker -------------------------------
(***************************************************************************)
(* The failure report: how far an attempt got, and what was tried there.   *)
(* rs is the sequence of open rules [r, pos, kids], innermost last.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

NoRule == -1                       \* "no enclosing rule"
EmptyReport(p) == [pos |-> p, att |-> <<>>]
\* att is a function from enclosing rule to [exp, unx, sp]; <<>> is the empty one
Entry(tr, u) == IF u \in DOMAIN tr.att THEN tr.att[u] ELSE [exp |-> {}, unx |-> {}, sp |-> {}]
\* the nearest open rule that began somewhere else than p
RECURSIVE UpperOf(_, _)
UpperOf(rs, p) == IF rs = <<>> THEN NoRule
                  ELSE IF rs[Len(rs)].pos # p THEN rs[Len(rs)].r
                  ELSE UpperOf(SubSeq(rs, 1, Len(rs) - 1), p)
\* move the report to p (forgetting everything earlier) if p is further
Advance(tr, p) == IF p > tr.pos THEN EmptyReport(p) ELSE tr
SetEntry(tr, u, e) == [tr EXCEPT !.att = (u :> e) @@ tr.att]
\* an innermost attempt of rule r at p finished
Record(tr, rs, r, p, succeeded, positive) ==
  IF p < tr.pos THEN tr
  ELSE LET t1 == Advance(tr, p)
           u == UpperOf(rs, p)
           e == Entry(t1, u)
       IN IF succeeded = positive THEN t1
          ELSE SetEntry(t1, u, IF positive THEN [e EXCEPT !.exp = @ \cup {r}]
                                           ELSE [e EXCEPT !.unx = @ \cup {r}])
Special(tr, rs, p, what) ==
  IF p < tr.pos THEN tr
  ELSE LET t1 == Advance(tr, p)
           u == UpperOf(rs, p)
           e == Entry(t1, u)
       IN SetEntry(t1, u, [e EXCEPT !.sp = @ \cup {what}])
=============================================================================
