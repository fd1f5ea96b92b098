------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* Many derives, one after another, in one process or several, while the   *)
(* files they read are written, removed and put back between them.         *)
(*                                                                         *)
(* A history is [files, steps]: the places where a text may stand, and     *)
(* what happens there. Each step edits some of them and then derives:      *)
(* [edits, attrs, res, dig], an edit being [file, there, text]. res and    *)
(* dig are what was answered, once per process that took the step: the     *)
(* verdict, and a digest of the code given.                                *)
(*                                                                         *)
(* The machine links the project as it is on disk at each step (Link). The *)
(* answer may depend on nothing but what that reading took in: the         *)
(* attributes, and the texts read by their paths. `seen` is the memory an  *)
(* observer needs to tell.                                                 *)
(***************************************************************************)
EXTENDS Link

CONSTANT Record(_)          \* a history

VARIABLE seen               \* <<what was derived, digest of the answer>>
hvars == <<lvars, seen>>

\* the disk after step s: the last edit of each text counts
RECURSIVE LastEdit(_, _, _)
LastEdit(h, s, f) ==
  IF s = 0 THEN <<>>
  ELSE LET e == h.steps[s].edits
           mine == {i \in 1..Len(e) : e[i].file = f} IN
       IF mine # {} THEN <<e[CHOOSE i \in mine : \A j \in mine : j <= i]>> ELSE LastEdit(h, s - 1, f)
NOWHERE == [path |-> <<"?">>, full |-> <<0>>, text |-> <<>>]
Disk(h, s) == [f \in 1..Len(h.files) |->
                LET e == LastEdit(h, s, f) IN
                IF e = <<>> THEN NOWHERE ELSE IF ~e[1].there THEN NOWHERE
                ELSE [path |-> h.files[f].path, full |-> h.files[f].full, text |-> e[1].text]]
\* the project a history has at a step, named <<history, step>>
Snapshot(k) == LET h == Record(k[1]) IN [attrs |-> h.steps[k[2]].attrs, files |-> Disk(h, k[2]), calls |-> <<>>]
SnapshotText(g) == Disk(Record(g[1][1]), g[1][2])[g[2]].text

HistoryInit(h) == ProjInit(<<h, 1>>) /\ seen = {}
Here == Record(proj[1]).steps[proj[2]]
\* whether it is a grammar is known before the program is built
Answered == lstage \in {"build", "built", "refused", "too big"}
Verdict_ == IF lstage = "build" THEN "built" ELSE lstage
\* what the derive depends on
Subject == [attrs |-> Pj.attrs, texts |-> {<<Pj.files[f].path, Pj.files[f].full, Pj.files[f].text>> : f \in DOMAIN lmods}]
Answers == {<<Subject, Here.dig[i]>> : i \in {j \in 1..Len(Here.dig) : Here.res[j] = "built"}}

Reading == ~Answered /\ LinkNext /\ UNCHANGED seen
NextStep ==
  /\ Answered /\ proj[2] < Len(Record(proj[1]).steps)
  /\ seen' = seen \cup Answers
  /\ LET k == <<proj[1], proj[2] + 1>>
         p == Project(k)  why == Given(p)  src == IF why = "" THEN SourcesOf(p) ELSE <<1>> IN
     /\ proj' = k /\ lstage' = (IF why = "" THEN "read" ELSE "refused") /\ lwhy' = why /\ lmods' = <<>> /\ lqueue' = src
     /\ linst' = <<>> /\ lkeys' = <<>> /\ lroots' = <<>> /\ lnodes' = <<>>
     /\ gtext' = <<k, src[1]>> /\ gat' = 1 /\ gstage' = "docs" /\ gdocs' = <<>>
     /\ gimports' = <<>> /\ grules' = <<>> /\ goff' = {}
HistoryNext == Reading \/ NextStep

\* every process gives the verdict the grammar deserves as it is now
Deserved == Answered => lstage = "too big" \/ \A i \in 1..Len(Here.res) : Here.res[i] = Verdict_
\* the same grammar gives the same code, whatever came before
SameAgain == Answered => \A a \in Answers : \A b \in seen \cup Answers : a[1] = b[1] => a[2] = b[2]
=============================================================================
