------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* Rendering of a failure report as the message of the returned error.     *)
(* A report is a sequence of entries <<upper, exp, unx, special>> sorted   *)
(* by upper (-1: none), exp/unx sets of rules; texts are TLA+ strings, and *)
(* the input is also given as a sequence chs of one-character strings.     *)
(***************************************************************************)
EXTENDS Text, TLC, SequencesExt

RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Join(Tail(ss))
RECURSIVE Spaces(_)
Spaces(n) == IF n = 0 THEN "" ELSE " " \o Spaces(n - 1)
RECURSIVE Commas(_)
Commas(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o ", " \o Commas(Tail(ss))
RuleList(S, Name(_)) == LET q == SetToSortSeq(S, <) IN "[" \o Commas([i \in 1..Len(q) |-> Name(q[i])]) \o "]"

SpecialText(s) ==
  CASE s[1] = "empty" -> "Nothing to pop or drop."
    [] s[1] = "slice" /\ Len(s) = 2 -> "Peek slice " \o ToString(s[2]) \o ".. out of bound."
    [] s[1] = "slice" /\ Len(s) = 3 -> "Peek slice " \o ToString(s[2]) \o ".." \o ToString(s[3]) \o " out of bound."
    [] s[1] = "repeat" -> "Repeated too many times."
    [] OTHER -> "?"

EntryText(e, nl, Name(_)) ==
  LET exp == e[2]  unx == e[3]
      by == IF e[1] = -1 THEN "" ELSE ", by " \o Name(e[1])
      body == CASE exp = {} /\ unx = {} -> "Unknown error (no rule tracked)"
                [] exp # {} /\ unx = {} -> "Expected " \o RuleList(exp, Name)
                [] exp = {} /\ unx # {} -> "Unexpected " \o RuleList(unx, Name)
                [] OTHER -> "Unexpected " \o RuleList(unx, Name) \o ", expected " \o RuleList(exp, Name)
      note(s) == nl \o SpecialText(s) \o (IF e[1] = -1 THEN "" ELSE " (By " \o Name(e[1]) \o ")")
  IN nl \o body \o by \o "." \o Join([i \in 1..Len(e[4]) |-> note(e[4][i])])

Message(t, chs, p, entries, Name(_)) ==
  LET nl == "\n" \o Spaces(Len(ToString(LineNo(t, p))) + 3)
  IN Join(SubSeq(chs, LineStart(t, p) + 1, p)) \o "^---"
     \o Join([i \in 1..Len(entries) |-> EntryText(entries[i], nl, Name)])
=============================================================================
