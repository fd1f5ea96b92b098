-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts as sequences of code points; positions count characters (0 is     *)
(* before the first one). Lines end with LF; CRLF is one line end.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LF == 10
CR == 13
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Min0(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x <= y

\* number of UTF-8 bytes of a code point, and byte offset of a position
Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE Bytes(_, _)
Bytes(t, p) == IF p = 0 THEN 0 ELSE Bytes(t, p - 1) + Width(t[p])

\* the positions at which lines start: 0, and after every LF
LineStarts(t) == {0} \cup {i \in 1..Len(t) : t[i] = LF}
LineStart(t, p) == Max0({i \in LineStarts(t) : i <= p})
\* end of the line that contains p, including its LF
LineEnd(t, p) == Min0({i \in 1..Len(t) : i > p /\ t[i] = LF}, Len(t))
LineOf(t, p) == SubSeq(t, LineStart(t, p) + 1, LineEnd(t, p))
LineNo(t, p) == Cardinality({i \in 1..p : t[i] = LF}) + 1
\* an incomplete CRLF (position between CR and LF) counts the CR as a character
Column(t, p) == p - LineStart(t, p) + 1
LineCol(t, p) == <<LineNo(t, p), Column(t, p)>>
=============================================================================
