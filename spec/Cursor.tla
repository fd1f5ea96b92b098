------------------------------- MODULE Cursor -------------------------------
(***************************************************************************)
(* A cursor walking over a text one character at a time: character index,  *)
(* byte offset, line, column and the start of the current line.            *)
(***************************************************************************)
EXTENDS Text

CONSTANT TextOf(_)     \* TextOf(i): the i-th text
VARIABLES ti, i, bo, line, col, bol, done
cvars == <<ti, i, bo, line, col, bol, done>>
T == TextOf(ti)

CursorInit(k) == ti = k /\ i = 0 /\ bo = 0 /\ line = 1 /\ col = 1 /\ bol = 0 /\ done = FALSE

Advance == i' = i + 1 /\ bo' = bo + Width(T[i + 1]) /\ UNCHANGED <<ti, done>>
\* LF ends a line (the CR of a CRLF before it was a character of that line)
StepLF == i < Len(T) /\ T[i + 1] = LF /\ Advance /\ line' = line + 1 /\ col' = 1 /\ bol' = i + 1
StepChar == i < Len(T) /\ T[i + 1] # LF /\ Advance /\ line' = line /\ col' = col + 1 /\ bol' = bol
Finish == i = Len(T) /\ ~done /\ done' = TRUE /\ UNCHANGED <<ti, i, bo, line, col, bol>>
CursorNext == StepLF \/ StepChar \/ Finish

\* the walk agrees with the direct definitions, and lines tile the text
CursorOK ==
  /\ <<line, col>> = LineCol(T, i)
  /\ bol = LineStart(T, i)
  /\ bo = Bytes(T, i)
  /\ bol <= i /\ i <= LineEnd(T, i)
  /\ (i < Len(T)) => i < LineEnd(T, i)
  /\ \A j \in bol..LineEnd(T, i) - 2 : T[j + 1] # LF
=============================================================================
