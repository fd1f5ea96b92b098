----------------------------- MODULE TraceText -----------------------------
(***************************************************************************)
(* Positions, spans and snippets of the real library against Cursor, Text  *)
(* and Snippet: positions are judged where the cursor stands on them, the  *)
(* spans of a text when it has been walked to the end.                     *)
(***************************************************************************)
EXTENDS Cursor, Snippet, TLC, Json, IOUtils

ASSUME TLCSet(1, 0) /\ TLCSet(2, ndJsonDeserialize(IOEnv.CASES))
RecText(k) == TLCGet(2)[k].inp
RecInit == \E k \in 1..Len(TLCGet(2)) : CursorInit(k)
RecSpec == RecInit /\ [][CursorNext]_cvars
Row0 == TLCGet(2)[ti]
Obs == Row0.obs
Off == Row0.off
N == Off[Len(Off)]
CharOf(b) == IF \E k \in 1..Len(Off) : Off[k] = b THEN (CHOOSE k \in 1..Len(Off) : Off[k] = b) - 1 ELSE -1
B(c) == Off[c + 1]

Bad(tag, what, want, got) == PrintT(<<"BAD", Row0.id, tag, what, want, got>>)
Eq(tag, what, want, got) == want = got \/ Bad(tag, what, want, got)

JudgePosition ==
  LET o == Obs.pos[bo + 1] IN
  /\ Eq("spec", i, bo, Off[i + 1])
  /\ IF o.ok = "unasked" THEN TRUE ELSE IF o.ok # "yes" THEN Bad("pos", bo, "yes", o.ok)
     ELSE /\ Eq("pos", bo, bo, o.pos)
          /\ Eq("linecol", bo, <<line, col>>, o.lc)
          /\ Eq("lineof", bo, <<B(bol), B(LineEnd(T, i))>>, o.line)
          /\ Eq("ord", bo, [k \in 1..Len(Off) |-> IF i < k - 1 THEN -1 ELSE IF i = k - 1 THEN 0 ELSE 1], o.ord)
          /\ Eq("ord", bo, o.ord, o.partial)
          /\ Eq("same", bo, [k \in 1..Len(Off) |-> i = k - 1], o.eq) /\ Eq("same", bo, TRUE, o.hash)
          \* a place in another text: never equal, and neither to be ordered with nor to be joined to this one
          /\ \A k \in 1..Len(o.mix) : Eq("mix", bo, [x \in 1..6 |-> FALSE], o.mix[k])
          /\ Eq("two", bo, <<bo, <<bo, N>>>>, o.two)
          /\ Row0.disp => LET s == ShowPosition(T, i) IN
               /\ Eq("showpos", bo, s, o.disp)
               /\ Eq("showpos", bo, Flatten(s), o.plain)
NoPositionInside ==
  \A k \in 1..Len(Obs.pos) : Obs.pos[k].ok # "unasked" /\ CharOf(k - 1) = -1 => Eq("pos", k - 1, "no", Obs.pos[k].ok)

\* lines of a span: from the line of its start to the line its end lies on
SpanLines(s, e) == SelectSeq(TextLines(T), LAMBDA l : l[2] > s /\ l[1] <= e)
BL(l) == <<B(l[1]), B(l[2])>>
JudgeSpan(o) ==
  LET s == CharOf(o.a)  e == CharOf(o.b) IN
  IF s = -1 \/ e = -1 \/ s > e THEN Eq("span", <<o.a, o.b>>, "no", o.ok)
  ELSE IF o.ok # "yes" THEN Bad(IF Row0.disp THEN "showspan" ELSE "span", <<o.a, o.b>>, "yes", o.ok)
  ELSE LET ab == <<o.a, o.b>>
           ls == IF Len(T) = 0 THEN <<>> ELSE SpanLines(s, e)
           bl == [k \in 1..Len(ls) |-> BL(ls[k])] IN
       /\ Eq("span", ab, ab, o.text) /\ Eq("span", ab, ab, o.ends)
       /\ Eq("span", ab, ab, o.posns) /\ Eq("span", ab, ab, o.split)
       /\ Eq("span", ab, <<0, N>>, o.whole)
       /\ Eq("join", ab, ab, o.joined) /\ Eq("join", ab, TRUE, o.same)
       /\ Eq("lines", ab, bl, o.lines) /\ Eq("lines", ab, bl, o.linet)
       /\ Row0.disp => LET sh == ShowSpan(T, s, e) IN
            /\ Eq("showspan", ab, sh, o.disp)
            /\ Eq("showspan", ab, Flatten(sh), o.plain)

\* sub-range of a span: bounds [kind, value], kind 0 = included, 1 = excluded, 2 = open; value -1 = the greatest number
Huge == 1000000
Val(v) == IF v = -1 THEN Huge ELSE v
SubRange(g) ==
  LET len == g[2] - g[1]
      lo == CASE g[3] = 0 -> Val(g[4]) [] g[3] = 1 -> Val(g[4]) + 1 [] OTHER -> 0
      hi == CASE g[5] = 0 -> Val(g[6]) + 1 [] g[5] = 1 -> Val(g[6]) [] OTHER -> len
  IN IF lo <= hi /\ hi <= len /\ CharOf(g[1] + lo) # -1 /\ CharOf(g[1] + hi) # -1 THEN <<g[1] + lo, g[1] + hi>> ELSE <<>>
MinOf(x, y) == IF x < y THEN x ELSE y
MaxOf(x, y) == IF x > y THEN x ELSE y
Union(g) == IF g[2] >= g[3] /\ g[1] <= g[4] THEN <<MinOf(g[1], g[3]), MaxOf(g[2], g[4])>> ELSE <<>>

JudgeEnd ==
  /\ NoPositionInside
  /\ \A k \in 1..Len(Obs.spans) : JudgeSpan(Obs.spans[k])
  /\ \A k \in 1..Len(Obs.gets) : Eq("get", Obs.gets[k].g, SubRange(Obs.gets[k].g), Obs.gets[k].r)
  /\ \A k \in 1..Len(Obs.merges) : Eq("merge", Obs.merges[k].g, Union(Obs.merges[k].g), Obs.merges[k].r)
  /\ \A k \in 1..Len(Obs.merges) : LET g == Obs.merges[k].g IN
       Eq("same", g, <<g[1] = g[3] /\ g[2] = g[4], TRUE, TRUE, FALSE, FALSE>>, Obs.merges[k].same)
Judge == IF done THEN JudgeEnd /\ TLCSet(1, TLCGet(1) + 1) ELSE JudgePosition
AllJudged == TLCGet(1) = Len(TLCGet(2))
Summary == PrintT(<<"JUDGED", TLCGet(1), Len(TLCGet(2)), TLCGet("stats").distinct, TLCGet("stats").generated>>) /\ AllJudged
=============================================================================
