------------------------------ MODULE Snippet ------------------------------
(***************************************************************************)
(* How a span or a position of a text is shown: the lines it touches, with *)
(* line numbers, control characters made visible and markers under the     *)
(* columns. The output is a sequence of pieces <<kind, code points>>:      *)
(* 0 = written directly, 1 = span, 2 = marker, 3 = number; neighbouring    *)
(* pieces of kind 0 are one piece.                                         *)
(***************************************************************************)
EXTENDS Text

\* control characters are shown by their Unicode control pictures
Visible(c) == IF c <= 31 THEN 9216 + c ELSE IF c = 127 THEN 9249 ELSE c
Vis(s) == [i \in 1..Len(s) |-> Visible(s[i])]
\* columns a shown character takes: East Asian wide, fullwidth and ambiguous-wide ones take two
WideChars == {20013, 26085, 128512, 65345, 161, 8212, 8220, 215}
ZeroChars == {769, 8203}
Columns(c) == IF c \in WideChars THEN 2 ELSE IF c \in ZeroChars THEN 0 ELSE 1
RECURSIVE Cols(_)
Cols(s) == IF s = <<>> THEN 0 ELSE Columns(s[1]) + Cols(Tail(s))

Times(c, n) == [i \in 1..n |-> c]
Blank(n) == Times(32, n)
Bar == <<3, <<124>>>>
Raw(s) == <<0, s>>
NL == <<10>>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Right(n, w) == LET d == Digits(n) IN Blank(IF w > Len(d) THEN w - Len(d) ELSE 0) \o d

RECURSIVE Merge(_)
Merge(ps) == IF Len(ps) < 2 THEN ps
             ELSE IF ps[1][1] = 0 /\ ps[2][1] = 0
                  THEN Merge(<<Raw(ps[1][2] \o ps[2][2])>> \o SubSeq(ps, 3, Len(ps)))
                  ELSE <<ps[1]>> \o Merge(Tail(ps))
Drop0(ps) == SelectSeq(ps, LAMBDA p : p[1] # 0 \/ p[2] # <<>>)

\* the lines of a text as <<from, to>>; the empty text has one (empty) line
TextLines(t) ==
  LET lfs == SelectSeq([k \in 1..Len(t) |-> k], LAMBDA k : t[k] = LF)
      ends == IF Len(t) = 0 \/ t[Len(t)] # LF THEN Append(lfs, Len(t)) ELSE lfs
  IN [k \in 1..Len(ends) |-> <<IF k = 1 THEN 0 ELSE ends[k - 1], ends[k]>>]
\* the line a position is shown on: the one it lies in; the end of the text belongs to the last line
LineFor(ls, p) == IF \E k \in 1..Len(ls) : p < ls[k][2]
                  THEN CHOOSE k \in 1..Len(ls) : ls[k][1] <= p /\ p < ls[k][2]
                  ELSE Len(ls)
\* the line the end of a span is shown on: the one that holds its last character
LineForEnd(ls, k0, e) == CHOOSE k \in k0..Len(ls) : e <= ls[k][2] /\ (k = k0 \/ ls[k][1] < e)

Part(t, a, b) == Vis(SubSeq(t, a + 1, b))
Row(n, w) == <<(<<3, Right(n, w)>>), Raw(<<32>>), Bar, Raw(<<32>>)>>
Margin(w) == <<Raw(Blank(w) \o <<32>>), Bar>>

ShowPosition(t, p) ==
  LET ls == TextLines(t)  k == LineFor(ls, p)  l == ls[k]  w == Len(Digits(k))
  IN Merge(Drop0(Margin(w) \o <<Raw(NL)>>
     \o Row(k, w) \o <<Raw(Part(t, l[1], l[2]) \o NL)>>
     \o Margin(w) \o <<Raw(<<32>> \o Blank(Cols(Part(t, l[1], p)))), <<2, <<94>>>>, Raw(NL)>>))

ShowSpan(t, s, e) ==
  LET ls == TextLines(t)
      k1 == LineFor(ls, s)   k2 == LineForEnd(ls, k1, e)
      a == ls[k1]            b == ls[k2]
      w == Len(Digits(k2))
      n == k2 - k1 + 1
      Whole(k) == Row(k, w) \o <<(<<1, Part(t, ls[k][1], ls[k][2])>>), Raw(NL)>>
      Middle == IF n >= 6 THEN Whole(k1 + 1) \o Margin(w) \o <<Raw(<<32, 46, 46, 46, 10>>)>> \o Whole(k2 - 1)
                ELSE (IF n >= 3 THEN Whole(k1 + 1) ELSE <<>>) \o (IF n >= 5 THEN Whole(k1 + 2) ELSE <<>>)
                     \o (IF n >= 4 THEN Whole(k2 - 1) ELSE <<>>)
  IN Merge(Drop0(
     IF k1 = k2
     THEN Margin(w) \o <<Raw(NL)>>
          \o Row(k1, w) \o <<Raw(Part(t, a[1], s)), <<1, Part(t, s, e)>>, Raw(Part(t, e, a[2]) \o NL)>>
          \o Margin(w) \o <<Raw(<<32>> \o Blank(Cols(Part(t, a[1], s)))), <<2, Times(94, Cols(Part(t, s, e)))>>, Raw(NL)>>
     ELSE Margin(w) \o <<Raw(<<32>> \o Blank(Cols(Part(t, a[1], s)))), <<2, <<118>>>>, Raw(NL)>>
          \o Row(k1, w) \o <<Raw(Part(t, a[1], s)), <<1, Part(t, s, a[2])>>, Raw(NL)>>
          \o Middle
          \o Row(k2, w) \o <<(<<1, Part(t, b[1], e)>>), Raw(Part(t, e, b[2]) \o NL)>>
          \o Margin(w)
          \o <<Raw(<<32>> \o Blank(LET c == Cols(Part(t, b[1], e)) IN IF c = 0 THEN 0 ELSE c - 1)), <<2, <<94>>>>, Raw(NL)>>))

RECURSIVE Flatten(_)
Flatten(ps) == IF ps = <<>> THEN <<>> ELSE ps[1][2] \o Flatten(Tail(ps))
=============================================================================
