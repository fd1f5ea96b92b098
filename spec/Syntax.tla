------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* Reading grammar text: the surface syntax of pest3 as a deterministic    *)
(* machine that reads one item (document line, import, rule) per step.     *)
(*                                                                         *)
(* A text T is a sequence of code points, i the index of the next one.     *)
(* Every reader maps (T, i) to Fail or <<j, value>>, where j is the index  *)
(* after what was read. Expression trees are tagged tuples; names,         *)
(* literals and numbers are sequences of code points.                      *)
(*                                                                         *)
(* A literal that is well formed but denotes nothing (\x80, \u{d800}, a    *)
(* repetition {0} or {3..1}, a number that does not fit) is an offence: a  *)
(* leaf <<"bad", i, j>> with the text range to be reported.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, Text

Fail == <<>>
At(T, i) == IF i <= Len(T) THEN T[i] ELSE -1
Lit(T, i, s) == i + Len(s) - 1 <= Len(T) /\ \A k \in 1..Len(s) : T[i + k - 1] = s[k]

Digit(c) == c \in 48..57
Letter(c) == c \in 65..90 \/ c \in 97..122
NameStart(c) == c = 95 \/ Letter(c)
NameChar(c) == NameStart(c) \/ Digit(c)
Hex(c) == Digit(c) \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
\* tokens
KUSE == <<117, 115, 101, 32>>
KIN == <<105, 110>>
KAS == <<97, 115>>
DOTS == <<46, 46>>
COLONS == <<58, 58>>
BAR == 124
TILDE == 126
CARET == 94
MINUS == 45
QUOTE == 34
TICK == 39
BACK == 92
LP == 40
RP == 41
LB == 123
RB == 125
LK == 91
RK == 93
COMMA == 44
EQUAL == 61
POUND == 35

(***************************************************************************)
(* What may stand between any two tokens: blanks, line ends (LF or CRLF),  *)
(* nested block comments, and line comments, which are neither /// nor //!.*)
(***************************************************************************)
NewlineAt(T, i) == At(T, i) = LF \/ (At(T, i) = CR /\ At(T, i + 1) = LF)
RECURSIVE EndOfLine(_, _)
EndOfLine(T, i) == IF i > Len(T) \/ NewlineAt(T, i) THEN i ELSE EndOfLine(T, i + 1)
RECURSIVE BlockEnd(_, _, _)
BlockEnd(T, i, depth) ==
  IF i > Len(T) THEN 0
  ELSE IF Lit(T, i, <<47, 42>>) THEN BlockEnd(T, i + 2, depth + 1)
  ELSE IF Lit(T, i, <<42, 47>>) THEN (IF depth = 1 THEN i + 2 ELSE BlockEnd(T, i + 2, depth - 1))
  ELSE BlockEnd(T, i + 1, depth)
RECURSIVE Skip(_, _)
Skip(T, i) ==
  LET c == At(T, i) IN
  CASE c = 32 \/ c = 9 \/ c = LF -> Skip(T, i + 1)
    [] c = CR /\ At(T, i + 1) = LF -> Skip(T, i + 2)
    [] Lit(T, i, <<47, 42>>) -> LET e == BlockEnd(T, i + 2, 1) IN IF e = 0 THEN i ELSE Skip(T, e)
    [] Lit(T, i, <<47, 47>>) /\ At(T, i + 2) \notin {47, 33} -> Skip(T, EndOfLine(T, i + 2))
    [] OTHER -> i

(***************************************************************************)
(* Names and numbers                                                       *)
(***************************************************************************)
RECURSIVE NameEnd(_, _)
NameEnd(T, i) == IF NameChar(At(T, i)) THEN NameEnd(T, i + 1) ELSE i
Name(T, i) == IF NameStart(At(T, i)) THEN LET j == NameEnd(T, i) IN <<j, SubSeq(T, i, j - 1)>> ELSE Fail
RECURSIVE DigitsEnd(_, _)
DigitsEnd(T, i) == IF Digit(At(T, i)) THEN DigitsEnd(T, i + 1) ELSE i
\* decimal, no leading zeros
Number(T, i) ==
  IF At(T, i) = 48 THEN <<i + 1, <<48>> >>
  ELSE IF Digit(At(T, i)) THEN LET j == DigitsEnd(T, i) IN <<j, SubSeq(T, i, j - 1)>> ELSE Fail
RECURSIVE Less(_, _, _)
Less(a, b, k) == k <= Len(a) /\ (a[k] < b[k] \/ (a[k] = b[k] /\ Less(a, b, k + 1)))
Below(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Less(a, b, 1))
\* 2^64 and 2^63 in decimal
TwoTo64 == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,54>>
TwoTo63 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
\* readers of numbers give <<j, digits, whether it fits>>
Count(T, i) == LET n == Number(T, i) IN IF n = Fail THEN Fail ELSE <<n[1], n[2], Below(n[2], TwoTo64)>>
\* an index: sign and number; denotes digits, or a minus and digits; zero has no sign
Index(T, i) ==
  LET sign == At(T, i) \in {43, MINUS}
      n == Number(T, IF sign THEN i + 1 ELSE i)
      neg == At(T, i) = MINUS IN
  IF n = Fail THEN Fail
  ELSE <<n[1], IF neg /\ n[2] # <<48>> THEN <<MINUS>> \o n[2] ELSE n[2], Below(n[2], TwoTo63) \/ (neg /\ n[2] = TwoTo63)>>

(***************************************************************************)
(* Literals                                                                *)
(***************************************************************************)
RECURSIVE HexEnd(_, _)
HexEnd(T, i) == IF Hex(At(T, i)) THEN HexEnd(T, i + 1) ELSE i
RECURSIVE HexNum(_, _, _)
HexNum(T, i, j) == IF j = i THEN 0 ELSE 16 * HexNum(T, i, j - 1) + HexVal(T[j - 1])
Simple == [c \in {110, 114, 116, 48, BACK, QUOTE, TICK} |->
             CASE c = 110 -> LF [] c = 114 -> CR [] c = 116 -> 9 [] c = 48 -> 0 [] OTHER -> c]
\* the escape at i (T[i] is the backslash): <<j, character>>, -1 for one that denotes no character
Escape(T, i) ==
  LET c == At(T, i + 1) IN
  IF c \in DOMAIN Simple THEN <<i + 2, Simple[c]>>
  ELSE IF c = 120 THEN
    IF Hex(At(T, i + 2)) /\ Hex(At(T, i + 3))
    THEN LET v == HexNum(T, i + 2, i + 4) IN <<i + 4, IF v < 128 THEN v ELSE -1>> ELSE Fail
  ELSE IF c = 117 /\ At(T, i + 2) = LB THEN
    LET e == HexEnd(T, i + 3) IN
    IF e - (i + 3) \in 1..6 /\ At(T, e) = RB
    THEN LET v == HexNum(T, i + 3, e) IN
         <<e + 1, IF v <= 1114111 /\ v \notin 55296..57343 THEN v ELSE -1>>
    ELSE Fail
  ELSE Fail
\* characters up to the closing quote
RECURSIVE Inside(_, _, _)
Inside(T, i, acc) ==
  IF i > Len(T) THEN Fail
  ELSE IF T[i] = QUOTE THEN <<i + 1, acc>>
  ELSE IF T[i] = BACK THEN LET e == Escape(T, i) IN IF e = Fail THEN Fail ELSE Inside(T, e[1], Append(acc, e[2]))
  ELSE Inside(T, i + 1, Append(acc, T[i]))
Denotes(s) == \A k \in 1..Len(s) : s[k] # -1
Quoted(T, i) == IF At(T, i) = QUOTE THEN Inside(T, i + 1, <<>>) ELSE Fail
Str(T, i) == LET s == Quoted(T, i) IN
  IF s = Fail THEN Fail ELSE <<s[1], IF Denotes(s[2]) THEN <<"str", s[2]>> ELSE <<"bad", i, s[1]>> >>
Insens(T, i) == IF At(T, i) # 105 THEN Fail ELSE LET s == Quoted(T, i + 1) IN
  IF s = Fail THEN Fail ELSE <<s[1], IF Denotes(s[2]) THEN <<"insens", s[2]>> ELSE <<"bad", i, s[1]>> >>
RECURSIVE Pounds(_, _)
Pounds(T, i) == IF At(T, i) = POUND THEN 1 + Pounds(T, i + 1) ELSE 0
RECURSIVE RawEnd(_, _, _)
RawEnd(T, i, n) ==
  IF i > Len(T) THEN 0
  ELSE IF T[i] = QUOTE /\ i + n <= Len(T) /\ \A k \in 1..n : T[i + k] = POUND THEN i
  ELSE RawEnd(T, i + 1, n)
Raw(T, i) ==
  IF At(T, i) # 114 THEN Fail
  ELSE LET n == Pounds(T, i + 1)  q == i + 1 + n IN
       IF At(T, q) # QUOTE THEN Fail
       ELSE LET e == RawEnd(T, q + 1, n) IN
            IF e = 0 THEN Fail ELSE <<e + n + 1, <<"str", SubSeq(T, q + 1, e - 1)>> >>
\* a character literal: an escape if one can be read, else any one character
Char(T, i) ==
  IF At(T, i) # TICK THEN Fail
  ELSE LET e == IF At(T, i + 1) = BACK THEN Escape(T, i + 1) ELSE Fail
           c == IF e # Fail THEN e ELSE IF i + 1 <= Len(T) THEN <<i + 2, T[i + 1]>> ELSE Fail IN
       IF c = Fail THEN Fail ELSE IF At(T, c[1]) = TICK THEN <<c[1] + 1, c[2]>> ELSE Fail
Range(T, i) ==
  LET a == Char(T, i) IN
  IF a = Fail THEN Fail
  ELSE LET d == Skip(T, a[1]) IN
       IF ~Lit(T, d, DOTS) THEN Fail
       ELSE LET k == Skip(T, d + 2)  b == Char(T, k) IN
            IF b = Fail THEN Fail
            ELSE <<b[1], IF a[2] = -1 THEN <<"bad", i, a[1]>> ELSE IF b[2] = -1 THEN <<"bad", k, b[1]>>
                         ELSE <<"range", a[2], b[2]>> >>

(***************************************************************************)
(* Expressions. An operator belongs to the expression only if what must    *)
(* follow it can be read; the same holds of every optional part.           *)
(***************************************************************************)
\* lo and hi between an opening bracket at i and a closing one: <<j, lo, hi, offence>>;
\* Num reads a number, a missing one is <<>>
Between(T, i, close, one, Num(_, _)) ==
  LET ai == Skip(T, i + 1)
      a == Num(T, ai)
      d == Skip(T, IF a = Fail THEN i + 1 ELSE a[1])
      lo == IF a = Fail THEN <<>> ELSE a[2]
      loff == IF a # Fail /\ ~a[3] THEN <<ai, a[1]>> ELSE <<>> IN
  IF Lit(T, d, DOTS) THEN
    LET bi == Skip(T, d + 2)
        b == Num(T, bi)
        e == Skip(T, IF b = Fail THEN d + 2 ELSE b[1])
        boff == IF b # Fail /\ ~b[3] THEN <<bi, b[1]>> ELSE <<>> IN
    IF At(T, e) = close THEN <<e + 1, lo, IF b = Fail THEN <<>> ELSE b[2], IF loff # <<>> THEN loff ELSE boff>> ELSE Fail
  ELSE IF one /\ a # Fail /\ At(T, d) = close THEN <<d + 1, lo, lo, loff>> ELSE Fail
Bounds(T, i, x) ==
  LET r == Between(T, i, RB, TRUE, Count) IN
  IF r = Fail THEN Fail
  ELSE LET void == (r[2] # <<>> /\ r[3] # <<>> /\ Below(r[3], r[2])) \/ r[3] = <<48>>
           off == IF r[4] # <<>> THEN r[4] ELSE IF void THEN <<Skip(T, i + 1), r[1] - 1>> ELSE <<>> IN
       <<r[1], IF off # <<>> THEN <<"bad", off[1], off[2]>> ELSE <<"rep", x, r[2], r[3]>> >>

RECURSIVE Expr(_, _), Term(_, _), Postfixes(_, _, _), Items(_, _), Steps(_, _)
\* path segments after the first
Steps(T, i) ==
  LET d == Skip(T, i) IN
  IF ~Lit(T, d, COLONS) THEN <<i, <<>> >>
  ELSE LET n == Name(T, Skip(T, d + 2)) IN
       IF n = Fail THEN <<i, <<>> >>
       ELSE LET r == Steps(T, n[1]) IN <<r[1], <<n[2]>> \o r[2]>>
PlainPath(T, i) ==
  LET n == Name(T, i) IN
  IF n = Fail THEN Fail ELSE LET r == Steps(T, n[1]) IN <<r[1], <<n[2]>> \o r[2]>>
\* expressions separated by commas, at i
Items(T, i) ==
  LET e == Expr(T, i) IN
  IF e = Fail THEN Fail
  ELSE LET c == Skip(T, e[1]) IN
       IF At(T, c) # COMMA THEN <<e[1], <<e[2]>> >>
       ELSE LET r == Items(T, Skip(T, c + 1)) IN
            IF r = Fail THEN <<c + 1, <<e[2]>> >> ELSE <<r[1], <<e[2]>> \o r[2]>>
Call(T, i) ==
  IF At(T, i) # LP THEN Fail
  ELSE LET s == Skip(T, i + 1)
           r == Items(T, s)
           e == Skip(T, IF r = Fail THEN i + 1 ELSE r[1]) IN
       IF At(T, e) = RP THEN <<e + 1, IF r = Fail THEN <<>> ELSE r[2]>> ELSE Fail
Slice(T, i) == IF At(T, i) # LK THEN Fail ELSE Between(T, i, RK, FALSE, Index)
Path(T, i) ==
  LET p == PlainPath(T, i) IN
  IF p = Fail THEN Fail
  ELSE LET k == Skip(T, p[1])  c == Call(T, k)  s == Slice(T, k) IN
       IF c # Fail THEN <<c[1], <<"call", p[2], c[2]>> >>
       ELSE IF s # Fail THEN
         <<s[1], IF s[4] # <<>> THEN <<"bad", s[4][1], s[4][2]>> ELSE <<"slice", p[2], s[2], s[3]>> >>
       ELSE <<p[1], <<"path", p[2]>> >>
Group(T, i) ==
  IF At(T, i) # LP THEN Fail
  ELSE LET e == Expr(T, Skip(T, i + 1)) IN
       IF e = Fail THEN Fail
       ELSE LET k == Skip(T, e[1]) IN IF At(T, k) = RP THEN <<k + 1, e[2]>> ELSE Fail
Node(T, i) ==
  CASE At(T, i) = LP -> Group(T, i)
    [] At(T, i) = QUOTE -> Str(T, i)
    [] At(T, i) = TICK -> Range(T, i)
    [] OTHER -> LET r == Raw(T, i)  n == Insens(T, i) IN
                IF r # Fail THEN r ELSE IF n # Fail THEN n ELSE Path(T, i)
\* postfix operators apply from the inside out, in the order written
Postfixes(T, i, x) ==
  LET o == Skip(T, i)
      sep == At(T, o) \in {TILDE, CARET}
      k == IF sep THEN Skip(T, o + 1) ELSE o
      y == IF sep THEN <<"sep", x, IF T[o] = TILDE THEN 1 ELSE 2>> ELSE x
      c == At(T, k)
      b == IF c = LB THEN Bounds(T, k, y) ELSE Fail IN
  CASE c = 63 -> Postfixes(T, k + 1, <<"opt", y>>)
    [] c = 42 -> Postfixes(T, k + 1, <<"star", y>>)
    [] c = 43 -> Postfixes(T, k + 1, <<"plus", y>>)
    \* an offending bound hides nothing that was already found inside its operand
    [] b # Fail -> Postfixes(T, b[1], IF b[2][1] = "bad" THEN <<"both", x, b[2]>> ELSE b[2])
    [] OTHER -> <<i, x>>
\* prefix operators are outermost
Term(T, i) ==
  IF At(T, i) \in {38, 33} THEN
    LET r == Term(T, Skip(T, i + 1)) IN
    IF r = Fail THEN Fail ELSE <<r[1], <<IF T[i] = 38 THEN "pos" ELSE "neg", r[2]>> >>
  ELSE LET n == Node(T, i) IN IF n = Fail THEN Fail ELSE Postfixes(T, n[1], n[2])
\* a choice bar, possibly written ~| or ^|
Bar(T, i) ==
  IF At(T, i) = BAR THEN <<i + 1, 3>>
  ELSE IF At(T, i) \in {TILDE, CARET} /\ At(T, Skip(T, i + 1)) = BAR THEN <<Skip(T, i + 1) + 1, 3>>
  ELSE Fail
Infix(T, i) ==
  LET b == Bar(T, i) IN
  IF b # Fail THEN b
  ELSE CASE At(T, i) = MINUS -> <<i + 1, 0>> [] At(T, i) = TILDE -> <<i + 1, 1>> [] At(T, i) = CARET -> <<i + 1, 2>>
         [] OTHER -> Fail
\* the operators and terms from i on: <<j, << <<op, term>>, ...
RECURSIVE Chain(_, _)
Chain(T, i) ==
  LET o == Infix(T, Skip(T, i)) IN
  IF o = Fail THEN <<i, <<>> >>
  ELSE LET t == Term(T, Skip(T, o[1])) IN
       IF t = Fail THEN <<i, <<>> >>
       ELSE LET r == Chain(T, t[1]) IN <<r[1], <<(<<o[2], t[2]>>)>> \o r[2]>>
\* sequences bind tighter than choices; both nest to the right
RECURSIVE FoldSeq(_, _, _), FoldChoice(_, _)
\* x, then the sequence operators of ch from k on: <<tree, index of the next bar or Len(ch)+1>>
FoldSeq(x, ch, k) ==
  IF k > Len(ch) \/ ch[k][1] = 3 THEN <<x, k>>
  ELSE LET r == FoldSeq(ch[k][2], ch, k + 1) IN << <<"seq", x, r[1], ch[k][1]>>, r[2]>>
FoldChoice(x, ch) ==
  LET l == FoldSeq(x, ch, 1) IN
  IF l[2] > Len(ch) THEN l[1]
  ELSE <<"choice", l[1], FoldChoice(ch[l[2]][2], SubSeq(ch, l[2] + 1, Len(ch)))>>
Expr(T, i) ==
  LET b == Bar(T, i)
      t == Term(T, IF b = Fail THEN i ELSE Skip(T, b[1])) IN
  IF t = Fail THEN Fail
  ELSE LET c == Chain(T, t[1]) IN <<c[1], FoldChoice(t[2], c[2])>>

RECURSIVE Offences(_), OffencesOf(_)
Offences(x) ==
  CASE x[1] = "bad" -> {<<x[2], x[3]>>}
    [] x[1] = "both" -> Offences(x[2]) \cup Offences(x[3])
    [] x[1] \in {"seq", "choice"} -> Offences(x[2]) \cup Offences(x[3])
    [] x[1] \in {"pos", "neg", "opt", "star", "plus", "rep", "sep"} -> Offences(x[2])
    [] x[1] = "call" -> OffencesOf(x[3])
    [] OTHER -> {}
OffencesOf(s) == UNION {Offences(s[k]) : k \in 1..Len(s)}

(***************************************************************************)
(* Items                                                                   *)
(***************************************************************************)
Blank(c) == c \in (9..13) \cup {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ Blank(s[1]) THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
TrimR(s) == IF s # <<>> /\ Blank(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
DocLine(T, i, third) ==
  IF Lit(T, i, <<47, 47, third>>) THEN
    LET e == EndOfLine(T, i + 3) IN <<e, TrimR(TrimL(SubSeq(T, i + 3, e - 1)))>>
  ELSE Fail
RECURSIVE Docs(_, _)
Docs(T, i) ==
  LET d == DocLine(T, i, 47) IN
  IF d = Fail THEN <<i, <<>> >>
  ELSE LET r == Docs(T, Skip(T, d[1])) IN <<r[1], <<d[2]>> \o r[2]>>

\* parameters: names separated by commas, maybe a trailing one, maybe none
RECURSIVE Names(_, _)
Names(T, i) ==
  LET n == Name(T, i) IN
  IF n = Fail THEN Fail
  ELSE LET c == Skip(T, n[1]) IN
       IF At(T, c) # COMMA THEN <<n[1], <<n[2]>> >>
       ELSE LET r == Names(T, Skip(T, c + 1)) IN
            IF r = Fail THEN <<c + 1, <<n[2]>> >> ELSE <<r[1], <<n[2]>> \o r[2]>>
Params(T, i) ==
  IF At(T, i) # LP THEN <<i, <<>> >>
  ELSE LET r == Names(T, Skip(T, i + 1))
           e == Skip(T, IF r = Fail THEN i + 1 ELSE r[1]) IN
       IF At(T, e) = RP THEN <<e + 1, IF r = Fail THEN <<>> ELSE r[2]>> ELSE <<i, <<>> >>
Body(T, i) ==
  IF At(T, i) # LB THEN Expr(T, i)
  ELSE LET e == Expr(T, Skip(T, i + 1)) IN
       IF e = Fail THEN Fail
       ELSE LET k == Skip(T, e[1]) IN IF At(T, k) = RB THEN <<k + 1, e[2]>> ELSE Fail
RuleName(T, i) == IF At(T, i) \in {TILDE, CARET} THEN <<i + 1, <<T[i]>> >> ELSE Name(T, i)
Rule(T, i) ==
  LET d == Docs(T, i)
      n == RuleName(T, d[1]) IN
  IF n = Fail THEN Fail
  ELSE LET p == Params(T, Skip(T, n[1]))
           q == Skip(T, p[1]) IN
       IF At(T, q) # EQUAL THEN Fail
       ELSE LET m == Skip(T, q + 1)
                silent == At(T, m) = 95 /\ ~NameChar(At(T, m + 1))
                b == Body(T, IF silent THEN Skip(T, m + 1) ELSE m) IN
            IF b = Fail THEN Fail
            ELSE <<b[1], <<n[2], p[2], IF silent THEN 1 ELSE 0, d[2], b[2]>> >>

PEST == <<112, 101, 115, 116>>
Last(s) == s[Len(s)]
\* <<j, <<alias, path, file name or nothing>>, offence ranges>>; importing another grammar
\* is an offence where there is none to be found (FileImports = FALSE)
CONSTANT FileImports
Import(T, i) ==
  IF ~Lit(T, i, KUSE) THEN Fail
  ELSE LET at == Skip(T, i + 4)  p == Path(T, at) IN
       IF p = Fail THEN Fail
       ELSE LET k == Skip(T, p[1])
                f == IF Lit(T, k, KIN) THEN Quoted(T, Skip(T, k + 2)) ELSE Fail
                m == IF f = Fail THEN p[1] ELSE f[1]
                w == Skip(T, m)
                a == IF Lit(T, w, KAS) /\ ~NameChar(At(T, w + 2)) THEN Name(T, Skip(T, w + 2)) ELSE Fail
                names == IF p[2][1] = "path" THEN p[2][2] ELSE <<PEST>>
                \* arguments of the path, or a file that cannot be read
                wrong == IF p[2][1] # "path" THEN {<<at, p[1]>>}
                         ELSE IF f # Fail /\ ~Denotes(f[2]) THEN {<<Skip(T, k + 2), f[1]>>}
                         ELSE IF names[1] # PEST /\ ~FileImports THEN {<<at, p[1]>>} ELSE {} IN
            <<IF a # Fail THEN a[1] ELSE m,
              <<IF a # Fail THEN a[2] ELSE Last(names), names, IF f = Fail THEN <<>> ELSE <<f[2]>> >>, wrong>>

(***************************************************************************)
(* The machine: gtext names the text, gat the next character, gstage what  *)
(* may come next: "docs" (grammar documentation), "imports" (before the    *)
(* first rule), "items", and finally "read" or "rejected".                 *)
(***************************************************************************)
CONSTANT GrammarText(_)
VARIABLES gtext, gat, gstage, gdocs, gimports, grules, goff
gvars == <<gtext, gat, gstage, gdocs, gimports, grules, goff>>
G == GrammarText(gtext)
GrammarInit(k) == gtext = k /\ gat = 1 /\ gstage = "docs" /\ gdocs = <<>> /\ gimports = <<>> /\ grules = <<>> /\ goff = {}
ReadDoc ==
  /\ gstage = "docs"
  /\ LET d == DocLine(G, Skip(G, gat), 33) IN
     IF d = Fail THEN gstage' = "imports" /\ UNCHANGED <<gat, gdocs>>
     ELSE gat' = d[1] /\ gdocs' = Append(gdocs, d[2]) /\ UNCHANGED gstage
  /\ UNCHANGED <<gtext, gimports, grules, goff>>
ReadItem ==
  /\ gstage \in {"imports", "items"}
  /\ LET s == Skip(G, gat)  m == Import(G, s)  r == Rule(G, s) IN
     IF m # Fail THEN /\ gat' = m[1] /\ gimports' = Append(gimports, m[2]) /\ goff' = goff \cup m[3]
                      /\ UNCHANGED <<gstage, grules>>
     ELSE IF r # Fail THEN /\ gat' = r[1] /\ grules' = Append(grules, r[2]) /\ gstage' = "items"
                           /\ goff' = goff \cup Offences(r[2][5]) /\ UNCHANGED gimports
     ELSE /\ gstage' = IF gstage = "items" /\ s > Len(G) /\ goff = {} THEN "read" ELSE "rejected"
          /\ goff' = IF gstage = "items" /\ s > Len(G) THEN goff ELSE {}
          /\ UNCHANGED <<gat, gimports, grules>>
  /\ UNCHANGED <<gtext, gdocs>>
GrammarNext == ReadDoc \/ ReadItem
GrammarDone == gstage \in {"read", "rejected"}

\* reading never goes back, and every step but the last takes text
Progress == [][gat' >= gat /\ (gat' = gat => gstage' # gstage)]_gvars
=============================================================================
