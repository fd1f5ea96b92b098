------------------------------- MODULE Refusal -------------------------------
(***************************************************************************)
(* What a refusal says: where the fault lies and what it is about.         *)
(*                                                                         *)
(* A place is [file, lo, hi]: an index of a character between lo and hi in *)
(* one text of the project. A fault in a text is a chain of places: the    *)
(* import in the given text, the import in the text that takes in, and so  *)
(* on, and last the fault itself. Of several faults any may be reported.   *)
(***************************************************************************)
EXTENDS Link

-----------------------------------------------------------------------------
(* Reading a whole text at once: the imports with the places of their paths,*)
(* the literals and bounds that denote nothing, and, if it is not a grammar,*)
(* where reading gets stuck.                                               *)
RECURSIVE DocsEnd(_, _), ItemsFrom(_, _, _)
DocsEnd(T, k) == LET d == DocLine(T, Skip(T, k), 33) IN IF d = Fail THEN k ELSE DocsEnd(T, d[1])
\* what comes before the first character that no item can go on with
StuckImport(T, s) == IF Lit(T, s, KUSE) THEN Skip(T, s + 4) ELSE s
StuckRule(T, s) ==
  LET d == Docs(T, s)
      n == RuleName(T, d[1]) IN
  IF n = Fail THEN d[1]
  ELSE LET q == Skip(T, Params(T, Skip(T, n[1]))[1]) IN
       IF At(T, q) # EQUAL THEN q
       ELSE LET m == Skip(T, q + 1) IN IF At(T, m) = 95 /\ ~NameChar(At(T, m + 1)) THEN Skip(T, m + 1) ELSE m
ItemsFrom(T, k, any) ==
  LET s == Skip(T, k)  m == Import(T, s)  r == Rule(T, s) IN
  IF m # Fail THEN
    LET at == Skip(T, s + 4)
        q == ItemsFrom(T, m[1], any) IN
    [q EXCEPT !.imports = <<[imp |-> m[2], lo |-> at, hi |-> Path(T, at)[1] - 1]>> \o @, !.offs = @ \cup m[3]]
  ELSE IF r # Fail THEN LET q == ItemsFrom(T, r[1], TRUE) IN [q EXCEPT !.offs = @ \cup Offences(r[2][5])]
  ELSE [ok |-> any /\ s > Len(T), stuck |-> Max0({StuckImport(T, s), StuckRule(T, s)}), imports |-> <<>>, offs |-> {}]
ReadAll(T) == ItemsFrom(T, DocsEnd(T, 1), FALSE)

\* characters that some token starts with; text in quotes or after a slash may go on for long
Opening(c) == NameChar(c) \/ c \in {9, 10, 13, 32} \/ c \in {33, 38, 40, 41, 42, 43, 44, 45, 46, 58, 61, 63, 91, 93, 94, 95, 123, 124, 125, 126}
Open_(c) == c \in {QUOTE, TICK, POUND, 47}
RECURSIVE Beyond(_, _)
Beyond(T, k) == IF k > Len(T) \/ Open_(T[k]) THEN Len(T) + 1 ELSE IF Opening(T[k]) THEN Beyond(T, k + 1) ELSE k

-----------------------------------------------------------------------------
(* The chains of a text; `reading`: the files being read around it.        *)
Place(f, lo, hi, kind, about) == [file |-> f, lo |-> lo, hi |-> hi, kind |-> kind, about |-> about]
RECURSIVE Chains(_, _)
Chains(f, reading) ==
  LET T == Pj.files[f].text
      r == ReadAll(T) IN
  IF ~r.ok THEN {<<Place(f, r.stuck, Beyond(T, r.stuck), "syntax", <<>>)>>}
  ELSE {<<Place(f, o[1], o[2] - 1, "content", <<>>)>> : o \in r.offs}
       \cup UNION {
         LET m == r.imports[k]  g == Target(f, m.imp) IN
         IF g = -1 THEN {}
         ELSE IF g = 0 THEN {<<Place(f, m.lo, m.hi, "no file", IF m.imp[3] # <<>> THEN m.imp[3][1] ELSE Last(m.imp[2]))>>}
         ELSE IF g \in reading THEN {<<Place(f, m.lo, m.hi, "cycle", <<g>>)>>}
         ELSE {<<Place(f, m.lo, m.hi, "import", <<g>>)>> \o c : c \in Chains(g, reading \cup {g})}
         : k \in 1..Len(r.imports)}
\* a text given by an attribute may be taken in once more before that is seen to be a cycle
TextFaults == UNION {Chains(SourcesOf(Pj)[k], {}) \cup Chains(SourcesOf(Pj)[k], {SourcesOf(Pj)[k]}) : k \in 1..Len(SourcesOf(Pj))}

-----------------------------------------------------------------------------
(* What was said: the places in the message, each as <<line, column>>; the *)
(* files it names after each, as [file, name]; and its words.              *)
Ends(s, t) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Shows(p, lc) == \E k \in (IF p.kind \in {"syntax", "content"} THEN p.lo..p.hi ELSE {p.lo}) : LineCol(Pj.files[p.file].text, k - 1) = lc
DOTPEST == <<46, 112, 101, 115, 116>>
SUPER == <<115, 117, 112, 101, 114>>
NamesFile(p, said) ==
  CASE p.kind \in {"import", "cycle"} -> said.file = p.about[1]
    [] p.kind = "no file" -> p.about = SUPER \/ Ends(said.name, p.about) \/ Ends(said.name, p.about \o DOTPEST)
    [] OTHER -> TRUE
Tells(places, files, chain) ==
  /\ Len(places) = Len(chain) /\ Len(files) = Len(chain)
  /\ \A k \in 1..Len(chain) : Shows(chain[k], places[k]) /\ NamesFile(chain[k], files[k])

\* the first name on a path that leads nowhere
RECURSIVE Leads(_, _)
Leads(inst, p) ==
  \/ p = <<"pest">>
  \/ p[1] = "pest" /\ Len(p) = 2 /\ p[2] \in DOMAIN Plain \cup {"stack", "unicode"}
  \/ BuiltinNode(p)
  \/ LET d == Local(inst, p) IN d[1] # "nothing"
Lost(inst, p) == p[CHOOSE k \in 1..Len(p) : ~Leads(inst, SubSeq(p, 1, k)) /\ \A j \in 1..k - 1 : Leads(inst, SubSeq(p, 1, j))]
\* the words one of which, for each set, has to be in the message
WordsFor(f) ==
  CASE f[1] = "no such trivia" -> {{f[2][1]}, {f[3]}}
    [] f[1] = "no such import" -> {{Lost(<<>>, f[2])}}
    [] f[1] = "no such rule" /\ ~Leads(f[4], f[2]) -> {{Lost(f[4], f[2])}}
    [] OTHER -> {{Last(f[2])}}
Twice == LET is == Instances(<<>>, RootModule) IN
  UNION {LET d == Defined(is[k][2]) IN {d[a] : a \in {b \in 1..Len(d) : \E c \in 1..b - 1 : d[c] = d[b]}} : k \in 1..Len(is)}
Missing == {Last(Pj.attrs[k].val) : k \in {j \in 1..Len(Pj.attrs) : Pj.attrs[j].name = "grammar" /\
              Found(LAMBDA names : FileOf(Pj, names) # 0, Pj.attrs[j].val) = <<>>}}
\* what a refusal of this project may say
Explains(said) ==
  LET words == {said.words[k] : k \in 1..Len(said.words)}
      about(set) == set \cap words # {} IN
  CASE Given(Pj) = "attribute" -> about({Pj.attrs[k].name : k \in {j \in 1..Len(Pj.attrs) : ~WellFormed(Pj.attrs[j])}})
    [] Given(Pj) = "no grammar" -> about({"grammar"})
    [] Given(Pj) = "no such file" -> about(Missing)
    [] Pj.told = "text" \/ TextFaults # {} -> TextFaults = {} \/ \E c \in TextFaults : Tells(said.places, said.files, c)
    [] lwhy = "defined twice" /\ (about(Twice) \/ ~Distinct([k \in 1..Len(linst) |-> linst[k][1]])) -> TRUE
    [] OTHER -> \E f \in AllFaults : \A w \in WordsFor(f) : about(w)
=============================================================================
