--------------------------------- MODULE Link ---------------------------------
(***************************************************************************)
(* From grammar text to a parsing program: which grammars the text takes   *)
(* in, which rule every name denotes, what applying a rule with parameters *)
(* means, and which trivia each operator skips.                            *)
(*                                                                         *)
(* A project is [attrs, files, calls]: the attributes given to the derive  *)
(* macro (Attributes); every text that exists, as [path, text]: path is    *)
(* the sequence of directories and the name of the file, <<>> for inline   *)
(* text; and the applications the program asks for, as [name, args].       *)
(*                                                                         *)
(* The machine reads one item of one text per step (Syntax), follows the   *)
(* imports, then links the module tree, checks every rule, and builds the  *)
(* nodes of one rule instance per step until no new instance is asked for. *)
(* The program it ends with is what PegMachine runs.                       *)
(***************************************************************************)
EXTENDS Syntax, Attributes, FiniteSets, TLC

CONSTANTS Project(_), UniName(_)   \* a project; whether there is a Unicode class of that name

VARIABLES
  proj,     \* which project this behaviour links
  lstage,   \* "read" | "link" | "check" | "build" | "built" | "refused" | "too big"
  lwhy,     \* why it was refused
  lmods,    \* file -> [imports, rules] for the files read so far
  lqueue,   \* files to read next
  linst,    \* path of aliases -> module, for every module reachable from the root
  lkeys,    \* the rule instances and trivia asked for
  lroots,   \* the node of each of them that is built
  lnodes    \* nodes built so far
lvars == <<proj, lstage, lwhy, lmods, lqueue, linst, lkeys, lroots, lnodes>>

Pj == Project(proj)

-----------------------------------------------------------------------------
(* Code points of names as strings. *)
ASCII == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
CharOf(c) ==
  CASE c \in 48..57 -> SubSeq(ASCII, c - 47, c - 47)
    [] c \in 65..90 -> SubSeq(ASCII, c - 54, c - 54)
    [] c = 95 -> "_"
    [] c \in 97..122 -> SubSeq(ASCII, c - 59, c - 59)
    [] c = TILDE -> "~"
    [] c = CARET -> "^"
    [] OTHER -> "?"
RECURSIVE S(_)
S(s) == IF s = <<>> THEN "" ELSE CharOf(Head(s)) \o S(Tail(s))
SS(p) == [i \in 1..Len(p) |-> S(p[i])]
RECURSIVE Num(_)
Num(d) == IF d = <<>> THEN 0 ELSE 10 * Num(SubSeq(d, 1, Len(d) - 1)) + (d[Len(d)] - 48)
Int0(d) == IF d = <<>> THEN 0 ELSE IF d[1] = MINUS THEN -Num(Tail(d)) ELSE Num(d)
Front(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE SetToSeq(_)
SetToSeq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o SetToSeq(X \ {x})
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Distinct(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
Index1(s, x) == IF \E i \in 1..Len(s) : s[i] = x THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..i - 1 : s[j] # x ELSE 0

-----------------------------------------------------------------------------
(* Reading: an imported path names a file next to the importing one. *)
RECURSIVE Normal(_)
Normal(p) == IF p = <<>> THEN <<>>
             ELSE LET q == Normal(Front(p)) IN IF Last(p) = "super" THEN Front(q) ELSE Append(q, Last(p))
FileOf(p, path) == IF \E f \in 1..Len(p.files) : p.files[f].path = path
                   THEN CHOOSE f \in 1..Len(p.files) : p.files[f].path = path ELSE 0
FileAt(path) == FileOf(Pj, path)
\* an inline text stands in the directory its path names, like the file `_`
Target(f, imp) ==
  LET names == SS(imp[2]) IN
  IF names[1] = "pest" THEN -1
  ELSE IF imp[3] # <<>> THEN (IF \E g \in 1..Len(Pj.files) : Pj.files[g].full = imp[3][1]
                              THEN CHOOSE g \in 1..Len(Pj.files) : Pj.files[g].full = imp[3][1] ELSE 0)
  ELSE FileAt(Normal(Front(Pj.files[f].path) \o names))
ModuleOf(f) ==
  [imports |-> [i \in 1..Len(gimports) |->
                  [as |-> S(gimports[i][1]), names |-> SS(gimports[i][2]), file |-> Target(f, gimports[i])]],
   rules |-> [i \in 1..Len(grules) |->
                  [name |-> S(grules[i][1]), params |-> SS(grules[i][2]), silent |-> grules[i][3] = 1, expr |-> grules[i][5], doc |-> grules[i][4]]],
   docs |-> gdocs,
   targets |-> {Target(f, gimports[i]) : i \in 1..Len(gimports)} \ {-1}]

\* the texts given to the parser, in the order of the attributes (0: no such file)
SourcesOf(p) ==
  LET q == Named(p.attrs, {"grammar", "grammar_inline"})
      exists(names) == FileOf(p, names) # 0 IN
  [i \in 1..Len(q) |-> IF q[i].name = "grammar_inline" THEN q[i].val[1] ELSE FileOf(p, Found(exists, q[i].val))]
Given(p) == IF \E i \in 1..Len(p.attrs) : ~WellFormed(p.attrs[i]) THEN "attribute"
            ELSE IF SourcesOf(p) = <<>> THEN "no grammar"
            ELSE IF \E i \in 1..Len(SourcesOf(p)) : SourcesOf(p)[i] = 0 THEN "no such file" ELSE ""
ProjInit(k) ==
  LET p == Project(k)  why == Given(p)  src == IF why = "" THEN SourcesOf(p) ELSE <<1>> IN
  /\ proj = k /\ lstage = (IF why = "" THEN "read" ELSE "refused") /\ lwhy = why /\ lmods = <<>> /\ lqueue = src
  /\ linst = <<>> /\ lkeys = <<>> /\ lroots = <<>> /\ lnodes = <<>>
  /\ GrammarInit(<<k, src[1]>>)

ReadOn == /\ lstage = "read" /\ ~GrammarDone /\ GrammarNext /\ UNCHANGED lvars
Refuse(why) == lstage' = "refused" /\ lwhy' = why
ModuleRead ==
  /\ lstage = "read" /\ GrammarDone
  /\ UNCHANGED <<proj, linst, lkeys, lroots, lnodes>>
  /\ LET f == gtext[2]  m == ModuleOf(f) IN
     IF gstage = "rejected" THEN Refuse("syntax") /\ UNCHANGED <<lmods, lqueue>> /\ UNCHANGED gvars
     ELSE IF 0 \in m.targets THEN Refuse("no such file") /\ UNCHANGED <<lmods, lqueue>> /\ UNCHANGED gvars
     ELSE LET mods == (f :> m) @@ lmods
              more == {g \in m.targets : g \notin DOMAIN mods /\ Index1(Tail(lqueue), g) = 0}
              q == Tail(lqueue) \o SetToSeq(more) IN
          /\ lmods' = mods /\ lqueue' = q /\ lwhy' = lwhy
          /\ IF q = <<>> THEN lstage' = "link" /\ UNCHANGED gvars
             ELSE /\ UNCHANGED lstage
                  /\ gtext' = <<proj, q[1]>> /\ gat' = 1 /\ gstage' = "docs" /\ gdocs' = <<>>
                  /\ gimports' = <<>> /\ grules' = <<>> /\ goff' = {}

-----------------------------------------------------------------------------
(* Linking: the tree of modules; the texts given to one parser are one module. *)
RECURSIVE Cyclic(_, _)
Cyclic(f, open) == f \in open \/ \E g \in lmods[f].targets : Cyclic(g, open \cup {f})
Roots == SourcesOf(Pj)
RootModule == [imports |-> Flat([i \in 1..Len(Roots) |-> lmods[Roots[i]].imports]),
               rules |-> Flat([i \in 1..Len(Roots) |-> lmods[Roots[i]].rules]),
               docs |-> Flat([i \in 1..Len(Roots) |-> lmods[Roots[i]].docs])]
FileImportsOf(m) == SelectSeq(m.imports, LAMBDA i : i.file > 0)
RECURSIVE Instances(_, _)
Instances(inst, m) ==
  LET fs == FileImportsOf(m) IN
  <<(<<inst, m>>)>> \o Flat([i \in 1..Len(fs) |-> Instances(Append(inst, fs[i].as), lmods[fs[i].file])])
Defined(m) == [i \in 1..Len(m.imports) |-> m.imports[i].as] \o [i \in 1..Len(m.rules) |-> m.rules[i].name]
Link ==
  /\ lstage = "link" /\ UNCHANGED <<proj, lmods, lqueue, lkeys, lroots, lnodes>> /\ UNCHANGED gvars
  /\ IF \E i \in 1..Len(Roots) : Cyclic(Roots[i], {}) THEN Refuse("cyclic import") /\ UNCHANGED linst
     ELSE LET is == Instances(<<>>, RootModule) IN
          IF \E i \in 1..Len(is) : ~Distinct(Defined(is[i][2])) THEN Refuse("defined twice") /\ linst' = is
          ELSE linst' = is /\ lstage' = "check" /\ UNCHANGED lwhy

InstIndex(inst) == CHOOSE i \in 1..Len(linst) : linst[i][1] = inst
Mod(inst) == linst[InstIndex(inst)][2]
RuleOf(inst, name) == LET m == Mod(inst) IN m.rules[CHOOSE i \in 1..Len(m.rules) : m.rules[i].name = name]
Trivium(kind) == IF kind = 1 THEN "~" ELSE "^"
HasRule(inst, name) == LET m == Mod(inst) IN \E i \in 1..Len(m.rules) : m.rules[i].name = name

\* the rules a parse can name, in the order of the module tree
Inlined(r) == r.silent /\ r.params # <<>>
NumberedOf(m) == SelectSeq(m.rules, LAMBDA r : r.name \notin {"~", "^"} /\ ~Inlined(r))
Numbered == Flat([i \in 1..Len(linst) |->
              LET q == NumberedOf(linst[i][2]) IN [j \in 1..Len(q) |-> <<linst[i][1], q[j].name>>]])
RECURSIVE Shown(_, _)
Shown(inst, name) == IF inst = <<>> THEN name ELSE inst[1] \o "(" \o Shown(Tail(inst), name) \o ")"

-----------------------------------------------------------------------------
(* Names: first the built-ins, then what the module defines or imports. *)
Plain == [soi |-> "soi", eoi |-> "eoi", any |-> "any", newline |-> "nl",
          ascii_digit |-> "digit", ascii_nonzero_digit |-> "nzdigit", ascii_bin_digit |-> "bin", ascii_oct_digit |-> "oct",
          ascii_hex_digit |-> "hex", ascii_alpha_lower |-> "lower", ascii_alpha_upper |-> "upper", ascii_alpha |-> "alpha",
          ascii_alphanumeric |-> "alnum", ascii |-> "ascii"]
OnStack == [peek |-> "peek", pop |-> "pop", drop |-> "drop", peek_all |-> "peekall", pop_all |-> "popall", push |-> "push"]
BuiltinNode(p) ==
  /\ p[1] = "pest"
  /\ \/ Len(p) = 1
     \/ Len(p) = 2 /\ p[2] \in DOMAIN Plain \cup {"stack", "unicode"}
     \/ Len(p) = 3 /\ p[2] = "stack" /\ p[3] \in DOMAIN OnStack
     \/ Len(p) = 3 /\ p[2] = "unicode" /\ UniName(p[3])
RECURSIVE Local(_, _)
Local(inst, p) ==
  LET m == Mod(inst)
      k == Index1([i \in 1..Len(m.imports) |-> m.imports[i].as], p[1]) IN
  IF k # 0 THEN
    IF m.imports[k].file = -1 THEN
      LET q == m.imports[k].names \o Tail(p) IN IF BuiltinNode(q) THEN <<"builtin", q>> ELSE <<"nothing">>
    ELSE IF Len(p) = 1 THEN <<"module">> ELSE Local(Append(inst, p[1]), Tail(p))
  ELSE IF HasRule(inst, p[1]) /\ Len(p) = 1 THEN <<"rule", inst, p[1]>> ELSE <<"nothing">>
Resolve(inst, p) == IF BuiltinNode(p) THEN <<"builtin", p>> ELSE Local(inst, p)

-----------------------------------------------------------------------------
(* Meaning of an expression: a closed tree [op, s, lo, hi, l, k, t, key].   *)
(* l is the name by which an accessor knows the node, k the sub-trees, t    *)
(* the keys of the trivia skipped before each (<<>>: none), key the rule    *)
(* instance of a reference.                                                 *)
T0(op) == [op |-> op, s |-> <<>>, lo |-> 0, hi |-> 0, l |-> "", k |-> <<>>, t |-> <<>>, key |-> <<>>]
Leaf(op, l) == [T0(op) EXCEPT !.l = l]
\* a fault: why, and the path it was found at
Wrong(why, path) == [T0("wrong") EXCEPT !.l = why, !.key = path]
Node1(op, x) == [T0(op) EXCEPT !.k = <<x>>]
Skips(inst, kind) ==
  IF kind = 0 THEN <<>> ELSE IF HasRule(inst, Trivium(kind)) THEN <<"trivia", inst, kind>> ELSE <<"wrong", Trivium(kind)>>

RECURSIVE Elab(_, _, _, _), ElabAll(_, _, _, _, _), Use(_, _, _, _, _), Chained(_, _, _, _, _)
\* a tuple built by concatenation, so that TLC evaluates each tree once
ElabAll(inst, env, busy, xs, i) ==
  IF i > Len(xs) THEN <<>> ELSE <<Elab(inst, env, busy, xs[i])>> \o ElabAll(inst, env, busy, xs, i + 1)
\* env: <<parameter, tree>> pairs; busy: the silent rules being unfolded
Elab(inst, env, busy, x) ==
  CASE x[1] = "str" -> [T0("str") EXCEPT !.s = x[2]]
    [] x[1] = "insens" -> [T0("ins") EXCEPT !.s = x[2]]
    [] x[1] = "range" -> [T0("rng") EXCEPT !.lo = x[2], !.hi = x[3]]
    [] x[1] = "path" -> Use(inst, env, busy, SS(x[2]), <<>>)
    [] x[1] = "call" -> Use(inst, env, busy, SS(x[2]), <<"call", x[3]>>)
    [] x[1] = "slice" -> Use(inst, env, busy, SS(x[2]), <<"slice", x[3], x[4]>>)
    [] x[1] \in {"seq", "choice"} -> Chained(inst, env, busy, x, x[1])
    [] x[1] \in {"pos", "neg", "opt"} -> Node1(x[1], Elab(inst, env, busy, x[2]))
    [] x[1] \in {"star", "plus", "rep"} ->
         LET sep == x[2][1] = "sep"
             y == Elab(inst, env, busy, IF sep THEN x[2][2] ELSE x[2]) IN
         [Node1("rep", y) EXCEPT
            !.lo = CASE x[1] = "plus" -> 1 [] x[1] = "rep" -> Num(x[3]) [] OTHER -> 0,
            !.hi = IF x[1] # "rep" \/ x[4] = <<>> THEN -1 ELSE Num(x[4]),
            !.t = <<Skips(inst, IF sep THEN x[2][3] ELSE 0)>>]
    \* trivia named where nothing is separated (b~?) has to be there all the same
    [] x[1] = "sep" -> LET y == Elab(inst, env, busy, x[2])  t == Skips(inst, x[3]) IN
                       IF t # <<>> /\ t[1] = "wrong" THEN [y EXCEPT !.t = Append(@, t)] ELSE y
\* a right operand that is a sequence (choice) itself continues the sequence (choice)
Chained(inst, env, busy, x, op) ==
  LET a == Elab(inst, env, busy, x[2])
      b == Elab(inst, env, busy, x[3])
      o == IF op = "seq" THEN "seq" ELSE "cho"
      on == b.op = o /\ b.l = "" IN
  [T0(o) EXCEPT !.k = <<a>> \o (IF on THEN b.k ELSE <<b>>),
                !.t = IF op = "seq" THEN <<(<<>>), Skips(inst, x[4])>> \o (IF on THEN Tail(b.t) ELSE <<>>) ELSE <<>>]
Use(inst, env, busy, p, args) ==
  LET par == IF Len(p) = 1 THEN Index1([i \in 1..Len(env) |-> env[i][1]], p[1]) ELSE 0
      d == Resolve(inst, p)
      none == args = <<>> \/ args = <<"call", <<>> >>
      argc == IF args # <<>> /\ args[1] = "call" THEN Len(args[2]) ELSE 0 IN
  IF par # 0 THEN env[par][2]
  ELSE CASE d[1] \in {"nothing", "module"} -> Wrong("no such rule", p)
    [] d[1] = "builtin" ->
       LET q == d[2]  n == Last(q) IN
       IF Len(q) = 3 /\ q[2] = "unicode" THEN
         IF none THEN [Leaf("uni", n) EXCEPT !.key = <<n>>] ELSE Wrong("arguments", p)
       ELSE IF Len(q) = 3 /\ n = "push" THEN
         IF args # <<>> /\ args[1] = "call" /\ argc = 1
         THEN [Node1("push", Elab(inst, env, busy, args[2][1])) EXCEPT !.l = Last(p)] ELSE Wrong("arguments", p)
       ELSE IF Len(q) = 3 /\ n = "peek" /\ args # <<>> /\ args[1] = "slice" THEN
         IF args[3] = <<>> THEN [Leaf("sl1", Last(p)) EXCEPT !.lo = Int0(args[2])]
         ELSE [Leaf("sl2", Last(p)) EXCEPT !.lo = Int0(args[2]), !.hi = Int0(args[3])]
       ELSE IF args # <<>> THEN Wrong("arguments", p)
       ELSE IF Len(q) = 3 /\ q[2] = "stack" THEN Leaf(OnStack[n], Last(p))
       ELSE IF Len(q) = 2 /\ n \in DOMAIN Plain THEN Leaf(Plain[n], Last(p))
       ELSE Wrong("no such rule", p)
    [] d[1] = "rule" ->
       LET r == RuleOf(d[2], d[3])
           vals == IF argc = 0 THEN <<>> ELSE ElabAll(inst, env, busy, args[2], 1) IN
       IF (args # <<>> /\ args[1] = "slice") \/ argc # Len(r.params) THEN Wrong("arguments", p)
       ELSE IF Inlined(r) THEN
         IF <<d[2], d[3]>> \in busy THEN Wrong("endless", p)
         ELSE Elab(d[2], [i \in 1..argc |-> <<r.params[i], vals[i]>>], busy \cup {<<d[2], d[3]>>}, r.expr)
       ELSE [T0("ref") EXCEPT !.l = Last(p), !.key = <<"rule", d[2], d[3], vals>>]

\* the faults of a tree: <<why, the names on the path at fault, or the operator that lacks its trivia>>
RECURSIVE Faults(_)
Faults(x) == (IF x.op = "wrong" THEN {<<x.l, x.key>>} ELSE {})
             \cup {<<"no such trivia", <<x.t[i][2]>> >> : i \in {j \in 1..Len(x.t) : x.t[j] # <<>> /\ x.t[j][1] = "wrong"}}
             \cup UNION {Faults(x.k[i]) : i \in 1..Len(x.k)}
             \cup (IF x.op = "ref" THEN UNION {Faults(x.key[4][i]) : i \in 1..Len(x.key[4])} ELSE {})
\* the body of a rule for arbitrary arguments
Open(inst, r) == Elab(inst, [i \in 1..Len(r.params) |-> <<r.params[i], Leaf("param", r.params[i])>>], {}, r.expr)
FaultsOf(inst, r) == {<<f[1], f[2], r.name, inst>> : f \in Faults(Open(inst, r))}
AllFaults == UNION {UNION {FaultsOf(linst[i][1], linst[i][2].rules[j]) : j \in 1..Len(linst[i][2].rules)} : i \in 1..Len(linst)}
                \cup UNION {{<<"no such import", linst[i][2].imports[j].names, "">> : j \in {k \in 1..Len(linst[i][2].imports) :
                           linst[i][2].imports[k].file = -1 /\ ~BuiltinNode(linst[i][2].imports[k].names)}} : i \in 1..Len(linst)}
\* what a program can ask to be matched: the rules of every module, and (calls) rules of the root applied to rules of the root
RECURSIVE Applied(_)
Applied(c) == <<"rule", <<>>, c.name, [i \in 1..Len(c.args) |-> [T0("ref") EXCEPT !.l = c.args[i].name, !.key = Applied(c.args[i])]]>>
Asked ==
  LET q == SelectSeq(Numbered, LAMBDA n : RuleOf(n[1], n[2]).params = <<>>) IN
  [i \in 1..Len(q) |-> <<"rule", q[i][1], q[i][2], <<>> >>] \o [i \in 1..Len(Pj.calls) |-> Applied(Pj.calls[i])]
Check ==
  /\ lstage = "check" /\ UNCHANGED <<proj, lmods, lqueue, linst, lroots, lnodes>> /\ UNCHANGED gvars
  /\ LET f == AllFaults IN
     IF f # {} THEN Refuse((CHOOSE w \in f : TRUE)[1]) /\ UNCHANGED lkeys
     ELSE lstage' = "build" /\ UNCHANGED lwhy /\ lkeys' = Asked

-----------------------------------------------------------------------------
(* Building: trees become nodes; a reference is the negated index of its key until all keys are built. *)
LNode(x, k, t) == [op |-> x.op, k |-> k, t |-> t, s |-> x.s, lo |-> x.lo, hi |-> x.hi, l |-> <<>>, c |-> "",
                   silent |-> FALSE, accs |-> <<>>, uni |-> IF x.op = "uni" THEN x.key[1] ELSE ""]
KeyIndex(keys, key) == Index1(keys, key)
\* acc = [nodes, keys]; gives [nodes, keys, id]
AddKey(acc, key) ==
  LET i == KeyIndex(acc.keys, key) IN
  IF i # 0 THEN [nodes |-> acc.nodes, keys |-> acc.keys, id |-> -i]
  ELSE [nodes |-> acc.nodes, keys |-> Append(acc.keys, key), id |-> -(Len(acc.keys) + 1)]
RECURSIVE Put(_, _), PutAll(_, _, _)
PutAll(acc, xs, i) ==      \* ids of the trees from i on
  IF i > Len(xs) THEN [nodes |-> acc.nodes, keys |-> acc.keys, ids |-> <<>>]
  ELSE LET a == Put(acc, xs[i])
           r == PutAll(a, xs, i + 1) IN [nodes |-> r.nodes, keys |-> r.keys, ids |-> <<a.id>> \o r.ids]
RECURSIVE SkipAll(_, _, _)
SkipAll(acc, ts, i) ==
  IF i > Len(ts) THEN [nodes |-> acc.nodes, keys |-> acc.keys, ids |-> <<>>]
  ELSE LET a == IF ts[i] = <<>> THEN [nodes |-> acc.nodes, keys |-> acc.keys, id |-> 0] ELSE AddKey(acc, ts[i])
           r == SkipAll(a, ts, i + 1) IN [nodes |-> r.nodes, keys |-> r.keys, ids |-> <<a.id>> \o r.ids]
Put(acc, x) ==
  IF x.op = "ref" THEN AddKey(acc, x.key)
  ELSE LET ks == PutAll(acc, x.k, 1)
           ts == SkipAll(ks, x.t, 1)
           n == [LNode(x, ks.ids, ts.ids) EXCEPT !.l = [i \in 1..Len(x.k) |-> x.k[i].l]] IN
       [nodes |-> Append(ts.nodes, n), keys |-> ts.keys, id |-> Len(ts.nodes) + 1]

\* the names accessors know the parts of an expression by
RECURSIVE Labels(_)
Labels(x) == IF x.l # "" THEN {x.l}
             ELSE IF x.op \in {"seq", "cho", "opt", "rep", "pos"} THEN UNION {Labels(x.k[i]) : i \in 1..Len(x.k)} ELSE {}
LabelSeq(x) == SetToSeq(Labels(x))
RuleNumber(inst, name) == Index1(Numbered, <<inst, name>>)
RECURSIVE Size(_), SizeFrom(_, _)
SizeFrom(xs, i) == IF i > Len(xs) THEN 0 ELSE Size(xs[i]) + SizeFrom(xs, i + 1)
Size(x) == 1 + SizeFrom(x.k, 1) + (IF x.op = "ref" THEN SizeFrom(x.key[4], 1) ELSE 0)
MaxInstances == Project(proj).cap   \* beyond these sizes a project is set aside
MaxSize == 300
Build ==
  /\ lstage = "build" /\ UNCHANGED <<proj, lmods, lqueue, linst>> /\ UNCHANGED gvars
  /\ LET i == Len(lroots) + 1 IN
     IF i > Len(lkeys) THEN
       LET one(n) == IF n < 0 THEN lroots[-n] ELSE n
           fix(n) == one(one(n)) IN
       /\ lnodes' = [j \in 1..Len(lnodes) |->
                       [lnodes[j] EXCEPT !.k = [q \in 1..Len(@) |-> fix(@[q])], !.t = [q \in 1..Len(@) |-> fix(@[q])]]]
       /\ lroots' = [j \in 1..Len(lroots) |-> fix(lroots[j])]
       /\ lstage' = "built" /\ UNCHANGED <<lkeys, lwhy>>
     ELSE IF i > MaxInstances THEN lstage' = "too big" /\ UNCHANGED <<lkeys, lroots, lnodes, lwhy>>
     ELSE LET key == lkeys[i]
              r == RuleOf(key[2], IF key[1] = "rule" THEN key[3] ELSE Trivium(key[3]))
              env == IF key[1] = "trivia" THEN <<>> ELSE
                       [j \in 1..Len(r.params) |-> <<r.params[j], [key[4][j] EXCEPT !.l = r.params[j]]>>]
              x == Elab(key[2], env, {}, r.expr)
              a == Put([nodes |-> lnodes, keys |-> lkeys], x) IN
          IF Size(x) > MaxSize THEN lstage' = "too big" /\ UNCHANGED <<lkeys, lroots, lnodes, lwhy>>
          ELSE
          /\ lkeys' = a.keys /\ UNCHANGED <<lstage, lwhy>>
          /\ IF key[1] = "trivia" THEN lnodes' = a.nodes /\ lroots' = Append(lroots, a.id)
             ELSE /\ lnodes' = Append(a.nodes, [LNode([T0("rule") EXCEPT !.lo = RuleNumber(key[2], key[3])], <<a.id>>, <<>>)
                                                  EXCEPT !.l = <<x.l>>, !.silent = r.silent, !.accs = LabelSeq(x)])
                  /\ lroots' = Append(lroots, Len(a.nodes) + 1)

LinkNext == ReadOn \/ ModuleRead \/ Link \/ Check \/ Build
Linked == lstage \in {"built", "refused", "too big"}

\* what the project means: the verdict, the program, and the types the rules become
\* sequences and choices wider than the library provides, as <<operator, width>>
RECURSIVE Wide(_)
Wide(x) == (IF x.op \in {"seq", "cho"} /\ Len(x.k) > 16 THEN {<<x.op, Len(x.k)>>} ELSE {})
           \cup UNION {Wide(x.k[i]) : i \in 1..Len(x.k)}
           \cup (IF x.op = "ref" THEN UNION {Wide(x.key[4][i]) : i \in 1..Len(x.key[4])} ELSE {})
AllWide == UNION {UNION {Wide(Open(linst[i][1], linst[i][2].rules[j])) : j \in {j \in 1..Len(linst[i][2].rules) : ~Inlined(linst[i][2].rules[j])}} : i \in 1..Len(linst)}
Types == Flat([i \in 1..Len(linst) |->
           LET q == NumberedOf(linst[i][2]) IN
           [j \in 1..Len(q) |-> [inst |-> linst[i][1], name |-> q[j].name, params |-> q[j].params,
                                 shown |-> Shown(linst[i][1], q[j].name), accs |-> LabelSeq(Open(linst[i][1], q[j]))]]])
\* what is said about each module and its rules, where the rules are enumerated; only what is documented is listed
RECURSIVE Join(_)
Join(ls) == IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<10>> \o Join(Tail(ls))
Rules0 == Config(Pj.attrs).rules
Documentation ==
  {<<Flat([j \in 1..Len(linst[i][1]) |-> <<S(Rules0), linst[i][1][j]>>]), "", Join(linst[i][2].docs)>> : i \in {i \in 1..Len(linst) : linst[i][2].docs # <<>>}}
  \cup UNION {LET q == NumberedOf(linst[i][2]) IN
              {<<Flat([j \in 1..Len(linst[i][1]) |-> <<S(Rules0), linst[i][1][j]>>]), q[n].name, Join(q[n].doc)>> : n \in {n \in 1..Len(q) : q[n].doc # <<>>}} : i \in 1..Len(linst)}
\* the files the program depends on: those the grammar was read from
Reads == {f \in DOMAIN lmods : Pj.files[f].full # <<>>}

Outcome ==
  IF lstage # "built" THEN [res |-> lstage, why |-> lwhy]
  ELSE [res |-> "built", why |-> "", nodes |-> lnodes,
        names |-> [i \in 1..Len(Numbered) |-> Shown(Numbered[i][1], Numbered[i][2])],
        starts |-> LET n == Len(Asked) - Len(Pj.calls) IN
                   [i \in 1..Len(Asked) |-> [node |-> lroots[i], inst |-> lkeys[i][2], name |-> lkeys[i][3],
                                             args |-> IF i > n THEN Pj.calls[i - n].args ELSE <<>>]],
        wide |-> SetToSeq(AllWide), reads |-> SetToSeq(Reads), types |-> Types, cfg |-> Config(Pj.attrs)]
=============================================================================
