----------------------------- MODULE Attributes -----------------------------
(***************************************************************************)
(* What the attributes beside #[derive(Parser)] say: where the grammar     *)
(* comes from and what is left out of the generated code.                  *)
(*                                                                         *)
(* An attribute is [name, form, val]; form is "flag" (#[x]), "bool"        *)
(* (#[x = true]), "str" (#[x = "..."]) or "other". val: <<1>> or <<0>> for *)
(* a boolean, code points for a string; for `grammar` the names on the     *)
(* path, for `grammar_inline` <<i>>, the index of the text.                *)
(***************************************************************************)
EXTENDS Integers, Sequences

Switches == {"no_pair", "no_span", "no_warnings", "box_rules_only_if_needed", "no_getter"}
Named(attrs, names) == SelectSeq(attrs, LAMBDA a : a.name \in names)
\* of several, the last one counts
Last_(attrs, name) == LET q == Named(attrs, {name}) IN q[Len(q)]
Said(attrs, name) == Named(attrs, {name}) # <<>>
On(attrs, name) == Said(attrs, name) /\ (Last_(attrs, name).form = "flag" \/ Last_(attrs, name).val = <<1>>)

IdentStart(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95
IdentPart(c) == IdentStart(c) \/ c \in 48..57
\* "type", "fn", "mod": words that are no names in Rust
Words == {<<116, 121, 112, 101>>, <<102, 110>>, <<109, 111, 100>>}
Identifier(s) == /\ s # <<>> /\ IdentStart(s[1]) /\ \A i \in 1..Len(s) : IdentPart(s[i])
                 /\ s \notin Words \cup {<<95>>}
WellFormed(a) == CASE a.name \in Switches -> a.form \in {"flag", "bool"}
                   [] a.name \in {"grammar", "grammar_inline"} -> a.form = "str"
                   [] a.name = "rules_mod" -> a.form = "str" /\ Identifier(a.val)
                   [] OTHER -> TRUE
\* a file is looked for in the crate, then in its src directory
Found(exists(_), names) == IF exists(names) THEN names ELSE IF exists(<<"src">> \o names) THEN <<"src">> \o names ELSE <<>>
Config(attrs) ==
  [getters |-> ~On(attrs, "no_getter"), pairs |-> ~On(attrs, "no_pair"),
   rules |-> IF Said(attrs, "rules_mod") THEN Last_(attrs, "rules_mod").val ELSE <<114, 117, 108, 101, 115>>]
=============================================================================
