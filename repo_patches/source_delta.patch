From 8b5a95c34227f6ab84d00a5b5204fbf32d1843ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:09 +0000
Subject: [PATCH 01/26] fix: Span::get refuses a bound of usize::MAX instead of
 overflowing

---
 core/src/span.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/span.rs b/core/src/span.rs
index 31ac3aa..dd79d0d 100644
--- a/core/src/span.rs
+++ b/core/src/span.rs
@@ -85,11 +85,11 @@ impl<'i> Span<'i> {
     pub fn get(&self, range: impl RangeBounds<usize>) -> Option<Span<'i>> {
         let start = match range.start_bound() {
             Bound::Included(offset) => *offset,
-            Bound::Excluded(offset) => *offset + 1,
+            Bound::Excluded(offset) => offset.checked_add(1)?,
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(offset) => *offset + 1,
+            Bound::Included(offset) => offset.checked_add(1)?,
             Bound::Excluded(offset) => *offset,
             Bound::Unbounded => self.as_str().len(),
         };
-- 
2.43.0


From b24ba8fab70882fc8438d47462a87506d747f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:09 +0000
Subject: [PATCH 02/26] fix: show a span that starts after a line break on the
 line it covers

---
 core/src/formatter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/formatter.rs b/core/src/formatter.rs
index 2d32c22..655467e 100644
--- a/core/src/formatter.rs
+++ b/core/src/formatter.rs
@@ -341,7 +341,9 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         let input = Span::new(span.get_input(), 0, span.get_input().len()).unwrap();
         let mut iter = input.lines().enumerate().peekable();
         while let Some((index, line)) = iter.peek() {
-            if pos + line.len() >= span.start() {
+            // A span that starts after a line break starts on the next line, if there is one.
+            let line_end = pos + line.len();
+            if line_end > span.start() || line_end == span.get_input().len() {
                 start = Some(Pos {
                     line: *index,
                     col: span.start() - pos,
-- 
2.43.0


From b64bd5a88a2ea06ca6180d9f23d35173bc179601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:09 +0000
Subject: [PATCH 03/26] fix: show a position at the end of the input

---
 core/src/formatter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/formatter.rs b/core/src/formatter.rs
index 655467e..826063d 100644
--- a/core/src/formatter.rs
+++ b/core/src/formatter.rs
@@ -422,7 +422,9 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         let input = Span::new(position.input, 0, position.input.len()).unwrap();
         let mut iter = input.lines().enumerate().peekable();
         while let Some((index, line)) = iter.peek() {
-            if pos + line.len() > position.pos() {
+            // The end of the input is shown on the last line.
+            let line_end = pos + line.len();
+            if line_end > position.pos() || line_end == position.input.len() {
                 let l = *index;
                 let c = position.pos() - pos;
                 let index_digit = Self::ceil_log10(l + 1);
-- 
2.43.0


From f05f0ec4d79cac2a2ba696cfae648fa0ca22decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:09 +0000
Subject: [PATCH 04/26] fix: show spans and positions of an empty input

---
 core/src/formatter.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/src/formatter.rs b/core/src/formatter.rs
index 826063d..c94d2a1 100644
--- a/core/src/formatter.rs
+++ b/core/src/formatter.rs
@@ -131,6 +131,12 @@ impl<Writer: fmt::Write> Default for FormatOption<FmtPtr<Writer>, FmtPtr<Writer>
     }
 }
 
+/// Lines of the input, where an empty input has one empty line.
+fn input_lines<'s>(input: &'s Span<'_>) -> impl Iterator<Item = &'s str> {
+    let empty = input.as_str().is_empty().then_some("");
+    input.lines().chain(empty)
+}
+
 impl<SF, MF, NF> FormatOption<SF, MF, NF> {
     /// Create option with given functions.
     pub fn new<Writer>(span_formatter: SF, marker_formatter: MF, number_formatter: NF) -> Self
@@ -339,7 +345,7 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         let mut end = None;
         let mut pos = 0usize;
         let input = Span::new(span.get_input(), 0, span.get_input().len()).unwrap();
-        let mut iter = input.lines().enumerate().peekable();
+        let mut iter = input_lines(&input).enumerate().peekable();
         while let Some((index, line)) = iter.peek() {
             // A span that starts after a line break starts on the next line, if there is one.
             let line_end = pos + line.len();
@@ -365,8 +371,7 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         }
         let start = start.unwrap();
         let end = end.unwrap();
-        let mut lines = input
-            .lines()
+        let mut lines = input_lines(&input)
             .skip(start.line)
             .take(end.line - start.line + 1)
             .peekable();
@@ -420,7 +425,7 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
     {
         let mut pos = 0usize;
         let input = Span::new(position.input, 0, position.input.len()).unwrap();
-        let mut iter = input.lines().enumerate().peekable();
+        let mut iter = input_lines(&input).enumerate().peekable();
         while let Some((index, line)) = iter.peek() {
             // The end of the input is shown on the last line.
             let line_end = pos + line.len();
-- 
2.43.0


From 57dd150639069d66eeb53e8e873a0dc9c61ef8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:25 +0000
Subject: [PATCH 05/26] fix: take the content of raw strings delimited with
 pounds

---
 meta/src/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 5afb4ad..0685de3 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -633,11 +633,11 @@ fn parse_string(pair: Pair<'_, Rule>, span: &Span) -> Result<ParseNode, Error<Ru
 
 fn parse_raw_string(pair: Pair<'_, Rule>, span: &Span) -> ParseNode {
     let span = span.from_pest(pair.as_span());
-    let mut pairs = pair.into_inner();
-
-    pairs.next().unwrap(); // quote
-
-    let content = pairs.next().unwrap().as_str();
+    let content = pair
+        .into_inner()
+        .find(|pair| pair.as_rule() == Rule::inner_raw_str) // skips pounds and quotes
+        .unwrap()
+        .as_str();
     let expr = ParseExpr::Str(content.to_owned());
 
     ParseNode { expr, span }
-- 
2.43.0


From c2e176565440514149b42d15d05e6bd04643f6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:25 +0000
Subject: [PATCH 06/26] fix: read an unescaped double quote in a character
 literal

---
 meta/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 0685de3..0a1e883 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -878,7 +878,8 @@ fn parse_node(
 }
 
 fn string_content(pair: &Pair<'_, Rule>) -> Result<String, Error<Rule>> {
-    let string = unescape(pair.as_str()).ok_or(Error::new_from_span(
+    let string = pair.as_str();
+    let string = unescape(&string[1..string.len() - 1]).ok_or(Error::new_from_span(
         ErrorVariant::CustomError {
             message: "invalid string literal".to_string(),
         },
@@ -945,7 +946,6 @@ fn unescape(string: &str) -> Option<String> {
                 }
                 _ => return None,
             },
-            Some('"') => (),
             Some(c) => result.push(c),
             None => return Some(result),
         };
-- 
2.43.0


From 35386b33524090e1c7968ad1e87a8d6ec20140ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 07/26] fix: read leading choice bars, and do not reread terms
 once per nesting level

---
 meta/src/grammar.pest | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index 7aa7598..c9d3d80 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -36,17 +36,14 @@ arguments = { opening_paren ~ (identifier ~ (comma ~ identifier)* ~ comma?)? ~ c
 
 silent_modifier     = @{ "_" ~ !identifier }
 
-expression =  {
-    (choice_operator? ~ term ~ choice_operator)? ~
-    term ~ (infix_operator ~ term)*
-}
+expression =  { choice_operator? ~ term ~ (infix_operator ~ term)* }
 term       =  { prefix_operator* ~ node ~ postfix_operator* }
 node       = _{ opening_paren ~ expression ~ closing_paren | terminal }
 terminal   = _{ string | raw_string | insensitive_string | path | range }
 
 overridable_operator = _{ tilde_operator | caret_operator }
 prefix_operator      = _{ positive_predicate_operator | negative_predicate_operator }
-infix_operator       = _{ sequence_operator | tilde_operator | caret_operator | choice_operator }
+infix_operator       = _{ choice_operator | sequence_operator | tilde_operator | caret_operator }
 postfix_operator     = _{
     overridable_operator? ~ (
         optional_operator |
-- 
2.43.0


From 494ac3830e1f1009a8a0adde2fb12e81dd207509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 08/26] fix: read a rule body that starts with a name like _1

---
 meta/src/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index c9d3d80..03106e8 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -34,7 +34,7 @@ closing_brack        = { "]" }
 
 arguments = { opening_paren ~ (identifier ~ (comma ~ identifier)* ~ comma?)? ~ closing_paren }
 
-silent_modifier     = @{ "_" ~ !identifier }
+silent_modifier     = @{ "_" ~ !("_" | alpha_num) }
 
 expression =  { choice_operator? ~ term ~ (infix_operator ~ term)* }
 term       =  { prefix_operator* ~ node ~ postfix_operator* }
-- 
2.43.0


From 03f47a059d5a415dbeeef9f57415240dbdd9db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 09/26] fix: reject unterminated nested comments in linear time

---
 meta/src/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index 03106e8..e5aa510 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -103,7 +103,7 @@ pound          = { "#" }
 newline    = _{ "\n" | "\r\n" }
 WHITESPACE = _{ " " | "\t" | newline }
 
-block_comment = _{ "/*" ~ (block_comment | !"*/" ~ ANY)* ~ "*/" }
+block_comment = _{ "/*" ~ (block_comment | !("/*" | "*/") ~ ANY)* ~ "*/" }
 COMMENT       = _{ block_comment | ("//" ~ !("/" | "!") ~ (!newline ~ ANY)*) ~ &(newline | EOI) }
 doc_content   = ${ (!newline ~ ANY)* }
 rule_doc      = ${ "///" ~ " "? ~ doc_content }
-- 
2.43.0


From 73050f285c8d8cf9598c8acd7ab88eeeb1c43e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 10/26] fix: do not take the start of the next rule's name for
 the alias of an import

---
 meta/src/grammar.pest | 3 ++-
 meta/src/parser.rs    | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index e5aa510..0d0d178 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -11,7 +11,8 @@ grammar_rules = _{
 	SOI ~ grammar_doc* ~ import* ~ grammar_rule ~ (import | grammar_rule)* ~ EOI
 }
 
-import = { "use " ~ path ~ ("in" ~ string)? ~ ("as" ~ identifier)? }
+import     = { "use " ~ path ~ ("in" ~ string)? ~ (as_keyword ~ identifier)? }
+as_keyword = @{ "as" ~ !("_" | alpha_num) }
 
 grammar_rule = {
     rule_doc* ~
diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 0a1e883..8e29ecd 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -343,6 +343,7 @@ fn _parse<P: AsRef<Path>>(
                     match pair.as_rule() {
                         Rule::string => fs_path = Some(string_content(&pair)?),
                         Rule::identifier => alias = Some(pair.as_str()),
+                        Rule::as_keyword => (),
                         _ => unreachable!(),
                     }
                 }
-- 
2.43.0


From 7bdc982a71e742331ff35140d191995e2aad17a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 11/26] fix: substitute a parameter in every argument of a call

---
 meta/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 8e29ecd..407163c 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -240,7 +240,9 @@ impl ParseExpr {
             }
             Self::Path(_, Some(PathArgs::Call(args))) => args
                 .iter_mut()
-                .any(|arg| arg.expr.replace(arg_name, new_expr)),
+                .fold(false, |replaced, arg| {
+                    arg.expr.replace(arg_name, new_expr) || replaced
+                }),
             _ => false,
         }
     }
-- 
2.43.0


From fa2a4e24a3e5e4b5b22458ddab205339df474683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 12/26] fix: reject arguments in the path of an import instead
 of panicking

---
 meta/src/parser.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 407163c..63e5b02 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -336,10 +336,19 @@ fn _parse<P: AsRef<Path>>(
                     start: span_path2.start(),
                     end: span_path2.end(),
                 };
-                let (mod_path, args) = parse_path_raw(path_pair, &span_path, &PrattParser::new())?;
-                if args.is_some() {
-                    todo!("import module node with arguments.")
+                if let Some(pair) = path_pair
+                    .clone()
+                    .into_inner()
+                    .find(|pair| matches!(pair.as_rule(), Rule::call | Rule::slice))
+                {
+                    return Err(Error::new_from_span(
+                        ErrorVariant::CustomError {
+                            message: "import path cannot have arguments".to_string(),
+                        },
+                        pair.as_span(),
+                    ));
                 }
+                let (mod_path, _) = parse_path_raw(path_pair, &span_path, &PrattParser::new())?;
                 let (mut fs_path, mut alias) = (None, None);
                 for pair in pairs {
                     match pair.as_rule() {
-- 
2.43.0


From 910056cada9d37ac1058068ccd6d9cfe2db9395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:28 +0000
Subject: [PATCH 13/26] fix: report errors in imported grammars instead of
 panicking

---
 meta/src/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 63e5b02..7dfda41 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -394,7 +394,14 @@ fn _parse<P: AsRef<Path>>(
                                     &path,
                                     cache,
                                 )
-                                .unwrap_or_else(|err| panic!("{}", err));
+                                .map_err(|err| {
+                                    Error::new_from_span(
+                                        ErrorVariant::CustomError {
+                                            message: format!("cannot import {path:?}:\n{err}"),
+                                        },
+                                        span_path2,
+                                    )
+                                })?;
                                 cache.insert(path, module.clone());
                                 dependencies.extend(module.dependencies.iter().cloned());
                                 module
-- 
2.43.0


From 2dab7002d67b5e0c24d7de5a4e48d8598393fcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:07 +0000
Subject: [PATCH 14/26] fix: report cyclic imports instead of recursing without
 end

---
 meta/src/parser.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 7dfda41..dee3b80 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -3,7 +3,7 @@ use std::{
     char,
     collections::{BTreeSet, HashMap},
     fmt::Display,
-    fs::read_to_string,
+    fs::{canonicalize, read_to_string},
     mem,
     ops::{Bound, RangeBounds},
     path::{Path, PathBuf},
@@ -313,7 +313,8 @@ pub enum Import {
 fn _parse<P: AsRef<Path>>(
     input: &str,
     root: &P,
-    cache: &mut HashMap<PathBuf, Arc<GrammarModule>>,
+    // `None` for modules that are still being read
+    cache: &mut HashMap<PathBuf, Option<Arc<GrammarModule>>>,
 ) -> Result<Arc<GrammarModule>, Error<Rule>> {
     let mut res = GrammarModule::default();
     let GrammarModule {
@@ -376,9 +377,19 @@ fn _parse<P: AsRef<Path>>(
                     let path = fs_path;
 
                     let import = {
-                        let module = match cache.get(&path) {
-                            Some(module) => module.clone(),
+                        let key = canonicalize(&path).unwrap_or_else(|_| path.clone());
+                        let module = match cache.get(&key) {
+                            Some(Some(module)) => module.clone(),
+                            Some(None) => {
+                                return Err(Error::new_from_span(
+                                    ErrorVariant::CustomError {
+                                        message: format!("cyclic import of {path:?}"),
+                                    },
+                                    span_path2,
+                                ));
+                            }
                             None => {
+                                cache.insert(key.clone(), None);
                                 dependencies.insert(path.clone());
                                 let module = _parse(
                                     &read_to_string(&path).map_err(|err| {
@@ -402,7 +413,7 @@ fn _parse<P: AsRef<Path>>(
                                         span_path2,
                                     )
                                 })?;
-                                cache.insert(path, module.clone());
+                                cache.insert(key, Some(module.clone()));
                                 dependencies.extend(module.dependencies.iter().cloned());
                                 module
                             }
@@ -468,7 +479,9 @@ impl FromIterator<Arc<GrammarModule>> for GrammarModule {
 
 /// Parse a grammar file.
 pub fn parse<P: AsRef<Path>>(input: &str, root: &P) -> Result<Arc<GrammarModule>, Error<Rule>> {
-    let mut cache = Default::default();
+    let mut cache = HashMap::default();
+    let root_path = root.as_ref().to_path_buf();
+    cache.insert(canonicalize(&root_path).unwrap_or(root_path), None);
 
     _parse(input, root, &mut cache)
 }
-- 
2.43.0


From 2102f1c1ce383ff7adc4559f2ae5f181288fa301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:15 +0000
Subject: [PATCH 15/26] fix: read the attributes box_rules_only_if_needed and
 no_getter

---
 generator/src/typed/attr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/src/typed/attr.rs b/generator/src/typed/attr.rs
index 16ea319..b739dc7 100644
--- a/generator/src/typed/attr.rs
+++ b/generator/src/typed/attr.rs
@@ -21,8 +21,10 @@ pub(crate) fn parse_derive(ast: DeriveInput) -> (Ident, Generics, Vec<GrammarSou
             config.no_span = get_bool(attr, "no_span");
         } else if path.is_ident("no_warnings") {
             config.no_warnings = get_bool(attr, "no_warnings");
-        } else if path.is_ident("box_all_rules") {
-            config.box_rules_only_if_needed = get_bool(attr, "box_all_rules");
+        } else if path.is_ident("box_rules_only_if_needed") {
+            config.box_rules_only_if_needed = get_bool(attr, "box_rules_only_if_needed");
+        } else if path.is_ident("no_getter") {
+            config.no_getter = get_bool(attr, "no_getter");
         } else if path.is_ident("rules_mod") {
             let value = get_string(attr, "rules_mod");
             if value.is_empty() {
-- 
2.43.0


From 01426583aedf9bf8e2a85ad701f33941813d81c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:37 +0000
Subject: [PATCH 16/26] fix: a built-in rule keeps its meaning when imported
 under another name

---
 generator/src/typed/module.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index 7911490..0bf1cb9 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -39,6 +39,8 @@ pub enum RuleGenerics {
     /// Defined rule in current module.
     Rule { argc: usize },
     BuiltIn {
+        /// Name of the built-in rule, whatever it is imported as.
+        name: &'static str,
         /// Built-in rule that accepts nothing as argument.
         ///
         /// - Whether it requires lifetime specifier.
@@ -63,7 +65,10 @@ impl RuleGenerics {
         root: &TokenStream,
     ) -> Result<Intermediate<'g>, ModuleError<'g>> {
         let generics = generics();
-        let name = format_ident!("r#{}", name_str);
+        let name = match self {
+            Self::Rule { .. } => format_ident!("r#{}", name_str),
+            Self::BuiltIn { name, .. } => format_ident!("r#{}", name),
+        };
         let current = rule_ref.path[0..rule_ref.path.len() - 1].iter().map(|sec| {
             let sec = format_ident!("{}", sec);
             quote! {#sec::rules::}
@@ -102,6 +107,7 @@ impl RuleGenerics {
                 direct,
                 slice,
                 callable,
+                ..
             } => match args {
                 None => {
                     let (lifetime,) =
@@ -270,6 +276,7 @@ impl<'g> ModuleSystem<'g> {
                     Rc::new(
                         ModuleNode::Generics(
                             RuleGenerics::BuiltIn {
+                                name: core::stringify!($name),
                                 direct: None $( .or(Some(pest_direct! { $($direct)* })) )?,
                                 slice: None $( .or(Some(pest_slice! { $( $slice )* })) )?,
                                 callable: None $( .or(Some(pest_callable! { $( $callable )* })) )?,
-- 
2.43.0


From c6f6fa93abcf8eb777cdbef6f2d4733bf6c15938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:57 +0000
Subject: [PATCH 17/26] fix: refer to imported rules in the module named by
 rules_mod

---
 generator/src/common.rs          |  8 ++++----
 generator/src/typed/generator.rs |  4 +++-
 generator/src/typed/module.rs    | 13 ++++++++++---
 generator/src/typed/output.rs    |  2 +-
 4 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/generator/src/common.rs b/generator/src/common.rs
index a6abc27..79ebc23 100644
--- a/generator/src/common.rs
+++ b/generator/src/common.rs
@@ -40,7 +40,7 @@ pub(crate) fn generate_include(name: &Ident, paths: Vec<PathBuf>) -> TokenStream
     }
 }
 
-pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
+pub(crate) fn generate_rule_enum(module: &GrammarModule, types: &TokenStream) -> TokenStream {
     let this = pest();
     let GrammarModule {
         rules,
@@ -68,7 +68,7 @@ pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
         Import::File(name, module) => {
             let ident = format_ident!("r#{}", name);
             quote! {
-                #ident(rules::#ident::Rule),
+                #ident(#types::#ident::Rule),
             }
         }
     });
@@ -77,8 +77,8 @@ pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
         Import::File(name, module) => {
             let ident = format_ident!("r#{}", name);
             quote! {
-                impl #this::typed::SuperRule<rules::#ident::Rule> for Rule {
-                    fn cvt_from(rule: rules::#ident::Rule) -> Self {
+                impl #this::typed::SuperRule<#types::#ident::Rule> for Rule {
+                    fn cvt_from(rule: #types::#ident::Rule) -> Self {
                         Self::#ident(rule)
                     }
                 }
diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 6d21323..4534e2e 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -388,7 +388,9 @@ fn process_expr<'g>(
                 )
             });
             let rule_ref = RuleRef::new(prefix, args);
-            mod_sys.resolve(&rule_ref, root).unwrap()
+            mod_sys
+                .resolve(&rule_ref, root, config.rules_mod.as_deref())
+                .unwrap()
         }
         ParseExpr::PosPred(node) => {
             let inner = process_expr(
diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index 0bf1cb9..ce0672c 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -1,7 +1,7 @@
 use super::{
     generator::{Intermediate, ProcessedPathArgs, RuleRef},
     getter::GetterByName,
-    output::generics,
+    output::{generics, types_mod},
 };
 use pest3_core::unicode::unicode_property_names;
 use pest3_meta::parser::{ParseRule, Range};
@@ -63,6 +63,7 @@ impl RuleGenerics {
         rule_ref: &RuleRef<'g>,
         args: Option<&ProcessedPathArgs<'g>>,
         root: &TokenStream,
+        rules_mod: Option<&str>,
     ) -> Result<Intermediate<'g>, ModuleError<'g>> {
         let generics = generics();
         let name = match self {
@@ -71,7 +72,8 @@ impl RuleGenerics {
         };
         let current = rule_ref.path[0..rule_ref.path.len() - 1].iter().map(|sec| {
             let sec = format_ident!("{}", sec);
-            quote! {#sec::rules::}
+            let types = types_mod(rules_mod);
+            quote! {#sec::#types::}
         });
         let res = match self {
             Self::Rule { argc } => match (argc, args) {
@@ -173,6 +175,7 @@ impl<'g> ModuleNode<'g> {
         node: &'g str,
         rule_ref: &RuleRef<'g>,
         args: &Option<ProcessedPathArgs<'g>>,
+        rules_mod: Option<&str>,
     ) -> Result<Intermediate<'g>, ModuleError<'g>> {
         let res = match self {
             Self::Collection(_map) => Err(ModuleError::CollectionCannotBeCalled(rule_ref.clone()))?,
@@ -187,7 +190,9 @@ impl<'g> ModuleNode<'g> {
                 }
                 f(root)
             }
-            Self::Generics(generics) => generics.call(node, rule_ref, args.as_ref(), root)?,
+            Self::Generics(generics) => {
+                generics.call(node, rule_ref, args.as_ref(), root, rules_mod)?
+            }
         };
         Ok(res)
     }
@@ -361,6 +366,7 @@ impl<'g> ModuleSystem<'g> {
         &self,
         rule_ref: &'_ RuleRef<'g>,
         root: &TokenStream,
+        rules_mod: Option<&str>,
     ) -> Result<Intermediate<'g>, ModuleError<'g>> {
         let rc = self.resolve_node(&rule_ref.path)?;
         let res = rc.get(
@@ -368,6 +374,7 @@ impl<'g> ModuleSystem<'g> {
             rule_ref.path.last().ok_or(ModuleError::EmptyPath)?,
             rule_ref,
             &rule_ref.args,
+            rules_mod,
         )?;
         Ok(res)
     }
diff --git a/generator/src/typed/output.rs b/generator/src/typed/output.rs
index 27d16d9..1289194 100644
--- a/generator/src/typed/output.rs
+++ b/generator/src/typed/output.rs
@@ -206,7 +206,7 @@ impl<'g> Output<'g> {
         modules: Vec<(Ident, Self)>,
         rules_mod: Option<String>,
     ) -> Self {
-        let rule_enum = generate_rule_enum(module);
+        let rule_enum = generate_rule_enum(module, &types_mod(rules_mod.as_deref()));
         Self {
             content: Vec::new(),
             optional_trivia: None,
-- 
2.43.0


From 798eefba7ed6557855cf6669c9243cfd73f98c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:59 +0000
Subject: [PATCH 18/26] fix: let a rule be named Option

---
 core/src/typed/traits.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/typed/traits.rs b/core/src/typed/traits.rs
index 200ae7a..9320f58 100644
--- a/core/src/typed/traits.rs
+++ b/core/src/typed/traits.rs
@@ -137,14 +137,14 @@ macro_rules! full_rule_struct {
                 input: $crate::Position<'i>,
                 stack: &mut $crate::Stack<$crate::Span<'i>>,
                 tracker: &mut $crate::typed::Tracker<'i, $Rule>,
-            ) -> Option<($crate::Position<'i>, Self)> {
+            ) -> $crate::std::Option<($crate::Position<'i>, Self)> {
                 tracker.record_option_during(
                     input,
                     |tracker| {
                         let (pos, content) = <$inner as $crate::typed::TypedNode<'i, $Rule>>::try_parse_with_partial(input, stack, tracker)?;
                         let content = content.into();
                         let span = input.span(&pos);
-                        Some((pos, Self { content, span }))
+                        $crate::std::Some((pos, Self { content, span }))
                     },
                     $rule
                 )
@@ -153,12 +153,12 @@ macro_rules! full_rule_struct {
                 input: $crate::Position<'i>,
                 stack: &mut $crate::Stack<$crate::Span<'i>>,
                 tracker: &mut $crate::typed::Tracker<'i, $Rule>,
-            ) -> Option<$crate::Position<'i>> {
+            ) -> $crate::std::Option<$crate::Position<'i>> {
                 tracker.record_empty_during::<Self>(
                     input,
                     |tracker| {
                         let pos = <$inner>::check_with_partial(input, stack, tracker)?;
-                        Some(pos)
+                        $crate::std::Some(pos)
                     },
                     $rule
                 )
-- 
2.43.0


From fe0e60713b8892de7af760fb9bd62037b88894bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:00 +0000
Subject: [PATCH 19/26] fix: refuse trivia and imports that are defined twice

---
 generator/src/typed/generator.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 4534e2e..2d6d73f 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -629,7 +629,7 @@ fn process_rules<'g>(
                     ),
                 );
                 let imported = child_mod_sys.take();
-                mod_sys.insert(imported, name);
+                mod_sys.insert(imported, name).unwrap();
                 new_prefix.pop().unwrap();
                 Some(module)
             }
@@ -637,9 +637,12 @@ fn process_rules<'g>(
         .collect();
     let mut output = Output::new(module, modules, config.rules_mod.clone());
     let reachability = collect_reachability(rules);
+    let mut trivia = BTreeSet::new();
     for rule in rules.iter() {
         match rule.name.as_str() {
-            "~" | "^" => {}
+            name @ ("~" | "^") => {
+                assert!(trivia.insert(name), "Trivia `{name}` is defined twice.")
+            }
             _ => mod_sys.insert_rule(rule).unwrap(),
         }
     }
-- 
2.43.0


From 962b74f726e536574a1aec010f4ad749036f7a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:06 +0000
Subject: [PATCH 20/26] fix: inline silent rules with arguments wherever they
 are called

---
 generator/src/typed/generator.rs | 204 +++++++++++++++++++------------
 1 file changed, 125 insertions(+), 79 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 2d6d73f..2206bbb 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -851,97 +851,143 @@ fn generate_typed_pair_from_rule<'g>(
     quote! {#output}
 }
 
+/// Silent rules with arguments that can be called in a module, by their paths.
 fn collect_silent_rules_with_args<'a>(
-    path: Option<&'a str>,
+    prefix: &[&'a str],
     module: &'a GrammarModule,
-) -> BTreeMap<Option<&'a str>, BTreeMap<&'a str, &'a ParseRule>> {
-    let mut result = BTreeMap::new();
-    result.insert(
-        path,
-        module
-            .rules
-            .iter()
-            .filter(|rule| rule.silent && !rule.args.is_empty())
-            .map(|rule| (rule.name.as_str(), rule))
-            .collect(),
-    );
-    module.imports.iter().for_each(|import| {
-        if let Import::File(path, module) = import {
-            result.extend(collect_silent_rules_with_args(Some(path), module));
+    result: &mut BTreeMap<Vec<&'a str>, &'a ParseRule>,
+) {
+    let join = |name: &'a str| [prefix, &[name]].concat();
+    for rule in module.rules.iter() {
+        if rule.silent && !rule.args.is_empty() {
+            let rules = module.rules.iter().map(|rule| &rule.name);
+            let imports = module.imports.iter().map(|import| match import {
+                Import::Builtin(name, _) | Import::File(name, _) => name,
+            });
+            let same = rules.chain(imports).filter(|name| **name == rule.name);
+            assert!(same.count() == 1, "`{}` is defined twice.", rule.name);
+            result.insert(join(&rule.name), rule);
         }
-    });
+    }
+    for import in module.imports.iter() {
+        if let Import::File(name, module) = import {
+            collect_silent_rules_with_args(&join(name), module, result);
+        }
+    }
+}
 
-    result
+/// Inlines calls of silent rules with arguments.
+struct Inliner<'a> {
+    silent_rules: BTreeMap<Vec<&'a str>, &'a ParseRule>,
+}
+
+impl Inliner<'_> {
+    /// - `scope`: path of the module where `node` is written.
+    /// - `args`: what the arguments of the rule where `node` is written stand for.
+    /// - `calls`: paths of the rules being inlined.
+    fn inline(
+        &self,
+        node: &ParseNode,
+        scope: &[&str],
+        args: &BTreeMap<&str, ParseExpr>,
+        calls: &[Vec<&str>],
+    ) -> ParseNode {
+        let inline = |node: &ParseNode| Box::new(self.inline(node, scope, args, calls));
+        let expr = match &node.expr {
+            ParseExpr::Str(_) | ParseExpr::Insens(_) | ParseExpr::Range(_, _) => node.expr.clone(),
+            ParseExpr::Path(path, path_args) => {
+                self.inline_path(path, path_args, scope, args, calls)
+            }
+            ParseExpr::PosPred(inner) => ParseExpr::PosPred(inline(inner)),
+            ParseExpr::NegPred(inner) => ParseExpr::NegPred(inline(inner)),
+            ParseExpr::Seq(lhs, rhs, trivia) => {
+                ParseExpr::Seq(inline(lhs), inline(rhs), trivia.clone())
+            }
+            ParseExpr::Choice(lhs, rhs) => ParseExpr::Choice(inline(lhs), inline(rhs)),
+            ParseExpr::Opt(inner) => ParseExpr::Opt(inline(inner)),
+            ParseExpr::Rep(inner) => ParseExpr::Rep(inline(inner)),
+            ParseExpr::RepOnce(inner) => ParseExpr::RepOnce(inline(inner)),
+            ParseExpr::RepRange(inner, range) => ParseExpr::RepRange(inline(inner), range.clone()),
+            ParseExpr::Separated(inner, trivia) => {
+                ParseExpr::Separated(inline(inner), trivia.clone())
+            }
+        };
+        ParseNode {
+            expr,
+            span: node.span.clone(),
+        }
+    }
+
+    fn inline_path(
+        &self,
+        path: &[String],
+        path_args: &Option<PathArgs>,
+        scope: &[&str],
+        args: &BTreeMap<&str, ParseExpr>,
+        calls: &[Vec<&str>],
+    ) -> ParseExpr {
+        let mut path: Vec<&str> = path.iter().map(String::as_str).collect();
+        if let ([name], Some(arg)) = (&path[..], args.get(path[0])) {
+            return arg.clone();
+        }
+        if path[0] != "pest" {
+            path.splice(0..0, scope.iter().copied());
+        }
+        let path_args = path_args.as_ref().map(|path_args| match path_args {
+            PathArgs::Call(nodes) => PathArgs::Call(
+                nodes
+                    .iter()
+                    .map(|node| self.inline(node, scope, args, calls))
+                    .collect(),
+            ),
+            PathArgs::Slice(range) => PathArgs::Slice(range.clone()),
+        });
+        if let (Some(rule), Some(PathArgs::Call(nodes))) =
+            (self.silent_rules.get(&path), &path_args)
+        {
+            assert!(
+                rule.args.len() == nodes.len(),
+                "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.",
+                rule.name,
+                rule.args.len(),
+                nodes.len()
+            );
+            assert!(
+                !calls.contains(&path),
+                "Silent rule `{}` with arguments cannot be inlined into itself.",
+                rule.name
+            );
+            let args = rule.args.iter().map(String::as_str);
+            let args = args
+                .zip(nodes.iter().map(|node| node.expr.clone()))
+                .collect();
+            let scope = &path[..path.len() - 1];
+            let calls = [calls, &[path.clone()]].concat();
+            return self.inline(&rule.node, scope, &args, &calls).expr;
+        }
+        let path = path.into_iter().map(str::to_owned).collect();
+        ParseExpr::Path(path, path_args)
+    }
 }
 
 fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
-    let silent_rules = collect_silent_rules_with_args(None, &module);
+    let mut silent_rules = BTreeMap::new();
+    collect_silent_rules_with_args(&[], &module, &mut silent_rules);
+    let inliner = Inliner { silent_rules };
     let mut new_module = module.clone();
     new_module
         .rules
         .retain(|rule| !rule.silent || rule.args.is_empty());
     for rule in new_module.rules.iter_mut() {
-        let mut nodes = vec![&mut rule.node];
-        while !nodes.is_empty() {
-            loop {
-                let mut replaced = false;
-
-                if let Some(node) = nodes.last_mut() {
-                    let mut replace_expr = None;
-                    if let ParseExpr::Path(path, args) = &node.expr {
-                        if let Some(PathArgs::Call(args)) = args {
-                            if let Some(rule_name) = path.last() {
-                                if let Some(silent_rule) = silent_rules
-                                    .iter()
-                                    .find_map(|(mod_path, rules)| rules.get(rule_name.as_str()))
-                                {
-                                    assert!(silent_rule.args.len() == args.len(), "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.", silent_rule.name, silent_rule.args.len(), args.len());
-                                    let mut new_expr = silent_rule.node.expr.clone();
-                                    for (arg, silent_arg_name) in
-                                        args.iter().zip(silent_rule.args.iter())
-                                    {
-                                        replaced |=
-                                            new_expr.replace(silent_arg_name.as_str(), &arg.expr);
-                                    }
-                                    if replaced {
-                                        replace_expr = Some(new_expr);
-                                    }
-                                }
-                            }
-                        }
-                    }
-                    if let Some(expr) = replace_expr {
-                        node.expr = expr;
-                    }
-                }
-                if !replaced {
-                    break;
-                }
-            }
-            let node = nodes.pop().unwrap();
-            match &mut node.expr {
-                ParseExpr::Seq(left, right, _) => {
-                    nodes.push(left);
-                    nodes.push(right);
-                }
-                ParseExpr::Choice(left, right) => {
-                    nodes.push(left);
-                    nodes.push(right);
-                }
-                ParseExpr::Opt(inner)
-                | ParseExpr::Rep(inner)
-                | ParseExpr::RepOnce(inner)
-                | ParseExpr::Separated(inner, _) => {
-                    nodes.push(inner);
-                }
-                ParseExpr::RepRange(inner, _) => {
-                    nodes.push(inner);
-                }
-                ParseExpr::PosPred(inner) | ParseExpr::NegPred(inner) => {
-                    nodes.push(inner);
-                }
-                _ => {}
-            }
+        let args = rule.args.iter().map(|arg| {
+            let path = ParseExpr::Path(vec![arg.clone()], None);
+            (arg.as_str(), path)
+        });
+        rule.node = inliner.inline(&rule.node, &[], &args.collect(), &[]);
+    }
+    for import in new_module.imports.iter_mut() {
+        if let Import::File(_, module) = import {
+            *module = inline_silent_rules_with_args(module.as_ref().clone()).into();
         }
     }
     new_module
-- 
2.43.0


From 8d26a8a5551ad59c3f33591a8127cdd0a4dfdb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 21/26] fix: check silent rules with arguments that are never
 called

---
 generator/src/typed/generator.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 2206bbb..5fb29fc 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -971,13 +971,30 @@ impl Inliner<'_> {
 }
 
 fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
+    let mut module = inline_calls(module);
+    remove_silent_rules_with_args(&mut module);
+    module
+}
+
+fn remove_silent_rules_with_args(module: &mut GrammarModule) {
+    module
+        .rules
+        .retain(|rule| !rule.silent || rule.args.is_empty());
+    for import in module.imports.iter_mut() {
+        if let Import::File(_, module) = import {
+            let mut inner = module.as_ref().clone();
+            remove_silent_rules_with_args(&mut inner);
+            *module = inner.into();
+        }
+    }
+}
+
+/// Inlines calls of silent rules with arguments, and keeps these rules.
+fn inline_calls(module: GrammarModule) -> GrammarModule {
     let mut silent_rules = BTreeMap::new();
     collect_silent_rules_with_args(&[], &module, &mut silent_rules);
     let inliner = Inliner { silent_rules };
     let mut new_module = module.clone();
-    new_module
-        .rules
-        .retain(|rule| !rule.silent || rule.args.is_empty());
     for rule in new_module.rules.iter_mut() {
         let args = rule.args.iter().map(|arg| {
             let path = ParseExpr::Path(vec![arg.clone()], None);
@@ -987,7 +1004,7 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
     }
     for import in new_module.imports.iter_mut() {
         if let Import::File(_, module) = import {
-            *module = inline_silent_rules_with_args(module.as_ref().clone()).into();
+            *module = inline_calls(module.as_ref().clone()).into();
         }
     }
     new_module
@@ -1011,7 +1028,12 @@ fn generate_typed(
     };
     let mut tracker = Tracker::new();
     let global = ModuleSystem::make_global();
-    let module = inline_silent_rules_with_args(module);
+    let mut module = inline_calls(module);
+    // Silent rules with arguments are checked even if they are never called.
+    let checked = module.clone();
+    let checker = ModuleSystem::make_global();
+    generate_typed_pair_from_rule(&checked, config, checker, &mut Tracker::new());
+    remove_silent_rules_with_args(&mut module);
     let definition = generate_typed_pair_from_rule(&module, config, global, &mut tracker);
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
     let pest = pest();
-- 
2.43.0


From 001ee902359673b8f8817033541603364ea7b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 22/26] fix: keep the pushed rule's own pair in
 vec_children_pairs of push

---
 core/src/typed/template/mod.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/core/src/typed/template/mod.rs b/core/src/typed/template/mod.rs
index fd9e713..fda3a74 100644
--- a/core/src/typed/template/mod.rs
+++ b/core/src/typed/template/mod.rs
@@ -959,9 +959,6 @@ impl<R: RuleType, T: PairContainer<R>> PairContainer<R> for push<T> {
     fn for_each_child_pair(&self, f: &mut impl FnMut(crate::token::Pair<R>)) {
         self.content.for_self_or_for_each_child_pair(f)
     }
-    fn vec_children_pairs(&self) -> Vec<crate::token::Pair<R>> {
-        self.content.vec_children_pairs()
-    }
 }
 
 /// Match `[START..END]` in top-to-bottom order of the stack.
-- 
2.43.0


From 9ae41f1c11190728203b3376ccedaa9f0b6022a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:08 +0000
Subject: [PATCH 23/26] fix: name what is looked for inside a rule

A path that leads into a rule (`a = &a::b`) was refused with a bare
`NoChildren`, which names neither the path nor the rule.
---
 generator/src/typed/module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index ce0672c..311df52 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -16,7 +16,7 @@ pub enum ModuleError<'g> {
     NodeNotFound(String, Vec<&'g str>),
     AlreadyDefined(&'g str),
     NotMutable,
-    NoChildren,
+    NoChildren(String),
     UnexpectedArguments(RuleRef<'g>),
     UnexpectedSliceArgument(Range<isize>, RuleRef<'g>),
     ArgumentCountNotMatch(RuleRef<'g>),
@@ -165,7 +165,7 @@ impl<'g> ModuleNode<'g> {
             Self::Collection(map) => map.get(node).cloned().ok_or_else(|| {
                 ModuleError::NodeNotFound(node.to_owned(), map.keys().cloned().collect())
             })?,
-            Self::Absolute(_) | Self::Generics(_) => Err(ModuleError::NoChildren)?,
+            Self::Absolute(_) | Self::Generics(_) => Err(ModuleError::NoChildren(node.to_owned()))?,
         };
         Ok(res)
     }
-- 
2.43.0


From c66e1a564f458967f9acd4b9d113d60d308ff936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:08 +0000
Subject: [PATCH 24/26] fix: report what `pest` lacks, not that there is no
 `pest`

An unknown built-in (`pest::peek`, `use pest::stack::psh`) was looked for
among the rules of the grammar next, and reported as
`NodeNotFound("pest", ..)`, which does not name the built-in.
---
 generator/src/typed/module.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index 311df52..bdebada 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -358,9 +358,18 @@ impl<'g> ModuleSystem<'g> {
         &self,
         iter: &'_ [impl AsRef<str>],
     ) -> Result<Rc<ModuleNode<'g>>, ModuleError<'g>> {
+        let path = || iter.iter().map(AsRef::as_ref);
         self.pest
-            .resolve_node(iter.iter().map(AsRef::as_ref))
-            .or_else(|_err| self.root.resolve_node(iter.iter().map(AsRef::as_ref)))
+            .resolve_node(path())
+            .or_else(|err| match iter.first().map(AsRef::as_ref) {
+                // The path leads into `pest`, and this is what it lacks.
+                Some(first)
+                    if self.pest.child(first).is_ok() && self.root.child(first).is_err() =>
+                {
+                    Err(err)
+                }
+                _ => self.root.resolve_node(path()),
+            })
     }
     pub fn resolve(
         &self,
-- 
2.43.0


From 3f931a395a1862f3941769f61ee2df618821bede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 25/26] fix: order positions only when they are places in the
 same text

---
 core/src/position.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/position.rs b/core/src/position.rs
index 328fd4e..6f817d3 100644
--- a/core/src/position.rs
+++ b/core/src/position.rs
@@ -522,8 +522,8 @@ impl<'i> PartialOrd for Position<'i> {
 
 impl<'i> Ord for Position<'i> {
     fn cmp(&self, other: &Position<'i>) -> Ordering {
-        assert_eq!(
-            self.input, other.input,
+        assert!(
+            ptr::eq(self.input, other.input),
             "cannot compare positions from different strs"
         );
         self.pos.cmp(&other.pos)
-- 
2.43.0


From 6b10db85865eeb3baf0637018858791922b831f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:42 +0000
Subject: [PATCH 26/26] fix: reach a module whose name a generic argument has

---
 generator/src/typed/generator.rs | 13 ++++++++++---
 generator/src/typed/module.rs    |  6 ++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 5fb29fc..9e220b2 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -129,12 +129,19 @@ impl<'g> ProcessedPathArgs<'g> {
 pub struct RuleRef<'g> {
     pub path: Vec<&'g str>,
     pub args: Option<ProcessedPathArgs<'g>>,
+    /// Whether the path leads through a module that an argument has the name of.
+    pub shadowed: bool,
 }
 impl<'g> RuleRef<'g> {
     /// Create from a [Path](ParseExpr::Path).
-    fn new(path: &'g [String], args: Option<ProcessedPathArgs<'g>>) -> Self {
+    fn new(path: &'g [String], args: Option<ProcessedPathArgs<'g>>, rule: &ParseRule) -> Self {
+        let shadowed = path.len() > 1 && rule.args.contains(&path[0]);
         let path = path.iter().map(String::as_str).collect::<Vec<_>>();
-        Self { path, args }
+        Self {
+            path,
+            args,
+            shadowed,
+        }
     }
 }
 impl<'g> Display for RuleRef<'g> {
@@ -387,7 +394,7 @@ fn process_expr<'g>(
                     root,
                 )
             });
-            let rule_ref = RuleRef::new(prefix, args);
+            let rule_ref = RuleRef::new(prefix, args, rule_config.grammar);
             mod_sys
                 .resolve(&rule_ref, root, config.rules_mod.as_deref())
                 .unwrap()
diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index bdebada..2dd483e 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -75,6 +75,12 @@ impl RuleGenerics {
             let types = types_mod(rules_mod);
             quote! {#sec::#types::}
         });
+        // A module is not hidden by a generic argument when the path starts with `self`.
+        let current = rule_ref
+            .shadowed
+            .then(|| quote! {self::})
+            .into_iter()
+            .chain(current);
         let res = match self {
             Self::Rule { argc } => match (argc, args) {
                 (0, None) => {
-- 
2.43.0

