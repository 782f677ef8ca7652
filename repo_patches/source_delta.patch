From c9e586d7e77b70a181a164364a7afec70891b458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:05 +0000
Subject: [PATCH 01/21] fix: a pop node keeps the slice it matched, not the one
 that was pushed

---
 core/src/typed/template/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/typed/template/mod.rs b/core/src/typed/template/mod.rs
index fd9e713..87108fd 100644
--- a/core/src/typed/template/mod.rs
+++ b/core/src/typed/template/mod.rs
@@ -826,9 +826,10 @@ impl<'i, R: RuleType> TypedNode<'i, R> for pop<'i> {
         stack: &mut Stack<Span<'i>>,
         tracker: &mut Tracker<'i, R>,
     ) -> Option<(Position<'i>, Self)> {
+        let start = input;
         match stack.pop() {
             Some(span) => match input.match_string(span.as_str()) {
-                true => Some((input, Self::from(span))),
+                true => Some((input, Self::from(start.span(&input)))),
                 false => None,
             },
             None => {
-- 
2.43.0


From 962a16fd545e0beac43fe547d993496fc84b722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:36 +0000
Subject: [PATCH 02/21] fix: Span::get gives None for a range end that does not
 fit, instead of overflowing

---
 core/src/span.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/span.rs b/core/src/span.rs
index 31ac3aa..dd79d0d 100644
--- a/core/src/span.rs
+++ b/core/src/span.rs
@@ -85,11 +85,11 @@ impl<'i> Span<'i> {
     pub fn get(&self, range: impl RangeBounds<usize>) -> Option<Span<'i>> {
         let start = match range.start_bound() {
             Bound::Included(offset) => *offset,
-            Bound::Excluded(offset) => *offset + 1,
+            Bound::Excluded(offset) => offset.checked_add(1)?,
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(offset) => *offset + 1,
+            Bound::Included(offset) => offset.checked_add(1)?,
             Bound::Excluded(offset) => *offset,
             Bound::Unbounded => self.as_str().len(),
         };
-- 
2.43.0


From 54ec58a50f5d91a6a5724515c54699525704e45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:39 +0000
Subject: [PATCH 03/21] fix: snippets show the line that holds the start, also
 at the end of input and for empty input

---
 core/src/formatter.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/core/src/formatter.rs b/core/src/formatter.rs
index 2d32c22..5a971c9 100644
--- a/core/src/formatter.rs
+++ b/core/src/formatter.rs
@@ -131,6 +131,17 @@ impl<Writer: fmt::Write> Default for FormatOption<FmtPtr<Writer>, FmtPtr<Writer>
     }
 }
 
+/// All lines of the input.
+///
+/// If the input is empty or ends with a line feed, the end of input lies in an empty last line.
+fn all_lines(input: &str) -> Vec<&str> {
+    let mut lines: Vec<_> = input.split_inclusive('\n').collect();
+    if lines.last().map_or(true, |line| line.ends_with('\n')) {
+        lines.push("");
+    }
+    lines
+}
+
 impl<SF, MF, NF> FormatOption<SF, MF, NF> {
     /// Create option with given functions.
     pub fn new<Writer>(span_formatter: SF, marker_formatter: MF, number_formatter: NF) -> Self
@@ -338,10 +349,10 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         let mut start = None;
         let mut end = None;
         let mut pos = 0usize;
-        let input = Span::new(span.get_input(), 0, span.get_input().len()).unwrap();
-        let mut iter = input.lines().enumerate().peekable();
+        let input = all_lines(span.get_input());
+        let mut iter = input.iter().enumerate().peekable();
         while let Some((index, line)) = iter.peek() {
-            if pos + line.len() >= span.start() {
+            if pos + line.len() > span.start() || index + 1 == input.len() {
                 start = Some(Pos {
                     line: *index,
                     col: span.start() - pos,
@@ -364,7 +375,8 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         let start = start.unwrap();
         let end = end.unwrap();
         let mut lines = input
-            .lines()
+            .iter()
+            .copied()
             .skip(start.line)
             .take(end.line - start.line + 1)
             .peekable();
@@ -417,10 +429,10 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         NF: FnMut(&str, &mut Writer) -> fmt::Result,
     {
         let mut pos = 0usize;
-        let input = Span::new(position.input, 0, position.input.len()).unwrap();
-        let mut iter = input.lines().enumerate().peekable();
+        let input = all_lines(position.input);
+        let mut iter = input.iter().enumerate().peekable();
         while let Some((index, line)) = iter.peek() {
-            if pos + line.len() > position.pos() {
+            if pos + line.len() > position.pos() || index + 1 == input.len() {
                 let l = *index;
                 let c = position.pos() - pos;
                 let index_digit = Self::ceil_log10(l + 1);
-- 
2.43.0


From 74edaede35aa50191a807a91f4ad558ebc1d9fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:55 +0000
Subject: [PATCH 04/21] fix: a double quote in a character literal is kept

---
 meta/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 5afb4ad..ce81335 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -878,7 +878,8 @@ fn parse_node(
 }
 
 fn string_content(pair: &Pair<'_, Rule>) -> Result<String, Error<Rule>> {
-    let string = unescape(pair.as_str()).ok_or(Error::new_from_span(
+    let string = pair.as_str();
+    let string = unescape(&string[1..string.len() - 1]).ok_or(Error::new_from_span(
         ErrorVariant::CustomError {
             message: "invalid string literal".to_string(),
         },
@@ -945,7 +946,6 @@ fn unescape(string: &str) -> Option<String> {
                 }
                 _ => return None,
             },
-            Some('"') => (),
             Some(c) => result.push(c),
             None => return Some(result),
         };
-- 
2.43.0


From beb3ba6764a1b46b0e3aacd1265f2e956e971e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:59 +0000
Subject: [PATCH 05/21] fix: the content of a raw string written with pounds

---
 meta/src/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index ce81335..810a719 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -633,11 +633,11 @@ fn parse_string(pair: Pair<'_, Rule>, span: &Span) -> Result<ParseNode, Error<Ru
 
 fn parse_raw_string(pair: Pair<'_, Rule>, span: &Span) -> ParseNode {
     let span = span.from_pest(pair.as_span());
-    let mut pairs = pair.into_inner();
-
-    pairs.next().unwrap(); // quote
-
-    let content = pairs.next().unwrap().as_str();
+    let content = pair
+        .into_inner()
+        .find(|pair| pair.as_rule() == Rule::inner_raw_str) // skip pounds and the quote
+        .expect("raw string must contain inner_raw_str")
+        .as_str();
     let expr = ParseExpr::Str(content.to_owned());
 
     ParseNode { expr, span }
-- 
2.43.0


From 1d5d1f38d17f6a6df194b1f0c210d56801cf67b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:15 +0000
Subject: [PATCH 06/21] fix: an import with arguments is an error of the
 grammar, not a panic

---
 meta/src/parser.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 810a719..2aee45f 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -334,10 +334,19 @@ fn _parse<P: AsRef<Path>>(
                     start: span_path2.start(),
                     end: span_path2.end(),
                 };
-                let (mod_path, args) = parse_path_raw(path_pair, &span_path, &PrattParser::new())?;
-                if args.is_some() {
-                    todo!("import module node with arguments.")
+                if let Some(args) = path_pair
+                    .clone()
+                    .into_inner()
+                    .find(|pair| matches!(pair.as_rule(), Rule::call | Rule::slice))
+                {
+                    return Err(Error::new_from_span(
+                        ErrorVariant::CustomError {
+                            message: "cannot import a module node with arguments".to_owned(),
+                        },
+                        args.as_span(),
+                    ));
                 }
+                let (mod_path, _) = parse_path_raw(path_pair, &span_path, &PrattParser::new())?;
                 let (mut fs_path, mut alias) = (None, None);
                 for pair in pairs {
                     match pair.as_rule() {
-- 
2.43.0


From 12fd6433bea1daf3692133a802501bc4936cc43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:45 +0000
Subject: [PATCH 07/21] fix: an error in an imported grammar is returned, not a
 panic

---
 meta/src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 2aee45f..b37a4bc 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -391,7 +391,10 @@ fn _parse<P: AsRef<Path>>(
                                     &path,
                                     cache,
                                 )
-                                .unwrap_or_else(|err| panic!("{}", err));
+                                .map_err(|err| match err.path() {
+                                    Some(_) => err,
+                                    None => err.with_path(&path.to_string_lossy()),
+                                })?;
                                 cache.insert(path, module.clone());
                                 dependencies.extend(module.dependencies.iter().cloned());
                                 module
-- 
2.43.0


From 47debddaa110e5b4eedd44c135a877a7bd6a5aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:12 +0000
Subject: [PATCH 08/21] fix: circular imports are an error of the grammar, not
 a stack overflow

---
 meta/src/parser.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index b37a4bc..ae77dc8 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -312,6 +312,8 @@ fn _parse<P: AsRef<Path>>(
     input: &str,
     root: &P,
     cache: &mut HashMap<PathBuf, Arc<GrammarModule>>,
+    // Canonical paths of the imports that are being parsed.
+    parsing: &mut Vec<PathBuf>,
 ) -> Result<Arc<GrammarModule>, Error<Rule>> {
     let mut res = GrammarModule::default();
     let GrammarModule {
@@ -376,6 +378,17 @@ fn _parse<P: AsRef<Path>>(
                         let module = match cache.get(&path) {
                             Some(module) => module.clone(),
                             None => {
+                                let real_path =
+                                    path.canonicalize().unwrap_or_else(|_| path.clone());
+                                if parsing.contains(&real_path) {
+                                    return Err(Error::new_from_span(
+                                        ErrorVariant::CustomError {
+                                            message: format!("circular import of {path:?}"),
+                                        },
+                                        span_path2,
+                                    ));
+                                }
+                                parsing.push(real_path);
                                 dependencies.insert(path.clone());
                                 let module = _parse(
                                     &read_to_string(&path).map_err(|err| {
@@ -390,11 +403,13 @@ fn _parse<P: AsRef<Path>>(
                                     })?,
                                     &path,
                                     cache,
+                                    parsing,
                                 )
                                 .map_err(|err| match err.path() {
                                     Some(_) => err,
                                     None => err.with_path(&path.to_string_lossy()),
                                 })?;
+                                parsing.pop();
                                 cache.insert(path, module.clone());
                                 dependencies.extend(module.dependencies.iter().cloned());
                                 module
@@ -463,7 +478,7 @@ impl FromIterator<Arc<GrammarModule>> for GrammarModule {
 pub fn parse<P: AsRef<Path>>(input: &str, root: &P) -> Result<Arc<GrammarModule>, Error<Rule>> {
     let mut cache = Default::default();
 
-    _parse(input, root, &mut cache)
+    _parse(input, root, &mut cache, &mut Vec::new())
 }
 
 fn parse_rule(rule: Pair<'_, Rule>, path: PathBuf) -> Result<ParseRule, Error<Rule>> {
-- 
2.43.0


From a7240b3b60f29bcf3de653a9c5e4ccd44cf3a033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:17 +0000
Subject: [PATCH 09/21] fix: a rule whose name starts with "as" can follow an
 import

---
 meta/src/grammar.pest | 4 +++-
 meta/src/parser.rs    | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index 7aa7598..0dd76fe 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -11,7 +11,9 @@ grammar_rules = _{
 	SOI ~ grammar_doc* ~ import* ~ grammar_rule ~ (import | grammar_rule)* ~ EOI
 }
 
-import = { "use " ~ path ~ ("in" ~ string)? ~ ("as" ~ identifier)? }
+import = { "use " ~ path ~ ("in" ~ string)? ~ (alias_keyword ~ identifier)? }
+
+alias_keyword = @{ "as" ~ !("_" | alpha_num) }
 
 grammar_rule = {
     rule_doc* ~
diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index ae77dc8..489fd5d 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -353,6 +353,7 @@ fn _parse<P: AsRef<Path>>(
                 for pair in pairs {
                     match pair.as_rule() {
                         Rule::string => fs_path = Some(string_content(&pair)?),
+                        Rule::alias_keyword => (),
                         Rule::identifier => alias = Some(pair.as_str()),
                         _ => unreachable!(),
                     }
-- 
2.43.0


From e475fbb06afed0f1dc88e322257bf33e4cbf061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:55 +0000
Subject: [PATCH 10/21] fix: nested parentheses take linear time, and "~|" is
 read after the first operator too

The optional leading choice operator made the reader parse the first term
of every expression twice, which is exponential in the depth of nesting;
and "~|" and "^|" were only tried after "~" and "^" had matched.
---
 meta/src/grammar.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index 0dd76fe..6f8be4e 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -39,7 +39,7 @@ arguments = { opening_paren ~ (identifier ~ (comma ~ identifier)* ~ comma?)? ~ c
 silent_modifier     = @{ "_" ~ !identifier }
 
 expression =  {
-    (choice_operator? ~ term ~ choice_operator)? ~
+    (choice_operator ~ term ~ choice_operator)? ~
     term ~ (infix_operator ~ term)*
 }
 term       =  { prefix_operator* ~ node ~ postfix_operator* }
@@ -48,7 +48,7 @@ terminal   = _{ string | raw_string | insensitive_string | path | range }
 
 overridable_operator = _{ tilde_operator | caret_operator }
 prefix_operator      = _{ positive_predicate_operator | negative_predicate_operator }
-infix_operator       = _{ sequence_operator | tilde_operator | caret_operator | choice_operator }
+infix_operator       = _{ choice_operator | sequence_operator | tilde_operator | caret_operator }
 postfix_operator     = _{
     overridable_operator? ~ (
         optional_operator |
-- 
2.43.0


From 6c189db069ed71c51ce3b83b9d16ccd59113c032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:55 +0000
Subject: [PATCH 11/21] fix: unclosed nested comments are refused in linear
 time

---
 meta/src/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index 6f8be4e..fde27e0 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -108,7 +108,7 @@ pound          = { "#" }
 newline    = _{ "\n" | "\r\n" }
 WHITESPACE = _{ " " | "\t" | newline }
 
-block_comment = _{ "/*" ~ (block_comment | !"*/" ~ ANY)* ~ "*/" }
+block_comment = _{ "/*" ~ (block_comment | !("/*" | "*/") ~ ANY)* ~ "*/" }
 COMMENT       = _{ block_comment | ("//" ~ !("/" | "!") ~ (!newline ~ ANY)*) ~ &(newline | EOI) }
 doc_content   = ${ (!newline ~ ANY)* }
 rule_doc      = ${ "///" ~ " "? ~ doc_content }
-- 
2.43.0


From 4817ee8bc232766c629f1967ca9a9bc2c2bcec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 12/21] fix: silent rules with arguments are inlined
 everywhere, with all arguments put in at once

---
 generator/src/typed/generator.rs | 146 ++++++++++++++++---------------
 meta/src/parser.rs               |  37 +++++---
 2 files changed, 98 insertions(+), 85 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 6d21323..dfc1f0f 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -846,95 +846,99 @@ fn generate_typed_pair_from_rule<'g>(
     quote! {#output}
 }
 
-fn collect_silent_rules_with_args<'a>(
-    path: Option<&'a str>,
-    module: &'a GrammarModule,
-) -> BTreeMap<Option<&'a str>, BTreeMap<&'a str, &'a ParseRule>> {
-    let mut result = BTreeMap::new();
-    result.insert(
-        path,
-        module
-            .rules
-            .iter()
-            .filter(|rule| rule.silent && !rule.args.is_empty())
-            .map(|rule| (rule.name.as_str(), rule))
-            .collect(),
-    );
-    module.imports.iter().for_each(|import| {
-        if let Import::File(path, module) = import {
-            result.extend(collect_silent_rules_with_args(Some(path), module));
-        }
-    });
+/// Rules that are named in a rule, without its own arguments.
+fn collect_free_names(rule: &ParseRule) -> BTreeSet<&str> {
+    let (_, _, mut names) = collect_used_rule_without_trivia(rule);
+    names.retain(|name| !rule.args.iter().any(|arg| arg == name));
+    names
+}
 
-    result
+/// Silent rules with arguments, except those that call themselves and so cannot be inlined.
+fn collect_silent_rules_with_args(module: &GrammarModule) -> BTreeMap<&str, &ParseRule> {
+    let mut silent_rules: BTreeMap<_, _> = module
+        .rules
+        .iter()
+        .filter(|rule| rule.silent && !rule.args.is_empty())
+        .map(|rule| (rule.name.as_str(), rule))
+        .collect();
+    let mut called: BTreeMap<_, _> = silent_rules
+        .iter()
+        .map(|(name, rule)| (*name, collect_free_names(rule)))
+        .collect();
+    for _ in 0..silent_rules.len() {
+        let last = called.clone();
+        for names in called.values_mut() {
+            let next: Vec<_> = names.iter().filter_map(|name| last.get(name)).collect();
+            names.extend(next.into_iter().flatten());
+        }
+    }
+    silent_rules.retain(|name, _| !called[name].contains(name));
+    silent_rules
 }
 
 fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
-    let silent_rules = collect_silent_rules_with_args(None, &module);
+    let silent_rules = collect_silent_rules_with_args(&module);
+    let free_names: BTreeSet<_> = silent_rules
+        .values()
+        .flat_map(|rule| collect_free_names(rule))
+        .collect();
     let mut new_module = module.clone();
     new_module
         .rules
-        .retain(|rule| !rule.silent || rule.args.is_empty());
+        .retain(|rule| !silent_rules.contains_key(rule.name.as_str()));
     for rule in new_module.rules.iter_mut() {
-        let mut nodes = vec![&mut rule.node];
-        while !nodes.is_empty() {
-            loop {
-                let mut replaced = false;
-
-                if let Some(node) = nodes.last_mut() {
-                    let mut replace_expr = None;
-                    if let ParseExpr::Path(path, args) = &node.expr {
-                        if let Some(PathArgs::Call(args)) = args {
-                            if let Some(rule_name) = path.last() {
-                                if let Some(silent_rule) = silent_rules
-                                    .iter()
-                                    .find_map(|(mod_path, rules)| rules.get(rule_name.as_str()))
-                                {
-                                    assert!(silent_rule.args.len() == args.len(), "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.", silent_rule.name, silent_rule.args.len(), args.len());
-                                    let mut new_expr = silent_rule.node.expr.clone();
-                                    for (arg, silent_arg_name) in
-                                        args.iter().zip(silent_rule.args.iter())
-                                    {
-                                        replaced |=
-                                            new_expr.replace(silent_arg_name.as_str(), &arg.expr);
-                                    }
-                                    if replaced {
-                                        replace_expr = Some(new_expr);
-                                    }
-                                }
-                            }
-                        }
-                    }
-                    if let Some(expr) = replace_expr {
-                        node.expr = expr;
+        // An argument must not capture a name in what is inlined.
+        let names = collect_free_names(rule);
+        if names.iter().any(|name| silent_rules.contains_key(name)) {
+            let taken: BTreeSet<_> = names
+                .iter()
+                .chain(&free_names)
+                .map(|s| s.to_string())
+                .collect();
+            for i in 0..rule.args.len() {
+                let arg = rule.args[i].clone();
+                if free_names.contains(arg.as_str()) {
+                    let mut fresh = arg.clone() + "_";
+                    while taken.contains(&fresh) || rule.args.contains(&fresh) {
+                        fresh.push('_');
                     }
+                    let path = ParseExpr::Path(vec![fresh.clone()], None);
+                    rule.node.expr.replace(&arg, &path);
+                    rule.args[i] = fresh;
                 }
-                if !replaced {
-                    break;
-                }
             }
-            let node = nodes.pop().unwrap();
+        }
+        let mut nodes = vec![&mut rule.node];
+        while let Some(node) = nodes.pop() {
+            while let ParseExpr::Path(path, Some(PathArgs::Call(args))) = &node.expr {
+                let silent_rule = match silent_rules.get(path[0].as_str()) {
+                    Some(rule) if path.len() == 1 => rule,
+                    _ => break,
+                };
+                assert!(silent_rule.args.len() == args.len(), "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.", silent_rule.name, silent_rule.args.len(), args.len());
+                let args: Vec<_> = silent_rule
+                    .args
+                    .iter()
+                    .zip(args)
+                    .map(|(name, arg)| (name.as_str(), &arg.expr))
+                    .collect();
+                let mut new_expr = silent_rule.node.expr.clone();
+                new_expr.replace_all(&args);
+                node.expr = new_expr;
+            }
             match &mut node.expr {
-                ParseExpr::Seq(left, right, _) => {
-                    nodes.push(left);
-                    nodes.push(right);
-                }
-                ParseExpr::Choice(left, right) => {
+                ParseExpr::Seq(left, right, _) | ParseExpr::Choice(left, right) => {
                     nodes.push(left);
                     nodes.push(right);
                 }
                 ParseExpr::Opt(inner)
                 | ParseExpr::Rep(inner)
                 | ParseExpr::RepOnce(inner)
-                | ParseExpr::Separated(inner, _) => {
-                    nodes.push(inner);
-                }
-                ParseExpr::RepRange(inner, _) => {
-                    nodes.push(inner);
-                }
-                ParseExpr::PosPred(inner) | ParseExpr::NegPred(inner) => {
-                    nodes.push(inner);
-                }
+                | ParseExpr::RepRange(inner, _)
+                | ParseExpr::Separated(inner, _)
+                | ParseExpr::PosPred(inner)
+                | ParseExpr::NegPred(inner) => nodes.push(inner),
+                ParseExpr::Path(_, Some(PathArgs::Call(args))) => nodes.extend(args),
                 _ => {}
             }
         }
diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 489fd5d..913d68b 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -216,10 +216,20 @@ pub enum ParseExpr {
 
 impl ParseExpr {
     pub fn replace(&mut self, arg_name: &str, new_expr: &ParseExpr) -> bool {
+        self.replace_all(&[(arg_name, new_expr)])
+    }
+
+    /// Replace arguments by expressions, all at once: what was put in is not replaced again.
+    pub fn replace_all(&mut self, args: &[(&str, &ParseExpr)]) -> bool {
         match self {
-            Self::Path(p, None) if p.len() == 1 && p[0] == arg_name => {
-                *self = new_expr.clone();
-                true
+            Self::Path(p, None) if p.len() == 1 => {
+                match args.iter().find(|(arg_name, _)| p[0] == *arg_name) {
+                    Some((_, new_expr)) => {
+                        *self = (*new_expr).clone();
+                        true
+                    }
+                    None => false,
+                }
             }
             Self::PosPred(inner)
             | Self::NegPred(inner)
@@ -227,20 +237,19 @@ impl ParseExpr {
             | Self::Rep(inner)
             | Self::RepOnce(inner)
             | Self::RepRange(inner, _)
-            | Self::Separated(inner, _) => inner.expr.replace(arg_name, new_expr),
-            Self::Seq(lhs, rhs, _) => {
-                let replaced_lhs = lhs.expr.replace(arg_name, new_expr);
-                let replaced_rhs = rhs.expr.replace(arg_name, new_expr);
+            | Self::Separated(inner, _) => inner.expr.replace_all(args),
+            Self::Seq(lhs, rhs, _) | Self::Choice(lhs, rhs) => {
+                let replaced_lhs = lhs.expr.replace_all(args);
+                let replaced_rhs = rhs.expr.replace_all(args);
                 replaced_lhs || replaced_rhs
             }
-            Self::Choice(lhs, rhs) => {
-                let replaced_lhs = lhs.expr.replace(arg_name, new_expr);
-                let replaced_rhs = rhs.expr.replace(arg_name, new_expr);
-                replaced_lhs || replaced_rhs
+            Self::Path(_, Some(PathArgs::Call(call_args))) => {
+                let mut replaced = false;
+                for arg in call_args {
+                    replaced |= arg.expr.replace_all(args);
+                }
+                replaced
             }
-            Self::Path(_, Some(PathArgs::Call(args))) => args
-                .iter_mut()
-                .any(|arg| arg.expr.replace(arg_name, new_expr)),
             _ => false,
         }
     }
-- 
2.43.0


From b59383e217d7f1db65d9d5bfed38e1fce9da71ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 13/21] fix: a built-in rule can be imported under an alias

---
 generator/src/typed/module.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index 7911490..61408fe 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -39,6 +39,8 @@ pub enum RuleGenerics {
     /// Defined rule in current module.
     Rule { argc: usize },
     BuiltIn {
+        /// Name of the built-in rule, which may be used under an alias.
+        name: &'static str,
         /// Built-in rule that accepts nothing as argument.
         ///
         /// - Whether it requires lifetime specifier.
@@ -99,11 +101,13 @@ impl RuleGenerics {
                 }
             },
             Self::BuiltIn {
+                name,
                 direct,
                 slice,
                 callable,
             } => match args {
                 None => {
+                    let name = format_ident!("r#{}", name);
                     let (lifetime,) =
                         direct.ok_or_else(|| ModuleError::ExpectedArguments(rule_ref.clone()))?;
                     let typename = match lifetime {
@@ -134,6 +138,7 @@ impl RuleGenerics {
                     if let Some(argc) = argc {
                         ModuleError::check_argc(argc, args.len(), rule_ref)?;
                     }
+                    let name = format_ident!("r#{}", name);
                     let typename = quote! { #root::#generics::#name::< #( #args, )* > };
                     let getter = GetterByName::from_rule(&typename, name_str);
                     Intermediate { typename, getter }
@@ -270,6 +275,7 @@ impl<'g> ModuleSystem<'g> {
                     Rc::new(
                         ModuleNode::Generics(
                             RuleGenerics::BuiltIn {
+                                name: core::stringify!($name),
                                 direct: None $( .or(Some(pest_direct! { $($direct)* })) )?,
                                 slice: None $( .or(Some(pest_slice! { $( $slice )* })) )?,
                                 callable: None $( .or(Some(pest_callable! { $( $callable )* })) )?,
-- 
2.43.0


From f8c7f4c976e5700a556bc341f118088a36e6d8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 14/21] fix: an imported silent rule with arguments keeps the
 names and the trivia of its own grammar

---
 generator/src/typed/generator.rs | 74 ++++++++++++++++++++++++++++++--
 1 file changed, 70 insertions(+), 4 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index dfc1f0f..e6d308b 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -174,9 +174,29 @@ fn create_rule<'g>(
             super::#(#supers)* Rule
         }
     };
-    // Pairs inside silent rule will be ignored.
+    // Pairs inside silent rule will be ignored,
+    // except for silent rules with arguments, which stand for their content.
     let pair_api = match (config.no_pair, rule_info.silent) {
         (true, _) => quote! {},
+        (false, true) if !args.is_empty() => {
+            let rule = (0..=prefix.len())
+                .map(|n| {
+                    let rule = get_rule(n);
+                    quote! {
+                        #[allow(non_camel_case_types)]
+                        impl<'i, #(#args: #this::typed::PairContainer<#rule>, )*> #this::typed::PairContainer<#rule> for #name<'i, #(#args, )*> {
+                            fn for_each_child_pair(&self, f: &mut impl #this::std::FnMut(#this::token::Pair<#rule>)) {
+                                self.content.for_self_or_for_each_child_pair(f)
+                            }
+                            fn for_self_or_for_each_child_pair(&self, f: &mut impl #this::std::FnMut(#this::token::Pair<#rule>)) {
+                                self.content.for_self_or_for_each_child_pair(f)
+                            }
+                        }
+                    }
+                })
+                ;
+            quote! {#(#rule)*}
+        }
         (false, true) => {
             let rule = (0..=prefix.len())
                 .map(|n| {
@@ -876,6 +896,51 @@ fn collect_silent_rules_with_args(module: &GrammarModule) -> BTreeMap<&str, &Par
     silent_rules
 }
 
+/// Find the silent rule that can be inlined for a path, by the names of the imports.
+fn find_silent_rule<'a>(module: &'a GrammarModule, path: &[String]) -> Option<&'a ParseRule> {
+    let (name, sections) = path.split_last()?;
+    let mut imported = module;
+    for section in sections {
+        imported = imported.imports.iter().find_map(|import| match import {
+            Import::File(name, module) if name == section => Some(module.as_ref()),
+            _ => None,
+        })?;
+    }
+    let rule = collect_silent_rules_with_args(imported).remove(name.as_str())?;
+    // Trivia has to be the one of the module that the rule is defined in.
+    let (optional, mandatory, _) = collect_used_rule_without_trivia(rule);
+    (sections.is_empty() || !optional && !mandatory).then_some(rule)
+}
+
+/// Prefix the names in an imported expression, except for arguments and built-in rules.
+fn qualify(expr: &mut ParseExpr, sections: &[String], args: &[String]) {
+    match expr {
+        ParseExpr::Str(_) | ParseExpr::Insens(_) | ParseExpr::Range(_, _) => {}
+        ParseExpr::Path(path, path_args) => {
+            let is_arg = path.len() == 1 && args.contains(&path[0]);
+            if !is_arg && path[0] != "pest" {
+                path.splice(0..0, sections.iter().cloned());
+            }
+            if let Some(PathArgs::Call(path_args)) = path_args {
+                for arg in path_args {
+                    qualify(&mut arg.expr, sections, args);
+                }
+            }
+        }
+        ParseExpr::Seq(left, right, _) | ParseExpr::Choice(left, right) => {
+            qualify(&mut left.expr, sections, args);
+            qualify(&mut right.expr, sections, args);
+        }
+        ParseExpr::Opt(inner)
+        | ParseExpr::Rep(inner)
+        | ParseExpr::RepOnce(inner)
+        | ParseExpr::RepRange(inner, _)
+        | ParseExpr::Separated(inner, _)
+        | ParseExpr::PosPred(inner)
+        | ParseExpr::NegPred(inner) => qualify(&mut inner.expr, sections, args),
+    }
+}
+
 fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
     let silent_rules = collect_silent_rules_with_args(&module);
     let free_names: BTreeSet<_> = silent_rules
@@ -911,9 +976,9 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
         let mut nodes = vec![&mut rule.node];
         while let Some(node) = nodes.pop() {
             while let ParseExpr::Path(path, Some(PathArgs::Call(args))) = &node.expr {
-                let silent_rule = match silent_rules.get(path[0].as_str()) {
-                    Some(rule) if path.len() == 1 => rule,
-                    _ => break,
+                let silent_rule = match find_silent_rule(&module, path) {
+                    Some(rule) => rule,
+                    None => break,
                 };
                 assert!(silent_rule.args.len() == args.len(), "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.", silent_rule.name, silent_rule.args.len(), args.len());
                 let args: Vec<_> = silent_rule
@@ -923,6 +988,7 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
                     .map(|(name, arg)| (name.as_str(), &arg.expr))
                     .collect();
                 let mut new_expr = silent_rule.node.expr.clone();
+                qualify(&mut new_expr, &path[..path.len() - 1], &silent_rule.args);
                 new_expr.replace_all(&args);
                 node.expr = new_expr;
             }
-- 
2.43.0


From 035e9530377959984bf41d019ada12c207d3acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 15/21] fix: rules_mod works for grammars with imports

---
 generator/src/common.rs          | 8 ++++----
 generator/src/typed/generator.rs | 4 +++-
 generator/src/typed/output.rs    | 2 +-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/generator/src/common.rs b/generator/src/common.rs
index a6abc27..79ebc23 100644
--- a/generator/src/common.rs
+++ b/generator/src/common.rs
@@ -40,7 +40,7 @@ pub(crate) fn generate_include(name: &Ident, paths: Vec<PathBuf>) -> TokenStream
     }
 }
 
-pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
+pub(crate) fn generate_rule_enum(module: &GrammarModule, types: &TokenStream) -> TokenStream {
     let this = pest();
     let GrammarModule {
         rules,
@@ -68,7 +68,7 @@ pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
         Import::File(name, module) => {
             let ident = format_ident!("r#{}", name);
             quote! {
-                #ident(rules::#ident::Rule),
+                #ident(#types::#ident::Rule),
             }
         }
     });
@@ -77,8 +77,8 @@ pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
         Import::File(name, module) => {
             let ident = format_ident!("r#{}", name);
             quote! {
-                impl #this::typed::SuperRule<rules::#ident::Rule> for Rule {
-                    fn cvt_from(rule: rules::#ident::Rule) -> Self {
+                impl #this::typed::SuperRule<#types::#ident::Rule> for Rule {
+                    fn cvt_from(rule: #types::#ident::Rule) -> Self {
                         Self::#ident(rule)
                     }
                 }
diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index e6d308b..fc2911e 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -653,7 +653,9 @@ fn process_rules<'g>(
             }
         })
         .collect();
-    let mut output = Output::new(module, modules, config.rules_mod.clone());
+    // Imported modules are referred to with the default name.
+    let rules_mod = config.rules_mod.clone().filter(|_| prefix.is_empty());
+    let mut output = Output::new(module, modules, rules_mod);
     let reachability = collect_reachability(rules);
     for rule in rules.iter() {
         match rule.name.as_str() {
diff --git a/generator/src/typed/output.rs b/generator/src/typed/output.rs
index 27d16d9..1289194 100644
--- a/generator/src/typed/output.rs
+++ b/generator/src/typed/output.rs
@@ -206,7 +206,7 @@ impl<'g> Output<'g> {
         modules: Vec<(Ident, Self)>,
         rules_mod: Option<String>,
     ) -> Self {
-        let rule_enum = generate_rule_enum(module);
+        let rule_enum = generate_rule_enum(module, &types_mod(rules_mod.as_deref()));
         Self {
             content: Vec::new(),
             optional_trivia: None,
-- 
2.43.0


From b8eba42236649df3aa6182feda8df36624fa1127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 16/21] fix: errors about a grammar name the sequence operator
 by its own sign

---
 meta/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/error.rs b/meta/src/error.rs
index eeba133..b282387 100644
--- a/meta/src/error.rs
+++ b/meta/src/error.rs
@@ -15,7 +15,7 @@ pub fn rename_meta_rule(rule: &Rule) -> String {
         Rule::opening_paren => "`(`".to_owned(),
         Rule::positive_predicate_operator => "`&`".to_owned(),
         Rule::negative_predicate_operator => "`!`".to_owned(),
-        Rule::sequence_operator => "`&`".to_owned(),
+        Rule::sequence_operator => "`-`".to_owned(),
         Rule::choice_operator => "`|`".to_owned(),
         Rule::optional_operator => "`?`".to_owned(),
         Rule::repeat_operator => "`*`".to_owned(),
-- 
2.43.0


From ff79ae306042db52714577c15c0f5e7c0ec8f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 17/21] fix: the list of a pushed rule's child pairs holds the
 rule, as iterating them does

---
 core/src/typed/template/mod.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/core/src/typed/template/mod.rs b/core/src/typed/template/mod.rs
index 87108fd..b68fb4e 100644
--- a/core/src/typed/template/mod.rs
+++ b/core/src/typed/template/mod.rs
@@ -960,9 +960,6 @@ impl<R: RuleType, T: PairContainer<R>> PairContainer<R> for push<T> {
     fn for_each_child_pair(&self, f: &mut impl FnMut(crate::token::Pair<R>)) {
         self.content.for_self_or_for_each_child_pair(f)
     }
-    fn vec_children_pairs(&self) -> Vec<crate::token::Pair<R>> {
-        self.content.vec_children_pairs()
-    }
 }
 
 /// Match `[START..END]` in top-to-bottom order of the stack.
-- 
2.43.0


From 9897a96d892b87c1b2e30e24d8547268604fa0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 18/21] fix: name core's Option by its full path in
 full_rule_struct, so that rules and parameters may be called Option

---
 core/src/typed/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/typed/traits.rs b/core/src/typed/traits.rs
index 200ae7a..d59fd60 100644
--- a/core/src/typed/traits.rs
+++ b/core/src/typed/traits.rs
@@ -137,7 +137,7 @@ macro_rules! full_rule_struct {
                 input: $crate::Position<'i>,
                 stack: &mut $crate::Stack<$crate::Span<'i>>,
                 tracker: &mut $crate::typed::Tracker<'i, $Rule>,
-            ) -> Option<($crate::Position<'i>, Self)> {
+            ) -> ::core::option::Option<($crate::Position<'i>, Self)> {
                 tracker.record_option_during(
                     input,
                     |tracker| {
@@ -153,7 +153,7 @@ macro_rules! full_rule_struct {
                 input: $crate::Position<'i>,
                 stack: &mut $crate::Stack<$crate::Span<'i>>,
                 tracker: &mut $crate::typed::Tracker<'i, $Rule>,
-            ) -> Option<$crate::Position<'i>> {
+            ) -> ::core::option::Option<$crate::Position<'i>> {
                 tracker.record_empty_during::<Self>(
                     input,
                     |tracker| {
-- 
2.43.0


From 92535d71d0bccf228afdedfd3f1eafdc8a56af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:26 +0000
Subject: [PATCH 19/21] fix: refuse arguments given to a parameter of a rule
 instead of ignoring them

---
 generator/src/typed/generator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index fc2911e..b5005f5 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -391,6 +391,12 @@ fn process_expr<'g>(
         }
         ParseExpr::Path(prefix, args) => {
             if prefix.len() == 1 && rule_config.grammar.args.contains(&prefix[0]) {
+                assert!(
+                    args.is_none(),
+                    "Parameter `{}` of rule `{}` doesn't take any arguments.",
+                    prefix[0],
+                    rule_config.grammar.name,
+                );
                 let ident = format_ident!("r#{}", prefix[0]);
                 let typename = quote! {#ident};
                 let getter = GetterByName::from_generics_arg(&prefix[0]);
-- 
2.43.0


From 6b8d27c44bf8c6f5f2a3e85b453c6771edd1b96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:28 +0000
Subject: [PATCH 20/21] fix: refuse trivia and inlined rules that are defined
 twice

---
 generator/src/typed/generator.rs | 4 ++++
 generator/src/typed/output.rs    | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index b5005f5..4a0b23b 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -951,6 +951,10 @@ fn qualify(expr: &mut ParseExpr, sections: &[String], args: &[String]) {
 
 fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
     let silent_rules = collect_silent_rules_with_args(&module);
+    for name in silent_rules.keys() {
+        let count = module.rules.iter().filter(|r| r.name == *name).count();
+        assert!(count == 1, "Rule `{name}` is already defined.");
+    }
     let free_names: BTreeSet<_> = silent_rules
         .values()
         .flat_map(|rule| collect_free_names(rule))
diff --git a/generator/src/typed/output.rs b/generator/src/typed/output.rs
index 1289194..e5cb77b 100644
--- a/generator/src/typed/output.rs
+++ b/generator/src/typed/output.rs
@@ -222,10 +222,12 @@ impl<'g> Output<'g> {
         self.content.push(tokens);
     }
     pub fn add_option_trivia(&mut self, tokens: TokenStream) {
-        self.optional_trivia = Some(tokens);
+        let prev = self.optional_trivia.replace(tokens);
+        assert!(prev.is_none(), "Trivia `~` is already defined.");
     }
     pub fn add_mandatory_trivia(&mut self, tokens: TokenStream) {
-        self.mandatory_trivia = Some(tokens);
+        let prev = self.mandatory_trivia.replace(tokens);
+        assert!(prev.is_none(), "Trivia `^` is already defined.");
     }
     /// Collect to final [TokenStream].
     pub fn collect(&self) -> TokenStream {
-- 
2.43.0


From aa5fc3c8f963e4866cb64c5413f5fad97f3cddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:02 +0000
Subject: [PATCH 21/21] fix: refuse a file imported under a name that is
 already taken

---
 generator/src/typed/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 4a0b23b..6ff5a5e 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -653,7 +653,7 @@ fn process_rules<'g>(
                     ),
                 );
                 let imported = child_mod_sys.take();
-                mod_sys.insert(imported, name);
+                mod_sys.insert(imported, name).unwrap();
                 new_prefix.pop().unwrap();
                 Some(module)
             }
-- 
2.43.0

