From 7db2f5fb6031b6cb80197b9aff6a86f96ebf3c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:29 +0000
Subject: [PATCH 01/10] fix: do not bump past the end of the input inside raw
 text elements

parse_any_twig can consume a dangling '{%' and report it as an error, after
which the input may be over ('<script>{%').
---
 crates/ludtwig-parser/src/grammar/html.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index d922240..bb629e0 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -106,7 +106,7 @@ fn parse_html_raw_text(
                 false
             },
             |p| {
-                if parse_any_twig(p, parse_html_raw_text_inner).is_none() {
+                if parse_any_twig(p, parse_html_raw_text_inner).is_none() && !p.at_end() {
                     p.bump(); // just bump anything until the early exit closure stops us
                 }
             },
@@ -135,7 +135,7 @@ fn parse_html_raw_text(
             false
         },
         |p| {
-            if parse_any_twig(p, parse_html_raw_text_inner).is_none() {
+            if parse_any_twig(p, parse_html_raw_text_inner).is_none() && !p.at_end() {
                 p.bump(); // just bump anything until the early exit closure stops us
             }
         },
-- 
2.43.0


From 582289b2d1ac0dcb3dca5d49293097bd32f6aa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:50 +0000
Subject: [PATCH 02/10] fix: report a missing => after a parenthesized argument
 list

An expression like '(a, b)' without a following arrow ran into the debug
assertion of parse_twig_arrow_function and in release builds silently
consumed whatever token came next as if it was the arrow.
---
 crates/ludtwig-parser/src/grammar/twig/expression.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/ludtwig-parser/src/grammar/twig/expression.rs b/crates/ludtwig-parser/src/grammar/twig/expression.rs
index 9a7caf4..fe9ba76 100644
--- a/crates/ludtwig-parser/src/grammar/twig/expression.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/expression.rs
@@ -315,6 +315,11 @@ fn parse_paren_arrow_function(parser: &mut Parser, m: Marker) -> CompletedMarker
     parser.expect(T![")"], TWIG_EXPRESSION_RECOVERY_SET);
     let last_node = parser.complete(m, SyntaxKind::TWIG_ARGUMENTS);
 
+    if !parser.at(T!["=>"]) {
+        parser.add_error(ParseErrorBuilder::new("=>"));
+        return last_node;
+    }
+
     parse_twig_arrow_function(parser, last_node)
 }
 
-- 
2.43.0


From df2624932011c02660b22b1193b90fb51b575605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 03/10] fix: endcomponent also ends HTML left open inside a
 component

---
 crates/ludtwig-parser/src/grammar/twig/tags.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/ludtwig-parser/src/grammar/twig/tags.rs b/crates/ludtwig-parser/src/grammar/twig/tags.rs
index 3dfbfca..bf7a443 100644
--- a/crates/ludtwig-parser/src/grammar/twig/tags.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/tags.rs
@@ -38,6 +38,7 @@ pub(crate) fn at_twig_termination_tag(p: &mut Parser) -> bool {
         T!["endcache"],
         T!["endsw_silent_feature_call"],
         T!["endtrans"],
+        T!["endcomponent"],
     ];
 
     if !p.at_twig_block_open() {
-- 
2.43.0


From 17e82dbc8fdd4bd58cb1792e3088b85794a7139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 04/10] fix: an unknown Twig tag in raw text does not swallow
 the end tag after it

---
 crates/ludtwig-parser/src/grammar/html.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index bb629e0..41980fd 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -106,7 +106,10 @@ fn parse_html_raw_text(
                 false
             },
             |p| {
-                if parse_any_twig(p, parse_html_raw_text_inner).is_none() && !p.at_end() {
+                if parse_any_twig(p, parse_html_raw_text_inner).is_none()
+                    && !p.at_end()
+                    && !at_twig_termination_tag(p)
+                {
                     p.bump(); // just bump anything until the early exit closure stops us
                 }
             },
@@ -135,7 +138,10 @@ fn parse_html_raw_text(
             false
         },
         |p| {
-            if parse_any_twig(p, parse_html_raw_text_inner).is_none() && !p.at_end() {
+            if parse_any_twig(p, parse_html_raw_text_inner).is_none()
+                && !p.at_end()
+                && !at_twig_termination_tag(p)
+            {
                 p.bump(); // just bump anything until the early exit closure stops us
             }
         },
-- 
2.43.0


From f5d55ba118b92bfbd4ad6cbce69cd495e5606bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 05/10] fix: exit with a failure when errors were reported but
 no file was scanned

---
 crates/ludtwig/src/output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/output.rs b/crates/ludtwig/src/output.rs
index e8a28d4..270da92 100644
--- a/crates/ludtwig/src/output.rs
+++ b/crates/ludtwig/src/output.rs
@@ -60,7 +60,7 @@ pub fn handle_processing_output(rx: &Receiver<ProcessingEvent>) -> i32 {
         (error_count + warning_count + help_count + info_count)
     );
 
-    if file_count > 0 && (error_count > 0 || warning_count > 0 || help_count > 0) {
+    if error_count > 0 || warning_count > 0 || help_count > 0 {
         io::stderr().write_all(conclusion_msg.as_bytes()).unwrap();
         1 // return exit code 1 if there were errors, warnings or help.
     } else {
-- 
2.43.0


From 8313b44cca5439525ad2c14f60822dde7c39947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 06/10] fix: nested elements do not end the protection of
 whitespace-sensitive content

---
 crates/ludtwig/src/check.rs                   | 54 ++++++++++---------
 crates/ludtwig/src/check/rules/indentation.rs | 24 ++++-----
 2 files changed, 41 insertions(+), 37 deletions(-)

diff --git a/crates/ludtwig/src/check.rs b/crates/ludtwig/src/check.rs
index 10b97de..2554254 100644
--- a/crates/ludtwig/src/check.rs
+++ b/crates/ludtwig/src/check.rs
@@ -56,10 +56,17 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
 
     // iterate through syntax tree
     let mut ignored_rules: Vec<String> = vec![];
+    let mut trivia_sensitive_depth = 0_usize;
     let mut preorder = file_context.tree_root.preorder_with_tokens();
     while let Some(walk_event) = preorder.next() {
         match walk_event {
             WalkEvent::Enter(element) => {
+                // adjust traversal context when entering special nodes
+                if is_trivia_sensitive(&element) {
+                    trivia_sensitive_depth += 1;
+                    run_context.traversal_ctx.inside_trivia_sensitive_node = true;
+                }
+
                 // add ignored rules when entering the sibling after the ignore directive / comment
                 // also skip the whole subtree if there is a ignore directive without specific rules
                 let mut found_ignored_rules: Vec<String> = match element.prev_sibling_or_token() {
@@ -90,19 +97,6 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
                             // malformed code
                         }
 
-                        // adjust traversal context when entering special nodes
-                        if HtmlStringInner::can_cast(n.kind())
-                            || TwigLiteralStringInner::can_cast(n.kind())
-                        {
-                            run_context.traversal_ctx.inside_trivia_sensitive_node = true;
-                        } else if let Some(t) = HtmlTag::cast(n.clone()) {
-                            if let Some("pre" | "textarea" | "script" | "style") =
-                                t.name().as_ref().map(SyntaxToken::text)
-                            {
-                                run_context.traversal_ctx.inside_trivia_sensitive_node = true;
-                            }
-                        }
-
                         // run node checks for every rule
                         let results = file_context
                             .file_rule_definitions
@@ -154,18 +148,10 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
                 }
 
                 // adjust traversal context when exiting special nodes
-                if let SyntaxElement::Node(n) = element {
-                    if HtmlStringInner::can_cast(n.kind())
-                        || TwigLiteralStringInner::can_cast(n.kind())
-                    {
-                        run_context.traversal_ctx.inside_trivia_sensitive_node = false;
-                    } else if let Some(t) = HtmlTag::cast(n) {
-                        if let Some("pre" | "textarea" | "script" | "style") =
-                            t.name().as_ref().map(SyntaxToken::text)
-                        {
-                            run_context.traversal_ctx.inside_trivia_sensitive_node = false;
-                        }
-                    }
+                if is_trivia_sensitive(&element) {
+                    trivia_sensitive_depth -= 1;
+                    run_context.traversal_ctx.inside_trivia_sensitive_node =
+                        trivia_sensitive_depth > 0;
                 }
             }
         }
@@ -174,6 +160,24 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
     check_results
 }
 
+/// Whether whitespace and line breaks inside this element carry meaning.
+fn is_trivia_sensitive(element: &SyntaxElement) -> bool {
+    let SyntaxElement::Node(n) = element else {
+        return false;
+    };
+
+    if HtmlStringInner::can_cast(n.kind()) || TwigLiteralStringInner::can_cast(n.kind()) {
+        return true;
+    }
+
+    HtmlTag::cast(n.clone()).is_some_and(|t| {
+        matches!(
+            t.name().as_ref().map(SyntaxToken::text),
+            Some("pre" | "textarea" | "script" | "style")
+        )
+    })
+}
+
 pub fn get_rule_context_suggestions(
     check_results: &[CheckResult],
 ) -> Vec<(&'static str, &CheckSuggestion)> {
diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index b8466f6..d4c755c 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -18,7 +18,7 @@ impl Rule for RuleIndentation {
         let mut line_break_encountered = true;
         let mut indentation_level = 0; // whole indentation levels like nested elements
         let mut indentation_substeps = 0; // additional spaces for alignment (like attributes)
-        let mut inside_trivia_sensitive_node = false;
+        let mut trivia_sensitive_depth = 0; // number of surrounding elements with meaningful whitespace
         let mut is_ignored = false;
 
         let indent_block_children = ctx.config().format.indent_children_of_blocks;
@@ -36,7 +36,7 @@ impl Rule for RuleIndentation {
                             line_break_encountered = true;
                         }
                         SyntaxElement::Token(t) if !is_ignored && line_break_encountered => {
-                            if !inside_trivia_sensitive_node {
+                            if trivia_sensitive_depth == 0 {
                                 check_results.append(&mut self.handle_first_token_in_line(
                                     &t,
                                     indentation_level,
@@ -51,13 +51,8 @@ impl Rule for RuleIndentation {
                             line_break_encountered = false;
                         }
                         SyntaxElement::Node(n) => {
-                            if self.check_for_rule_ignore_enter(&mut is_ignored, &mut tree_iter, &n)
-                            {
-                                continue;
-                            }
-
                             Self::check_for_trivia_sensitivity(
-                                &mut inside_trivia_sensitive_node,
+                                &mut trivia_sensitive_depth,
                                 &n,
                                 WalkMode::Enter,
                             );
@@ -74,6 +69,11 @@ impl Rule for RuleIndentation {
                                 &n,
                                 WalkMode::Enter,
                             );
+
+                            if self.check_for_rule_ignore_enter(&mut is_ignored, &mut tree_iter, &n)
+                            {
+                                continue;
+                            }
                         }
                     }
                 }
@@ -82,7 +82,7 @@ impl Rule for RuleIndentation {
                         self.check_for_rule_ignore_leave(&mut is_ignored, &n);
 
                         Self::check_for_trivia_sensitivity(
-                            &mut inside_trivia_sensitive_node,
+                            &mut trivia_sensitive_depth,
                             &n,
                             WalkMode::Leave,
                         );
@@ -243,7 +243,7 @@ impl RuleIndentation {
     }
 
     fn check_for_trivia_sensitivity(
-        inside_trivia_sensitive_node: &mut bool,
+        trivia_sensitive_depth: &mut usize,
         n: &SyntaxNode,
         walk_mode: WalkMode,
     ) {
@@ -253,10 +253,10 @@ impl RuleIndentation {
             {
                 match walk_mode {
                     WalkMode::Enter => {
-                        *inside_trivia_sensitive_node = true;
+                        *trivia_sensitive_depth += 1;
                     }
                     WalkMode::Leave => {
-                        *inside_trivia_sensitive_node = false;
+                        *trivia_sensitive_depth -= 1;
                     }
                 }
             }
-- 
2.43.0


From 872a0a129f58db726fe50642f868076dcad8d4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 07/10] fix: indentation does not change the content of Twig
 strings

---
 crates/ludtwig/src/check/rules/indentation.rs | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index d4c755c..8d90d77 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -1,4 +1,6 @@
-use ludtwig_parser::syntax::typed::{AstNode, HtmlStartingTag, HtmlTag, LudtwigDirectiveIgnore};
+use ludtwig_parser::syntax::typed::{
+    AstNode, HtmlStartingTag, HtmlTag, LudtwigDirectiveIgnore, TwigLiteralStringInner,
+};
 use ludtwig_parser::syntax::untyped::{
     PreorderWithTokens, SyntaxElement, SyntaxKind, SyntaxNode, SyntaxToken, TextRange, TextSize,
     WalkEvent,
@@ -247,17 +249,21 @@ impl RuleIndentation {
         n: &SyntaxNode,
         walk_mode: WalkMode,
     ) {
-        if let Some(t) = HtmlTag::cast(n.clone()) {
-            if let Some("pre" | "textarea" | "script" | "style") =
-                t.name().as_ref().map(SyntaxToken::text)
-            {
-                match walk_mode {
-                    WalkMode::Enter => {
-                        *trivia_sensitive_depth += 1;
-                    }
-                    WalkMode::Leave => {
-                        *trivia_sensitive_depth -= 1;
-                    }
+        let is_trivia_sensitive = TwigLiteralStringInner::can_cast(n.kind())
+            || HtmlTag::cast(n.clone()).is_some_and(|t| {
+                matches!(
+                    t.name().as_ref().map(SyntaxToken::text),
+                    Some("pre" | "textarea" | "script" | "style")
+                )
+            });
+
+        if is_trivia_sensitive {
+            match walk_mode {
+                WalkMode::Enter => {
+                    *trivia_sensitive_depth += 1;
+                }
+                WalkMode::Leave => {
+                    *trivia_sensitive_depth -= 1;
                 }
             }
         }
-- 
2.43.0


From 5cc905232c6e72ebcc471eaa17da5fb4dd1fc68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 08/10] fix: keep whitespace between line breaks in
 whitespace-sensitive content

---
 .../src/check/rules/whitespace_between_line_breaks.rs       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs b/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs
index e35d248..789c4b0 100644
--- a/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs
+++ b/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs
@@ -9,7 +9,11 @@ impl Rule for RuleWhitespaceBetweenLineBreaks {
         "whitespace-between-line-breaks"
     }
 
-    fn check_token(&self, token: SyntaxToken, _ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
+    fn check_token(&self, token: SyntaxToken, ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
+        if ctx.traversal_ctx().inside_trivia_sensitive_node {
+            return None; // no trivia modification allowed here
+        }
+
         // rule only inspects line breaks
         if token.kind() != SyntaxKind::TK_LINE_BREAK {
             return None;
-- 
2.43.0


From f476fe31aee41123dfb6e34210fe5281a3e509bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 09/10] fix: nested ignore directives do not end an outer one

---
 crates/ludtwig/src/check/rule.rs              | 16 +++++------
 .../src/check/rules/html_duplicate_id.rs      | 13 ++++-----
 crates/ludtwig/src/check/rules/indentation.rs | 27 ++++++++++++-------
 .../src/check/rules/twig_block_duplicate.rs   | 12 +++++----
 4 files changed, 39 insertions(+), 29 deletions(-)

diff --git a/crates/ludtwig/src/check/rule.rs b/crates/ludtwig/src/check/rule.rs
index 4b3b1cf..00e6da8 100644
--- a/crates/ludtwig/src/check/rule.rs
+++ b/crates/ludtwig/src/check/rule.rs
@@ -60,14 +60,14 @@ pub trait RuleExt: Rule {
     /// when entering a node. Returns `true` if the subtree was skipped entirely (blanket ignore).
     fn check_for_rule_ignore_enter(
         &self,
-        is_ignored: &mut bool,
+        ignore_depth: &mut usize,
         tree_iter: &mut Preorder,
         n: &SyntaxNode,
     ) -> bool;
 
-    /// Helper for `check_root` implementations: reset the ignore flag when leaving a node
+    /// Helper for `check_root` implementations: decrease the ignore depth when leaving a node
     /// whose previous sibling was a `LudtwigDirectiveIgnore` targeting this rule.
-    fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode);
+    fn check_for_rule_ignore_leave(&self, ignore_depth: &mut usize, n: &SyntaxNode);
 }
 
 impl<R: Rule> RuleExt for R {
@@ -84,7 +84,7 @@ impl<R: Rule> RuleExt for R {
 
     fn check_for_rule_ignore_enter(
         &self,
-        is_ignored: &mut bool,
+        ignore_depth: &mut usize,
         tree_iter: &mut Preorder,
         n: &SyntaxNode,
     ) -> bool {
@@ -99,21 +99,21 @@ impl<R: Rule> RuleExt for R {
 
                 if ignored_rules.iter().any(|r| r == self.name()) {
                     // this rule is now ignored
-                    *is_ignored = true;
+                    *ignore_depth += 1;
                 }
             }
         }
         false
     }
 
-    fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode) {
+    fn check_for_rule_ignore_leave(&self, ignore_depth: &mut usize, n: &SyntaxNode) {
         if let Some(node) = n.prev_sibling() {
             if let Some(directive) = LudtwigDirectiveIgnore::cast(node) {
                 let ignored_rules = directive.get_rules();
 
                 if ignored_rules.iter().any(|r| r == self.name()) {
-                    // this rule is no longer ignored
-                    *is_ignored = false;
+                    // one directive less in effect for this rule
+                    *ignore_depth -= 1;
                 }
             }
         }
diff --git a/crates/ludtwig/src/check/rules/html_duplicate_id.rs b/crates/ludtwig/src/check/rules/html_duplicate_id.rs
index 57705be..d31176d 100644
--- a/crates/ludtwig/src/check/rules/html_duplicate_id.rs
+++ b/crates/ludtwig/src/check/rules/html_duplicate_id.rs
@@ -14,20 +14,21 @@ impl Rule for RuleHtmlDuplicateId {
     fn check_root(&self, node: SyntaxNode, _ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
         let mut id_table: HashMap<String, HtmlAttribute> = HashMap::new();
 
-        let mut is_ignored = false;
+        let mut ignore_depth = 0;
         let mut check_results = vec![];
         let mut tree_iter = node.preorder();
         while let Some(walk) = tree_iter.next() {
             match walk {
                 WalkEvent::Enter(element) => {
-                    if element.kind() == SyntaxKind::ERROR {
-                        tree_iter.skip_subtree();
+                    if self.check_for_rule_ignore_enter(&mut ignore_depth, &mut tree_iter, &element)
+                    {
                         continue;
                     }
-                    if self.check_for_rule_ignore_enter(&mut is_ignored, &mut tree_iter, &element) {
+                    if element.kind() == SyntaxKind::ERROR {
+                        tree_iter.skip_subtree();
                         continue;
                     }
-                    if is_ignored {
+                    if ignore_depth > 0 {
                         continue;
                     }
 
@@ -83,7 +84,7 @@ impl Rule for RuleHtmlDuplicateId {
                     }
                 }
                 WalkEvent::Leave(element) => {
-                    self.check_for_rule_ignore_leave(&mut is_ignored, &element);
+                    self.check_for_rule_ignore_leave(&mut ignore_depth, &element);
                 }
             }
         }
diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index 8d90d77..20409e3 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -21,7 +21,7 @@ impl Rule for RuleIndentation {
         let mut indentation_level = 0; // whole indentation levels like nested elements
         let mut indentation_substeps = 0; // additional spaces for alignment (like attributes)
         let mut trivia_sensitive_depth = 0; // number of surrounding elements with meaningful whitespace
-        let mut is_ignored = false;
+        let mut ignore_depth = 0; // number of ignore directives in effect for this rule
 
         let indent_block_children = ctx.config().format.indent_children_of_blocks;
 
@@ -37,7 +37,7 @@ impl Rule for RuleIndentation {
                         SyntaxElement::Token(t) if t.kind() == SyntaxKind::TK_LINE_BREAK => {
                             line_break_encountered = true;
                         }
-                        SyntaxElement::Token(t) if !is_ignored && line_break_encountered => {
+                        SyntaxElement::Token(t) if ignore_depth == 0 && line_break_encountered => {
                             if trivia_sensitive_depth == 0 {
                                 check_results.append(&mut self.handle_first_token_in_line(
                                     &t,
@@ -72,8 +72,11 @@ impl Rule for RuleIndentation {
                                 WalkMode::Enter,
                             );
 
-                            if self.check_for_rule_ignore_enter(&mut is_ignored, &mut tree_iter, &n)
-                            {
+                            if self.check_for_rule_ignore_enter(
+                                &mut ignore_depth,
+                                &mut tree_iter,
+                                &n,
+                            ) {
                                 continue;
                             }
                         }
@@ -81,7 +84,11 @@ impl Rule for RuleIndentation {
                 }
                 WalkEvent::Leave(element) => {
                     if let SyntaxElement::Node(n) = element {
-                        self.check_for_rule_ignore_leave(&mut is_ignored, &n);
+                        if n.kind() == SyntaxKind::ERROR {
+                            continue; // nothing was recorded when entering it
+                        }
+
+                        self.check_for_rule_ignore_leave(&mut ignore_depth, &n);
 
                         Self::check_for_trivia_sensitivity(
                             &mut trivia_sensitive_depth,
@@ -209,7 +216,7 @@ impl RuleIndentation {
 
     fn check_for_rule_ignore_enter(
         &self,
-        is_ignored: &mut bool,
+        ignore_depth: &mut usize,
         tree_iter: &mut PreorderWithTokens,
         n: &SyntaxNode,
     ) -> bool {
@@ -224,21 +231,21 @@ impl RuleIndentation {
 
                 if ignored_rules.iter().any(|r| r == self.name()) {
                     // this rule is now ignored
-                    *is_ignored = true;
+                    *ignore_depth += 1;
                 }
             }
         }
         false
     }
 
-    fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode) {
+    fn check_for_rule_ignore_leave(&self, ignore_depth: &mut usize, n: &SyntaxNode) {
         if let Some(node) = n.prev_sibling() {
             if let Some(directive) = LudtwigDirectiveIgnore::cast(node) {
                 let ignored_rules = directive.get_rules();
 
                 if ignored_rules.iter().any(|r| r == self.name()) {
-                    // this rule is no longer ignored
-                    *is_ignored = false;
+                    // one directive less in effect for this rule
+                    *ignore_depth -= 1;
                 }
             }
         }
diff --git a/crates/ludtwig/src/check/rules/twig_block_duplicate.rs b/crates/ludtwig/src/check/rules/twig_block_duplicate.rs
index 12d44c3..82fa72a 100644
--- a/crates/ludtwig/src/check/rules/twig_block_duplicate.rs
+++ b/crates/ludtwig/src/check/rules/twig_block_duplicate.rs
@@ -15,19 +15,21 @@ impl Rule for RuleTwigBlockDuplicate {
         // keep track of some state during tree traversal
         let mut block_table: HashMap<String, TwigBlock> = HashMap::new();
 
-        let mut is_ignored = false;
+        let mut ignore_depth = 0;
         let mut check_results = vec![];
         let mut tree_iter = node.preorder();
         while let Some(walk) = tree_iter.next() {
             match walk {
                 WalkEvent::Enter(element) => {
+                    if self.check_for_rule_ignore_enter(&mut ignore_depth, &mut tree_iter, &element)
+                    {
+                        continue;
+                    }
                     if element.kind() == SyntaxKind::ERROR {
                         tree_iter.skip_subtree(); // Skip everything under error nodes!
-                    }
-                    if self.check_for_rule_ignore_enter(&mut is_ignored, &mut tree_iter, &element) {
                         continue;
                     }
-                    if is_ignored {
+                    if ignore_depth > 0 {
                         continue;
                     }
 
@@ -58,7 +60,7 @@ impl Rule for RuleTwigBlockDuplicate {
                     }
                 }
                 WalkEvent::Leave(element) => {
-                    self.check_for_rule_ignore_leave(&mut is_ignored, &element);
+                    self.check_for_rule_ignore_leave(&mut ignore_depth, &element);
                 }
             }
         }
-- 
2.43.0


From c2ccc042744db8def81064041da908f6073f712b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 10/10] fix: applied suggestions never overlap

---
 crates/ludtwig/src/process.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/ludtwig/src/process.rs b/crates/ludtwig/src/process.rs
index 981b35f..24d0856 100644
--- a/crates/ludtwig/src/process.rs
+++ b/crates/ludtwig/src/process.rs
@@ -130,21 +130,26 @@ pub fn iteratively_apply_suggestions(
         }
 
         // sort by syntax range
-        suggestions
-            .sort_by(|(_, sug_a), (_, sug_b)| sug_a.syntax_range.ordering(sug_b.syntax_range));
+        suggestions.sort_by_key(|(_, sug)| (sug.syntax_range.start(), sug.syntax_range.end()));
 
         // filter out overlapping suggestions
         let mut overlapping_rules = HashSet::new();
-        for ((rule_a, sug_a), (rule_b, sug_b)) in suggestions.iter().zip(suggestions.iter().skip(1))
-        {
-            if sug_a.syntax_range.ordering(sug_b.syntax_range).is_eq() {
+        for (i, (rule_a, sug_a)) in suggestions.iter().enumerate() {
+            // all following suggestions which start before this one ends
+            let overlapping = suggestions
+                .iter()
+                .skip(i + 1)
+                .take_while(|(_, sug_b)| sug_b.syntax_range.start() < sug_a.syntax_range.end());
+            for (rule_b, _) in overlapping {
                 if rule_a == rule_b {
                     return Err(FileProcessingError::OverlappingSuggestionInSingleRule {
                         rule_name: (*rule_a).to_string(),
                     });
                 }
 
-                overlapping_rules.insert(*rule_b);
+                if !overlapping_rules.contains(rule_a) {
+                    overlapping_rules.insert(*rule_b);
+                }
             }
         }
         let suggestions = suggestions
-- 
2.43.0

