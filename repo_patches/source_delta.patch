From 784e052d5ccf3c5a6ad55617389368284288bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 1/9] fix: measure consumed input in bytes where the text is
 sliced or its end tested

Possition.n counts chars; it was compared with the byte length of the text and
used to slice it, so inputs with multi byte chars were rejected or panicked.
---
 src/lib.rs        | 2 +-
 src/parser/mod.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 484d1f3..a6d42a7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -510,7 +510,7 @@ fn parse_with_debug(
     } else {
         parser::expression::parse(parser::Status::init(s, &rules))?
     };
-    match (st.pos.n == s.len(), st.potential_error.clone()) {
+    match (st.it_parsing.as_str().is_empty(), st.potential_error.clone()) {
         (true, _) => Ok(ast),
         (false, Some(e)) => Err(e),
         (false, None) => Err(parser::Error::from_status_normal(
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 85c773b..19a9dc5 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -160,10 +160,13 @@ mod test;
 //-----------------------------------------------------------------------
 impl Error {
     pub(crate) fn from_status(status: &Status, descr: &str, prior: ErrPriority) -> Self {
+        //  pos counts chars, the text has to be sliced by bytes
+        let pending = status.it_parsing.as_str();
+        let parsed = &status.text2parse[..status.text2parse.len() - pending.len()];
         Error {
             pos: status.pos.clone(),
             descr: descr.to_owned(),
-            line_before: status.text2parse[status.pos.start_line..status.pos.n].to_string(),
+            line_before: parsed.rsplit('\n').next().unwrap_or("").to_string(),
             line_after: status
                 .it_parsing
                 .clone()
-- 
2.43.0


From 59058f440c568f8d1ac02f3921fd972a5325044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 2/9] fix: a repetition with max 0 does not try its expression

---
 src/parser/expression/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 00ab4d9..3eda9e7 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -295,33 +295,33 @@ fn parse_not<'a>(status: Status<'a>, expression: &'a Expression) -> ResultExpr<'
 //-----------------------------------------------------------------------
 fn parse_repeat<'a>(status: Status<'a>, rep_info: &'a RepInfo) -> ResultExpr<'a> {
     let big_min_bound = |counter| counter >= rep_info.min.0;
-    let touch_max_bound = |counter: usize| match rep_info.max {
-        Some(ref m) => counter + 1 == m.0,
+    let reached_max_bound = |counter: usize| match rep_info.max {
+        Some(ref m) => counter >= m.0,
         None => false,
     };
 
     let init_tc: (_, _, Vec<ast::Node>) = (status, 0, vec![]);
     Ok(tail_call(init_tc, |acc| {
+        if reached_max_bound(acc.1) {
+            return TailCall::Return(Ok((acc.0, acc.2)));
+        }
         let try_parse = parse_expr(acc.0.clone(), &rep_info.expression);
-        match (try_parse, big_min_bound(acc.1), touch_max_bound(acc.1)) {
-            (Err(e), true, _) => {
+        match (try_parse, big_min_bound(acc.1)) {
+            (Err(e), true) => {
                 if e.priority == ErrPriority::Critical {
                     TailCall::Return(Err(e))
                 } else {
                     TailCall::Return(Ok((acc.0.set_potential_error(e), acc.2)))
                 }
             }
-            (Err(e), false, _) => TailCall::Return(Err(e)),
+            (Err(e), false) => TailCall::Return(Err(e)),
             //     Err(Error::from_status(
             //     &acc.0,
             //     &format!("inside repeat {:#?}", e),
             // ))),
-            (Ok((status, vnodes)), _, false) => {
+            (Ok((status, vnodes)), _) => {
                 TailCall::Call((status, acc.1 + 1, acc.2.iappend(vnodes)))
             }
-            (Ok((status, vnodes)), _, true) => {
-                TailCall::Return(Ok((status, acc.2.iappend(vnodes))))
-            }
         }
     })?)
 }
-- 
2.43.0


From 40a2bbbb99490bc86308687a98bb603cd0321ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 3/9] fix: an unbounded repetition ends when its expression
 matches without consuming

---
 src/parser/expression/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 3eda9e7..9172358 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -320,6 +320,13 @@ fn parse_repeat<'a>(status: Status<'a>, rep_info: &'a RepInfo) -> ResultExpr<'a>
             //     &format!("inside repeat {:#?}", e),
             // ))),
             (Ok((status, vnodes)), _) => {
+                //  without max bound, repeating an empty match would never end
+                if rep_info.max.is_none()
+                    && status.pos.n == acc.0.pos.n
+                    && big_min_bound(acc.1 + 1)
+                {
+                    return TailCall::Return(Ok((status, acc.2.iappend(vnodes))));
+                }
                 TailCall::Call((status, acc.1 + 1, acc.2.iappend(vnodes)))
             }
         }
-- 
2.43.0


From 7b1929434fe22a27f6f57401a6ddbdc936c26156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 4/9] fix: a critical error inside a not is propagated

---
 src/parser/expression/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 9172358..9107722 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -288,6 +288,7 @@ fn parse_or<'a>(status: &Status<'a>, multi_expr: &'a MultiExpr) -> ResultExpr<'a
 fn parse_not<'a>(status: Status<'a>, expression: &'a Expression) -> ResultExpr<'a> {
     match parse_expr(status.clone(), expression) {
         Ok(_) => Err(Error::from_status_normal(&status, "not")),
+        Err(e) if e.priority == ErrPriority::Critical => Err(e),
         Err(_) => Ok((status, vec![])),
     }
 }
-- 
2.43.0


From 82f5c1bc1e982e6b3b827e1ca8c0f839f8cb0612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 5/9] fix: single quoted literals keep their backslashes as
 written

The backslash is escaped where rust code is generated, not in the literal.
---
 src/peg/gcode.rs | 3 ++-
 src/peg/mod.rs   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index 3c5eb83..38189ff 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -84,7 +84,8 @@ fn mexpr2code(mexpr: &expression::MultiExpr) -> String {
 
 fn atom2code(atom: &Atom) -> String {
     let replace_esc = |s: String| {
-        s.replace("\n", r#"\n"#)
+        s.replace(r#"\"#, r#"\\"#)
+            .replace("\n", r#"\n"#)
             .replace("\r", r#"\r"#)
             .replace("\t", r#"\t"#)
             .replace(r#"""#, r#"\""#)
diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 7089a61..116a2ba 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -790,7 +790,7 @@ fn consume_literal_no_esc(
         let (nodes, context) = consume_single_quote(nodes, context)?;
         let (val, nodes) = flat::consume_val(nodes)?;
 
-        let val = val.replace(r#"\"#, r#"\\"#);
+        let val = val.to_string();
         let vclone = val.clone();
         push_err!(&format!("l:({})", vclone), {
             let (nodes, context) = consume_single_quote(nodes, context)?;
-- 
2.43.0


From 790cd193a861095dc477ba7a2eaba91304dd361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 6/9] fix: accept the empty single quoted literal the grammar
 accepts

---
 src/peg/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 116a2ba..de4c38e 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -788,7 +788,10 @@ fn consume_literal_no_esc(
 
     consuming_rule("lit_noesc", nodes, context, |nodes, context| {
         let (nodes, context) = consume_single_quote(nodes, context)?;
-        let (val, nodes) = flat::consume_val(nodes)?;
+        let (val, nodes) = match flat::peek_first_node(nodes)? {
+            flat::Node::Val(_) => flat::consume_val(nodes)?,
+            _ => ("", nodes), //  empty literal
+        };
 
         let val = val.to_string();
         let vclone = val.clone();
-- 
2.43.0


From bf9418337117fd2a0a950d42e033ea5f1ad22559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 7/9] fix: the EOF atom produces the EOF node

---
 src/parser/atom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/atom/mod.rs b/src/parser/atom/mod.rs
index cca195d..215fa67 100644
--- a/src/parser/atom/mod.rs
+++ b/src/parser/atom/mod.rs
@@ -155,7 +155,7 @@ fn parse_match<'a>(status: Status<'a>, match_rules: &MatchRules) -> Result<'a> {
 fn parse_eof(status: Status) -> Result {
     match status.get_char() {
         Ok((st, _ch)) => Err(Error::from_status_normal(&st, "expected EOF")),
-        Err(st) => ok!(st, "EOF"),
+        Err(st) => Ok((st, ast::Node::EOF)),
     }
 }
 
-- 
2.43.0


From b73751c2527dfa0c96121f50c8516fa5ff0d7f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 8/9] fix: an error inside a sequence can be followed by more
 expressions

The grammar accepts several and nodes in a row, only the first was consumed.
---
 src/peg/mod.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index de4c38e..fbfcfc4 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -505,15 +505,25 @@ fn consume_and(
             } else {
                 let (expr, nodes, context) = consume_rep_or_neg(nodes, context)?;
                 let eov = eov.ipush(expr);
-                let next_node = flat::peek_first_node(nodes)?;
-
-                match (next_node, flat::get_nodename(next_node)) {
-                    (flat::Node::BeginRule(_), Ok("and")) => rec_consume_and(eov, nodes, context),
-                    _ => Ok((eov, nodes, context)),
-                }
+                rec_consume_next_ands(eov, nodes, context)
             }
         })
     }
+    fn rec_consume_next_ands(
+        eov: ExprOrVecExpr,
+        nodes: &[flat::Node],
+        context: Context,
+    ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
+        let next_node = flat::peek_first_node(nodes)?;
+
+        match (next_node, flat::get_nodename(next_node)) {
+            (flat::Node::BeginRule(_), Ok("and")) => {
+                let (eov, nodes, context) = rec_consume_and(eov, nodes, context)?;
+                rec_consume_next_ands(eov, nodes, context)
+            }
+            _ => Ok((eov, nodes, context)),
+        }
+    }
 
     let build_and_expr = |vexpr| Expression::And(expression::MultiExpr(vexpr));
     //  --------------------------
-- 
2.43.0


From 376a121b140d99a77ffaab6c6c534dc1a3f55735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 9/9] fix: the generated rust code builds and rebuilds the same
 rules

Texts and chars are written as escaped rust literals, a match without ranges
uses an existing macro form, and the eof macro exists.
---
 src/lib.rs       | 10 ++++++++++
 src/peg/gcode.rs | 30 ++++++------------------------
 2 files changed, 16 insertions(+), 24 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a6d42a7..cc3f09a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -237,6 +237,16 @@ macro_rules! dot {
     }};
 }
 
+/// This is a minor expression. It will generate an ```Atom::EOF```
+///
+/// It is valid only when there is no more input to consume
+#[macro_export]
+macro_rules! eof {
+    () => {{
+        $crate::parser::expression::Expression::Simple($crate::parser::atom::Atom::EOF)
+    }};
+}
+
 /// Generate a match expression with optional characters and a list
 /// of bounds
 ///
diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index 38189ff..5af9351 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -58,7 +58,7 @@ pub fn rust_from_rules(rules: &expression::SetOfRules) -> String {
 }
 
 fn rule2code(name: &str, expr: &Expression) -> String {
-    format!(r##"r#"{}"# => {}"##, name, expr2code(expr))
+    format!("{:?} => {}", name, expr2code(expr))
 }
 
 fn expr2code(expr: &Expression) -> String {
@@ -68,7 +68,7 @@ fn expr2code(expr: &Expression) -> String {
         Expression::Or(mexpr) => format!("or!({})", mexpr2code(mexpr)),
         Expression::Not(e) => format!("not!({})", expr2code(e)),
         Expression::Repeat(rep) => repeat2code(rep),
-        Expression::RuleName(rname) => format!(r##"ref_rule!(r#"{}"#)"##, rname),
+        Expression::RuleName(rname) => format!("ref_rule!({:?})", rname),
     }
 }
 
@@ -83,17 +83,9 @@ fn mexpr2code(mexpr: &expression::MultiExpr) -> String {
 }
 
 fn atom2code(atom: &Atom) -> String {
-    let replace_esc = |s: String| {
-        s.replace(r#"\"#, r#"\\"#)
-            .replace("\n", r#"\n"#)
-            .replace("\r", r#"\r"#)
-            .replace("\t", r#"\t"#)
-            .replace(r#"""#, r#"\""#)
-    };
-
     match atom {
-        Atom::Literal(s) => format!(r#"lit!("{}")"#, replace_esc(s.to_string())),
-        Atom::Error(s) => format!(r#"error!("{}")"#, replace_esc(s.to_string())),
+        Atom::Literal(s) => format!("lit!({:?})", s),
+        Atom::Error(s) => format!("error!({:?})", s),
         Atom::Match(mrules) => match_rules2code(mrules),
         Atom::Dot => "dot!()".to_string(),
         Atom::EOF => "eof!()".to_string(),
@@ -101,19 +93,9 @@ fn atom2code(atom: &Atom) -> String {
 }
 
 fn match_rules2code(mrules: &atom::MatchRules) -> String {
-    fn bounds2code(acc: String, bounds: &[(char, char)]) -> String {
-        match bounds.split_first() {
-            Some(((f, t), rest)) => {
-                format!(", from '{}', to '{}' {}", f, t, bounds2code(acc, rest))
-            }
-            None => acc,
-        }
-    }
-
     format!(
-        r##"ematch!(chlist r#"{}"#  {})"##,
-        &mrules.0,
-        bounds2code(String::new(), &mrules.1)
+        "ematch!(chlist {:?}, from2 vec!{:?})",
+        &mrules.0, &mrules.1
     )
 }
 
-- 
2.43.0

