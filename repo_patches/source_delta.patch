From 7d0609d1f68d8bec49199e6ee41abd16029f1d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 1/2] fix: detect left recursion through the separator of a
 repetition with a nullable item

---
 peg-macros/analysis.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 0e2409a..5380849 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -138,8 +138,16 @@ impl<'a> LeftRecursionVisitor<'a> {
                 true
             }
 
-            Repeat { ref inner, ref bound, .. } => {
+            Repeat { ref inner, ref bound, ref sep } => {
                 let inner_nullable = self.walk_expr(inner);
+
+                // The separator follows an item that may not have consumed input
+                if inner_nullable {
+                    if let Some(sep) = sep {
+                        self.walk_expr(sep);
+                    }
+                }
+
                 inner_nullable | !bound.has_lower_bound()
             }
 
-- 
2.43.0


From d3cf066001e04a82d657933a91c9c3507829453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 2/2] fix: detect nullable loops inside expressions passed as
 rule arguments

---
 peg-macros/analysis.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 5380849..dc85476 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -229,7 +229,13 @@ impl<'a> LoopNullabilityVisitor<'a> {
     fn walk_expr(&mut self, this_expr: &SpannedExpr) -> bool {
         use self::Expr::*;
         match this_expr.expr {
-            RuleExpr(ref rule_ident, _, _) => {
+            RuleExpr(ref rule_ident, _, ref rule_args) => {
+                for arg in rule_args {
+                    if let RuleArg::Peg(expr) = arg {
+                        self.walk_expr(expr);
+                    }
+                }
+
                 let name = rule_ident.to_string();
                 *self.rule_nullability.get(&name).unwrap_or(&false)
             }
-- 
2.43.0

