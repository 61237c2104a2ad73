From 9ab722b433709ce28c18376e0224f1a8c226e98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 01/53] fix: keep the modifiers and dimensions of an enhanced
 for variable

---
 src/data_model.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 67bb626..3e063a3 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1555,10 +1555,10 @@ impl<'a> DocBuild<'a> for ForStatement {
 
 #[derive(Debug)]
 pub struct EnhancedForStatement {
-    //pub modifiers: Option<Modifiers>,
+    pub modifiers: Option<Modifiers>,
     pub type_: UnannotatedType,
     pub name: ValueNode,
-    //pub dimension
+    pub dimensions: Option<Dimensions>,
     pub value: Expression,
     pub body: Statement,
     pub node_context: NodeContext,
@@ -1568,12 +1568,11 @@ impl EnhancedForStatement {
     pub fn new(node: Node) -> Self {
         assert_check(node, "enhanced_for_statement");
 
-        //let modifiers = node.try_c_by_k("modifiers").map(|n| Modifiers::new(n));
-
         Self {
-            //modifiers,
+            modifiers: node.try_c_by_k("modifiers").map(Modifiers::new),
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
+            dimensions: node.try_c_by_n("dimensions").map(Dimensions::new),
             value: Expression::new(node.c_by_n("value")),
             body: Statement::new(node.c_by_n("body")),
             node_context: NodeContext::with_punctuation(&node),
@@ -1585,9 +1584,15 @@ impl<'a> DocBuild<'a> for EnhancedForStatement {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt("for ("));
+            if let Some(ref n) = self.modifiers {
+                result.push(n.build(b));
+            }
             result.push(self.type_.build(b));
             result.push(b.txt(" "));
             result.push(self.name.build(b));
+            if let Some(ref n) = self.dimensions {
+                result.push(n.build(b));
+            }
             result.push(b._txt_(":"));
             result.push(self.value.build(b));
             result.push(b.txt(")"));
-- 
2.43.0


From 076a24d4940080dc74cc7c977b055198c59e4706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 02/53] fix: keep the dimensions of a variable declarator

---
 src/data_model.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 3e063a3..60451bb 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1199,7 +1199,7 @@ impl<'a> DocBuild<'a> for LocalVariableDeclaration {
 #[derive(Debug)]
 pub struct VariableDeclarator {
     pub name: ValueNode,
-    //pub dimenssions
+    pub dimensions: Option<Dimensions>,
     pub op: Option<ValueNode>,
     pub value: Option<VariableInitializer>,
     pub is_value_child_a_query_node: bool,
@@ -1219,6 +1219,7 @@ impl VariableDeclarator {
 
         Self {
             name: ValueNode::new(node.c_by_n("name")),
+            dimensions: node.try_c_by_n("dimensions").map(Dimensions::new),
             op,
             value,
             is_value_child_a_query_node,
@@ -1232,6 +1233,9 @@ impl<'a> DocBuild<'a> for VariableDeclarator {
         // TODO: handle dotted expression use-case
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             let mut docs = vec![self.name.build(b)];
+            if let Some(ref n) = self.dimensions {
+                docs.push(n.build(b));
+            }
 
             if self.value.is_none() {
                 result.push(b.concat(docs));
-- 
2.43.0


From fce992fe5d8e719fc3b338198e2fca964b652e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 03/53] fix: keep every pair of brackets of multi-dimensional
 types

---
 src/data_model.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 60451bb..bc5cacb 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2695,6 +2695,7 @@ impl<'a> DocBuild<'a> for ArrayCreationVariant {
 
 #[derive(Debug)]
 pub struct Dimensions {
+    pub count: usize,
     pub node_context: NodeContext,
 }
 
@@ -2703,6 +2704,10 @@ impl Dimensions {
         assert_check(node, "dimensions");
 
         Self {
+            count: node
+                .children(&mut node.walk())
+                .filter(|n| n.kind() == "[")
+                .count(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2711,7 +2716,7 @@ impl Dimensions {
 impl<'a> DocBuild<'a> for Dimensions {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(b.txt("[]"));
+            result.push(b.txt("[]".repeat(self.count)));
         });
     }
 }
-- 
2.43.0


From 6b75ee54ba8d2abb90a214fae68fde6a511a2c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 04/53] fix: keep every update expression of a for statement

---
 src/data_model.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index bc5cacb..cfd95aa 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1466,7 +1466,7 @@ impl<'a> DocBuild<'a> for ForInitOption {
 pub struct ForStatement {
     pub init: Option<ForInitOption>,
     pub condition: Option<Expression>,
-    pub update: Option<Expression>,
+    pub updates: Vec<Expression>,
     pub body: Statement,
     pub semicolons: Vec<Punctuation>,
     pub node_context: NodeContext,
@@ -1482,7 +1482,11 @@ impl ForStatement {
 
         let init = node.try_c_by_n("init").map(|n| ForInitOption::new(n));
         let condition = node.try_c_by_n("condition").map(|n| Expression::new(n));
-        let update = node.try_c_by_n("update").map(|n| Expression::new(n));
+        let updates = node
+            .children_by_field_name("update", &mut node.walk())
+            .filter(|n| n.is_named())
+            .map(Expression::new)
+            .collect();
 
         let semicolons = Self::build_semi_colons(&node);
 
@@ -1500,7 +1504,7 @@ impl ForStatement {
         Self {
             init,
             condition,
-            update,
+            updates,
             body: Statement::new(node.c_by_n("body")),
             semicolons,
             node_context: NodeContext::with_punctuation(&node),
@@ -1533,9 +1537,12 @@ impl<'a> DocBuild<'a> for ForStatement {
                 None => semicolons_iter.next().unwrap().build(b),
             };
 
-            let update = match &self.update {
-                Some(u) => b.concat(vec![b.txt(" "), u.build(b)]),
-                None => b.nil(),
+            let update = if self.updates.is_empty() {
+                b.nil()
+            } else {
+                let docs = b.to_docs(&self.updates);
+                let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
+                b.concat(vec![b.txt(" "), b.group(b.intersperse(&docs, sep))])
             };
 
             let docs = vec![init, condition, update];
-- 
2.43.0


From 207964d7f16815e00066806d52481496c09696d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 05/53] fix: keep the bounds of a type parameter

---
 src/data_model.rs | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index cfd95aa..9aaae0b 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1964,6 +1964,7 @@ impl<'a> DocBuild<'a> for TypeParameters {
 pub struct TypeParameter {
     annotations: Vec<Annotation>,
     pub type_identifier: String,
+    pub type_bound: Option<TypeBound>,
     pub node_context: NodeContext,
 }
 
@@ -1978,6 +1979,7 @@ impl TypeParameter {
         Self {
             annotations,
             type_identifier: node.cvalue_by_k("type_identifier"),
+            type_bound: node.try_c_by_k("type_bound").map(TypeBound::new),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -1993,6 +1995,43 @@ impl<'a> DocBuild<'a> for TypeParameter {
                 result.push(b.txt(" "));
             }
             result.push(b.txt(&self.type_identifier));
+            if let Some(ref n) = self.type_bound {
+                result.push(b.txt(" "));
+                result.push(n.build(b));
+            }
+        });
+    }
+}
+
+#[derive(Debug)]
+pub struct TypeBound {
+    pub types: Vec<Type>,
+    pub node_context: NodeContext,
+}
+
+impl TypeBound {
+    pub fn new(node: Node) -> Self {
+        assert_check(node, "type_bound");
+
+        Self {
+            types: node
+                .children_vec()
+                .into_iter()
+                .filter(|n| n.kind() != "extends")
+                .map(Type::new)
+                .collect(),
+            node_context: NodeContext::with_punctuation(&node),
+        }
+    }
+}
+
+impl<'a> DocBuild<'a> for TypeBound {
+    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        build_with_comments(b, &self.node_context, result, |b, result| {
+            result.push(b.txt_("extends"));
+            let docs = b.to_docs(&self.types);
+            let sep = Insertable::new(None, Some(" & "), None);
+            result.push(b.intersperse(&docs, sep));
         });
     }
 }
-- 
2.43.0


From a96dd2e1c912b413f42493918c50b6f5c61e9ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 06/53] fix: keep the type parameters and dimensions of a
 method

---
 src/data_model.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 9aaae0b..da080ed 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -134,11 +134,13 @@ impl<'a> DocBuild<'a> for ClassDeclaration {
 #[derive(Debug)]
 pub struct MethodDeclaration {
     pub modifiers: Option<Modifiers>,
+    pub type_parameters: Option<TypeParameters>,
+    pub annotations: Vec<Annotation>,
     pub type_: UnannotatedType,
     pub name: ValueNode,
     pub formal_parameters: FormalParameters,
+    pub dimensions: Option<Dimensions>,
     pub body: Option<Block>,
-    //pub dimensions
     pub node_context: NodeContext,
 }
 
@@ -148,9 +150,16 @@ impl MethodDeclaration {
 
         Self {
             modifiers: node.try_c_by_k("modifiers").map(|n| Modifiers::new(n)),
+            type_parameters: node.try_c_by_n("type_parameters").map(TypeParameters::new),
+            annotations: node
+                .try_cs_by_k("annotation")
+                .into_iter()
+                .map(Annotation::new)
+                .collect(),
             type_: UnannotatedType::new(node.c_by_n("type")),
             name: ValueNode::new(node.c_by_n("name")),
             formal_parameters: FormalParameters::new(node.c_by_n("parameters")),
+            dimensions: node.try_c_by_n("dimensions").map(Dimensions::new),
             body: node.try_c_by_n("body").map(|n| Block::new(n)),
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -164,10 +173,19 @@ impl<'a> DocBuild<'a> for MethodDeclaration {
                 result.push(n.build(b));
             }
 
+            if let Some(ref n) = self.type_parameters {
+                result.push(n.build(b));
+                result.push(b.txt(" "));
+            }
+            result.extend(self.annotations.iter().map(|n| n.build(b)));
+
             result.push(self.type_.build(b));
             result.push(b.txt(" "));
             result.push(self.name.build(b));
             result.push(self.formal_parameters.build(b));
+            if let Some(ref n) = self.dimensions {
+                result.push(n.build(b));
+            }
 
             if let Some(ref n) = self.body {
                 result.push(b.txt(" "));
-- 
2.43.0


From 61a3dd94ae56edf0b1a7cd632b7a1e5089e83860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 07/53] fix: keep the dot of a qualified constructor invocation

---
 src/data_model.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index da080ed..e89ec93 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1911,6 +1911,7 @@ impl<'a> DocBuild<'a> for ConstructInvocation {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             if let Some(ref o) = self.object {
                 result.push(o.build(b));
+                result.push(b.txt("."));
             }
 
             if let Some(ref t) = self.type_arguments {
-- 
2.43.0


From ce89acf8c3ba5a9c6495c8a78e120c296db0ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 08/53] fix: keep repeated signs apart

---
 src/data_model.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index e89ec93..2d97bc5 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -2202,6 +2202,7 @@ impl<'a> DocBuild<'a> for WhileStatement {
 #[derive(Debug)]
 pub struct UnaryExpression {
     pub operator: String,
+    pub is_sign_repeated: bool,
     pub operand: Box<Expression>,
     pub node_context: NodeContext,
 }
@@ -2211,9 +2212,15 @@ impl UnaryExpression {
         assert_check(node, "unary_expression");
 
         let operator = node.cvalue_by_n("operator");
+        let operand = node.c_by_n("operand");
+        // `- -a` and `+ ++a` must not turn into `--a` and `+++a`
+        let is_sign_repeated =
+            matches!(operator.as_str(), "+" | "-") && operand.value().starts_with(&operator);
+
         Self {
             operator,
-            operand: Box::new(Expression::new(node.c_by_n("operand"))),
+            is_sign_repeated,
+            operand: Box::new(Expression::new(operand)),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -2223,6 +2230,9 @@ impl<'a> DocBuild<'a> for UnaryExpression {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt(&self.operator));
+            if self.is_sign_repeated {
+                result.push(b.txt(" "));
+            }
             result.push(self.operand.build(b));
         });
     }
-- 
2.43.0


From 17f0339c3ab3f0c5f84f860c67083c65198de2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 09/53] fix: keep every object of a FROM clause

---
 src/data_model.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 2d97bc5..de43735 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4370,7 +4370,7 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
 
 #[derive(Debug)]
 pub struct FromClause {
-    pub content: StorageVariant,
+    pub contents: Vec<StorageVariant>,
     pub node_context: NodeContext,
 }
 
@@ -4379,7 +4379,11 @@ impl FromClause {
         assert_check(node, "from_clause");
 
         Self {
-            content: StorageVariant::new(node.first_c()),
+            contents: node
+                .children_vec()
+                .into_iter()
+                .map(StorageVariant::new)
+                .collect(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -4389,7 +4393,9 @@ impl<'a> DocBuild<'a> for FromClause {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt_("FROM"));
-            result.push(self.content.build(b));
+            let docs = b.to_docs(&self.contents);
+            let sep = Insertable::new(None, Some(" "), None);
+            result.push(b.intersperse(&docs, sep));
         });
     }
 }
-- 
2.43.0


From a5db0b78139d8c73f9c2034d7da7424046183a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 10/53] fix: keep every type of a FOR clause

---
 src/data_model.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index de43735..8d643a3 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -6067,7 +6067,7 @@ impl<'a> DocBuild<'a> for SoqlWithType {
 
 #[derive(Debug)]
 pub struct ForClause {
-    pub for_type: ValueNode,
+    pub for_types: Vec<ValueNode>,
     pub node_context: NodeContext,
 }
 
@@ -6076,7 +6076,11 @@ impl ForClause {
         assert_check(node, "for_clause");
 
         Self {
-            for_type: ValueNode::new(node.c_by_k("for_type")),
+            for_types: node
+                .cs_by_k("for_type")
+                .into_iter()
+                .map(ValueNode::new)
+                .collect(),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -6085,7 +6089,9 @@ impl ForClause {
 impl<'a> DocBuild<'a> for ForClause {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(self.for_type.build(b));
+            let docs = b.to_docs(&self.for_types);
+            let sep = Insertable::new(None, Some(" "), None);
+            result.push(b.intersperse(&docs, sep));
         });
     }
 }
-- 
2.43.0


From 784d7a55486d3bf99ded1c685aa72d7ab43e803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 11/53] fix: keep ALL ROWS after the FOR clause

---
 src/data_model.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 8d643a3..330cfda 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4348,9 +4348,6 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
             if let Some(ref n) = self.offset_clause {
                 docs.push(n.build(b));
             }
-            if let Some(ref n) = self.all_rows_clause {
-                docs.push(n.build(b));
-            }
             if !self.for_clause.is_empty() {
                 let for_types: Vec<DocRef<'_>> =
                     self.for_clause.iter().map(|n| n.build(b)).collect();
@@ -4360,6 +4357,9 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
                 let for_clause_doc = b.concat(vec![b.txt_("FOR"), for_types_doc]);
                 docs.push(for_clause_doc);
             }
+            if let Some(ref n) = self.all_rows_clause {
+                docs.push(n.build(b));
+            }
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
             let doc = b.intersperse(&docs, sep);
-- 
2.43.0


From 1d9b6aa7ba31e9bed900138784167f9bf566e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 12/53] fix: keep the USING clause of a query

---
 src/data_model.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 330cfda..fab41fe 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4267,7 +4267,7 @@ impl<'a> DocBuild<'a> for SObjectReturnQuery {
 pub struct SoqlQueryBody {
     pub select_clause: SelectClause,
     pub from_clause: FromClause,
-    //using_clause;
+    pub using_clause: Option<UsingClause>,
     pub where_clause: Option<WhereClause>,
     pub with_clause: Option<SoqlWithClause>,
     pub group_by_clause: Option<GroupByClause>,
@@ -4284,6 +4284,7 @@ impl SoqlQueryBody {
     pub fn new(node: Node) -> Self {
         assert_check(node, "soql_query_body");
 
+        let using_clause = node.try_c_by_n("using_clause").map(UsingClause::new);
         let where_clause = node.try_c_by_n("where_clause").map(|n| WhereClause::new(n));
         let with_clause = node
             .try_c_by_n("with_clause")
@@ -4310,6 +4311,7 @@ impl SoqlQueryBody {
         Self {
             select_clause: SelectClause::new(node.c_by_n("select_clause")),
             from_clause: FromClause::new(node.c_by_n("from_clause")),
+            using_clause,
             where_clause,
             with_clause,
             group_by_clause,
@@ -4330,6 +4332,9 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
             docs.push(self.select_clause.build(b));
             docs.push(self.from_clause.build(b));
 
+            if let Some(ref n) = self.using_clause {
+                docs.push(n.build(b));
+            }
             if let Some(ref n) = self.where_clause {
                 docs.push(n.build(b));
             }
-- 
2.43.0


From ed360e8831335ad035d52563617f2e6b4cb89870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 13/53] fix: keep the UPDATE clause of a query

---
 src/data_model.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index fab41fe..3cfff4a 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -4275,7 +4275,7 @@ pub struct SoqlQueryBody {
     pub limit_clause: Option<LimitClause>,
     pub offset_clause: Option<OffsetClause>,
     pub for_clause: Vec<ForClause>,
-    //update_c;
+    pub update_clause: Option<UpdateClause>,
     pub all_rows_clause: Option<AllRowsClause>,
     pub node_context: NodeContext,
 }
@@ -4302,6 +4302,7 @@ impl SoqlQueryBody {
         let all_rows_clause = node
             .try_c_by_n("all_rows_clause")
             .map(|n| AllRowsClause::new(n));
+        let update_clause = node.try_c_by_n("update_clause").map(UpdateClause::new);
         let for_clause = node
             .try_cs_by_k("for_clause")
             .into_iter()
@@ -4319,6 +4320,7 @@ impl SoqlQueryBody {
             limit_clause,
             offset_clause,
             for_clause,
+            update_clause,
             all_rows_clause,
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -4362,6 +4364,9 @@ impl<'a> DocBuild<'a> for SoqlQueryBody {
                 let for_clause_doc = b.concat(vec![b.txt_("FOR"), for_types_doc]);
                 docs.push(for_clause_doc);
             }
+            if let Some(ref n) = self.update_clause {
+                docs.push(n.build(b));
+            }
             if let Some(ref n) = self.all_rows_clause {
                 docs.push(n.build(b));
             }
-- 
2.43.0


From a26dca268b147d6469981f6653ad2db38986c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 14/53] fix: keep the OFFSET clause of a search

---
 src/data_model.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 3cfff4a..4ae9b43 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3995,7 +3995,7 @@ pub struct SoslQueryBody {
     pub with_clauses: Vec<SoslWithClause>,
     pub using_clause: Option<SoslUsingClause>,
     pub limit_clause: Option<LimitClause>,
-    //pub offset_clause: Option<OffsetClause>,
+    pub offset_clause: Option<OffsetClause>,
     pub update_clause: Option<UpdateClause>,
     pub node_context: NodeContext,
 }
@@ -4018,6 +4018,7 @@ impl SoslQueryBody {
             .try_c_by_k("sosl_using_clause")
             .map(|n| SoslUsingClause::new(n));
         let limit_clause = node.try_c_by_k("limit_clause").map(|n| LimitClause::new(n));
+        let offset_clause = node.try_c_by_k("offset_clause").map(OffsetClause::new);
         let update_clause = node
             .try_c_by_k("update_clause")
             .map(|n| UpdateClause::new(n));
@@ -4029,6 +4030,7 @@ impl SoslQueryBody {
             with_clauses,
             using_clause,
             limit_clause,
+            offset_clause,
             update_clause,
             node_context: NodeContext::with_punctuation(&node),
         }
@@ -4059,6 +4061,9 @@ impl<'a> DocBuild<'a> for SoslQueryBody {
             if let Some(ref n) = self.limit_clause {
                 docs.push(n.build(b));
             }
+            if let Some(ref n) = self.offset_clause {
+                docs.push(n.build(b));
+            }
             if let Some(ref n) = self.update_clause {
                 docs.push(n.build(b));
             }
-- 
2.43.0


From 0a3975c237e42081e86062da7c648637489706d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 15/53] fix: keep every RETURNING clause of a search and format
 USING LOOKUP

---
 src/data_model.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 4ae9b43..15dc000 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3991,7 +3991,7 @@ impl<'a> DocBuild<'a> for QueryBody {
 pub struct SoslQueryBody {
     pub find_clause: FindClause,
     pub in_clause: Option<InClause>,
-    pub returning_clause: Option<ReturningClause>,
+    pub returning_clauses: Vec<ReturningClause>,
     pub with_clauses: Vec<SoslWithClause>,
     pub using_clause: Option<SoslUsingClause>,
     pub limit_clause: Option<LimitClause>,
@@ -4006,9 +4006,11 @@ impl SoslQueryBody {
 
         let find_clause = FindClause::new(node.c_by_k("find_clause"));
         let in_clause = node.try_c_by_k("in_clause").map(|n| InClause::new(n));
-        let returning_clause = node
-            .try_c_by_k("returning_clause")
-            .map(|n| ReturningClause::new(n));
+        let returning_clauses = node
+            .try_cs_by_k("returning_clause")
+            .into_iter()
+            .map(|n| ReturningClause::new(n))
+            .collect();
         let with_clauses = node
             .try_cs_by_k("with_clause")
             .into_iter()
@@ -4026,7 +4028,7 @@ impl SoslQueryBody {
         Self {
             find_clause,
             in_clause,
-            returning_clause,
+            returning_clauses,
             with_clauses,
             using_clause,
             limit_clause,
@@ -4046,7 +4048,7 @@ impl<'a> DocBuild<'a> for SoslQueryBody {
             if let Some(ref n) = self.in_clause {
                 docs.push(n.build(b));
             }
-            if let Some(ref n) = self.returning_clause {
+            for n in &self.returning_clauses {
                 docs.push(n.build(b));
             }
             if !self.with_clauses.is_empty() {
@@ -4682,7 +4684,7 @@ impl UsingLookupClause {
     pub fn new(node: Node) -> Self {
         assert_check(node, "using_lookup_clause");
 
-        let lookup_field = DottedIdentifier::new(node.c_by_n("using_lookup_clause"));
+        let lookup_field = DottedIdentifier::new(node.c_by_n("lookup_field"));
         let bind_clause = node
             .try_c_by_k("using_lookup_bind_clause")
             .map(|n| UsingLookupBindClause::new(n));
@@ -4700,8 +4702,8 @@ impl<'a> DocBuild<'a> for UsingLookupClause {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             result.push(b.txt_("LOOKUP"));
             result.push(self.lookup_field.build(b));
-            result.push(b.txt(" "));
             if let Some(ref n) = self.bind_clause {
+                result.push(b.txt(" "));
                 result.push(n.build(b));
             }
         });
@@ -4783,7 +4785,7 @@ impl UsingLookupBindExpression {
         assert_check(node, "using_lookup_bind_expression");
 
         Self {
-            field: ValueNode::new(node.c_by_k("field")),
+            field: ValueNode::new(node.c_by_n("field")),
             bound_value: SoqlLiteral::new(node.c_by_n("bound_value")),
             node_context: NodeContext::with_punctuation(&node),
         }
-- 
2.43.0


From 6a2bb32aaa16ffa746f810f4c8c225ea8c7258d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 16/53] fix: keep the parentheses of a negated negation

---
 src/enum_def.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index 97e1106..aa6d0b3 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -1237,7 +1237,8 @@ impl ConditionExpression {
     fn should_parenthesize(parent_op: Option<&str>, child_op: Option<&str>) -> bool {
         // Parentheses are NOT needed if both parent and child operators are the same.
         // Otherwise, parentheses are needed to maintain correct logical grouping.
-        !matches!((parent_op, child_op), (Some(parent), Some(child)) if parent == child)
+        // NOT is no list: `NOT (NOT a = 1)` cannot be written without them.
+        !matches!((parent_op, child_op), (Some(parent), Some(child)) if parent == child && parent != "NOT")
     }
 }
 
-- 
2.43.0


From e6c631cf9b196872e3a72cbea26b5126f22daa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 17/53] fix: accept datetime and currency literals in queries

---
 src/enum_def.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index aa6d0b3..cf5eb74 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -1389,8 +1389,8 @@ pub enum SoqlLiteral {
     DWithParam(DateLiteralWithParam),
     NullLiteral(ValueNode),
     Date(ValueNode),
-    //CurrentLiteral(ValueNode),
-    //DateTime(ValueNode),
+    CurrencyLiteral(ValueNode),
+    DateTime(ValueNode),
 }
 
 impl SoqlLiteral {
@@ -1401,6 +1401,8 @@ impl SoqlLiteral {
             "string_literal" => Self::StringLiteral(ValueNode::new(node)),
             "boolean" => Self::Boolean(ValueNode::new(node)),
             "date" => Self::Date(ValueNode::new(node)),
+            "date_time" => Self::DateTime(ValueNode::new(node)),
+            "currency_literal" => Self::CurrencyLiteral(ValueNode::new(node)),
             "date_literal" => Self::DateLiteral(ValueNode::new(node)),
             "date_literal_with_param" => Self::DWithParam(DateLiteralWithParam::new(node)),
             "null_literal" => Self::NullLiteral(ValueNode::new(node)),
@@ -1424,6 +1426,12 @@ impl<'a> DocBuild<'a> for SoqlLiteral {
             Self::Date(n) => {
                 result.push(n.build(b));
             }
+            Self::DateTime(n) => {
+                result.push(n.build(b));
+            }
+            Self::CurrencyLiteral(n) => {
+                result.push(n.build(b));
+            }
             Self::Boolean(n) => {
                 result.push(n.build(b));
             }
-- 
2.43.0


From 1659ec6fca39a62035bb1e922f0ef89ca973c463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 18/53] fix: accept array initializers without new

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 15dc000..b9bd740 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1232,7 +1232,7 @@ impl VariableDeclarator {
         let op = node.try_c_by_k("assignment_operator").map(ValueNode::new);
         let value = node.try_c_by_n("value").map(|n| {
             is_value_child_a_query_node = is_query_expression(&n);
-            VariableInitializer::Exp(Expression::new(n))
+            VariableInitializer::new(n)
         });
 
         Self {
-- 
2.43.0


From 1766e443d77cc7043fc2659f3ad01c57d1b9e72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 19/53] fix: accept bound expressions as coordinates

---
 src/enum_def.rs | 53 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index cf5eb74..c3cbe48 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -1284,11 +1284,40 @@ pub enum GeoLocationTypeVariant {
     Bound(BoundApexExpression),
     Func {
         function_name: ValueNode,
-        decimal1: ValueNode,
-        decimal2: ValueNode,
+        latitude: GeoCoordinate,
+        longitude: GeoCoordinate,
     },
 }
 
+#[derive(Debug)]
+pub enum GeoCoordinate {
+    Decimal(ValueNode),
+    Bound(BoundApexExpression),
+}
+
+impl GeoCoordinate {
+    pub fn new(node: Node) -> Self {
+        match node.kind() {
+            "decimal" => Self::Decimal(ValueNode::new(node)),
+            "bound_apex_expression" => Self::Bound(BoundApexExpression::new(node)),
+            _ => panic_unknown_node(node, "GeoCoordinate"),
+        }
+    }
+}
+
+impl<'a> DocBuild<'a> for GeoCoordinate {
+    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        match self {
+            Self::Decimal(n) => {
+                result.push(n.build(b));
+            }
+            Self::Bound(n) => {
+                result.push(n.build(b));
+            }
+        }
+    }
+}
+
 impl GeoLocationTypeVariant {
     pub fn new(node: Node) -> Self {
         let child = node.first_c();
@@ -1296,18 +1325,18 @@ impl GeoLocationTypeVariant {
             "field_identifier" => Self::Field(FieldIdentifier::new(child)),
             "bound_apex_expression" => Self::Bound(BoundApexExpression::new(child)),
             "identifier" => {
-                let decimals = node.cs_by_k("decimal");
-                if decimals.len() != 2 {
+                let children = node.children_vec();
+                if children.len() != 3 {
                     panic!(
-                        "expect 2 decimal nodes, found {} in GeoLocationType",
-                        decimals.len()
+                        "expect 2 coordinate nodes, found {} in GeoLocationType",
+                        children.len() - 1
                     );
                 }
 
                 Self::Func {
                     function_name: ValueNode::new(child),
-                    decimal1: ValueNode::new(decimals[0]),
-                    decimal2: ValueNode::new(decimals[1]),
+                    latitude: GeoCoordinate::new(children[1]),
+                    longitude: GeoCoordinate::new(children[2]),
                 }
             }
 
@@ -1327,14 +1356,14 @@ impl<'a> DocBuild<'a> for GeoLocationTypeVariant {
             }
             Self::Func {
                 function_name,
-                decimal1,
-                decimal2,
+                latitude,
+                longitude,
             } => {
                 result.push(function_name.build(b));
                 result.push(b.txt("("));
-                result.push(decimal1.build(b));
+                result.push(latitude.build(b));
                 result.push(b.txt(" "));
-                result.push(decimal2.build(b));
+                result.push(longitude.build(b));
                 result.push(b.txt(")"));
             }
         }
-- 
2.43.0


From d5bd77985b49fdb4b534ee80730b0ee9dfff0fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 20/53] fix: accept record visibility and data categories in
 queries

---
 src/data_model.rs | 85 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 83 insertions(+), 2 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index b9bd740..c5de75d 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -5291,8 +5291,8 @@ impl<'a> DocBuild<'a> for SoqlWithClause {
 #[derive(Debug)]
 pub enum SoqlWithTypeVariant {
     SimpleType(ValueNode), // Security_Enforced, User_Mode, and System_Mode
-    //RecordVisibility(WithRecordVisibilityExpression),
-    //DataCategory(WithDataCatExpression),
+    RecordVisibility(WithRecordVisibilityExpression),
+    DataCategory(WithDataCatExpression),
     UserId(ValueNode),
 }
 
@@ -5303,6 +5303,12 @@ impl SoqlWithTypeVariant {
         } else {
             let child = node.first_c();
             match child.kind() {
+                "with_record_visibility_expression" => {
+                    Self::RecordVisibility(WithRecordVisibilityExpression::new(child))
+                }
+                "with_data_cat_expression" => {
+                    Self::DataCategory(WithDataCatExpression::new(child))
+                }
                 "with_user_id_type" => Self::UserId(ValueNode::new(child.c_by_k("string_literal"))),
                 _ => panic_unknown_node(node, "WithType"),
             }
@@ -5317,6 +5323,12 @@ impl<'a> DocBuild<'a> for SoqlWithTypeVariant {
             Self::SimpleType(n) => {
                 result.push(n.build(b));
             }
+            Self::RecordVisibility(n) => {
+                result.push(n.build(b));
+            }
+            Self::DataCategory(n) => {
+                result.push(n.build(b));
+            }
             Self::UserId(n) => {
                 result.push(b.txt_("UserId ="));
                 result.push(n.build(b));
@@ -5325,6 +5337,75 @@ impl<'a> DocBuild<'a> for SoqlWithTypeVariant {
     }
 }
 
+#[derive(Debug)]
+pub struct WithRecordVisibilityExpression {
+    params: Vec<WithRecordVisibilityParam>,
+    pub node_context: NodeContext,
+}
+
+impl WithRecordVisibilityExpression {
+    pub fn new(node: Node) -> Self {
+        assert_check(node, "with_record_visibility_expression");
+
+        Self {
+            params: node
+                .cs_by_k("with_record_visibility_param")
+                .into_iter()
+                .map(WithRecordVisibilityParam::new)
+                .collect(),
+            node_context: NodeContext::with_punctuation(&node),
+        }
+    }
+}
+
+impl<'a> DocBuild<'a> for WithRecordVisibilityExpression {
+    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+            result.push(b.txt("RecordVisibilityContext "));
+
+            let docs = b.to_docs(&self.params);
+            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
+            let open = Insertable::new(None, Some("("), Some(b.maybeline()));
+            let close = Insertable::new(Some(b.maybeline()), Some(")"), None);
+            result.push(b.group_surround(&docs, sep, open, close));
+        });
+    }
+}
+
+#[derive(Debug)]
+pub struct WithRecordVisibilityParam {
+    name: ValueNode,
+    value: ValueNode,
+    pub node_context: NodeContext,
+}
+
+impl WithRecordVisibilityParam {
+    pub fn new(node: Node) -> Self {
+        assert_check(node, "with_record_visibility_param");
+
+        let children = node.children_vec();
+        if children.len() != 2 {
+            panic!("expect a name and a value in WithRecordVisibilityParam");
+        }
+
+        Self {
+            name: ValueNode::new(children[0]),
+            value: ValueNode::new(children[1]),
+            node_context: NodeContext::with_punctuation(&node),
+        }
+    }
+}
+
+impl<'a> DocBuild<'a> for WithRecordVisibilityParam {
+    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+            result.push(self.name.build(b));
+            result.push(b.txt(" = "));
+            result.push(self.value.build(b));
+        });
+    }
+}
+
 #[derive(Debug)]
 pub enum SoslWithType {
     DataCat(WithDataCatExpression),
-- 
2.43.0


From d93ba7e1d4c9ac3acd107e0a8c4c41d59a34f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 21/53] fix: accept the parameter names of record visibility

---
 src/data_model.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index c5de75d..6b52260 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -5374,7 +5374,7 @@ impl<'a> DocBuild<'a> for WithRecordVisibilityExpression {
 
 #[derive(Debug)]
 pub struct WithRecordVisibilityParam {
-    name: ValueNode,
+    name: String,
     value: ValueNode,
     pub node_context: NodeContext,
 }
@@ -5383,14 +5383,13 @@ impl WithRecordVisibilityParam {
     pub fn new(node: Node) -> Self {
         assert_check(node, "with_record_visibility_param");
 
-        let children = node.children_vec();
-        if children.len() != 2 {
-            panic!("expect a name and a value in WithRecordVisibilityParam");
-        }
+        let name = node
+            .child(0)
+            .unwrap_or_else(|| panic!("name node is missing in WithRecordVisibilityParam"));
 
         Self {
-            name: ValueNode::new(children[0]),
-            value: ValueNode::new(children[1]),
+            name: name.value(),
+            value: ValueNode::new(node.first_c()),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
@@ -5399,7 +5398,7 @@ impl WithRecordVisibilityParam {
 impl<'a> DocBuild<'a> for WithRecordVisibilityParam {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
-            result.push(self.name.build(b));
+            result.push(b.txt(&self.name));
             result.push(b.txt(" = "));
             result.push(self.value.build(b));
         });
-- 
2.43.0


From a585f41fe04d8aee6ec9b0634c99b874c6f1dbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 22/53] fix: accept TYPEOF in queries

---
 src/data_model.rs | 163 ++++++++++++++++++++++++++++++++++++++++++++++
 src/enum_def.rs   |   6 +-
 2 files changed, 168 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 6b52260..3bee7dd 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -6011,6 +6011,169 @@ impl<'a> DocBuild<'a> for SelectClause {
     }
 }
 
+#[derive(Debug)]
+pub struct TypeOfClause {
+    pub field: FieldName,
+    pub when_exps: Vec<WhenFieldsExpression>,
+    pub else_exp: Option<ElseFieldsExpression>,
+    pub node_context: NodeContext,
+}
+
+impl TypeOfClause {
+    pub fn new(node: Node) -> Self {
+        assert_check(node, "type_of_clause");
+
+        Self {
+            field: FieldName::new(node.first_c()),
+            when_exps: node
+                .try_cs_by_k("when_expression")
+                .into_iter()
+                .map(WhenFieldsExpression::new)
+                .collect(),
+            else_exp: node
+                .try_c_by_k("else_expression")
+                .map(ElseFieldsExpression::new),
+            node_context: NodeContext::with_punctuation(&node),
+        }
+    }
+}
+
+impl<'a> DocBuild<'a> for TypeOfClause {
+    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+            let mut clauses = vec![];
+            for n in &self.when_exps {
+                clauses.push(b.softline());
+                clauses.push(n.build(b));
+            }
+            if let Some(ref n) = self.else_exp {
+                clauses.push(b.softline());
+                clauses.push(n.build(b));
+            }
+
+            result.push(b.group_concat(vec![
+                b.txt_("TYPEOF"),
+                self.field.build(b),
+                b.indent(b.concat(clauses)),
+                b.softline(),
+                b.txt("END"),
+            ]));
+        });
+    }
+}
+
+#[derive(Debug)]
+pub struct WhenFieldsExpression {
+    pub name: ValueNode,
+    pub fields: FieldList,
+    pub node_context: NodeContext,
+}
+
+impl WhenFieldsExpression {
+    pub fn new(node: Node) -> Self {
+        assert_check(node, "when_expression");
+
+        Self {
+            name: ValueNode::new(node.c_by_k("identifier")),
+            fields: FieldList::new(node.c_by_k("field_list")),
+            node_context: NodeContext::with_punctuation(&node),
+        }
+    }
+}
+
+impl<'a> DocBuild<'a> for WhenFieldsExpression {
+    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+            result.push(b.txt_("WHEN"));
+            result.push(self.name.build(b));
+            result.push(b._txt_("THEN"));
+            result.push(self.fields.build(b));
+        });
+    }
+}
+
+#[derive(Debug)]
+pub struct ElseFieldsExpression {
+    pub fields: FieldList,
+    pub node_context: NodeContext,
+}
+
+impl ElseFieldsExpression {
+    pub fn new(node: Node) -> Self {
+        assert_check(node, "else_expression");
+
+        Self {
+            fields: FieldList::new(node.c_by_k("field_list")),
+            node_context: NodeContext::with_punctuation(&node),
+        }
+    }
+}
+
+impl<'a> DocBuild<'a> for ElseFieldsExpression {
+    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+            result.push(b.txt_("ELSE"));
+            result.push(self.fields.build(b));
+        });
+    }
+}
+
+#[derive(Debug)]
+pub struct FieldList {
+    pub fields: Vec<FieldName>,
+    pub node_context: NodeContext,
+}
+
+impl FieldList {
+    pub fn new(node: Node) -> Self {
+        assert_check(node, "field_list");
+
+        Self {
+            fields: node.children_vec().into_iter().map(FieldName::new).collect(),
+            node_context: NodeContext::with_punctuation(&node),
+        }
+    }
+}
+
+impl<'a> DocBuild<'a> for FieldList {
+    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+            let docs = b.to_docs(&self.fields);
+            let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
+            result.push(b.group_indent_concat(vec![b.intersperse(&docs, sep)]));
+        });
+    }
+}
+
+#[derive(Debug)]
+pub enum FieldName {
+    Identifier(ValueNode),
+    Dotted(DottedIdentifier),
+}
+
+impl FieldName {
+    pub fn new(node: Node) -> Self {
+        match node.kind() {
+            "identifier" => Self::Identifier(ValueNode::new(node)),
+            "dotted_identifier" => Self::Dotted(DottedIdentifier::new(node)),
+            _ => panic_unknown_node(node, "FieldName"),
+        }
+    }
+}
+
+impl<'a> DocBuild<'a> for FieldName {
+    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        match self {
+            Self::Identifier(n) => {
+                result.push(n.build(b));
+            }
+            Self::Dotted(n) => {
+                result.push(n.build(b));
+            }
+        }
+    }
+}
+
 #[derive(Debug)]
 pub struct StorageIdentifier {
     pub variant: StorageIdentifierVariant,
diff --git a/src/enum_def.rs b/src/enum_def.rs
index c3cbe48..433d0d8 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -927,7 +927,7 @@ impl<'a> DocBuild<'a> for SelectClauseVariant {
 pub enum SelectableExpression {
     Value(ValueExpression),
     Alias(AliasExpression),
-    //Type(TypeOfClause),
+    Type(TypeOfClause),
     Fields(FieldsExpression),
     Sub(SubQuery),
 }
@@ -942,6 +942,7 @@ impl SelectableExpression {
             "alias_expression" => Self::Alias(AliasExpression::new(node)),
             "fields_expression" => Self::Fields(FieldsExpression::new(node)),
             "subquery" => Self::Sub(SubQuery::new(node)),
+            "type_of_clause" => Self::Type(TypeOfClause::new(node)),
             _ => panic_unknown_node(node, "SelectableExpression"),
         }
     }
@@ -962,6 +963,9 @@ impl<'a> DocBuild<'a> for SelectableExpression {
             Self::Sub(n) => {
                 result.push(n.build(b));
             }
+            Self::Type(n) => {
+                result.push(n.build(b));
+            }
         }
     }
 }
-- 
2.43.0


From f2c101f0a08f97817dfb0fee409449a4fba82d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 23/53] fix: return results in the order of the source files

---
 src/formatter.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index d2392f1..57cf5fb 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -103,7 +103,7 @@ impl Formatter {
         let (tx, rx) = mpsc::channel();
         let config = self.config.clone();
 
-        for file in &self.source_files {
+        for (index, file) in self.source_files.iter().enumerate() {
             let tx = tx.clone();
             let config = config.clone();
             let file = file.clone();
@@ -124,10 +124,11 @@ impl Formatter {
                 });
                 match result {
                     Ok(result) => {
-                        tx.send(Ok(result)).expect("failed to send result in tx");
+                        tx.send((index, Ok(result)))
+                            .expect("failed to send result in tx");
                     }
                     Err(_) => tx
-                        .send(Err("Thread panicked".to_string()))
+                        .send((index, Err("Thread panicked".to_string())))
                         .expect("failed to send error in tx"),
                 }
             });
@@ -135,7 +136,10 @@ impl Formatter {
 
         drop(tx);
 
-        rx.into_iter().collect()
+        // threads finish in any order: return the results in the order of the source files
+        let mut results: Vec<_> = rx.into_iter().collect();
+        results.sort_by_key(|(index, _)| *index);
+        results.into_iter().map(|(_, result)| result).collect()
     }
 
     pub fn format_one(source_code: &str, config: Config) -> String {
-- 
2.43.0


From 6cff117c028960d3bfa44304b01ff5f6c3e659da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 24/53] fix: allow several format_one calls on one thread

---
 src/utility.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/utility.rs b/src/utility.rs
index 8ce88c1..4efcbac 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -28,12 +28,8 @@ thread_local! {
 pub fn set_thread_source_code(source_code: String) {
     // TODO: use OnceCell to not leak?
     let leaked_code: &'static str = Box::leak(source_code.into_boxed_str());
-    THREAD_SOURCE_CODE.with(|sc| {
-        if sc.get().is_some() {
-            panic!("Source code is already set for this thread");
-        }
-        sc.set(Some(leaked_code));
-    });
+    // a thread may format several sources one after the other
+    THREAD_SOURCE_CODE.with(|sc| sc.set(Some(leaked_code)));
 }
 
 pub fn get_source_code() -> &'static str {
@@ -48,12 +44,7 @@ pub fn set_thread_comment_map(comment_map: CommentMap) {
     // TODO: use OnceCell to not leak?
     let leaked_map: &'static CommentMap = Box::leak(Box::new(comment_map));
 
-    THREAD_COMMENT_MAP.with(|cm| {
-        if cm.get().is_some() {
-            panic!("CommentMap is already set for this thread");
-        }
-        cm.set(Some(leaked_map));
-    });
+    THREAD_COMMENT_MAP.with(|cm| cm.set(Some(leaked_map)));
 }
 
 pub fn get_comment_bucket(node_id: &usize) -> &CommentBucket {
-- 
2.43.0


From a34368ab7b5b9c56376ba94a335b447a9999e2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 25/53] fix: do not cut error snippets inside a character

---
 src/utility.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utility.rs b/src/utility.rs
index 4efcbac..0663b1e 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -16,7 +16,11 @@ pub fn truncate_snippet(snippet: &str) -> String {
     if snippet.len() <= SNIPPET_MAX_LEN {
         snippet.to_string()
     } else {
-        format!("{}…", &snippet[..SNIPPET_MAX_LEN])
+        let mut end = SNIPPET_MAX_LEN;
+        while !snippet.is_char_boundary(end) {
+            end -= 1;
+        }
+        format!("{}…", &snippet[..end])
     }
 }
 
-- 
2.43.0


From 4f1a500d1ea823eb4468c9b18a09c050a19f9708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 26/53] fix: no row underflow for members on the first line

---
 src/enum_def.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enum_def.rs b/src/enum_def.rs
index 433d0d8..bea5fe1 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -819,7 +819,7 @@ impl<M> BodyMember<M> {
         }
 
         node.next_named_sibling()
-            .is_some_and(|n| node.end_position().row < n.start_position().row - 1)
+            .is_some_and(|n| node.end_position().row + 1 < n.start_position().row)
     }
 }
 
-- 
2.43.0


From 92d7162ac14c852645c48be5b7d999683f798971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 27/53] fix: measure text in characters

---
 src/doc_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doc_builder.rs b/src/doc_builder.rs
index 78f1f5e..f19b594 100644
--- a/src/doc_builder.rs
+++ b/src/doc_builder.rs
@@ -191,7 +191,7 @@ impl<'a> DocBuilder<'a> {
 
     pub fn txt(&'a self, text: impl ToString) -> DocRef<'a> {
         let s = text.to_string();
-        let width = s.len() as u32;
+        let width = s.chars().count() as u32;
         self.arena.alloc(Doc::Text(s, width))
     }
 
-- 
2.43.0


From 95417866cade322cdbf5c8276ab402ccdf3f6cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 28/53] fix: format the values of annotations

---
 src/data_model.rs |  4 ++--
 src/enum_def.rs   | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 3bee7dd..161297d 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -410,7 +410,7 @@ impl<'a> DocBuild<'a> for Annotation {
 #[derive(Debug)]
 pub struct AnnotationKeyValue {
     key: ValueNode,
-    value: ValueNode,
+    value: AnnotationValue,
     pub node_context: NodeContext,
 }
 
@@ -420,7 +420,7 @@ impl AnnotationKeyValue {
 
         Self {
             key: ValueNode::new(node.c_by_n("key")),
-            value: ValueNode::new(node.c_by_n("value")),
+            value: AnnotationValue::new(node.c_by_n("value")),
             node_context: NodeContext::with_punctuation(&node),
         }
     }
diff --git a/src/enum_def.rs b/src/enum_def.rs
index bea5fe1..10367b9 100644
--- a/src/enum_def.rs
+++ b/src/enum_def.rs
@@ -745,7 +745,7 @@ impl<'a> DocBuild<'a> for PropertyNavigation {
 #[derive(Debug)]
 pub enum AnnotationArgumentList {
     Nil,
-    Value(ValueNode),
+    Value(AnnotationValue),
     KeyValues(Vec<AnnotationKeyValue>),
 }
 
@@ -758,7 +758,7 @@ impl AnnotationArgumentList {
         let key_values = n.try_cs_by_k("annotation_key_value");
 
         if key_values.is_empty() {
-            Self::Value(ValueNode::new(n.c_by_n("value")))
+            Self::Value(AnnotationValue::new(n.c_by_n("value")))
         } else {
             let key_values = key_values
                 .into_iter()
@@ -792,6 +792,34 @@ impl<'a> DocBuild<'a> for AnnotationArgumentList {
     }
 }
 
+#[derive(Debug)]
+pub enum AnnotationValue {
+    Expression(Expression),
+    Other(ValueNode),
+}
+
+impl AnnotationValue {
+    pub fn new(n: Node) -> Self {
+        match n.kind() {
+            "annotation" | "element_value_array_initializer" => Self::Other(ValueNode::new(n)),
+            _ => Self::Expression(Expression::new(n)),
+        }
+    }
+}
+
+impl<'a> DocBuild<'a> for AnnotationValue {
+    fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
+        match self {
+            Self::Expression(n) => {
+                result.push(n.build(b));
+            }
+            Self::Other(n) => {
+                result.push(n.build(b));
+            }
+        }
+    }
+}
+
 // Generic struct to associate a body member with trailing newline information
 #[derive(Debug)]
 pub struct BodyMember<M> {
-- 
2.43.0


From 19544d97966635a6a7d306448a33e1687ccfdb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 29/53] fix: no blank line in a broken for header without
 updates

---
 src/data_model.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 161297d..3fd0cfb 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1555,15 +1555,12 @@ impl<'a> DocBuild<'a> for ForStatement {
                 None => semicolons_iter.next().unwrap().build(b),
             };
 
-            let update = if self.updates.is_empty() {
-                b.nil()
-            } else {
-                let docs = b.to_docs(&self.updates);
+            let mut docs = vec![init, condition];
+            if !self.updates.is_empty() {
+                let updates = b.to_docs(&self.updates);
                 let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
-                b.concat(vec![b.txt(" "), b.group(b.intersperse(&docs, sep))])
-            };
-
-            let docs = vec![init, condition, update];
+                docs.push(b.concat(vec![b.txt(" "), b.group(b.intersperse(&updates, sep))]));
+            }
 
             let sep = Insertable::new::<&str>(None, None, Some(b.maybeline()));
             let open = Insertable::new(None, Some("("), Some(b.maybeline()));
-- 
2.43.0


From b06362ef5e03f0c0688f7d8c4be0890741aa3619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 30/53] fix: indent the statement after a constructor
 invocation and a blank line

---
 src/data_model.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 3fd0cfb..b664fb9 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1840,7 +1840,8 @@ impl<'a> DocBuild<'a> for ConstructorBody {
 
         if bucket.dangling_comments.is_empty() {
             if self.constructor_invocation.is_none() && self.statements.is_empty() {
-                return result.push(b.concat(vec![b.txt("{"), b.nl(), b.txt("}")]));
+                result.push(b.concat(vec![b.txt("{"), b.nl(), b.txt("}")]));
+                return handle_post_comments(b, bucket, result);
             }
 
             result.push(b.txt("{"));
@@ -1850,7 +1851,7 @@ impl<'a> DocBuild<'a> for ConstructorBody {
 
                 if !self.statements.is_empty() {
                     if c.has_trailing_newline {
-                        result.push(b.empty_new_line());
+                        result.push(b.indent(b.empty_new_line()));
                     } else {
                         result.push(b.indent(b.nl()));
                     }
@@ -1862,6 +1863,7 @@ impl<'a> DocBuild<'a> for ConstructorBody {
             result.push(b.indent(b.intersperse_body_members(&self.statements)));
             result.push(b.nl());
             result.push(b.txt("}"));
+            handle_post_comments(b, bucket, result);
         } else {
             handle_dangling_comments_in_bracket_surround(b, bucket, result);
         }
-- 
2.43.0


From ef1184616bea17f483bd6e4bf40d23edbdd088a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 31/53] fix: print the empty statement of an if once

---
 src/data_model.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index b664fb9..7188865 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1382,6 +1382,8 @@ impl<'a> DocBuild<'a> for IfStatement {
             if self.consequence.is_block() {
                 result.push(b.txt(" "));
                 result.push(self.consequence.build(b));
+            } else if matches!(self.consequence, Statement::SemiColumn) {
+                // the `;` is printed with the condition
             } else {
                 result.push(b.indent(b.nl()));
                 result.push(b.indent(self.consequence.build(b)));
-- 
2.43.0


From ae97eba84425966217be3683672fbcc6773eff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 32/53] fix: indent the whole statement of an else

---
 src/data_model.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index 7188865..898d743 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1403,6 +1403,7 @@ impl<'a> DocBuild<'a> for IfStatement {
 
                     if !matches!(alt.statement, Statement::If(_) | Statement::Block(_)) {
                         result.push(b.indent(b.nl()));
+                        return result.push(b.indent(alt.statement.build(b)));
                     } else {
                         result.push(b.txt(" "));
                     }
-- 
2.43.0


From 2815fda435c514eb2df24f482e0c5be900631693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 33/53] fix: print the empty statement of an else once

---
 src/data_model.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index 898d743..c7d95e3 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1391,6 +1391,13 @@ impl<'a> DocBuild<'a> for IfStatement {
 
             // Handle the 'else' part
             if let Some(ref alt) = self.alternative {
+                if matches!(alt.statement, Statement::SemiColumn) {
+                    // the `;` is printed with the `else`
+                    let space = self.consequence.is_block();
+                    result.push(if space { b.txt(" ") } else { b.nl() });
+                    return result.push(alt.else_node.build(b));
+                }
+
                 if self.consequence.is_block() {
                     result.push(b.txt(" "));
 
-- 
2.43.0


From 92ae83718707c74f47e7d3ebc94f9f349cb7ad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 34/53] fix: leave no blanks at the end of lines

---
 src/doc.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/doc.rs b/src/doc.rs
index 3474cae..aed7b58 100644
--- a/src/doc.rs
+++ b/src/doc.rs
@@ -110,6 +110,7 @@ impl<'a> PrettyPrinter<'a> {
                     // Clear any pending newline and insert a newline without indent
                     newline_buffer.clear();
 
+                    Self::trim_trailing_spaces(&mut result);
                     result.push('\n');
                     self.col = 0;
                 }
@@ -184,7 +185,13 @@ impl<'a> PrettyPrinter<'a> {
         result
     }
 
+    fn trim_trailing_spaces(result: &mut String) {
+        let len = result.trim_end_matches(' ').len();
+        result.truncate(len);
+    }
+
     fn insert_newline_with_indent(&mut self, result: &mut String, indent: u32) {
+        Self::trim_trailing_spaces(result);
         result.push('\n');
         for _ in 0..indent {
             result.push(' ');
-- 
2.43.0


From 7117ed19531c3032ee0607126398eff25ce942e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 35/53] fix: keep comments after accessors in place

---
 src/data_model.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index c7d95e3..5af63e6 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3293,11 +3293,20 @@ impl AccessorList {
     }
 }
 
+impl AccessorList {
+    fn child_has_comments(&self) -> bool {
+        self.accessor_declarations.iter().any(|n| {
+            let bucket = get_comment_bucket(&n.node_context.id);
+            !bucket.pre_comments.is_empty() || !bucket.post_comments.is_empty()
+        })
+    }
+}
+
 impl<'a> DocBuild<'a> for AccessorList {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             // to align with prettier apex;
-            if self.child_has_body_section {
+            if self.child_has_body_section || self.child_has_comments() {
                 // NOTE: group does NOT work with b.nl() so can't use group_surround()
                 let docs = b.to_docs(&self.accessor_declarations);
                 let sep = Insertable::new::<&str>(None, None, Some(b.nl()));
@@ -3345,7 +3354,7 @@ impl AccessorDeclaration {
 
 impl<'a> DocBuild<'a> for AccessorDeclaration {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+        build_with_comments_and_punc_attached(b, &self.node_context, result, |b, result| {
             if let Some(ref n) = self.modifiers {
                 result.push(n.build(b));
             }
-- 
2.43.0


From 31cb24b341d12823570db6fca47d604e20be6215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 36/53] fix: keep comments next to a lone semicolon

---
 src/utility.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/utility.rs b/src/utility.rs
index 0663b1e..87aaf35 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -139,8 +139,28 @@ pub fn is_punctuation_node(node: &Node) -> bool {
     matches!(node.kind(), "," | ";")
 }
 
+// an empty statement or member that follows no other node is not printed
+fn is_lone_semicolon(node: &Node) -> bool {
+    if node.kind() != ";"
+        || !node
+            .parent()
+            .is_some_and(|n| matches!(n.kind(), "block" | "class_body" | "interface_body"))
+    {
+        return false;
+    }
+
+    let mut prev = node.prev_sibling();
+    while let Some(n) = prev {
+        if !n.is_extra() {
+            return !n.is_named();
+        }
+        prev = n.prev_sibling();
+    }
+    true
+}
+
 fn is_associable_unnamed_node(node: &Node) -> bool {
-    is_punctuation_node(node) || matches!(node.kind(), "else")
+    (is_punctuation_node(node) && !is_lone_semicolon(node)) || matches!(node.kind(), "else")
 }
 
 pub fn collect_comments(cursor: &mut TreeCursor, comment_map: &mut CommentMap) {
@@ -200,7 +220,7 @@ pub fn collect_comments(cursor: &mut TreeCursor, comment_map: &mut CommentMap) {
                     }
 
                     // If the sibling is punctuation, assign as pre_comment of punctuation and stop
-                    if is_punctuation_node(&sibling) {
+                    if is_punctuation_node(&sibling) && !is_lone_semicolon(&sibling) {
                         let punc_id = sibling.id();
                         comment_map
                             .entry(punc_id)
-- 
2.43.0


From d1163bb178c8d1742c1043d9aee744f4cccdaf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 37/53] fix: keep the brackets of an empty list that holds
 comments

---
 src/data_model.rs | 12 ++++++----
 src/utility.rs    | 57 ++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 52 insertions(+), 17 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 5af63e6..4a447ae 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -221,7 +221,8 @@ impl FormalParameters {
 
 impl<'a> DocBuild<'a> for FormalParameters {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+        let brackets = ("(", ")");
+        build_list_with_comments_and_punc(b, &self.node_context, result, brackets, |b, result| {
             let parameters_doc = b.to_docs(&self.formal_parameters);
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
@@ -563,7 +564,8 @@ impl ArrayInitializer {
 
 impl<'a> DocBuild<'a> for ArrayInitializer {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+        let brackets = ("{", "}");
+        build_list_with_comments_and_punc(b, &self.node_context, result, brackets, |b, result| {
             let docs = b.to_docs(&self.initializers);
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
@@ -1009,7 +1011,8 @@ impl ArgumentList {
 
 impl<'a> DocBuild<'a> for ArgumentList {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+        let brackets = ("(", ")");
+        build_list_with_comments_and_punc(b, &self.node_context, result, brackets, |b, result| {
             let docs = b.to_docs(&self.expressions);
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
@@ -5103,7 +5106,8 @@ impl MapInitializer {
 
 impl<'a> DocBuild<'a> for MapInitializer {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
-        build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
+        let brackets = ("{", "}");
+        build_list_with_comments_and_punc(b, &self.node_context, result, brackets, |b, result| {
             let docs = b.to_docs(&self.initializers);
 
             let sep = Insertable::new::<&str>(None, None, Some(b.softline()));
diff --git a/src/utility.rs b/src/utility.rs
index 87aaf35..9f39526 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -303,12 +303,10 @@ pub fn build_with_comments<'a, F>(
     let bucket = get_comment_bucket(&node_context.id);
     handle_pre_comments(b, bucket, result);
 
-    if bucket.dangling_comments.is_empty() {
-        handle_members(b, result);
-    } else {
-        result.push(b.concat(handle_dangling_comments(b, bucket)));
-        return;
+    if !bucket.dangling_comments.is_empty() {
+        handle_dangling_comments_before_members(b, bucket, result);
     }
+    handle_members(b, result);
 
     handle_post_comments(b, bucket, result);
 }
@@ -324,11 +322,10 @@ pub fn build_with_comments_core<'a, F>(
     let bucket = get_comment_bucket(&node_context.id);
     handle_pre_comments(b, bucket, result);
 
-    if bucket.dangling_comments.is_empty() {
-        handle_members(b, result);
-    } else {
-        result.push(b.concat(handle_dangling_comments(b, bucket)));
+    if !bucket.dangling_comments.is_empty() {
+        handle_dangling_comments_before_members(b, bucket, result);
     }
+    handle_members(b, result);
 }
 
 pub fn build_with_comments_and_punc<'a, F>(
@@ -342,9 +339,7 @@ pub fn build_with_comments_and_punc<'a, F>(
     build_with_comments_core(b, node_context, result, handle_members);
 
     let bucket = get_comment_bucket(&node_context.id);
-    if bucket.dangling_comments.is_empty() {
-        handle_post_comments(b, bucket, result);
-    }
+    handle_post_comments(b, bucket, result);
 
     if let Some(ref n) = node_context.punc {
         result.push(n.build(b));
@@ -368,9 +363,45 @@ pub fn build_with_comments_and_punc_attached<'a, F>(
         result.push(n.build(b));
     }
 
+    handle_post_comments(b, bucket, result);
+}
+
+// for a list in brackets: when it is empty, its comments stay between the brackets
+pub fn build_list_with_comments_and_punc<'a, F>(
+    b: &'a DocBuilder<'a>,
+    node_context: &NodeContext,
+    result: &mut Vec<DocRef<'a>>,
+    brackets: (&str, &str),
+    handle_members: F,
+) where
+    F: FnOnce(&'a DocBuilder<'a>, &mut Vec<DocRef<'a>>),
+{
+    let bucket = get_comment_bucket(&node_context.id);
     if bucket.dangling_comments.is_empty() {
-        handle_post_comments(b, bucket, result);
+        return build_with_comments_and_punc(b, node_context, result, handle_members);
     }
+
+    handle_pre_comments(b, bucket, result);
+    result.push(b.txt(brackets.0));
+    result.push(b.indent(b.nl()));
+    result.push(b.indent(b.concat(handle_dangling_comments(b, bucket))));
+    result.push(b.nl());
+    result.push(b.txt(brackets.1));
+    handle_post_comments(b, bucket, result);
+
+    if let Some(ref n) = node_context.punc {
+        result.push(n.build(b));
+    }
+}
+
+// a node without code children keeps its comments in front of its own tokens
+fn handle_dangling_comments_before_members<'a>(
+    b: &'a DocBuilder<'a>,
+    bucket: &CommentBucket,
+    result: &mut Vec<DocRef<'a>>,
+) {
+    result.push(b.concat(handle_dangling_comments(b, bucket)));
+    result.push(b.txt(" "));
 }
 
 pub fn handle_dangling_comments_in_bracket_surround<'a>(
-- 
2.43.0


From eb83c8f3d46513402ff2901d4548a13a1577ea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 38/53] fix: accept a file of comments

---
 src/data_model.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 4a447ae..a96e336 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -49,12 +49,8 @@ impl<'a> DocBuild<'a> for Root {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         let bucket = get_comment_bucket(&self.node_context.id);
         if !bucket.dangling_comments.is_empty() {
-            let docs: Vec<_> = bucket
-                .dangling_comments
-                .iter()
-                .map(|n| n.build(b))
-                .collect();
-            return result.push(b.concat(docs));
+            result.push(b.concat(handle_dangling_comments(b, bucket)));
+            return result.push(b.nl());
         }
 
         let doc = b.intersperse_body_members(&self.members);
-- 
2.43.0


From 3b23fd72fcab2d809be8bae7820c7950681c0d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 39/53] fix: print comments of the semicolons of a for header
 once

---
 src/data_model.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data_model.rs b/src/data_model.rs
index a96e336..d5c03a7 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1559,6 +1559,11 @@ impl<'a> DocBuild<'a> for ForStatement {
                 None => semicolons_iter.next().unwrap().build(b),
             };
 
+            // the first semicolon is printed with the init expressions
+            if let Some(ForInitOption::Exps(_)) = self.init {
+                semicolons_iter.next();
+            }
+
             let condition = match &self.condition {
                 Some(c) => b.concat(vec![b.txt(" "), c.build(b)]),
                 None => semicolons_iter.next().unwrap().build(b),
-- 
2.43.0


From 262dd0f0b5571cc4932967a5dd5325a5737dd9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 40/53] fix: print a comment in front of a WITH mode once

---
 src/data_model.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index d5c03a7..e735560 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -5313,7 +5313,7 @@ impl<'a> DocBuild<'a> for SoqlWithClause {
 
 #[derive(Debug)]
 pub enum SoqlWithTypeVariant {
-    SimpleType(ValueNode), // Security_Enforced, User_Mode, and System_Mode
+    SimpleType(String), // Security_Enforced, User_Mode, and System_Mode
     RecordVisibility(WithRecordVisibilityExpression),
     DataCategory(WithDataCatExpression),
     UserId(ValueNode),
@@ -5322,7 +5322,7 @@ pub enum SoqlWithTypeVariant {
 impl SoqlWithTypeVariant {
     pub fn new(node: Node) -> Self {
         let with_type = if node.named_child_count() == 0 {
-            return Self::SimpleType(ValueNode::new(node));
+            return Self::SimpleType(node.value());
         } else {
             let child = node.first_c();
             match child.kind() {
@@ -5344,7 +5344,7 @@ impl<'a> DocBuild<'a> for SoqlWithTypeVariant {
     fn build_inner(&self, b: &'a DocBuilder<'a>, result: &mut Vec<DocRef<'a>>) {
         match self {
             Self::SimpleType(n) => {
-                result.push(n.build(b));
+                result.push(b.txt(n));
             }
             Self::RecordVisibility(n) => {
                 result.push(n.build(b));
-- 
2.43.0


From d124b3f50387d85c62da989ab4394cf423740854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 41/53] fix: write back through a temporary file, so that no
 crash loses the source

---
 src/main.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 475a2ff..2b91da0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,7 @@
 use sf_afmt::args::{get_args, Args};
 use sf_afmt::format;
 use sf_afmt::formatter::Formatter;
+use std::io::{self, Write};
 use std::time::Instant;
 use std::{fs, process};
 
@@ -44,7 +45,7 @@ fn run(args: &Args) -> Result<(), String> {
                         return Err("Formatting check failed".to_string());
                     }
                 } else if args.write {
-                    fs::write(&args.path, value).map_err(|e| {
+                    write_back(&args.path, value).map_err(|e| {
                         format!("Failed to write formatted content to {}: {}", args.path, e)
                     })?;
                     println!("Formatted content written back to: {}\n", args.path);
@@ -62,3 +63,27 @@ fn run(args: &Args) -> Result<(), String> {
 
     Ok(())
 }
+
+/// Replace the content of the file in one step, so that a crash or a failure in the middle leaves
+/// the file with either its old or its new content.
+fn write_back(path: &str, content: &str) -> io::Result<()> {
+    let target = fs::canonicalize(path)?; // write through a symbolic link
+    let old = fs::OpenOptions::new().write(true).open(&target)?; // refuse a read-only file
+
+    let name = target.file_name().unwrap_or_default().to_string_lossy();
+    let temp = target.with_file_name(format!(".{}.{}.tmp", name, process::id()));
+    let mut new = fs::OpenOptions::new()
+        .write(true)
+        .create_new(true)
+        .open(&temp)?;
+
+    let result = new
+        .write_all(content.as_bytes())
+        .and_then(|_| new.set_permissions(old.metadata()?.permissions()))
+        .and_then(|_| new.sync_all())
+        .and_then(|_| fs::rename(&temp, &target));
+    if result.is_err() {
+        let _ = fs::remove_file(&temp);
+    }
+    result
+}
-- 
2.43.0


From 26038c784899907fc044a18eeccbba7b00c07336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 42/53] fix: leave an empty block comment alone

---
 src/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index 4737a6c..fe0d865 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -146,7 +146,7 @@ impl<'a> DocBuild<'a> for Comment {
                 let mut lines: Vec<&str> = self.value.split('\n').collect();
 
                 // JavaDoc formatting
-                if self.value.starts_with("/**") {
+                if self.value.starts_with("/**") && self.value != "/**/" {
                     // Handle the first line that might contain both /** and content
                     if !lines.is_empty() {
                         let first_line = lines[0].trim();
-- 
2.43.0


From 7543ef42464b31b7ea3ec6a4cb6458dce854ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 43/53] fix: short name for the temporary file, long file names
 stay writable

---
 src/main.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 2b91da0..367bb04 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -70,8 +70,7 @@ fn write_back(path: &str, content: &str) -> io::Result<()> {
     let target = fs::canonicalize(path)?; // write through a symbolic link
     let old = fs::OpenOptions::new().write(true).open(&target)?; // refuse a read-only file
 
-    let name = target.file_name().unwrap_or_default().to_string_lossy();
-    let temp = target.with_file_name(format!(".{}.{}.tmp", name, process::id()));
+    let temp = target.with_file_name(format!(".afmt-{}.tmp", process::id()));
     let mut new = fs::OpenOptions::new()
         .write(true)
         .create_new(true)
-- 
2.43.0


From 0397f78cdb83557d4455b73a1f7b60a2edafd331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 44/53] fix: one star per line of a documentation comment

---
 src/context.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/context.rs b/src/context.rs
index fe0d865..1c2111c 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -172,6 +172,7 @@ impl<'a> DocBuild<'a> for Comment {
                         } else if i == lines.len() - 1 {
                             if let Some(before_end) = trimmed.strip_suffix("*/") {
                                 let content = before_end.trim();
+                                let content = content.strip_prefix('*').unwrap_or(content).trim();
                                 if content.is_empty() {
                                     result.push(b.txt(" */"));
                                 } else {
-- 
2.43.0


From 33c42809b2d9899d10fa2692729b175cb65ae842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 45/53] fix: print a version number without its inner blanks
 and comments

---
 src/data_model.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index e735560..a4208ef 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3734,7 +3734,16 @@ impl VersionExpression {
     pub fn new(node: Node) -> Self {
         assert_check(node, "version_expression");
 
-        let version_number = node.try_c_by_n("version_num").map(|n| ValueNode::new(n));
+        let version_number = node.try_c_by_n("version_num").map(|n| {
+            let mut number = ValueNode::new(n);
+            // blanks and comments may stand around its dot
+            let mut cursor = n.walk();
+            for comment in n.children(&mut cursor).filter(|c| c.is_extra()) {
+                number.value = number.value.replacen(comment.v(), "", 1);
+            }
+            number.value.retain(|c| !c.is_whitespace());
+            number
+        });
         Self {
             version_number,
             node_context: NodeContext::with_punctuation(&node),
-- 
2.43.0


From f3e44d234d51aaa5482bd285bd2f91815ed348ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 46/53] fix: one blank behind a comment that follows a comma

---
 src/context.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 1c2111c..c4c5f90 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -385,11 +385,8 @@ impl<'a> DocBuild<'a> for Punctuation {
                 result.push(b.nl());
             }
 
+            // the list or statement which holds the punctuation separates it from what follows
             result.push(comment.build(b));
-
-            if comment.has_trailing_content() && !comment.is_followed_by_bracket_composite_node() {
-                result.push(b.txt(" "));
-            }
         }
 
         // we assume all associated comment nodes are handled
-- 
2.43.0


From 3363e937eab613874757de596fd3235b589650ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 47/53] fix: a trailing comment of several lines stays behind
 its code

---
 src/utility.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utility.rs b/src/utility.rs
index 9f39526..537694d 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -230,12 +230,15 @@ pub fn collect_comments(cursor: &mut TreeCursor, comment_map: &mut CommentMap) {
                         break;
                     } else {
                         // Otherwise, the sibling is a named node, no special treatment needed
-                        if child.end_position().row == last_row {
+                        // a comment trails the code (or the trailing comment) on whose last line it starts
+                        if child.start_position().row == last_row {
                             comment_map
                                 .entry(last_id)
                                 .or_insert_with(CommentBucket::new)
                                 .post_comments
                                 .push(c);
+                            last_associable_node_info =
+                                Some((last_id, child.end_position().row));
                         } else {
                             pending_pre_comments.push(c);
                         }
-- 
2.43.0


From 18f97ef055a062813a3a5e5cafc657f44871f282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 48/53] fix: keep the comments behind a block which holds
 comments only

---
 src/data_model.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index a4208ef..65eda80 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -706,7 +706,6 @@ impl<'a> DocBuild<'a> for Block {
             result.push(docs);
         } else {
             handle_dangling_comments_in_bracket_surround(b, bucket, result);
-            return;
         }
         handle_post_comments(b, bucket, result);
     }
-- 
2.43.0


From 8c580ff680aca63f045c9cbfab60b14ace8d6a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 49/53] fix: no blank line at the end of a constructor body

---
 src/data_model.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 65eda80..7504bae 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -1873,7 +1873,9 @@ impl<'a> DocBuild<'a> for ConstructorBody {
                 result.push(b.indent(b.nl()));
             }
 
-            result.push(b.indent(b.intersperse_body_members(&self.statements)));
+            if !self.statements.is_empty() {
+                result.push(b.indent(b.intersperse_body_members(&self.statements)));
+            }
             result.push(b.nl());
             result.push(b.txt("}"));
             handle_post_comments(b, bucket, result);
-- 
2.43.0


From a14126d952a4b2c010f34c24e86b895cbdfc786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 50/53] fix: no blank line behind a comment that trails a
 branch of a switch

---
 src/data_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_model.rs b/src/data_model.rs
index 7504bae..ab6bfee 100644
--- a/src/data_model.rs
+++ b/src/data_model.rs
@@ -3570,7 +3570,7 @@ impl<'a> DocBuild<'a> for SwitchBlock {
         build_with_comments_and_punc(b, &self.node_context, result, |b, result| {
             let docs = b.to_docs(&self.rules);
 
-            let sep = Insertable::new(None, Some(""), Some(b.nl()));
+            let sep = Insertable::new::<&str>(None, None, Some(b.nl()));
             let open = Insertable::new(None, Some("{"), Some(b.nl()));
             let close = Insertable::new(Some(b.nl()), Some("}"), None);
             let doc = b.surround(&docs, sep, open, close);
-- 
2.43.0


From b4c02abeaa5adc64803899e4ba3e815d5d8200ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:12 +0000
Subject: [PATCH 51/53] fix: a write that was killed made a later run with the
 same process id fail

---
 src/main.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 367bb04..31289f6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -70,11 +70,19 @@ fn write_back(path: &str, content: &str) -> io::Result<()> {
     let target = fs::canonicalize(path)?; // write through a symbolic link
     let old = fs::OpenOptions::new().write(true).open(&target)?; // refuse a read-only file
 
-    let temp = target.with_file_name(format!(".afmt-{}.tmp", process::id()));
-    let mut new = fs::OpenOptions::new()
-        .write(true)
-        .create_new(true)
-        .open(&temp)?;
+    // a run which was killed may have left its file behind, and process identifiers come again
+    let mut attempt = 0;
+    let (temp, mut new) = loop {
+        let temp = target.with_file_name(format!(".afmt-{}-{}.tmp", process::id(), attempt));
+        match fs::OpenOptions::new()
+            .write(true)
+            .create_new(true)
+            .open(&temp)
+        {
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists && attempt < 1000 => attempt += 1,
+            opened => break (temp, opened?),
+        }
+    };
 
     let result = new
         .write_all(content.as_bytes())
-- 
2.43.0


From e9b003b4043d3e8ef877bf07789273007c194d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:36 +0000
Subject: [PATCH 52/53] fix: write mode gave the file of another user to the
 one who runs it

---
 src/main.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 31289f6..d4b4560 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -86,7 +86,11 @@ fn write_back(path: &str, content: &str) -> io::Result<()> {
 
     let result = new
         .write_all(content.as_bytes())
-        .and_then(|_| new.set_permissions(old.metadata()?.permissions()))
+        .and_then(|_| {
+            let metadata = old.metadata()?;
+            keep_owner(&new, &metadata);
+            new.set_permissions(metadata.permissions())
+        })
         .and_then(|_| new.sync_all())
         .and_then(|_| fs::rename(&temp, &target));
     if result.is_err() {
@@ -94,3 +98,13 @@ fn write_back(path: &str, content: &str) -> io::Result<()> {
     }
     result
 }
+
+/// The file stays its owner's when somebody else who may do so (root) formats it.
+#[cfg(unix)]
+fn keep_owner(file: &fs::File, old: &fs::Metadata) {
+    use std::os::unix::fs::{fchown, MetadataExt};
+    let _ = fchown(file, Some(old.uid()), Some(old.gid()));
+}
+
+#[cfg(not(unix))]
+fn keep_owner(_: &fs::File, _: &fs::Metadata) {}
-- 
2.43.0


From 66b55214e22acae1eeb15af21cbb7d2da3021225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:02 +0000
Subject: [PATCH 53/53] fix: a long run of comments took time with the square
 of its length

---
 src/context.rs | 39 ++++++++++++---------
 src/utility.rs | 93 +++++++++++++++++++++++++-------------------------
 2 files changed, 69 insertions(+), 63 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index c4c5f90..616f88a 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -78,16 +78,16 @@ pub struct Comment {
 }
 
 impl Comment {
-    pub fn from_node(node: Node) -> Self {
+    pub fn from_node(node: Node, prev: Option<Node>, next: Option<Node>) -> Self {
         //let id = node.id();
         let value = node.value().trim_end().to_string();
         let (comment_type, metadata) = match node.kind() {
             "line_comment" => {
-                let metadata = CommentMetadata::from(&node, CommentType::Line);
+                let metadata = CommentMetadata::from(&node, CommentType::Line, prev, next);
                 (CommentType::Line, metadata)
             }
             "block_comment" => {
-                let metadata = CommentMetadata::from(&node, CommentType::Block);
+                let metadata = CommentMetadata::from(&node, CommentType::Block, prev, next);
                 (CommentType::Block, metadata)
             }
             _ => panic_unknown_node(node, "Comment"),
@@ -234,8 +234,12 @@ pub struct CommentMetadata {
 }
 
 impl CommentMetadata {
-    pub fn from(node: &Node, comment_type: CommentType) -> Self {
-        let prev = node.prev_named_sibling();
+    pub fn from(
+        node: &Node,
+        comment_type: CommentType,
+        prev: Option<Node>,
+        next: Option<Node>,
+    ) -> Self {
         let has_prev_node = prev.is_some();
 
         let has_leading_content = if let Some(prev_node) = prev {
@@ -244,7 +248,6 @@ impl CommentMetadata {
             false
         };
 
-        let next = node.next_named_sibling();
         let has_trailing_content = match comment_type {
             CommentType::Line => false,
             CommentType::Block => {
@@ -308,18 +311,22 @@ impl Punctuation {
 
     // check if the node has a following punc
     pub fn from(node: &Node) -> Option<Self> {
-        let mut current = *node;
-        while let Some(next) = current.next_sibling() {
-            if next.is_extra() {
-                current = next;
-                continue;
-            }
-
-            if is_punctuation_node(&next) {
-                return Some(Self::new(next));
+        let mut next = node.next_sibling()?;
+
+        if next.is_extra() {
+            // a cursor steps from one comment to the next without walking all siblings
+            let mut cursor = node.parent()?.walk();
+            cursor.goto_first_child_for_byte(next.start_byte());
+            while cursor.node().is_extra() {
+                if !cursor.goto_next_sibling() {
+                    return None;
+                }
             }
+            next = cursor.node();
+        }
 
-            return None;
+        if is_punctuation_node(&next) {
+            return Some(Self::new(next));
         }
         None
     }
diff --git a/src/utility.rs b/src/utility.rs
index 537694d..26e8f2d 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -184,66 +184,47 @@ pub fn collect_comments(cursor: &mut TreeCursor, comment_map: &mut CommentMap) {
     let mut pending_pre_comments = Vec::new();
     // Track the last visited code node
     let mut last_associable_node_info: Option<(usize, usize)> = None;
+    // The next sibling which is no comment, once it is known
+    let mut code_behind: Option<Option<Node>> = None;
+    let mut prev_named: Option<Node> = None;
 
     loop {
         let child = cursor.node();
 
         if child.is_extra() {
             // It's a comment node
-            let comment = Comment::from_node(child);
+            let next = next_sibling(cursor, |n| n.is_named());
+            let comment = Comment::from_node(child, prev_named, next);
 
             if let Some((last_id, last_row)) = last_associable_node_info {
-                // We'll wrap the comment in an Option so we can move it exactly once
-                let mut comment_opt = Some(comment);
-
-                // Clone the cursor so we can safely peek siblings
-                let mut peek_cursor = cursor.clone();
-
-                // Continue until we either assign the comment or run out of siblings
-                while let Some(c) = comment_opt.take() {
-                    // If no next sibling, assign this comment to the last node's post_comments and stop
-                    if !peek_cursor.goto_next_sibling() {
+                // The code behind a run of comments is looked up once for all of them
+                let sibling =
+                    *code_behind.get_or_insert_with(|| next_sibling(cursor, |n| !n.is_extra()));
+
+                match sibling {
+                    // If no next sibling, assign this comment to the last node's post_comments
+                    None => comment_map
+                        .entry(last_id)
+                        .or_insert_with(CommentBucket::new)
+                        .post_comments
+                        .push(comment),
+                    // If the sibling is punctuation, assign as pre_comment of punctuation
+                    Some(n) if is_punctuation_node(&n) && !is_lone_semicolon(&n) => comment_map
+                        .entry(n.id())
+                        .or_insert_with(CommentBucket::new)
+                        .pre_comments
+                        .push(comment),
+                    // Otherwise, the sibling is a named node, no special treatment needed;
+                    // a comment trails the code (or the trailing comment) on whose last line it starts
+                    Some(_) if child.start_position().row == last_row => {
                         comment_map
                             .entry(last_id)
                             .or_insert_with(CommentBucket::new)
                             .post_comments
-                            .push(c);
-                        break;
-                    }
-
-                    let sibling = peek_cursor.node();
-
-                    // If the sibling is another comment, skip it and put our comment back
-                    if sibling.is_extra() {
-                        comment_opt = Some(c);
-                        continue;
-                    }
-
-                    // If the sibling is punctuation, assign as pre_comment of punctuation and stop
-                    if is_punctuation_node(&sibling) && !is_lone_semicolon(&sibling) {
-                        let punc_id = sibling.id();
-                        comment_map
-                            .entry(punc_id)
-                            .or_insert_with(CommentBucket::new)
-                            .pre_comments
-                            .push(c);
-                        break;
-                    } else {
-                        // Otherwise, the sibling is a named node, no special treatment needed
-                        // a comment trails the code (or the trailing comment) on whose last line it starts
-                        if child.start_position().row == last_row {
-                            comment_map
-                                .entry(last_id)
-                                .or_insert_with(CommentBucket::new)
-                                .post_comments
-                                .push(c);
-                            last_associable_node_info =
-                                Some((last_id, child.end_position().row));
-                        } else {
-                            pending_pre_comments.push(c);
-                        }
-                        break;
+                            .push(comment);
+                        last_associable_node_info = Some((last_id, child.end_position().row));
                     }
+                    Some(_) => pending_pre_comments.push(comment),
                 }
             } else {
                 // There's no "last associable node" yet, so keep it pending
@@ -269,6 +250,13 @@ pub fn collect_comments(cursor: &mut TreeCursor, comment_map: &mut CommentMap) {
             last_associable_node_info = Some((child_id, child.end_position().row));
         }
 
+        if child.is_named() {
+            prev_named = Some(child);
+        }
+        if !child.is_extra() {
+            code_behind = None;
+        }
+
         if !cursor.goto_next_sibling() {
             break;
         }
@@ -295,6 +283,17 @@ pub fn collect_comments(cursor: &mut TreeCursor, comment_map: &mut CommentMap) {
     cursor.goto_parent();
 }
 
+// Node::next_sibling() and the like walk all siblings from the first one on
+fn next_sibling<'t>(cursor: &TreeCursor<'t>, is_wanted: fn(&Node) -> bool) -> Option<Node<'t>> {
+    let mut cursor = cursor.clone();
+    while cursor.goto_next_sibling() {
+        if is_wanted(&cursor.node()) {
+            return Some(cursor.node());
+        }
+    }
+    None
+}
+
 pub fn build_with_comments<'a, F>(
     b: &'a DocBuilder<'a>,
     node_context: &NodeContext,
-- 
2.43.0

