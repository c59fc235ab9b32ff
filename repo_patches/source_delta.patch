From 6301f41544c5030a3bc1c5e08ad9fa3b9a94746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 01/26] fix: read two-letter compass points after a port id

The ordered choice took the first letter of ne/nw/se/sw as the whole
compass point, so 'a:p:ne -> b' was read as a node 'a:p:n' followed by an
edge 'e -> b'.
---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 2226670..02cb325 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -14,7 +14,7 @@ html = ${"<" ~ (!(">" ~ WHITESPACE* ~">") ~ ANY)+ ~ ">" ~ WHITESPACE* ~ ">"}
 plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
 
 
-compass = ${"n" | "ne" | "e" | "se" | "s" | "sw" | "w" | "nw" | "c" | "_"}
+compass = ${("ne" | "nw" | "n" | "se" | "sw" | "s" | "e" | "w" | "c" | "_") ~ !(word | ASCII_DIGIT)}
 
 port = {":" ~ id ~ (":" ~ compass)? }
 id = {plain | html | string_qt}
-- 
2.43.0


From 42520e25be5fc04c9333a93b2cbd5e50554dc562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 02/26] fix: read numerals with leading zeros or a trailing dot
 as one id

A DOT numeral is [-]?(.[0-9]+ | [0-9]+(.[0-9]*)?). '007' was read as the
three nodes 0, 0 and 7, and '1.' was rejected.
---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 02cb325..28ce471 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -8,7 +8,7 @@ char = {
 }
 
 inner = ${ char* }
-number = ${"-"? ~ (("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*) ~ ("." ~ ASCII_DIGIT+)? | ("." ~ ASCII_DIGIT+))}
+number = ${"-"? ~ (ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT*)? | ("." ~ ASCII_DIGIT+))}
 string_qt = ${ "\"" ~ inner ~ "\"" }
 html = ${"<" ~ (!(">" ~ WHITESPACE* ~">") ~ ANY)+ ~ ">" ~ WHITESPACE* ~ ">"}
 plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
-- 
2.43.0


From 716b8e985968f6d40c547504675b30b24aaceaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 03/26] fix: end an html string at its matching angle bracket

The string was taken to end at the first '>' followed by another '>', so
'[label=<<b>x</b> y>, tooltip=<<i>z</i>>]' was read as a single attribute
whose value swallowed the next one, and '<hello>' was rejected. DOT html
strings are delimited by balanced angle brackets.
---
 src/grammar/dot.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 28ce471..7e32a59 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -10,7 +10,8 @@ char = {
 inner = ${ char* }
 number = ${"-"? ~ (ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT*)? | ("." ~ ASCII_DIGIT+))}
 string_qt = ${ "\"" ~ inner ~ "\"" }
-html = ${"<" ~ (!(">" ~ WHITESPACE* ~">") ~ ANY)+ ~ ">" ~ WHITESPACE* ~ ">"}
+html_inner = _{ ("<" ~ html_inner ~ ">" | !("<" | ">") ~ ANY)* }
+html = ${"<" ~ html_inner ~ ">"}
 plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
 
 
-- 
2.43.0


From 3559c792e3e83760a152417c04b21d1a90a41916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 04/26] fix: require keywords to end at a token boundary

'digraphx {}' was read as a digraph named x, 'strictgraph {}' as a strict
graph and 'subgraphx {a}' as a subgraph named x.
---
 src/grammar/dot.pest | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 7e32a59..895d771 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -31,10 +31,11 @@ edge_tail = {arr ~ vertex}
 edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
 vertex = { subgraph | node_id }
-subgraph = {"subgraph" ~ id? ~ body}
+subgraph_kw = @{"subgraph" ~ !(word | ASCII_DIGIT)}
+subgraph = {&subgraph_kw ~ "subgraph" ~ id? ~ body}
 stmt = {attr_stmt | subgraph | bare_attr | edge_stmt | node }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
-strict = {"strict"}
-graph_ty = {"graph" | "digraph"}
+strict = @{"strict" ~ !(word | ASCII_DIGIT)}
+graph_ty = @{("graph" | "digraph") ~ !(word | ASCII_DIGIT)}
 graph = {strict? ~ graph_ty ~ id? ~ body}
 file = {SOI ~ graph ~ EOI }
\ No newline at end of file
-- 
2.43.0


From 23db01164ad9b69dd3a559d4d0d30867d2bd78b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 05/26] fix: parse edges that start with a subgraph

A statement starting with a subgraph was committed to be the subgraph
alone, so 'subgraph {a b} -> c' was rejected although a vertex of an edge
can be a subgraph.
---
 src/grammar/dot.pest |  2 +-
 src/parser.rs        | 40 +++++++++++++++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 895d771..4dd3c29 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -33,7 +33,7 @@ edge_stmt = {edge ~ attr_list?}
 vertex = { subgraph | node_id }
 subgraph_kw = @{"subgraph" ~ !(word | ASCII_DIGIT)}
 subgraph = {&subgraph_kw ~ "subgraph" ~ id? ~ body}
-stmt = {attr_stmt | subgraph | bare_attr | edge_stmt | node }
+stmt = {attr_stmt | subgraph ~ (edge_tail+ ~ attr_list?)? | bare_attr | edge_stmt | node }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
 strict = @{"strict" ~ !(word | ASCII_DIGIT)}
 graph_ty = @{("graph" | "digraph") ~ !(word | ASCII_DIGIT)}
diff --git a/src/parser.rs b/src/parser.rs
index c7e08a1..3f582ec 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -157,16 +157,41 @@ fn process_edge(rule: Pair<Rule>) -> Vec<Vertex> {
     chain
 }
 
-fn process_edge_stmt(rule: Pair<Rule>) -> Edge {
-    let mut edge_r = rule.into_inner();
-    let edges = process_edge(edge_r.next().unwrap());
+/// a statement starting with a subgraph: either the subgraph alone or
+/// an edge where the subgraph is the first vertex
+fn process_subgraph_stmt(mut stmt_r: Pairs<Rule>) -> Stmt {
+    let subgraph = process_subgraph(stmt_r.next().unwrap());
+    let mut chain = vec![];
+    let mut attributes = vec![];
+    for r in stmt_r {
+        match r.as_rule() {
+            Rule::edge_tail => chain.push(process_vertex(down(r))),
+            _ => attributes = process_attr_list(r),
+        }
+    }
+
+    if chain.is_empty() {
+        return Stmt::Subgraph(subgraph);
+    }
+    chain.insert(0, Vertex::S(subgraph));
+    Stmt::Edge(Edge {
+        ty: edge_ty(chain),
+        attributes,
+    })
+}
 
-    let ty = if edges.len() > 2 {
+fn edge_ty(edges: Vec<Vertex>) -> EdgeTy {
+    if edges.len() > 2 {
         EdgeTy::Chain(edges)
     } else {
         let mut edge_iter = edges.into_iter();
         EdgeTy::Pair(edge_iter.next().unwrap(), edge_iter.next().unwrap())
-    };
+    }
+}
+
+fn process_edge_stmt(rule: Pair<Rule>) -> Edge {
+    let mut edge_r = rule.into_inner();
+    let ty = edge_ty(process_edge(edge_r.next().unwrap()));
 
     if let Some(attr_r) = edge_r.next() {
         Edge {
@@ -189,10 +214,11 @@ fn process_attr_stmt(rule: Pair<Rule>) -> GraphAttributes {
 }
 
 fn process_stmt(rule: Pair<Rule>) -> Stmt {
-    let stmt_r = down(rule);
+    let stmt_pairs = rule.into_inner();
+    let stmt_r = stmt_pairs.peek().unwrap();
     match stmt_r.as_rule() {
         Rule::attr_stmt => Stmt::GAttribute(process_attr_stmt(stmt_r)),
-        Rule::subgraph => Stmt::Subgraph(process_subgraph(stmt_r)),
+        Rule::subgraph => process_subgraph_stmt(stmt_pairs),
         Rule::node => Stmt::Node(process_node(stmt_r)),
         Rule::bare_attr => Stmt::Attribute(process_bare_attr(stmt_r)),
         Rule::edge_stmt => Stmt::Edge(process_edge_stmt(stmt_r)),
-- 
2.43.0


From fa4f19cb7f26a7f33d51de63548c4d23dc40c073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 06/26] fix: do not parse the body of an invalid subgraph twice

An invalid statement list inside a subgraph was parsed once as a subgraph
statement and once more as the first vertex of an edge, at every nesting
level: 25 nested subgraphs around a syntax error took minutes to reject.
---
 src/grammar/dot.pest | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 4dd3c29..a1641ac 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -30,10 +30,11 @@ bare_attr = {id ~ "=" ~ id}
 edge_tail = {arr ~ vertex}
 edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
-vertex = { subgraph | node_id }
+vertex = { subgraph | !subgraph_start ~ node_id }
 subgraph_kw = @{"subgraph" ~ !(word | ASCII_DIGIT)}
+subgraph_start = {subgraph_kw ~ id? ~ "{"}
 subgraph = {&subgraph_kw ~ "subgraph" ~ id? ~ body}
-stmt = {attr_stmt | subgraph ~ (edge_tail+ ~ attr_list?)? | bare_attr | edge_stmt | node }
+stmt = {attr_stmt | subgraph ~ (edge_tail+ ~ attr_list?)? | !subgraph_start ~ (bare_attr | edge_stmt | node) }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
 strict = @{"strict" ~ !(word | ASCII_DIGIT)}
 graph_ty = @{("graph" | "digraph") ~ !(word | ASCII_DIGIT)}
-- 
2.43.0


From 5ed928aa29474c2d5d0819e4ba6338b17c46e131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 07/26] fix: accept an anonymous subgraph without the subgraph
 keyword

The keyword is optional in DOT: '{rank=same a b}' and 'a -> {b c}' were
rejected.
---
 src/grammar/dot.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index a1641ac..9822a79 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -32,8 +32,8 @@ edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
 vertex = { subgraph | !subgraph_start ~ node_id }
 subgraph_kw = @{"subgraph" ~ !(word | ASCII_DIGIT)}
-subgraph_start = {subgraph_kw ~ id? ~ "{"}
-subgraph = {&subgraph_kw ~ "subgraph" ~ id? ~ body}
+subgraph_start = {(subgraph_kw ~ id?)? ~ "{"}
+subgraph = {(&subgraph_kw ~ "subgraph" ~ id?)? ~ body}
 stmt = {attr_stmt | subgraph ~ (edge_tail+ ~ attr_list?)? | !subgraph_start ~ (bare_attr | edge_stmt | node) }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
 strict = @{"strict" ~ !(word | ASCII_DIGIT)}
-- 
2.43.0


From b8c55d04190f00e3548a8cea7a7804c04daef734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 08/26] fix: treat a lone carriage return as whitespace

The lexer of graphviz skips it anywhere between tokens; here only the
pair with a newline was accepted.
---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 9822a79..c5a94ea 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -1,4 +1,4 @@
-WHITESPACE = _{ " " | "\t" | "\r\n" | "\n" }
+WHITESPACE = _{ " " | "\t" | "\r" | "\n" }
 COMMENT    = _{("/*" ~ (!"*/" ~ ANY)* ~ "*/") | (("#" | "//") ~ (!NEWLINE ~ ANY)* ~ NEWLINE?) }
 word = _{ ('a'..'z' | 'A'..'Z' | "_")+ }
 arr = _{"->" | "--"}
-- 
2.43.0


From 68993e4fefb7a726daec3b8c7b184eb01ced489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 09/26] fix: accept non-ascii letters in plain ids

A DOT id is made of alphabetic ([a-zA-Z\200-\377]) characters, underscores
and digits.
---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index c5a94ea..8d3f320 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -1,6 +1,6 @@
 WHITESPACE = _{ " " | "\t" | "\r" | "\n" }
 COMMENT    = _{("/*" ~ (!"*/" ~ ANY)* ~ "*/") | (("#" | "//") ~ (!NEWLINE ~ ANY)* ~ NEWLINE?) }
-word = _{ ('a'..'z' | 'A'..'Z' | "_")+ }
+word = _{ ('a'..'z' | 'A'..'Z' | "_" | '\u{80}'..'\u{10FFFF}')+ }
 arr = _{"->" | "--"}
 char = {
     !("\"" | "\\") ~ ANY
-- 
2.43.0


From 1862a81a5e45e4f01993594c8b97e73fecc13070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 10/26] fix: accept DOT keywords in any letter case

The keywords node, edge, graph, digraph, subgraph and strict are
case-independent in DOT.
---
 src/grammar/dot.pest | 10 +++++-----
 src/parser.rs        |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 8d3f320..6a57562 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -24,19 +24,19 @@ attr = {bare_attr ~ (";" |",")?}
 attr_list = {("[" ~ attr* ~ "]")+}
 node = {node_id ~ attr_list*}
 
-attr_mark = {"graph" | "node" | "edge"}
+attr_mark = {^"graph" | ^"node" | ^"edge"}
 attr_stmt = {attr_mark ~ attr_list}
 bare_attr = {id ~ "=" ~ id}
 edge_tail = {arr ~ vertex}
 edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
 vertex = { subgraph | !subgraph_start ~ node_id }
-subgraph_kw = @{"subgraph" ~ !(word | ASCII_DIGIT)}
+subgraph_kw = @{^"subgraph" ~ !(word | ASCII_DIGIT)}
 subgraph_start = {(subgraph_kw ~ id?)? ~ "{"}
-subgraph = {(&subgraph_kw ~ "subgraph" ~ id?)? ~ body}
+subgraph = {(&subgraph_kw ~ ^"subgraph" ~ id?)? ~ body}
 stmt = {attr_stmt | subgraph ~ (edge_tail+ ~ attr_list?)? | !subgraph_start ~ (bare_attr | edge_stmt | node) }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
-strict = @{"strict" ~ !(word | ASCII_DIGIT)}
-graph_ty = @{("graph" | "digraph") ~ !(word | ASCII_DIGIT)}
+strict = @{^"strict" ~ !(word | ASCII_DIGIT)}
+graph_ty = @{(^"graph" | ^"digraph") ~ !(word | ASCII_DIGIT)}
 graph = {strict? ~ graph_ty ~ id? ~ body}
 file = {SOI ~ graph ~ EOI }
\ No newline at end of file
diff --git a/src/parser.rs b/src/parser.rs
index 3f582ec..8858461 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -236,7 +236,7 @@ fn process_graph(rule: Pair<Rule>) -> Graph {
         _ => false,
     };
 
-    let is_di = matches!(graph_r.next().map(|r| r.as_str()), Some("digraph"));
+    let is_di = graph_r.next().unwrap().as_str().eq_ignore_ascii_case("digraph");
 
     let id = match graph_r.peek().map(|r| r.as_rule()) {
         Some(Rule::id) => process_id(graph_r.next().unwrap()),
-- 
2.43.0


From 39c6b13fff9810d82e2fe673cd9f57100d6361b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 11/26] fix: print an empty attribute statement with its
 brackets

'node []' was printed as 'node', which is not an attribute statement: it
is read back as a node named node and rejected by graphviz.
---
 src/printer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/printer.rs b/src/printer.rs
index 4903e2e..6b4cfb0 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -298,6 +298,9 @@ impl DotPrinter for Vec<Attribute> {
 impl DotPrinter for GraphAttributes {
     fn print(&self, ctx: &mut PrinterContext) -> String {
         match self {
+            GraphAttributes::Graph(attrs) if attrs.is_empty() => "graph[]".to_string(),
+            GraphAttributes::Node(attrs) if attrs.is_empty() => "node[]".to_string(),
+            GraphAttributes::Edge(attrs) if attrs.is_empty() => "edge[]".to_string(),
             GraphAttributes::Graph(attrs) => format!("graph{}", attrs.print(ctx)),
             GraphAttributes::Node(attrs) => format!("node{}", attrs.print(ctx)),
             GraphAttributes::Edge(attrs) => format!("edge{}", attrs.print(ctx)),
-- 
2.43.0


From f512e2e4480421bdef973e9e079860f0c515a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 12/26] fix: restore the indent of the context after printing a
 graph

The context kept the indent of the body, so every further graph printed
with the same context was indented one step deeper.
---
 src/printer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/printer.rs b/src/printer.rs
index 6b4cfb0..12102af 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -338,7 +338,7 @@ impl DotPrinter for Graph {
     fn print(&self, ctx: &mut PrinterContext) -> String {
         ctx.indent_grow();
 
-        match self {
+        let graph = match self {
             Graph::Graph { id, strict, stmts } if *strict => {
                 ctx.is_digraph = false;
                 let body = stmts.print(ctx);
@@ -385,7 +385,9 @@ impl DotPrinter for Graph {
                     ctx.l_s
                 )
             }
-        }
+        };
+        ctx.indent_shrink();
+        graph
     }
 }
 
-- 
2.43.0


From 6ac98dad277b7e751d0d3cf133256c46c691aae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 13/26] fix: keep statements apart when printing without a line
 separator

In the inline mode, which is also used for short edges, the statements
were glued together: 'a -- subgraph {b c}' was printed as
'a -- subgraph {bc}', a different graph. A space is now added where two
ids would otherwise merge.
---
 src/printer.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/printer.rs b/src/printer.rs
index 12102af..59c2a41 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -393,11 +393,26 @@ impl DotPrinter for Graph {
 
 impl DotPrinter for Vec<Stmt> {
     fn print(&self, ctx: &mut PrinterContext) -> String {
-        let attrs: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
-        attrs.join(ctx.l_s.as_str())
+        let stmts: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
+        let mut res = String::new();
+        for (i, stmt) in stmts.iter().enumerate() {
+            if i > 0 {
+                res.push_str(&ctx.l_s);
+            }
+            // without a line separator two ids in a row would be read as one
+            if res.ends_with(is_id_char) && stmt.starts_with(is_id_char) {
+                res.push(' ');
+            }
+            res.push_str(stmt);
+        }
+        res
     }
 }
 
+fn is_id_char(c: char) -> bool {
+    c.is_ascii_alphanumeric() || !c.is_ascii() || matches!(c, '_' | '.' | '-')
+}
+
 impl DotPrinter for Stmt {
     fn print(&self, ctx: &mut PrinterContext) -> String {
         let end = if ctx.semi { ";" } else { "" };
-- 
2.43.0


From 0aa1ee6d8b7f65a6d0af9b9bafd45db959b6e887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 14/26] fix: keep attributes apart when printing without a line
 separator

---
 src/printer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/printer.rs b/src/printer.rs
index 59c2a41..53b1016 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -275,7 +275,11 @@ impl DotPrinter for Vec<Attribute> {
                 attrs.join(&format!(
                     "{}{}{}",
                     {
-                        if ctx.is_inline_on() || ctx.mult_node_attr_on_s_l_comma {
+                        // without a line separator nothing else keeps the attributes apart
+                        if ctx.is_inline_on()
+                            || ctx.mult_node_attr_on_s_l_comma
+                            || ctx.l_s.is_empty()
+                        {
                             ","
                         } else {
                             ""
-- 
2.43.0


From 7ce20efffce5dbd250ca8493b59e97ce56e66432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 15/26] fix: keep the kind of the id in graph!(di id!(..))
 without statements

---
 dot-generator/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index 0dcb7bf..a431c56 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -687,10 +687,10 @@ macro_rules! graph {
         Graph::Graph { id: $id, strict: false, stmts: vec![] }
     };
     (strict di $id:expr) => {
-        Graph::DiGraph { id: id!($id), strict: true, stmts: vec![] }
+        Graph::DiGraph { id: $id, strict: true, stmts: vec![] }
     };
     (di $id:expr) => {
-        Graph::DiGraph { id: id!($id), strict: false, stmts: vec![] }
+        Graph::DiGraph { id: $id, strict: false, stmts: vec![] }
     };
     (strict $id:expr, $stmts:expr) => {
         Graph::Graph { id: $id, strict: true, stmts: $stmts }
-- 
2.43.0


From 808d64c97c93b91ae5dc705885cda4bf7d76bd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 16/26] fix: edge! with a chain of vertices and a vec of
 attributes

---
 dot-generator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index a431c56..275fdcb 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -576,7 +576,7 @@ macro_rules! edge {
     }};
     ($l:expr => $r:expr $(=> $nexts:expr)+ , $attrs:expr) => {{
 
-         let mut edges_vec = vec![Vertex::from($l),Vertex::from($r)]
+         let mut edges_vec = vec![Vertex::from($l),Vertex::from($r)];
          $( edges_vec.push(Vertex::from($nexts)) ; )+
 
         Edge{ ty: EdgeTy::Chain(edges_vec), attributes: $attrs }
-- 
2.43.0


From a4e77120136c3e2318688f12172779661fd8e0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 17/26] fix: edge! with a pair of vertices and a vec of
 attributes is an expression

---
 dot-generator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index 275fdcb..6cdd806 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -558,7 +558,7 @@ macro_rules! edge {
     }};
 
     ($l:expr => $r:expr, $attrs:expr) => {
-        Edge{ ty: EdgeTy::Pair(Vertex::from($l),Vertex::from($r)), attributes: $attrs };
+        Edge{ ty: EdgeTy::Pair(Vertex::from($l),Vertex::from($r)), attributes: $attrs }
     };
     ($l:expr => $r:expr; $($attrs:expr),+) => {{
          let mut attrs_vec = Vec::new();
-- 
2.43.0


From 382dc43a13d55f7d45961733e161e60afbdfee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 18/26] fix: pass the name graphviz has for the osage layout

---
 src/cmd.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cmd.rs b/src/cmd.rs
index 673beae..6f24612 100644
--- a/src/cmd.rs
+++ b/src/cmd.rs
@@ -122,7 +122,14 @@ impl CommandArg {
         match self {
             CommandArg::Custom(s) => s.clone(),
             CommandArg::Output(p) => format!("-o{}", p),
-            CommandArg::Layout(l) => format!("-K{}", format!("{:?}", l).to_lowercase()),
+            CommandArg::Layout(l) => {
+                let str = match l {
+                    // the name of the engine is osage
+                    Layout::Asage => "osage".to_string(),
+                    _ => format!("{:?}", l).to_lowercase(),
+                };
+                format!("-K{}", str)
+            }
             CommandArg::Format(f) => {
                 let str = match f {
                     Format::Xdot12 => "xdot1.2".to_string(),
-- 
2.43.0


From 5dabe76df031cb4dce05c461f0aa7a3cde758f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 19/26] fix: pass the name graphviz has for the wireless bitmap
 format

---
 src/cmd.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cmd.rs b/src/cmd.rs
index 6f24612..a737e54 100644
--- a/src/cmd.rs
+++ b/src/cmd.rs
@@ -139,6 +139,8 @@ impl CommandArg {
                     Format::DotJson => "dot_json".to_string(),
                     Format::XdotJson => "xdot_json".to_string(),
                     Format::PlainExt => "plain-ext".to_string(),
+                    // the name of the format is wbmp
+                    Format::Vbmp => "wbmp".to_string(),
                     _ => format!("{:?}", f).to_lowercase(),
                 };
                 format!("-T{}", str)
-- 
2.43.0


From 9063dcb4df2c40c72510abead445494caad113a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 20/26] fix: pass the path of the temporary file to dot
 unchanged

---
 src/cmd.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cmd.rs b/src/cmd.rs
index a737e54..dca0eb1 100644
--- a/src/cmd.rs
+++ b/src/cmd.rs
@@ -46,6 +46,7 @@
 //!
 //! [`dot` command line executable]: https://graphviz.org/doc/info/command.html
 use std::{
+    ffi::OsStr,
     io::{self, ErrorKind, Write},
     process::{Command, Output},
 };
@@ -56,7 +57,7 @@ pub(crate) fn exec(graph: String, args: Vec<CommandArg>) -> io::Result<Vec<u8>>
     let args = args.into_iter().map(|a| a.prepare()).collect();
     temp_file(graph).and_then(|f| {
         let path = f.into_temp_path();
-        do_exec(path.to_string_lossy().to_string(), args).and_then(|o| {
+        do_exec(path.as_os_str(), args).and_then(|o| {
             if o.status.code().map(|c| c != 0).unwrap_or(true) {
                 let mes = String::from_utf8_lossy(&o.stderr).to_string();
                 path.close()?;
@@ -69,7 +70,7 @@ pub(crate) fn exec(graph: String, args: Vec<CommandArg>) -> io::Result<Vec<u8>>
     })
 }
 
-fn do_exec(input: String, args: Vec<String>) -> io::Result<Output> {
+fn do_exec(input: &OsStr, args: Vec<String>) -> io::Result<Output> {
     let mut command = Command::new("dot");
 
     for arg in args {
-- 
2.43.0


From 58259921c40cfbcfaf13215042bd8b078b9d8213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 21/26] fix: quote the default values of the attributes that
 are not plain ids

---
 src/attributes/mod.rs | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/attributes/mod.rs b/src/attributes/mod.rs
index 16819f2..5b6f677 100644
--- a/src/attributes/mod.rs
+++ b/src/attributes/mod.rs
@@ -55,10 +55,10 @@ generate_attr!(enum arrowtail for EdgeAttributes;
 generate_attr!(struct arrowsize for EdgeAttributes; f32; 0.0);
 generate_attr!(struct bb for GraphAttributes; String);
 generate_attr!(struct center for GraphAttributes; bool;false);
-generate_attr!(struct charset for GraphAttributes; String;"UTF-8".to_string());
-generate_attr!(struct class for GraphAttributes,NodeAttributes,EdgeAttributes,SubgraphAttributes;String;"".to_string());
-generate_attr!(struct colorscheme for GraphAttributes,NodeAttributes,EdgeAttributes,SubgraphAttributes;String;"".to_string());
-generate_attr!(struct comment for GraphAttributes,NodeAttributes,EdgeAttributes;String;"".to_string());
+generate_attr!(struct charset for GraphAttributes; String;"\"UTF-8\"".to_string());
+generate_attr!(struct class for GraphAttributes,NodeAttributes,EdgeAttributes,SubgraphAttributes;String;"\"\"".to_string());
+generate_attr!(struct colorscheme for GraphAttributes,NodeAttributes,EdgeAttributes,SubgraphAttributes;String;"\"\"".to_string());
+generate_attr!(struct comment for GraphAttributes,NodeAttributes,EdgeAttributes;String;"\"\"".to_string());
 generate_attr!(struct compound for GraphAttributes;bool;false);
 generate_attr!(struct concentrate for GraphAttributes;bool;false);
 generate_attr!(struct Damping for GraphAttributes;f32;0.99);
@@ -79,37 +79,37 @@ generate_attr!(struct edgeURL for EdgeAttributes; String );
 generate_attr!(struct epsilon for GraphAttributes; f32);
 generate_attr!(struct esep for GraphAttributes; f32;3.0);
 generate_attr!(struct fixedsize for NodeAttributes; bool;false);
-generate_attr!(struct fontname for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"Times-Roman".to_string());
-generate_attr!(struct href for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"".to_string());
-generate_attr!(struct id for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"".to_string());
+generate_attr!(struct fontname for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"\"Times-Roman\"".to_string());
+generate_attr!(struct href for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"\"\"".to_string());
+generate_attr!(struct id for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"\"\"".to_string());
 generate_attr!(struct fontsize for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; f32;14.0);
-generate_attr!(struct fontnames for GraphAttributes; String;"".to_string());
+generate_attr!(struct fontnames for GraphAttributes; String;"\"\"".to_string());
 generate_attr!(struct fontpath for GraphAttributes; String;"<system-dependent>".to_string());
 generate_attr!(struct forcelabels for GraphAttributes; bool;true);
 generate_attr!(struct gradientangle for NodeAttributes,GraphAttributes,SubgraphAttributes; i32);
 generate_attr!(struct group for NodeAttributes; String);
 generate_attr!(struct head_lp for EdgeAttributes; String);
 generate_attr!(struct headclip for EdgeAttributes; bool;true);
-generate_attr!(struct headhref for EdgeAttributes; String;"".to_string());
-generate_attr!(struct headlabel for EdgeAttributes; String;"".to_string());
-generate_attr!(struct headtarget for EdgeAttributes; String;"".to_string());
-generate_attr!(struct headtooltip for EdgeAttributes; String;"".to_string());
-generate_attr!(struct headURL for EdgeAttributes; String;"".to_string());
+generate_attr!(struct headhref for EdgeAttributes; String;"\"\"".to_string());
+generate_attr!(struct headlabel for EdgeAttributes; String;"\"\"".to_string());
+generate_attr!(struct headtarget for EdgeAttributes; String;"\"\"".to_string());
+generate_attr!(struct headtooltip for EdgeAttributes; String;"\"\"".to_string());
+generate_attr!(struct headURL for EdgeAttributes; String;"\"\"".to_string());
 generate_attr!(struct height for NodeAttributes; f32;0.5);
-generate_attr!(struct image for NodeAttributes; String;"".to_string());
+generate_attr!(struct image for NodeAttributes; String;"\"\"".to_string());
 generate_attr!(struct imagepos for NodeAttributes; String;"mc".to_string());
 generate_attr!(struct imagescale for NodeAttributes; bool;false);
-generate_attr!(struct imagepath for GraphAttributes; String;"".to_string());
+generate_attr!(struct imagepath for GraphAttributes; String;"\"\"".to_string());
 generate_attr!(struct inputscale for GraphAttributes; f32);
 generate_attr!(struct K for GraphAttributes,SubgraphAttributes; f32;0.3);
-generate_attr!(struct label for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"".to_string());
+generate_attr!(struct label for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"\"\"".to_string());
 generate_attr!(struct label_scheme for  GraphAttributes; i32;0);
 generate_attr!(struct labelangle for  EdgeAttributes; f32;-25.0);
 generate_attr!(struct labeldistance for  EdgeAttributes; f32;1.0);
 generate_attr!(struct labelfloat for  EdgeAttributes; bool;false);
-generate_attr!(struct labelfontname for  EdgeAttributes; String;"Times-Roman".to_string());
+generate_attr!(struct labelfontname for  EdgeAttributes; String;"\"Times-Roman\"".to_string());
 generate_attr!(struct labelfontsize for  EdgeAttributes; f32;14.0);
-generate_attr!(struct labelhref for  EdgeAttributes; String;"".to_string());
+generate_attr!(struct labelhref for  EdgeAttributes; String;"\"\"".to_string());
 generate_attr!(struct labeljust for  GraphAttributes,SubgraphAttributes; String;"c".to_string());
 generate_attr!(struct labelloc for  GraphAttributes,SubgraphAttributes,NodeAttributes; String);
 generate_attr!(struct labeltarget for EdgeAttributes; String);
@@ -117,10 +117,10 @@ generate_attr!(struct labeltooltip for EdgeAttributes; String);
 generate_attr!(struct labelURL for EdgeAttributes; String);
 generate_attr!(struct landscape for GraphAttributes; bool;false);
 generate_attr!(struct layer for EdgeAttributes,NodeAttributes,SubgraphAttributes; String);
-generate_attr!(struct layerlistsep for GraphAttributes; String;",".to_string());
+generate_attr!(struct layerlistsep for GraphAttributes; String;"\",\"".to_string());
 generate_attr!(struct layers for GraphAttributes; String);
 generate_attr!(struct layerselect for GraphAttributes; String);
-generate_attr!(struct layersep for GraphAttributes; String;":\t ".to_string());
+generate_attr!(struct layersep for GraphAttributes; String;"\":\t \"".to_string());
 generate_attr!(struct layout for GraphAttributes; String);
 generate_attr!(struct len for EdgeAttributes; f32);
 generate_attr!(struct levels for GraphAttributes; i32);
-- 
2.43.0


From 7f7a88d1d37ce63c6853888cdea78edd74871341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 22/26] fix: give arrowsize the default graphviz documents

---
 src/attributes/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attributes/mod.rs b/src/attributes/mod.rs
index 5b6f677..6a3c993 100644
--- a/src/attributes/mod.rs
+++ b/src/attributes/mod.rs
@@ -52,7 +52,7 @@ generate_attr!(enum arrowtail for EdgeAttributes;
     normal
     //endregion
 );
-generate_attr!(struct arrowsize for EdgeAttributes; f32; 0.0);
+generate_attr!(struct arrowsize for EdgeAttributes; f32; 1.0);
 generate_attr!(struct bb for GraphAttributes; String);
 generate_attr!(struct center for GraphAttributes; bool;false);
 generate_attr!(struct charset for GraphAttributes; String;"\"UTF-8\"".to_string());
-- 
2.43.0


From e86cff3852af1b3a471a864529610ee05250d754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 23/26] fix: let the construction macros take any expression as
 a name or value

---
 dot-generator/src/lib.rs | 81 +++++++++++++++++++++++++++-------------
 1 file changed, 56 insertions(+), 25 deletions(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index 6cdd806..ccfb639 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -130,10 +130,12 @@ macro_rules! port {
 #[macro_export]
 macro_rules! node_id {
     () => {  NodeId(id!(),None) };
+    (html $e:expr) => { NodeId(id!(html $e),None) };
+    (html $e:expr, $p:expr) => { NodeId(id!(html $e),Some($p)) };
+    (esc $e:expr) => { NodeId(id!(esc $e),None) };
+    (esc $e:expr, $p:expr) => { NodeId(id!(esc $e),Some($p)) };
     ($e:expr) => { NodeId(id!($e),None) };
     ($e:expr, $p:expr) => { NodeId(id!($e),Some($p)) };
-    ($i:ident $e:expr) => { NodeId(id!($i$e),None) };
-    ($i:ident $e:expr, $p:expr) => { NodeId(id!($i$e),Some($p)) };
 }
 
 /// Constructs an id for node or subgraph.
@@ -192,9 +194,14 @@ macro_rules! id {
 /// ```
 #[macro_export]
 macro_rules! attr {
-    ($ik:ident $k:expr,$iv:ident $v:expr) => {Attribute(id!($ik $k),id!($iv $v))};
-    ($ik:ident $k:expr,$v:expr) => {Attribute(id!($ik $k),id!($v))};
-    ($k:expr, $iv:ident $v:expr) => {Attribute(id!($k),id!($iv $v))};
+    (html $k:expr,html $v:expr) => {Attribute(id!(html $k),id!(html $v))};
+    (html $k:expr,esc $v:expr) => {Attribute(id!(html $k),id!(esc $v))};
+    (html $k:expr,$v:expr) => {Attribute(id!(html $k),id!($v))};
+    (esc $k:expr,html $v:expr) => {Attribute(id!(esc $k),id!(html $v))};
+    (esc $k:expr,esc $v:expr) => {Attribute(id!(esc $k),id!(esc $v))};
+    (esc $k:expr,$v:expr) => {Attribute(id!(esc $k),id!($v))};
+    ($k:expr, html $v:expr) => {Attribute(id!($k),id!(html $v))};
+    ($k:expr, esc $v:expr) => {Attribute(id!($k),id!(esc $v))};
     ($k:expr,$v:expr) => {Attribute(id!($k),id!($v))}
 }
 
@@ -315,15 +322,22 @@ macro_rules! stmt {
 #[macro_export]
 macro_rules! subgraph {
     () => {Subgraph{id:id!(),stmts:vec![]}};
-    ($id:expr) => {Subgraph{id:id!($id),stmts:vec![]}};
-    ($i:ident $id:expr) => {Subgraph{id:id!($i$id),stmts:vec![]}};
-    ($id:expr, $stmts:expr) => {Subgraph{id:id!($id),stmts:$stmts}};
-    ($i:ident $id:expr, $stmts:expr) => {Subgraph{id:id!($i$id),stmts:$stmts}};
-    ($i:ident $id:expr; $($stmts:expr),+ ) => {{
+    (html $id:expr) => {Subgraph{id:id!(html $id),stmts:vec![]}};
+    (html $id:expr, $stmts:expr) => {Subgraph{id:id!(html $id),stmts:$stmts}};
+    (html $id:expr; $($stmts:expr),+ ) => {{
         let mut stmts_vec = Vec::new();
         $( stmts_vec.push(stmt!($stmts)) ; )+
-        Subgraph{id:id!($i$id),stmts:stmts_vec}
+        Subgraph{id:id!(html $id),stmts:stmts_vec}
     }};
+    (esc $id:expr) => {Subgraph{id:id!(esc $id),stmts:vec![]}};
+    (esc $id:expr, $stmts:expr) => {Subgraph{id:id!(esc $id),stmts:$stmts}};
+    (esc $id:expr; $($stmts:expr),+ ) => {{
+        let mut stmts_vec = Vec::new();
+        $( stmts_vec.push(stmt!($stmts)) ; )+
+        Subgraph{id:id!(esc $id),stmts:stmts_vec}
+    }};
+    ($id:expr) => {Subgraph{id:id!($id),stmts:vec![]}};
+    ($id:expr, $stmts:expr) => {Subgraph{id:id!($id),stmts:$stmts}};
     ($id:expr; $($stmts:expr),+ ) => {{
         let mut stmts_vec = Vec::new();
         $( stmts_vec.push(stmt!($stmts)) ; )+
@@ -451,31 +465,48 @@ macro_rules! attrs {
 #[macro_export]
 macro_rules! node {
     () => {Node::new(NodeId(id!(), None), vec![])};
-    ($i:ident $id:expr) => {Node::new(NodeId(id!($i$id), None), vec![])};
-    ($id:expr) => {Node::new(NodeId(id!($id), None), vec![])};
-    ($i:ident $id:expr; $($attr:expr),+ ) => {{
+    (html $id:expr) => {Node::new(NodeId(id!(html $id), None), vec![])};
+    (html $id:expr; $($attr:expr),+ ) => {{
         let mut attrs = Vec::new();
         $( attrs.push($attr) ; )+
-        Node::new(NodeId(id!($i$id), None), attrs)
+        Node::new(NodeId(id!(html $id), None), attrs)
     }};
-     ($i:ident $id:expr, $attrs:expr  ) => {
-        Node::new(NodeId(id!($i$id), None), $attrs)
+     (html $id:expr, $attrs:expr  ) => {
+        Node::new(NodeId(id!(html $id), None), $attrs)
     };
-    ($id:expr, $attrs:expr  ) => {
-        Node::new(NodeId(id!($id), None), $attrs)
+    (html $id:expr => $p:expr, $attrs:expr  ) => {
+        Node::new(NodeId(id!(html $id), Some($p)), $attrs)
     };
-    ( $id:expr; $($attr:expr),+ ) => {{
+    (html $id:expr => $p:expr; $($attr:expr),+ ) => {{
+        let mut attrs = Vec::new();
+         $( attrs.push($attr) ; )+
+        Node::new(NodeId(id!(html $id), Some($p)), attrs)
+    }};
+    (esc $id:expr) => {Node::new(NodeId(id!(esc $id), None), vec![])};
+    (esc $id:expr; $($attr:expr),+ ) => {{
         let mut attrs = Vec::new();
         $( attrs.push($attr) ; )+
-        Node::new(NodeId(id!( $id), None), attrs)
+        Node::new(NodeId(id!(esc $id), None), attrs)
     }};
-    ($i:ident $id:expr => $p:expr, $attrs:expr  ) => {
-        Node::new(NodeId(id!($i$id), Some($p)), $attrs)
+     (esc $id:expr, $attrs:expr  ) => {
+        Node::new(NodeId(id!(esc $id), None), $attrs)
+    };
+    (esc $id:expr => $p:expr, $attrs:expr  ) => {
+        Node::new(NodeId(id!(esc $id), Some($p)), $attrs)
     };
-    ($i:ident $id:expr => $p:expr; $($attr:expr),+ ) => {{
+    (esc $id:expr => $p:expr; $($attr:expr),+ ) => {{
         let mut attrs = Vec::new();
          $( attrs.push($attr) ; )+
-        Node::new(NodeId(id!($i$id), Some($p)), attrs)
+        Node::new(NodeId(id!(esc $id), Some($p)), attrs)
+    }};
+    ($id:expr) => {Node::new(NodeId(id!($id), None), vec![])};
+    ($id:expr, $attrs:expr  ) => {
+        Node::new(NodeId(id!($id), None), $attrs)
+    };
+    ( $id:expr; $($attr:expr),+ ) => {{
+        let mut attrs = Vec::new();
+        $( attrs.push($attr) ; )+
+        Node::new(NodeId(id!( $id), None), attrs)
     }};
     ( $id:expr => $p:expr, $attrs:expr  ) => {
         Node::new(NodeId(id!($id), Some($p)), $attrs)
-- 
2.43.0


From 3739e1ab639885b5c1a282be738320d60f9669b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 24/26] fix: accept a port without attributes in node!

---
 dot-generator/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index ccfb639..93b429a 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -474,6 +474,9 @@ macro_rules! node {
      (html $id:expr, $attrs:expr  ) => {
         Node::new(NodeId(id!(html $id), None), $attrs)
     };
+    (html $id:expr => $p:expr) => {
+        Node::new(NodeId(id!(html $id), Some($p)), vec![])
+    };
     (html $id:expr => $p:expr, $attrs:expr  ) => {
         Node::new(NodeId(id!(html $id), Some($p)), $attrs)
     };
@@ -491,6 +494,9 @@ macro_rules! node {
      (esc $id:expr, $attrs:expr  ) => {
         Node::new(NodeId(id!(esc $id), None), $attrs)
     };
+    (esc $id:expr => $p:expr) => {
+        Node::new(NodeId(id!(esc $id), Some($p)), vec![])
+    };
     (esc $id:expr => $p:expr, $attrs:expr  ) => {
         Node::new(NodeId(id!(esc $id), Some($p)), $attrs)
     };
@@ -508,6 +514,9 @@ macro_rules! node {
         $( attrs.push($attr) ; )+
         Node::new(NodeId(id!( $id), None), attrs)
     }};
+    ($id:expr => $p:expr) => {
+        Node::new(NodeId(id!($id), Some($p)), vec![])
+    };
     ( $id:expr => $p:expr, $attrs:expr  ) => {
         Node::new(NodeId(id!($id), Some($p)), $attrs)
     };
-- 
2.43.0


From 00ec18535c2c1ca338f55b2403c8d9ea5fc9b745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 25/26] fix: print edge chains in linear time

---
 src/printer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/printer.rs b/src/printer.rs
index 53b1016..b23e83f 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -458,7 +458,8 @@ fn print_edge(edge: &Edge, ctx: &mut PrinterContext) -> String {
             let h = iter.next().unwrap().print(ctx);
             let mut chain = h;
             for el in iter {
-                chain = format!("{} {} {}", chain, bond, el.print(ctx))
+                // appended in place: copying the chain for each vertex is quadratic
+                chain.push_str(&format!(" {} {}", bond, el.print(ctx)))
             }
             format!("{}{}", chain, attributes.print(ctx))
         }
-- 
2.43.0


From 8cf3c856326e1137ddc9c1ccccdc065212e29db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:13 +0000
Subject: [PATCH 26/26] fix: the derived attribute of a type with a raw name is
 named without r#

---
 into-attr-derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/into-attr-derive/src/lib.rs b/into-attr-derive/src/lib.rs
index 252b1fe..9f78543 100644
--- a/into-attr-derive/src/lib.rs
+++ b/into-attr-derive/src/lib.rs
@@ -5,7 +5,7 @@ use dot_generator::attr;
 use into_attr::IntoAttribute;
 use proc_macro::TokenStream;
 use quote::quote;
-use syn::{self, Data};
+use syn::{self, ext::IdentExt, Data};
 
 #[proc_macro_derive(IntoAttribute)]
 pub fn into_attr_derive(input: TokenStream) -> TokenStream {
@@ -15,7 +15,7 @@ pub fn into_attr_derive(input: TokenStream) -> TokenStream {
 
 fn impl_into_attr_macro(ast: &syn::DeriveInput) -> TokenStream {
     let name = &ast.ident;
-    let name_str = name.to_string();
+    let name_str = name.unraw().to_string();
     let gen = match &ast.data {
         Data::Enum(de) => {
             quote! {
-- 
2.43.0

