From abc816348a7c8ef03c03355f7a8979ee8a5476c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 01/20] fix: recognise two-letter compass points and only whole
 words

'a:p:ne' was parsed as port p, compass n and a node e, and 'a:p:nx' was accepted
as compass n and a node x.
---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 2226670..02cb325 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -14,7 +14,7 @@ html = ${"<" ~ (!(">" ~ WHITESPACE* ~">") ~ ANY)+ ~ ">" ~ WHITESPACE* ~ ">"}
 plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
 
 
-compass = ${"n" | "ne" | "e" | "se" | "s" | "sw" | "w" | "nw" | "c" | "_"}
+compass = ${("ne" | "nw" | "n" | "se" | "sw" | "s" | "e" | "w" | "c" | "_") ~ !(word | ASCII_DIGIT)}
 
 port = {":" ~ id ~ (":" ~ compass)? }
 id = {plain | html | string_qt}
-- 
2.43.0


From e86898c85156b7ca71331f386277caab37e9639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 02/20] fix: accept edge statements that start with a subgraph

'subgraph {a} -> b' was rejected, because the subgraph alternative of a statement
was taken before the edge was considered.
---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 02cb325..37379ac 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -31,7 +31,7 @@ edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
 vertex = { subgraph | node_id }
 subgraph = {"subgraph" ~ id? ~ body}
-stmt = {attr_stmt | subgraph | bare_attr | edge_stmt | node }
+stmt = {attr_stmt | subgraph ~ !arr | bare_attr | edge_stmt | node }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
 strict = {"strict"}
 graph_ty = {"graph" | "digraph"}
-- 
2.43.0


From d21effc7effbeedd6dbe5b090a969bdb81bd4d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 03/20] fix: read numerals as DOT defines them

'007' was split into three nodes 0, 0 and 7, and '1.' was rejected.
---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 37379ac..2dc8428 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -8,7 +8,7 @@ char = {
 }
 
 inner = ${ char* }
-number = ${"-"? ~ (("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*) ~ ("." ~ ASCII_DIGIT+)? | ("." ~ ASCII_DIGIT+))}
+number = ${"-"? ~ (ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT*)? | ("." ~ ASCII_DIGIT+))}
 string_qt = ${ "\"" ~ inner ~ "\"" }
 html = ${"<" ~ (!(">" ~ WHITESPACE* ~">") ~ ANY)+ ~ ">" ~ WHITESPACE* ~ ">"}
 plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
-- 
2.43.0


From 30e4c6de63267f37764f61b498d9c4af511ae11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 04/20] fix: end HTML strings at the matching bracket

An HTML string ended at the first '>>' wherever its brackets matched: '<b>' was not
an HTML string, and '[a=<x> b=<<y>>]' was read as one attribute.
---
 src/grammar/dot.pest | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 2dc8428..44340e5 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -10,7 +10,9 @@ char = {
 inner = ${ char* }
 number = ${"-"? ~ (ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT*)? | ("." ~ ASCII_DIGIT+))}
 string_qt = ${ "\"" ~ inner ~ "\"" }
-html = ${"<" ~ (!(">" ~ WHITESPACE* ~">") ~ ANY)+ ~ ">" ~ WHITESPACE* ~ ">"}
+html = ${"<" ~ (html_tag | html_char)* ~ ">"}
+html_tag = _{"<" ~ (html_tag | html_char)* ~ ">"}
+html_char = _{!("<" | ">") ~ ANY}
 plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
 
 
-- 
2.43.0


From 349a849f53b15ae54920dbb169238361e343a29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 05/20] fix: header keywords end at a word boundary

'graphs {}' was accepted as a graph named s, and 'strictgraph {}' as a strict graph.
---
 src/grammar/dot.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 44340e5..eed25aa 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -35,7 +35,7 @@ vertex = { subgraph | node_id }
 subgraph = {"subgraph" ~ id? ~ body}
 stmt = {attr_stmt | subgraph ~ !arr | bare_attr | edge_stmt | node }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
-strict = {"strict"}
-graph_ty = {"graph" | "digraph"}
+strict = ${"strict" ~ !(word | ASCII_DIGIT)}
+graph_ty = ${("graph" | "digraph") ~ !(word | ASCII_DIGIT)}
 graph = {strict? ~ graph_ty ~ id? ~ body}
 file = {SOI ~ graph ~ EOI }
\ No newline at end of file
-- 
2.43.0


From 990db132c01f72ca229a334cddcf34753bcbde0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 06/20] fix: a carriage return is white space on its own, as in
 DOT

---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index eed25aa..062e6cf 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -1,4 +1,4 @@
-WHITESPACE = _{ " " | "\t" | "\r\n" | "\n" }
+WHITESPACE = _{ " " | "\t" | "\r" | "\n" }
 COMMENT    = _{("/*" ~ (!"*/" ~ ANY)* ~ "*/") | (("#" | "//") ~ (!NEWLINE ~ ANY)* ~ NEWLINE?) }
 word = _{ ('a'..'z' | 'A'..'Z' | "_")+ }
 arr = _{"->" | "--"}
-- 
2.43.0


From aa829ffa826531ebac556f6219f002eddbd5fce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 07/20] fix: treat subgraph as a keyword

'subgraphx {}' was accepted as a subgraph named x, and the unquoted identifier
subgraph was accepted and printed, so that a node 'subgraph' followed by a
subgraph was read back as one subgraph named 'subgraph'.
---
 src/grammar/dot.pest | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 062e6cf..48c845e 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -13,7 +13,8 @@ string_qt = ${ "\"" ~ inner ~ "\"" }
 html = ${"<" ~ (html_tag | html_char)* ~ ">"}
 html_tag = _{"<" ~ (html_tag | html_char)* ~ ">"}
 html_char = _{!("<" | ">") ~ ANY}
-plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
+plain = ${!reserved ~ word ~ (word | ASCII_DIGIT)* | number}
+reserved = _{"subgraph" ~ !(word | ASCII_DIGIT)}
 
 
 compass = ${("ne" | "nw" | "n" | "se" | "sw" | "s" | "e" | "w" | "c" | "_") ~ !(word | ASCII_DIGIT)}
@@ -32,7 +33,7 @@ edge_tail = {arr ~ vertex}
 edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
 vertex = { subgraph | node_id }
-subgraph = {"subgraph" ~ id? ~ body}
+subgraph = {!plain ~ "subgraph" ~ id? ~ body}
 stmt = {attr_stmt | subgraph ~ !arr | bare_attr | edge_stmt | node }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
 strict = ${"strict" ~ !(word | ASCII_DIGIT)}
-- 
2.43.0


From e38f2ad2099582d7325259a9a38a4d91884ceef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 08/20] fix: keep statements apart when the line separator is
 empty

Inline output wrote "a" followed by "b" as "ab", which is another graph.
---
 src/printer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/printer.rs b/src/printer.rs
index 4903e2e..adcd6fb 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -389,7 +389,18 @@ impl DotPrinter for Graph {
 impl DotPrinter for Vec<Stmt> {
     fn print(&self, ctx: &mut PrinterContext) -> String {
         let attrs: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
-        attrs.join(ctx.l_s.as_str())
+        let mut text = String::new();
+        for (i, stmt) in attrs.iter().enumerate() {
+            if i > 0 {
+                text.push_str(&ctx.l_s);
+                // without a line separator two names would run together
+                if ctx.l_s.is_empty() && !text.ends_with(&[']', '}', ';'][..]) {
+                    text.push(' ');
+                }
+            }
+            text.push_str(stmt);
+        }
+        text
     }
 }
 
-- 
2.43.0


From fc2d2550e0e7e20f113d4373386929669563511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 09/20] fix: print an empty attribute statement with its
 brackets

A bare "node" is not an attribute statement.
---
 src/printer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/printer.rs b/src/printer.rs
index adcd6fb..bd2755e 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -298,6 +298,9 @@ impl DotPrinter for Vec<Attribute> {
 impl DotPrinter for GraphAttributes {
     fn print(&self, ctx: &mut PrinterContext) -> String {
         match self {
+            GraphAttributes::Graph(attrs) if attrs.is_empty() => "graph[]".to_string(),
+            GraphAttributes::Node(attrs) if attrs.is_empty() => "node[]".to_string(),
+            GraphAttributes::Edge(attrs) if attrs.is_empty() => "edge[]".to_string(),
             GraphAttributes::Graph(attrs) => format!("graph{}", attrs.print(ctx)),
             GraphAttributes::Node(attrs) => format!("node{}", attrs.print(ctx)),
             GraphAttributes::Edge(attrs) => format!("edge{}", attrs.print(ctx)),
-- 
2.43.0


From 023019601bbdf6b4ae3653edc58f0fab0a1992de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 10/20] fix: restore the indent after printing a graph

A second print with the same context was indented one step too deep.
---
 src/printer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/printer.rs b/src/printer.rs
index bd2755e..6f321b0 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -338,7 +338,7 @@ impl DotPrinter for Graph {
     fn print(&self, ctx: &mut PrinterContext) -> String {
         ctx.indent_grow();
 
-        match self {
+        let r = match self {
             Graph::Graph { id, strict, stmts } if *strict => {
                 ctx.is_digraph = false;
                 let body = stmts.print(ctx);
@@ -385,7 +385,9 @@ impl DotPrinter for Graph {
                     ctx.l_s
                 )
             }
-        }
+        };
+        ctx.indent_shrink();
+        r
     }
 }
 
-- 
2.43.0


From fba612fed79eb3352eea759c3bb48d62cb7505bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 11/20] fix: PrinterContext::new had its two line separators
 exchanged

Contexts built with it counted as inline from the start.
---
 src/printer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/printer.rs b/src/printer.rs
index 6f321b0..b49accc 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -136,8 +136,8 @@ impl PrinterContext {
             indent_step,
             inline_size,
             l_s: line_s.clone(),
-            l_s_i: line_s,
-            l_s_m: "".to_string(),
+            l_s_i: "".to_string(),
+            l_s_m: line_s,
             attr_value_printers: HashMap::new(),
         }
     }
-- 
2.43.0


From 408afd9c19407dbc49ed1c01a89065eeec0851a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 12/20] fix: pass the osage layout by its Graphviz name

---
 src/cmd.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cmd.rs b/src/cmd.rs
index 673beae..16dc69a 100644
--- a/src/cmd.rs
+++ b/src/cmd.rs
@@ -122,6 +122,8 @@ impl CommandArg {
         match self {
             CommandArg::Custom(s) => s.clone(),
             CommandArg::Output(p) => format!("-o{}", p),
+            // the variant is misspelt, the Graphviz layout is not
+            CommandArg::Layout(Layout::Asage) => "-Kosage".to_string(),
             CommandArg::Layout(l) => format!("-K{}", format!("{:?}", l).to_lowercase()),
             CommandArg::Format(f) => {
                 let str = match f {
-- 
2.43.0


From 63888a62ff4223b44de1e87854480e24946d3559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 13/20] fix: pass the wbmp format by its Graphviz name

---
 src/cmd.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmd.rs b/src/cmd.rs
index 16dc69a..7afdb33 100644
--- a/src/cmd.rs
+++ b/src/cmd.rs
@@ -134,6 +134,7 @@ impl CommandArg {
                     Format::DotJson => "dot_json".to_string(),
                     Format::XdotJson => "xdot_json".to_string(),
                     Format::PlainExt => "plain-ext".to_string(),
+                    Format::Vbmp => "wbmp".to_string(),
                     _ => format!("{:?}", f).to_lowercase(),
                 };
                 format!("-T{}", str)
-- 
2.43.0


From c849b9a27a7ac07d16b48b72408339eaf94cbcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 14/20] fix: graph!(di id) keeps the identifier it is given

The identifier was formatted and wrapped once more, so id!(esc "a") became
the plain identifier `esc "a"`.
---
 dot-generator/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index 0dcb7bf..a431c56 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -687,10 +687,10 @@ macro_rules! graph {
         Graph::Graph { id: $id, strict: false, stmts: vec![] }
     };
     (strict di $id:expr) => {
-        Graph::DiGraph { id: id!($id), strict: true, stmts: vec![] }
+        Graph::DiGraph { id: $id, strict: true, stmts: vec![] }
     };
     (di $id:expr) => {
-        Graph::DiGraph { id: id!($id), strict: false, stmts: vec![] }
+        Graph::DiGraph { id: $id, strict: false, stmts: vec![] }
     };
     (strict $id:expr, $stmts:expr) => {
         Graph::Graph { id: $id, strict: true, stmts: $stmts }
-- 
2.43.0


From d874842c46522353186e74b1aec02af3d3522651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 15/20] fix: edge! with a chain and a vector of attributes
 compiles

---
 dot-generator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index a431c56..275fdcb 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -576,7 +576,7 @@ macro_rules! edge {
     }};
     ($l:expr => $r:expr $(=> $nexts:expr)+ , $attrs:expr) => {{
 
-         let mut edges_vec = vec![Vertex::from($l),Vertex::from($r)]
+         let mut edges_vec = vec![Vertex::from($l),Vertex::from($r)];
          $( edges_vec.push(Vertex::from($nexts)) ; )+
 
         Edge{ ty: EdgeTy::Chain(edges_vec), attributes: $attrs }
-- 
2.43.0


From 09961e74912d04c5297965ae6c3c1c6302bd790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 16/20] fix: edge! with a pair and a vector of attributes is an
 expression

---
 dot-generator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index 275fdcb..6cdd806 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -558,7 +558,7 @@ macro_rules! edge {
     }};
 
     ($l:expr => $r:expr, $attrs:expr) => {
-        Edge{ ty: EdgeTy::Pair(Vertex::from($l),Vertex::from($r)), attributes: $attrs };
+        Edge{ ty: EdgeTy::Pair(Vertex::from($l),Vertex::from($r)), attributes: $attrs }
     };
     ($l:expr => $r:expr; $($attrs:expr),+) => {{
          let mut attrs_vec = Vec::new();
-- 
2.43.0


From 96b5305735d42ba705a48401710d81e8e117bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 17/20] fix: the edgehref attribute had a garbled name

---
 src/attributes/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attributes/mod.rs b/src/attributes/mod.rs
index 16819f2..dcaff60 100644
--- a/src/attributes/mod.rs
+++ b/src/attributes/mod.rs
@@ -72,7 +72,7 @@ generate_attr!(enum dir for EdgeAttributes; forward,back,both,none; forward);
 generate_attr!(struct diredgeconstraints for GraphAttributes; bool; false);
 generate_attr!(struct distortion for NodeAttributes; f32; 0.0);
 generate_attr!(struct dpi for GraphAttributes; f32; 96.0);
-generate_attr!(struct dedgehrefpi for EdgeAttributes; String);
+generate_attr!(struct edgehref for EdgeAttributes; String);
 generate_attr!(struct edgetarget for EdgeAttributes; String );
 generate_attr!(struct edgetooltip for EdgeAttributes; String );
 generate_attr!(struct edgeURL for EdgeAttributes; String );
-- 
2.43.0


From 83c8a68e32e7cef145d4cb8f3af64b33d72db388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 18/20] fix: the default arrow size is 1, as in Graphviz

---
 src/attributes/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attributes/mod.rs b/src/attributes/mod.rs
index dcaff60..11b200f 100644
--- a/src/attributes/mod.rs
+++ b/src/attributes/mod.rs
@@ -52,7 +52,7 @@ generate_attr!(enum arrowtail for EdgeAttributes;
     normal
     //endregion
 );
-generate_attr!(struct arrowsize for EdgeAttributes; f32; 0.0);
+generate_attr!(struct arrowsize for EdgeAttributes; f32; 1.0);
 generate_attr!(struct bb for GraphAttributes; String);
 generate_attr!(struct center for GraphAttributes; bool;false);
 generate_attr!(struct charset for GraphAttributes; String;"UTF-8".to_string());
-- 
2.43.0


From d6b689c721dde111394c4466c44fb6c8dae30486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 19/20] fix: pass the temporary file's path to dot unchanged,
 UTF-8 or not

---
 src/cmd.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cmd.rs b/src/cmd.rs
index 7afdb33..7512a26 100644
--- a/src/cmd.rs
+++ b/src/cmd.rs
@@ -47,6 +47,7 @@
 //! [`dot` command line executable]: https://graphviz.org/doc/info/command.html
 use std::{
     io::{self, ErrorKind, Write},
+    path::Path,
     process::{Command, Output},
 };
 
@@ -56,7 +57,7 @@ pub(crate) fn exec(graph: String, args: Vec<CommandArg>) -> io::Result<Vec<u8>>
     let args = args.into_iter().map(|a| a.prepare()).collect();
     temp_file(graph).and_then(|f| {
         let path = f.into_temp_path();
-        do_exec(path.to_string_lossy().to_string(), args).and_then(|o| {
+        do_exec(&path, args).and_then(|o| {
             if o.status.code().map(|c| c != 0).unwrap_or(true) {
                 let mes = String::from_utf8_lossy(&o.stderr).to_string();
                 path.close()?;
@@ -69,7 +70,7 @@ pub(crate) fn exec(graph: String, args: Vec<CommandArg>) -> io::Result<Vec<u8>>
     })
 }
 
-fn do_exec(input: String, args: Vec<String>) -> io::Result<Output> {
+fn do_exec(input: &Path, args: Vec<String>) -> io::Result<Output> {
     let mut command = Command::new("dot");
 
     for arg in args {
-- 
2.43.0


From 5f086be11263dae4d300f62748e80cf142521ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 20/20] fix: quote enumeration values that are DOT keywords
 (packmode node, graph)

---
 into-attr-derive/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/into-attr-derive/src/lib.rs b/into-attr-derive/src/lib.rs
index 252b1fe..d1f251d 100644
--- a/into-attr-derive/src/lib.rs
+++ b/into-attr-derive/src/lib.rs
@@ -23,7 +23,11 @@ fn impl_into_attr_macro(ast: &syn::DeriveInput) -> TokenStream {
                 fn into_attr(self)  -> Attribute {
                         let v = format!("{:?}",self);
                         let v =  v.as_str().strip_suffix("_").unwrap_or(v.as_str());
-                        attr!(#name_str,v)
+                        match v.to_lowercase().as_str() {
+                            // the keywords of the language are identifiers in quotes only
+                            "node" | "edge" | "graph" | "digraph" | "subgraph" | "strict" => attr!(#name_str,esc v),
+                            _ => attr!(#name_str,v)
+                        }
                 }
               }
             }
-- 
2.43.0

