From df75d8c8d17f58bda312382191b8cd87d6f139ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:03 +0000
Subject: [PATCH 01/19] fix: indent route configs nested deeper than seven
 levels

stringify() fell back to a fixed '--' indent from level 8 on, so the text
it produced (also quoted in the generated docs) no longer parsed.
---
 wayfinder/src/core/mod.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/wayfinder/src/core/mod.rs b/wayfinder/src/core/mod.rs
index 1bed836..ee80fc0 100644
--- a/wayfinder/src/core/mod.rs
+++ b/wayfinder/src/core/mod.rs
@@ -61,18 +61,8 @@ pub struct Routes {
     pub query_parameters: Vec<Param>,
 }
 
-fn indent(level: usize) -> &'static str {
-    match level {
-        0 => "",
-        1 => "  ",
-        2 => "    ",
-        3 => "      ",
-        4 => "        ",
-        5 => "          ",
-        6 => "            ",
-        7 => "              ",
-        _ => "              --",
-    }
+fn indent(level: usize) -> String {
+    "  ".repeat(level)
 }
 
 impl Routes {
-- 
2.43.0


From c6b13a5532621a045c856ee5e24c579aa3891cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:21 +0000
Subject: [PATCH 02/19] fix: bounds check for a one-byte literal next to a
 parameter

The generated matcher sliced path[i..i+1] under 'i <= len' and panicked
when the request path ended where the literal would have started.
---
 wayfinder/src/gen/gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 2cc4dc6..fa8a0c7 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -638,7 +638,7 @@ where
         );
 
         if match_len == 1 {
-            writeln!(w, "{}if i <= len {{", indent1)?;
+            writeln!(w, "{}if i < len {{", indent1)?;
         } else {
             writeln!(w, "{}if i + {} <= len {{", indent1, match_len)?;
         }
-- 
2.43.0


From b4bdd87e5fdae5fc8c5aa7df2bfda3717c146a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 03/19] fix: generate a matcher that compiles when one literal
 is a prefix of another

Siblings such as 'person' and 'personal' made the generator emit a
Some('/') pattern against a byte slice, which never compiles.
---
 wayfinder/src/gen/gen.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index fa8a0c7..6b562a3 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -665,6 +665,15 @@ where
     }
 
     // n.b. if we got here, the next character is ambiguous
+
+    // the path may also end here, just before a separator
+    let ending = trie.children.iter().find(|c| c.0 == Charlike::Separator);
+    if let Some(ref route) = ending.and_then(|c| c.1.data.as_ref()) {
+        if route.resources.len() != 0 {
+            write_methods(w, route, indent)?;
+        }
+    }
+
     writeln!(w, "{}if i == len {{", indent1)?;
     writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;
     writeln!(w, "{}}}", indent1)?;
@@ -689,7 +698,12 @@ where
                 break;
             }
             Charlike::Separator => {
-                writeln!(w, "{}Some('/') => {{}}", indent2)?;
+                writeln!(w, "{}b\"/\" => {{", indent2)?;
+                writeln!(w, "{}    i += 1;", indent2)?;
+
+                codegen_trie(w, &child.1, indent + 2)?;
+
+                writeln!(w, "{}}},", indent2)?;
             }
         }
     }
-- 
2.43.0


From f5a64515621bccc1c1319b6bb41e2de570f38913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:42 +0000
Subject: [PATCH 04/19] fix: generate a matcher that compiles for several
 literals next to a parameter

With more than one first letter among the literal siblings of a parameter
(or with one literal a prefix of another) the parameter's code was emitted
in the middle of a match block, so the generated module did not compile.
Compare the whole segment with each of the literals instead.
---
 wayfinder/src/gen/gen.rs | 75 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 68 insertions(+), 7 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 6b562a3..b7589af 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -626,6 +626,54 @@ where
         (s, l, t)
     };
 
+    // does one literal end where another one goes on?
+    let has_prefix = next.children.len() > 1
+        && next.children.iter().any(|c| c.0 == Charlike::Separator);
+
+    if has_dynamic && (unambiguous == "" || has_prefix) {
+        // n.b. if we got here, any of several literals could come next, and
+        // only a whole segment can tell them from the dynamic
+        let mut literals = vec![];
+        collect_literals(trie, String::new(), &mut literals);
+
+        writeln!(
+            w,
+            "{}match path[i..].split(|b| *b == b'/').next().unwrap_or(b\"\") {{",
+            indent1
+        )?;
+
+        for (literal, child) in literals {
+            writeln!(w, "{}b\"{}\" => {{", indent2, literal)?;
+            writeln!(w, "{}    i += {};", indent2, literal.len())?;
+
+            match child.data {
+                Some(ref route) if route.resources.len() != 0 => {
+                    write_methods(w, route, indent + 2)?;
+                }
+                _ => {}
+            }
+            writeln!(w, "{}    if i == len {{", indent2)?;
+            writeln!(w, "{}        return Ok(Match::NotFound);", indent2)?;
+            writeln!(w, "{}    }}", indent2)?;
+            writeln!(w, "{}    i += 1;", indent2)?;
+
+            codegen_trie(w, child, indent + 2)?;
+
+            writeln!(w, "{}}},", indent2)?;
+        }
+
+        writeln!(w, "{}_ => {{}},", indent2)?;
+        writeln!(w, "{}}}", indent1)?;
+
+        if let Charlike::Dynamic(ref name) = dynamic.unwrap().0 {
+            write_dynamic(w, &dynamic.unwrap().1, indent, name)?;
+        } else {
+            unreachable!();
+        }
+
+        return Ok(());
+    }
+
     let match_len = if l == 0 { 1 } else { l };
 
     if unambiguous != "" {
@@ -690,13 +738,7 @@ where
 
                 writeln!(w, "{}}},", indent2)?;
             }
-            Charlike::Dynamic(ref p) => {
-                write_dynamic(w, &child.1, indent, p)?;
-
-                // No further routes will possibly match.
-                // TODO: is this true still?
-                break;
-            }
+            Charlike::Dynamic(_) => unreachable!(),
             Charlike::Separator => {
                 writeln!(w, "{}b\"/\" => {{", indent2)?;
                 writeln!(w, "{}    i += 1;", indent2)?;
@@ -715,6 +757,25 @@ where
     Ok(())
 }
 
+// finds the literal segments below a node, each with what follows its separator
+fn collect_literals<'a>(
+    trie: &'a Trie<Charlike, FlattenedRoute>,
+    prefix: String,
+    literals: &mut Vec<(String, &'a Trie<Charlike, FlattenedRoute>)>,
+) {
+    for (segment, child) in trie.children.iter() {
+        match segment {
+            Charlike::Static(ch) => {
+                let mut literal = prefix.clone();
+                literal.push(*ch);
+                collect_literals(child, literal, literals);
+            }
+            Charlike::Separator => literals.push((prefix.clone(), child)),
+            Charlike::Dynamic(_) => {}
+        }
+    }
+}
+
 fn write_methods<W>(w: &mut W, route: &FlattenedRoute, indent: usize) -> io::Result<()>
 where
     W: Write,
-- 
2.43.0


From 2625546d4854fe992d00e0c6ce905e0e47986dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:44 +0000
Subject: [PATCH 05/19] fix: refuse two different parameters at the same
 position

Next to a literal the second parameter and all the routes below it were
silently left out of the matcher; now generation fails.
---
 wayfinder/src/gen/gen.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index b7589af..2d08d98 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -574,6 +574,17 @@ where
 
     // n.b. if we got here, trie.children.len() > 1
 
+    let dynamics = trie.children.iter().filter(|c| match c.0 {
+        Charlike::Dynamic(_) => true,
+        _ => false,
+    });
+    if dynamics.count() > 1 {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "two different parameters at the same position",
+        ));
+    }
+
     let dynamic = trie.children.iter().find(|c| match c.0 {
         Charlike::Dynamic(_) => true,
         _ => false,
-- 
2.43.0


From 7defcd29373b29bc760dc385600bcb0fe1885746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 06/19] fix: refuse two resources for the same method and path

The second one was silently unreachable; now generation fails, as it does
for duplicate paths and duplicate handlers.
---
 wayfinder/src/gen/gen.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 2d08d98..db714e3 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -799,7 +799,14 @@ where
     writeln!(w, "{}if i == len {{", indent1)?;
     writeln!(w, "{}    match method {{", indent1)?;
 
-    for resource in route.resources.iter() {
+    for (n, resource) in route.resources.iter().enumerate() {
+        if route.resources[..n].iter().any(|r| r.method == resource.method) {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                format!("two {} resources for the same path", resource.method),
+            ));
+        }
+
         let (path, route_nest, close_parens) = {
             let mut path = String::new();
             let mut accum = String::new();
-- 
2.43.0


From f8ba4ac63036dafd9cd38a6360e8cb8367224f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:07 +0000
Subject: [PATCH 07/19] fix: keep parameters from shadowing the matcher's own
 variables

A path parameter called len, i, start, path, method or text replaced the
variable of that name in the generated matcher: requests were misrouted or
panicked, parameters got a wrong value, or the module did not compile.
---
 wayfinder/src/gen/gen.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index db714e3..24a35ba 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -835,7 +835,12 @@ where
         )?;
 
         for param in route.path.dynamics() {
-            writeln!(w, "{}            {},", indent1, param.name)?;
+            let local = local_name(&param.name);
+            if local == param.name {
+                writeln!(w, "{}            {},", indent1, param.name)?;
+            } else {
+                writeln!(w, "{}            {}: {},", indent1, param.name, local)?;
+            }
         }
         for param in route.query_parameters.iter() {
             writeln!(w, "{}            {}: None,", indent1, param.name)?;
@@ -854,6 +859,14 @@ where
     Ok(())
 }
 
+// the matcher's own locals must not be shadowed by a parameter
+fn local_name(param: &str) -> String {
+    match param {
+        "method" | "path" | "len" | "i" | "start" | "text" => format!("__{}", param),
+        _ => param.to_string(),
+    }
+}
+
 // assumes that a None case has already been written
 fn write_dynamic<W>(
     w: &mut W,
@@ -881,7 +894,7 @@ where
         "{}let text = std::str::from_utf8(&path[start..i]).unwrap();",
         indent1
     )?;
-    writeln!(w, "{}let {} = text.parse()", indent1, name)?;
+    writeln!(w, "{}let {} = text.parse()", indent1, local_name(name))?;
     writeln!(
         w,
         "{}    .map_err(|e| Error::fail(\"{}\", e))?;",
-- 
2.43.0


From e8a6b3021bcb7400807876b5b8f6abd07d3ba809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:24 +0000
Subject: [PATCH 08/19] fix: generate a router for a config without any routes

codegen panicked on an empty Routes (an underflowing slice), and the
match over the empty Route enum would not have compiled.
---
 wayfinder/src/gen/gen.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 24a35ba..4bb803f 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -248,7 +248,11 @@ where
         indent
     )?;
     writeln!(w, "{}    pub fn to_path(&self) -> String {{", indent)?;
-    writeln!(w, "{}        match self {{", indent)?;
+    if module.actions.is_empty() && module.modules.is_empty() {
+        writeln!(w, "{}        match *self {{", indent)?;
+    } else {
+        writeln!(w, "{}        match self {{", indent)?;
+    }
 
     for action in module.actions.iter() {
         writeln!(
@@ -300,7 +304,10 @@ where
     writeln!(w, "    //! /")?;
 
     let stringified_config = str::replace(&route_config.routes.stringify(1), "\n", "\n    //! ");
-    let stringified_config = &stringified_config[..stringified_config.len() - 8];
+    let stringified_config = match stringified_config.len() {
+        0 => "\n",
+        len => &stringified_config[..len - 8],
+    };
     write!(w, "    //! {}", stringified_config)?;
     writeln!(w, "    //! ```")?;
     writeln!(w, "    //!")?;
-- 
2.43.0


From 18a8698ab17787662c7a10a48fc7167f4aa0b545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 09/19] fix: report parse errors at the text that could not be
 parsed

Errors without a context list, such as trailing text that fits nowhere,
were always reported at line 1.
---
 wayfinder/src/parse/errors.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wayfinder/src/parse/errors.rs b/wayfinder/src/parse/errors.rs
index 7baf9e4..0891da9 100644
--- a/wayfinder/src/parse/errors.rs
+++ b/wayfinder/src/parse/errors.rs
@@ -46,8 +46,9 @@ where
 {
     match result {
         Ok(_) => (),
-        Err(Err::Error(Context::Code(_before, e))) => {
-            show_error(out, buf, 0, &format!("error {:?}", e), prefix);
+        Err(Err::Error(Context::Code(before, e))) => {
+            let pos = buf.len() - before.len();
+            show_error(out, buf, pos, &format!("error {:?}", e), prefix);
         }
         Err(Err::Error(Context::List(mut v))) => {
             v.reverse();
-- 
2.43.0


From a1e1b667bee57c414de1629c332dbf27cbb2bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 10/19] fix: accept header lines that are Rust comments

The header may be any Rust code, but a line starting with // or /* ended
it and the file was rejected.
---
 wayfinder/src/parse/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wayfinder/src/parse/mod.rs b/wayfinder/src/parse/mod.rs
index aeef37a..4defe2b 100644
--- a/wayfinder/src/parse/mod.rs
+++ b/wayfinder/src/parse/mod.rs
@@ -7,8 +7,8 @@ use lazy_static::lazy_static;
 use nom::types::CompleteStr;
 use nom::{
     alt_complete, apply, char, complete, count, delimited, do_parse, eof, line_ending, many0,
-    many1, named, not, not_line_ending, pair, preceded, recognize, return_error, tag, tag_no_case,
-    take_while1, terminated, value, ws, IResult,
+    many1, named, not, not_line_ending, one_of, pair, preceded, recognize, return_error, tag,
+    tag_no_case, take_while1, terminated, value, ws, IResult,
 };
 
 use crate::core::*;
@@ -194,7 +194,10 @@ pub fn nested_routes(input: CompleteStr, level: usize) -> IResult<CompleteStr, N
 named!(pub header<CompleteStr, Header>,
     do_parse!(
         text: terminated!(
-            recognize!(pair!(not!(char!('/')), many0!(not_line_ending))),
+            recognize!(pair!(
+                not!(pair!(char!('/'), not!(one_of!("/*")))),
+                many0!(not_line_ending)
+            )),
             many1!(line_ending)
         ) >>
         (Header::new(text))
-- 
2.43.0


From e3432342be8183acb41d923dd4718294f5cf7f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:19 +0000
Subject: [PATCH 11/19] fix: report a failure to write the end of the output to
 standard out

---
 wayfinder/src/build/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wayfinder/src/build/mod.rs b/wayfinder/src/build/mod.rs
index 55bafb1..d94620d 100644
--- a/wayfinder/src/build/mod.rs
+++ b/wayfinder/src/build/mod.rs
@@ -192,7 +192,7 @@ impl Builder {
             }
         };
 
-        match codegen(&mut output, &input) {
+        match codegen(&mut output, &input).and_then(|_| output.flush()) {
             Ok(_) => {}
             Err(e) => {
                 fail!("Error generating code: {}", e);
-- 
2.43.0


From e167c9053597a9b111800c5b25bd72215a5a6ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:57 +0000
Subject: [PATCH 12/19] fix: generate a matcher that compiles for literal
 segments beyond ASCII

---
 wayfinder/src/gen/flat.rs |  4 ++--
 wayfinder/src/gen/gen.rs  | 36 ++++++++++++++++++++++--------------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/wayfinder/src/gen/flat.rs b/wayfinder/src/gen/flat.rs
index 1b9c33b..f188125 100644
--- a/wayfinder/src/gen/flat.rs
+++ b/wayfinder/src/gen/flat.rs
@@ -5,7 +5,7 @@ use crate::gen::trie::*;
 
 #[derive(Debug, Clone, PartialOrd, Ord, PartialEq, Eq)]
 pub enum Charlike {
-    Static(char),
+    Static(u8),
     Dynamic(String), // the param name
     Separator,
 }
@@ -21,7 +21,7 @@ impl FlattenedPath {
             .iter()
             .map(|segment| match segment {
                 PathSegment::Static(s) => Either::Left(
-                    s.chars()
+                    s.bytes()
                         .map(Charlike::Static)
                         .chain(std::iter::once(Charlike::Separator)),
                 ),
diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 4bb803f..0016a70 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -87,7 +87,7 @@ where
             };
             match ch {
                 Charlike::Static(s) => {
-                    write!(w, "{}", s)?;
+                    w.write_all(&[s])?;
                 }
                 Charlike::Dynamic(ref p) => {
                     write!(w, "{{{}}}", p)?;
@@ -164,7 +164,7 @@ where
             };
             match ch {
                 Charlike::Static(s) => {
-                    write!(w, "{}", s)?;
+                    w.write_all(&[s])?;
                 }
                 Charlike::Dynamic(_) => {
                     write!(w, "{{}}")?;
@@ -534,8 +534,7 @@ where
             }
             Charlike::Static(ch) => {
                 // find unambiguous match
-                let mut unambiguous = String::new();
-                unambiguous.push(*ch);
+                let mut unambiguous = vec![*ch];
 
                 let mut child = child;
 
@@ -561,7 +560,7 @@ where
 
                 // check it
                 writeln!(w, "{}match &path[i..i+{}] {{", indent1, match_len)?;
-                writeln!(w, "{}    b\"{}\" => {{", indent1, unambiguous)?; // TODO quotes in paths - invalid, but??
+                writeln!(w, "{}    b\"{}\" => {{", indent1, escape(&unambiguous))?; // TODO quotes in paths - invalid, but??
                 writeln!(w, "{}        i += {};", indent1, match_len)?;
                 writeln!(w, "{}    }},", indent1)?;
                 writeln!(w, "{}    _ => return Ok(Match::NotFound),", indent1)?;
@@ -609,7 +608,7 @@ where
 
     let (unambiguous, l, next) = {
         let mut l = 0;
-        let mut s = String::new();
+        let mut s = vec![];
         let mut t = trie;
 
         loop {
@@ -648,11 +647,11 @@ where
     let has_prefix = next.children.len() > 1
         && next.children.iter().any(|c| c.0 == Charlike::Separator);
 
-    if has_dynamic && (unambiguous == "" || has_prefix) {
+    if has_dynamic && (unambiguous.is_empty() || has_prefix) {
         // n.b. if we got here, any of several literals could come next, and
         // only a whole segment can tell them from the dynamic
         let mut literals = vec![];
-        collect_literals(trie, String::new(), &mut literals);
+        collect_literals(trie, vec![], &mut literals);
 
         writeln!(
             w,
@@ -661,7 +660,7 @@ where
         )?;
 
         for (literal, child) in literals {
-            writeln!(w, "{}b\"{}\" => {{", indent2, literal)?;
+            writeln!(w, "{}b\"{}\" => {{", indent2, escape(&literal))?;
             writeln!(w, "{}    i += {};", indent2, literal.len())?;
 
             match child.data {
@@ -694,7 +693,7 @@ where
 
     let match_len = if l == 0 { 1 } else { l };
 
-    if unambiguous != "" {
+    if !unambiguous.is_empty() {
         // n.b. if we got here, the next bit is unambiguous save a dynamic
 
         // TODO: refactor code to make this clearer!
@@ -710,7 +709,7 @@ where
         }
 
         writeln!(w, "{}match &path[i..i+{}] {{", indent2, match_len)?;
-        writeln!(w, "{}    b\"{}\" => {{", indent2, unambiguous)?; // TODO: quotes in paths - invalid, but??
+        writeln!(w, "{}    b\"{}\" => {{", indent2, escape(&unambiguous))?; // TODO: quotes in paths - invalid, but??
         writeln!(w, "{}        i += {};", indent2, match_len)?;
 
         codegen_trie(w, next, indent + 3)?;
@@ -749,7 +748,7 @@ where
     for child in trie.children.iter() {
         match child.0 {
             Charlike::Static(c) => {
-                writeln!(w, "{}b\"{}\" => {{", indent2, c)?;
+                writeln!(w, "{}b\"{}\" => {{", indent2, escape(&[c]))?;
                 writeln!(w, "{}    i += 1;", indent2)?;
 
                 codegen_trie(w, &child.1, indent + 2)?;
@@ -775,11 +774,20 @@ where
     Ok(())
 }
 
+// the contents of a byte string literal
+fn escape(bytes: &[u8]) -> String {
+    bytes
+        .iter()
+        .flat_map(|b| std::ascii::escape_default(*b))
+        .map(char::from)
+        .collect()
+}
+
 // finds the literal segments below a node, each with what follows its separator
 fn collect_literals<'a>(
     trie: &'a Trie<Charlike, FlattenedRoute>,
-    prefix: String,
-    literals: &mut Vec<(String, &'a Trie<Charlike, FlattenedRoute>)>,
+    prefix: Vec<u8>,
+    literals: &mut Vec<(Vec<u8>, &'a Trie<Charlike, FlattenedRoute>)>,
 ) {
     for (segment, child) in trie.children.iter() {
         match segment {
-- 
2.43.0


From f92f629cebbf2fa405b7a150703741e3005ca154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:50 +0000
Subject: [PATCH 13/19] fix: add long paths to the trie without recursing once
 per byte

---
 wayfinder/src/gen/trie.rs | 46 +++++++++++++++------------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/wayfinder/src/gen/trie.rs b/wayfinder/src/gen/trie.rs
index c205e45..b9395cd 100644
--- a/wayfinder/src/gen/trie.rs
+++ b/wayfinder/src/gen/trie.rs
@@ -45,39 +45,27 @@ impl<K: Ord + Clone, V> Trie<K, V> {
         path: P,
         data: V,
     ) -> Result<Trie<K, V>, (Trie<K, V>, V)> {
-        let mut path = path.into_iter();
-        let c = path.next();
+        let mut node = &mut self;
 
-        // If we've consumed the whole path, this is the node.
-        if c.is_none() {
-            if self.data.is_some() {
-                return Err((self, data));
-            } else {
-                self.data = Some(data);
-                return Ok(self);
-            }
+        // Follow the path, making any missing links along the way.
+        for c in path {
+            let i = match node.children.binary_search_by_key(&c, |p| p.0.clone()) {
+                Ok(i) => i,
+                Err(i) => {
+                    node.children.insert(i, (c, Trie::new()));
+                    i
+                }
+            };
+            node = &mut node.children[i].1;
         }
-        let c = c.unwrap();
 
-        // Let's see if any of the outbound links are a candidate.
-        match self.children.binary_search_by_key(&c, |p| p.0.clone()) {
-            // No candidate link, so make one.
-            Err(i) => {
-                let new_child = Trie::new();
-                new_child.add(path, data).map(|tr| {
-                    self.children.insert(i, (c, tr));
-                    self
-                })
-            }
-            // We found a link.
-            Ok(i) => {
-                let (_, tr) = self.children.remove(i);
-                tr.add(path, data).map(|tr| {
-                    self.children.insert(i, (c, tr));
-                    self
-                })
-            }
+        // We've consumed the whole path, so this is the node.
+        if node.data.is_some() {
+            return Err((self, data));
         }
+
+        node.data = Some(data);
+        Ok(self)
     }
 }
 
-- 
2.43.0


From 50b5c69ac77696328649ac2398794cfff8138d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:46 +0000
Subject: [PATCH 14/19] fix: generate all code before touching the output of a
 build

---
 wayfinder/src/build/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wayfinder/src/build/mod.rs b/wayfinder/src/build/mod.rs
index d94620d..0f10309 100644
--- a/wayfinder/src/build/mod.rs
+++ b/wayfinder/src/build/mod.rs
@@ -177,6 +177,12 @@ impl Builder {
             }
         };
 
+        // n.b. before the output is touched, as codegen refuses some configurations
+        let mut code = vec![];
+        if let Err(e) = codegen(&mut code, &input) {
+            fail!("Error generating code: {}", e);
+        }
+
         let mut output = match target {
             Target::Stdout => Either::Left(std::io::stdout()),
             Target::File(filename) => {
@@ -192,10 +198,10 @@ impl Builder {
             }
         };
 
-        match codegen(&mut output, &input).and_then(|_| output.flush()) {
+        match output.write_all(&code).and_then(|_| output.flush()) {
             Ok(_) => {}
             Err(e) => {
-                fail!("Error generating code: {}", e);
+                fail!("Error writing generated code: {}", e);
             }
         }
     }
-- 
2.43.0


From 5d8bdbc8f00b21540a722d312ab0c1410e41eba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:29 +0000
Subject: [PATCH 15/19] fix: generate raw identifiers for parameters and
 modules named like keywords

---
 wayfinder/src/gen/gen.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 0016a70..f84a054 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -112,13 +112,13 @@ where
             writeln!(w, " {{")?;
 
             for param in action.route_parameters.iter() {
-                writeln!(w, "{}    pub {}: {},", indent, param.name, param.typ)?;
+                writeln!(w, "{}    pub {}: {},", indent, ident(&param.name), param.typ)?;
             }
             for param in action.query_parameters.iter() {
                 writeln!(
                     w,
                     "{}    pub {}: Option<{}>,",
-                    indent, param.name, param.typ
+                    indent, ident(&param.name), param.typ
                 )?;
             }
 
@@ -144,11 +144,11 @@ where
             )?;
 
             for param in action.route_parameters.iter() {
-                write!(w, "ref {}, ", param.name)?;
+                write!(w, "ref {}, ", ident(&param.name))?;
             }
 
             for param in action.query_parameters.iter() {
-                write!(w, "ref {}, ", param.name)?;
+                write!(w, "ref {}, ", ident(&param.name))?;
             }
 
             writeln!(w, "}} = self;")?;
@@ -181,7 +181,7 @@ where
         write!(w, "\"")?;
 
         for param in action.route_parameters.iter() {
-            write!(w, ", {}", param.name)?;
+            write!(w, ", {}", ident(&param.name))?;
         }
 
         writeln!(w, ")")?;
@@ -192,7 +192,7 @@ where
     }
 
     for module in module.modules.iter() {
-        writeln!(w, "{}pub mod {} {{", indent, to_snake_case(&module.name))?;
+        writeln!(w, "{}pub mod {} {{", indent, ident(&to_snake_case(&module.name)))?;
 
         codegen_module(w, &module, &headers, &format!("{}    ", indent))?;
 
@@ -233,7 +233,7 @@ where
             "{}    {}({}::Route),",
             indent,
             to_caps_case(&module.name),
-            to_snake_case(&module.name)
+            ident(&to_snake_case(&module.name))
         )?;
     }
 
@@ -828,7 +828,7 @@ where
             let mut parens = String::new();
             for module in resource.modules.iter() {
                 accum.push_str(&format!("{}Route::{}(", path, to_caps_case(module)));
-                path.push_str(&format!("{}::", to_snake_case(module)));
+                path.push_str(&format!("{}::", ident(&to_snake_case(module))));
                 parens.push(')');
             }
             (path, accum, parens)
@@ -852,16 +852,16 @@ where
         for param in route.path.dynamics() {
             let local = local_name(&param.name);
             if local == param.name {
-                writeln!(w, "{}            {},", indent1, param.name)?;
+                writeln!(w, "{}            {},", indent1, ident(&param.name))?;
             } else {
                 writeln!(w, "{}            {}: {},", indent1, param.name, local)?;
             }
         }
         for param in route.query_parameters.iter() {
-            writeln!(w, "{}            {}: None,", indent1, param.name)?;
+            writeln!(w, "{}            {}: None,", indent1, ident(&param.name))?;
         }
         for param in resource.query_parameters.iter() {
-            writeln!(w, "{}            {}: None,", indent1, param.name)?;
+            writeln!(w, "{}            {}: None,", indent1, ident(&param.name))?;
         }
 
         writeln!(w, "{}        }}{}))),", indent1, close_parens)?;
@@ -874,6 +874,19 @@ where
     Ok(())
 }
 
+// a name as an identifier, which is raw if the name is a keyword
+fn ident(name: &str) -> String {
+    match name {
+        "abstract" | "as" | "async" | "await" | "become" | "box" | "break" | "const" | "continue"
+        | "do" | "dyn" | "else" | "enum" | "extern" | "false" | "final" | "fn" | "for" | "gen"
+        | "if" | "impl" | "in" | "let" | "loop" | "macro" | "match" | "mod" | "move" | "mut"
+        | "override" | "priv" | "pub" | "ref" | "return" | "static" | "struct" | "trait"
+        | "true" | "try" | "type" | "typeof" | "unsafe" | "unsized" | "use" | "virtual"
+        | "where" | "while" | "yield" => format!("r#{}", name),
+        _ => name.to_string(),
+    }
+}
+
 // the matcher's own locals must not be shadowed by a parameter
 fn local_name(param: &str) -> String {
     match param {
@@ -909,7 +922,7 @@ where
         "{}let text = std::str::from_utf8(&path[start..i]).unwrap();",
         indent1
     )?;
-    writeln!(w, "{}let {} = text.parse()", indent1, local_name(name))?;
+    writeln!(w, "{}let {} = text.parse()", indent1, ident(&local_name(name)))?;
     writeln!(
         w,
         "{}    .map_err(|e| Error::fail(\"{}\", e))?;",
-- 
2.43.0


From 861986ba9162e24b1ee7061c0997050003da8562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:27 +0000
Subject: [PATCH 16/19] fix: accept any file name in the command line tool

---
 wayfinder-cmd/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wayfinder-cmd/src/main.rs b/wayfinder-cmd/src/main.rs
index 58bdfb7..e377fa3 100644
--- a/wayfinder-cmd/src/main.rs
+++ b/wayfinder-cmd/src/main.rs
@@ -1,9 +1,9 @@
 use wayfinder::build::Builder;
 
 fn main() {
-    let args = std::env::args().collect::<Vec<_>>();
+    let args = std::env::args_os().collect::<Vec<_>>();
     if args.len() < 2 {
-        eprintln!("Usage: {} ROUTE_FILE", args[0]);
+        eprintln!("Usage: {} ROUTE_FILE", args[0].to_string_lossy());
         return;
     }
 
-- 
2.43.0


From 6b95a91348d3d8e8ce501e411fbeef4a36c48bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:57 +0000
Subject: [PATCH 17/19] fix: generate code that compiles for capitalized
 parameter names

---
 wayfinder/src/gen/gen.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index f84a054..9f9beeb 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -143,12 +143,13 @@ where
                 to_caps_case(&action.name)
             )?;
 
-            for param in action.route_parameters.iter() {
-                write!(w, "ref {}, ", ident(&param.name))?;
-            }
-
-            for param in action.query_parameters.iter() {
-                write!(w, "ref {}, ", ident(&param.name))?;
+            for param in action.route_parameters.iter().chain(action.query_parameters.iter()) {
+                let local = pattern_name(&param.name);
+                if local == param.name {
+                    write!(w, "ref {}, ", ident(&param.name))?;
+                } else {
+                    write!(w, "{}: ref {}, ", param.name, local)?;
+                }
             }
 
             writeln!(w, "}} = self;")?;
@@ -181,7 +182,7 @@ where
         write!(w, "\"")?;
 
         for param in action.route_parameters.iter() {
-            write!(w, ", {}", ident(&param.name))?;
+            write!(w, ", {}", ident(&pattern_name(&param.name)))?;
         }
 
         writeln!(w, ")")?;
@@ -891,7 +892,16 @@ fn ident(name: &str) -> String {
 fn local_name(param: &str) -> String {
     match param {
         "method" | "path" | "len" | "i" | "start" | "text" => format!("__{}", param),
-        _ => param.to_string(),
+        _ => pattern_name(param),
+    }
+}
+
+// in a pattern, a capitalized name could be that of a constant or a struct
+fn pattern_name(param: &str) -> String {
+    if param.starts_with(char::is_uppercase) {
+        format!("__{}", param)
+    } else {
+        param.to_string()
     }
 }
 
-- 
2.43.0


From b3a1df25ef8bfc83d0b4bcb899b39110874562a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:19 +0000
Subject: [PATCH 18/19] fix: header: read each line once, so many header lines
 take linear time

Repeating not_line_ending until it matches nothing compared all the rest of
the file with itself once for every line.
---
 wayfinder/src/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wayfinder/src/parse/mod.rs b/wayfinder/src/parse/mod.rs
index 4defe2b..4b75b77 100644
--- a/wayfinder/src/parse/mod.rs
+++ b/wayfinder/src/parse/mod.rs
@@ -196,7 +196,7 @@ named!(pub header<CompleteStr, Header>,
         text: terminated!(
             recognize!(pair!(
                 not!(pair!(char!('/'), not!(one_of!("/*")))),
-                many0!(not_line_ending)
+                not_line_ending
             )),
             many1!(line_ending)
         ) >>
-- 
2.43.0


From 358cd66969b2ea3c59d0dda67f6a7a087c7686ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:16 +0000
Subject: [PATCH 19/19] fix: a parameter whose name begins with two underscores
 is not taken for another's local

{path: String} and {__path: String} on one path gave both fields one value, and
{Id: u32} beside {__Id: u32} did not compile.
---
 wayfinder/src/gen/gen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 9f9beeb..58f0749 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -897,8 +897,9 @@ fn local_name(param: &str) -> String {
 }
 
 // in a pattern, a capitalized name could be that of a constant or a struct
+// (and a name that begins like these must not be taken for one of them)
 fn pattern_name(param: &str) -> String {
-    if param.starts_with(char::is_uppercase) {
+    if param.starts_with(char::is_uppercase) || param.starts_with("__") {
         format!("__{}", param)
     } else {
         param.to_string()
-- 
2.43.0

