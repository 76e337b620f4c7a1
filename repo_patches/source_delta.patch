From 15d752970c60ed84eec9f99e9e0b02ecb8993244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 01/27] fix: resolve negative indices in singular queries from
 the end of the array

---
 serde_json_path_core/src/spec/selector/filter.rs |  5 +----
 serde_json_path_core/src/spec/selector/index.rs  | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index a81b831..75e40e6 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -561,10 +561,7 @@ impl SingularQuery {
                     }
                 }
                 SingularQuerySegment::Index(index) => {
-                    if let Some(t) = target
-                        .as_array()
-                        .and_then(|l| usize::try_from(index.0).ok().and_then(|i| l.get(i)))
-                    {
+                    if let Some(t) = target.as_array().and_then(|l| index.get(l)) {
                         target = t;
                     } else {
                         return None;
diff --git a/serde_json_path_core/src/spec/selector/index.rs b/serde_json_path_core/src/spec/selector/index.rs
index e64bae6..86836f1 100644
--- a/serde_json_path_core/src/spec/selector/index.rs
+++ b/serde_json_path_core/src/spec/selector/index.rs
@@ -19,6 +19,20 @@ impl std::fmt::Display for Index {
     }
 }
 
+impl Index {
+    /// Get the element of `list` selected by this index
+    ///
+    /// A negative index counts back from the end of the list.
+    pub(crate) fn get<'b>(&self, list: &'b [Value]) -> Option<&'b Value> {
+        let abs = usize::try_from(self.0.abs()).ok()?;
+        if self.0 < 0 {
+            list.len().checked_sub(abs).and_then(|i| list.get(i))
+        } else {
+            list.get(abs)
+        }
+    }
+}
+
 impl Queryable for Index {
     #[cfg_attr(feature = "trace", tracing::instrument(name = "Query Index", level = "trace", parent = None, ret))]
     fn query<'b>(&self, current: &'b Value, _root: &'b Value) -> Vec<&'b Value> {
-- 
2.43.0


From 78c0e1da7e91f12c0fd5a4b2ed0a440e18897829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 02/27] fix: print the negation of a function expression

---
 serde_json_path_core/src/spec/selector/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 75e40e6..50fe1ae 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -182,7 +182,7 @@ impl std::fmt::Display for BasicExpr {
             BasicExpr::Exist(exist) => write!(f, "{exist}"),
             BasicExpr::NotExist(exist) => write!(f, "!{exist}"),
             BasicExpr::FuncExpr(expr) => write!(f, "{expr}"),
-            BasicExpr::NotFuncExpr(expr) => write!(f, "{expr}"),
+            BasicExpr::NotFuncExpr(expr) => write!(f, "!{expr}"),
         }
     }
 }
-- 
2.43.0


From d39838816c74d51726229c1421d7588eeb36e1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 03/27] fix: do not panic on a query that ends inside a unicode
 escape

---
 serde_json_path/src/parser/primitive/string.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/primitive/string.rs b/serde_json_path/src/parser/primitive/string.rs
index bf7f61d..4c8d5f1 100644
--- a/serde_json_path/src/parser/primitive/string.rs
+++ b/serde_json_path/src/parser/primitive/string.rs
@@ -1,6 +1,5 @@
 use nom::bytes::complete::{tag, take_while};
-use nom::character::complete::{anychar, char};
-use nom::character::streaming::one_of;
+use nom::character::complete::{anychar, char, one_of};
 use nom::combinator::{cut, map, recognize, verify};
 use nom::error::context;
 use nom::sequence::{pair, separated_pair, tuple};
-- 
2.43.0


From d6201ac5c151cb7df7dc993178b893659f5a1dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 04/27] fix: accept lower case hex digits in a high surrogate

---
 serde_json_path/src/parser/primitive/string.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serde_json_path/src/parser/primitive/string.rs b/serde_json_path/src/parser/primitive/string.rs
index 4c8d5f1..db11538 100644
--- a/serde_json_path/src/parser/primitive/string.rs
+++ b/serde_json_path/src/parser/primitive/string.rs
@@ -70,7 +70,11 @@ fn parse_high_surrogate(input: &str) -> PResult<u16> {
     context(
         "high surrogate",
         map_res(
-            recognize(tuple((char('D'), one_of("89AB"), parse_n_hex_digits(2)))),
+            recognize(tuple((
+                one_of("Dd"),
+                one_of("89ABab"),
+                parse_n_hex_digits(2),
+            ))),
             |hex| u16::from_str_radix(hex, 16),
         ),
     )(input)
-- 
2.43.0


From 6b780a6398c7ba840a0fc39c7e0b997fbb098377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 05/27] fix: allow whitespace before a descendant segment

---
 serde_json_path/src/parser/segment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path/src/parser/segment.rs b/serde_json_path/src/parser/segment.rs
index 6ff4528..fa42ac2 100644
--- a/serde_json_path/src/parser/segment.rs
+++ b/serde_json_path/src/parser/segment.rs
@@ -112,7 +112,7 @@ fn parse_child_segment(input: &str) -> PResult<Segment> {
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_descendant_segment(input: &str) -> PResult<Segment> {
     preceded(
-        tag(".."),
+        pair(multispace0, tag("..")),
         alt((
             map(parse_wildcard_selector, |_| Segment::Wildcard),
             parse_child_long_hand,
-- 
2.43.0


From f657dc74064dcf486d5e89c830a29721247ae9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 06/27] fix: accept function names of a single character

---
 serde_json_path/src/parser/selector/function/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index d4aadfe..c8d046c 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -6,7 +6,7 @@ use nom::{
     branch::alt,
     character::complete::{multispace0, satisfy},
     combinator::map,
-    multi::fold_many1,
+    multi::fold_many0,
     sequence::{delimited, pair},
 };
 use serde_json_path_core::spec::functions::{
@@ -40,7 +40,7 @@ fn parse_function_name(input: &str) -> PResult<String> {
     map(
         pair(
             parse_function_name_first,
-            fold_many1(
+            fold_many0(
                 parse_function_name_char,
                 String::new,
                 |mut string, fragment| {
-- 
2.43.0


From f35ffab9f812841c87ffbb1a4ce036f96597efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 07/27] fix: report expected and received argument counts the
 right way around

---
 serde_json_path_macros/src/internal/common/define.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index 9902b8b..8dd5f06 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -78,8 +78,8 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
             std::boxed::Box::new(|a: &[#core::FunctionExprArg]| {
                 if a.len() != #args_len {
                     return #res::Err(#core::FunctionValidationError::NumberOfArgsMismatch {
-                        expected: a.len(),
-                        received: #args_len,
+                        expected: #args_len,
+                        received: a.len(),
                     });
                 }
                 #(#arg_checks)*
-- 
2.43.0


From 8a11ad496a286d7bb4880bc45b7eddba3a54e034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 08/27] fix: report an exact size hint from the location and
 node iterators

---
 serde_json_path_core/src/node.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serde_json_path_core/src/node.rs b/serde_json_path_core/src/node.rs
index 3b9577e..a1f1f0f 100644
--- a/serde_json_path_core/src/node.rs
+++ b/serde_json_path_core/src/node.rs
@@ -550,6 +550,10 @@ impl<'a> Iterator for Locations<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|l| l.location())
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for Locations<'_> {
@@ -580,6 +584,10 @@ impl<'a> Iterator for Nodes<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|l| l.node())
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for Nodes<'_> {
-- 
2.43.0


From 9cb1ea6ea964c72dcf766c40ee38b0d4416d8daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 09/27] fix: compare numbers nested in arrays and objects by
 value

---
 serde_json_path_core/src/spec/selector/filter.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 50fe1ae..2c55147 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -258,6 +258,14 @@ fn check_equal_to(left: &JsonPathValue, right: &JsonPathValue) -> bool {
 fn value_equal_to(left: &Value, right: &Value) -> bool {
     match (left, right) {
         (Value::Number(l), Value::Number(r)) => number_equal_to(l, r),
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| value_equal_to(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| value_equal_to(l, r)))
+        }
         _ => left == right,
     }
 }
-- 
2.43.0


From e0335af8007b811a4e6e45b32cf272b18ffbae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 10/27] fix: escape names in the string form of a normalized
 path

---
 serde_json_path_core/src/path.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/path.rs b/serde_json_path_core/src/path.rs
index d2c3d19..0828f07 100644
--- a/serde_json_path_core/src/path.rs
+++ b/serde_json_path_core/src/path.rs
@@ -192,7 +192,11 @@ impl Display for NormalizedPath<'_> {
         write!(f, "$")?;
         for elem in &self.0 {
             match elem {
-                PathElement::Name(name) => write!(f, "['{name}']")?,
+                PathElement::Name(name) => {
+                    write!(f, "[")?;
+                    write_single_quoted(f, name)?;
+                    write!(f, "]")?;
+                }
                 PathElement::Index(index) => write!(f, "[{index}]")?,
             }
         }
@@ -200,6 +204,27 @@ impl Display for NormalizedPath<'_> {
     }
 }
 
+/// Write a string as a single-quoted string literal, using the escapes of a [Normalized Path][norm]
+///
+/// [norm]: https://www.rfc-editor.org/rfc/rfc9535#section-2.7
+pub(crate) fn write_single_quoted(f: &mut std::fmt::Formatter<'_>, s: &str) -> std::fmt::Result {
+    write!(f, "'")?;
+    for c in s.chars() {
+        match c {
+            '\u{0008}' => write!(f, r"\b")?,
+            '\u{0009}' => write!(f, r"\t")?,
+            '\u{000A}' => write!(f, r"\n")?,
+            '\u{000C}' => write!(f, r"\f")?,
+            '\u{000D}' => write!(f, r"\r")?,
+            '\'' => write!(f, r"\'")?,
+            '\\' => write!(f, r"\\")?,
+            '\u{0000}'..='\u{001F}' => write!(f, "\\u{:04x}", u32::from(c))?,
+            _ => write!(f, "{c}")?,
+        }
+    }
+    write!(f, "'")
+}
+
 impl Serialize for NormalizedPath<'_> {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
     where
-- 
2.43.0


From 7da9163424766b7413fe379a0358925aa711e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 11/27] fix: escape every control character in the string form
 of a path element

---
 serde_json_path_core/src/path.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serde_json_path_core/src/path.rs b/serde_json_path_core/src/path.rs
index 0828f07..fdd3768 100644
--- a/serde_json_path_core/src/path.rs
+++ b/serde_json_path_core/src/path.rs
@@ -329,9 +329,9 @@ impl Display for PathElement<'_> {
                         '\u{0009}' => write!(f, r#"\t"#)?, // t HT horizontal tab
                         '\u{0027}' => write!(f, r#"\'"#)?, // ' apostrophe
                         '\u{005C}' => write!(f, r#"\"#)?,  // \ backslash (reverse solidus)
-                        ('\x00'..='\x07') | '\x0b' | '\x0e' | '\x0f' => {
-                            // "00"-"07", "0b", "0e"-"0f"
-                            write!(f, "\\u000{:x}", c as i32)?
+                        ('\x00'..='\x07') | '\x0b' | ('\x0e'..='\x1f') => {
+                            // "00"-"07", "0b", "0e"-"1f"
+                            write!(f, "\\u{:04x}", c as i32)?
                         }
                         _ => write!(f, "{c}")?,
                     }
-- 
2.43.0


From 2c3e17a8c396ad68f7cc60234cb92795955eda8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 12/27] fix: escape names and string literals in the string
 form of a query

---
 serde_json_path_core/src/spec/selector/filter.rs | 4 ++--
 serde_json_path_core/src/spec/selector/name.rs   | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 2c55147..cdbedb2 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -3,7 +3,7 @@ use serde_json::{Number, Value};
 
 use crate::{
     node::LocatedNode,
-    path::NormalizedPath,
+    path::{write_single_quoted, NormalizedPath},
     spec::{
         functions::{FunctionExpr, JsonPathValue, Validated},
         query::{Query, QueryKind, Queryable},
@@ -480,7 +480,7 @@ impl std::fmt::Display for Literal {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             Literal::Number(n) => write!(f, "{n}"),
-            Literal::String(s) => write!(f, "'{s}'"),
+            Literal::String(s) => write_single_quoted(f, s),
             Literal::Bool(b) => write!(f, "{b}"),
             Literal::Null => write!(f, "null"),
         }
diff --git a/serde_json_path_core/src/spec/selector/name.rs b/serde_json_path_core/src/spec/selector/name.rs
index 758ef66..2f83b90 100644
--- a/serde_json_path_core/src/spec/selector/name.rs
+++ b/serde_json_path_core/src/spec/selector/name.rs
@@ -1,7 +1,11 @@
 //! Name selector for selecting object keys in JSONPath
 use serde_json::Value;
 
-use crate::{node::LocatedNode, path::NormalizedPath, spec::query::Queryable};
+use crate::{
+    node::LocatedNode,
+    path::{write_single_quoted, NormalizedPath},
+    spec::query::Queryable,
+};
 
 /// Select a single JSON object key
 #[derive(Debug, PartialEq, Eq, Clone)]
@@ -16,7 +20,7 @@ impl Name {
 
 impl std::fmt::Display for Name {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "'{name}'", name = self.0)
+        write_single_quoted(f, &self.0)
     }
 }
 
-- 
2.43.0


From 244d86c9f63556a615c7ca869d504cbe5ad474d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 13/27] fix: accept functions whose name starts with a literal
 keyword in comparisons

---
 serde_json_path/src/parser/selector/filter.rs     | 15 ++++++++++-----
 .../src/parser/selector/function/mod.rs           |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/serde_json_path/src/parser/selector/filter.rs b/serde_json_path/src/parser/selector/filter.rs
index 40c332c..cf14b2c 100644
--- a/serde_json_path/src/parser/selector/filter.rs
+++ b/serde_json_path/src/parser/selector/filter.rs
@@ -1,7 +1,7 @@
 use nom::character::complete::{char, multispace0};
-use nom::combinator::{cut, map, map_res};
+use nom::combinator::{cut, map, map_res, not};
 use nom::multi::separated_list1;
-use nom::sequence::{delimited, pair, preceded, separated_pair, tuple};
+use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
 use nom::{branch::alt, bytes::complete::tag, combinator::value};
 use serde_json_path_core::spec::functions::{
     FunctionArgType, FunctionExpr, FunctionValidationError, Validated,
@@ -11,7 +11,7 @@ use serde_json_path_core::spec::selector::filter::{
     LogicalAndExpr, LogicalOrExpr, SingularQuery,
 };
 
-use super::function::parse_function_expr;
+use super::function::{parse_function_expr, parse_function_name_char};
 use crate::parser::primitive::number::parse_number;
 use crate::parser::primitive::string::parse_string_literal;
 use crate::parser::primitive::{parse_bool, parse_null};
@@ -146,13 +146,18 @@ fn parse_comparison_operator(input: &str) -> PResult<ComparisonOperator> {
     ))(input)
 }
 
+/// Succeed if the preceding keyword is not just the start of a function expression
+fn not_function(input: &str) -> PResult<()> {
+    not(alt((parse_function_name_char, char('('))))(input)
+}
+
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 pub(crate) fn parse_literal(input: &str) -> PResult<Literal> {
     alt((
         map(parse_string_literal, Literal::String),
         map(parse_number, Literal::Number),
-        map(parse_bool, Literal::Bool),
-        value(Literal::Null, parse_null),
+        map(terminated(parse_bool, not_function), Literal::Bool),
+        value(Literal::Null, terminated(parse_null, not_function)),
     ))(input)
 }
 
diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index c8d046c..a9c705f 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -27,7 +27,7 @@ fn parse_function_name_first(input: &str) -> PResult<char> {
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-fn parse_function_name_char(input: &str) -> PResult<char> {
+pub(crate) fn parse_function_name_char(input: &str) -> PResult<char> {
     alt((
         parse_function_name_first,
         char('_'),
-- 
2.43.0


From 18e789b08ac1fb643f4df0f6b884ce1a5c80f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 14/27] fix: accept logical expressions as function arguments

---
 .../src/parser/selector/function/mod.rs       | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index a9c705f..b609751 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -1,5 +1,5 @@
-use nom::character::complete::char;
-use nom::combinator::{cut, map_res};
+use nom::character::complete::{char, one_of};
+use nom::combinator::{cut, map_res, peek};
 use nom::multi::separated_list0;
 use nom::sequence::{preceded, terminated};
 use nom::{
@@ -55,11 +55,25 @@ fn parse_function_name(input: &str) -> PResult<String> {
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_function_argument(input: &str) -> PResult<FunctionExprArg> {
+    // Anything that goes on past one of the simple arguments is a logical expression:
+    let end_of_arg = || peek(preceded(multispace0, one_of(",)")));
+    let start_of_function = peek(pair(parse_function_name, char('(')));
     alt((
-        map(parse_literal, FunctionExprArg::Literal),
-        map(parse_singular_path, FunctionExprArg::SingularQuery),
-        map(parse_query, FunctionExprArg::FilterQuery),
-        map(parse_function_expr, FunctionExprArg::FunctionExpr),
+        terminated(
+            alt((
+                map(parse_literal, FunctionExprArg::Literal),
+                map(parse_singular_path, FunctionExprArg::SingularQuery),
+            )),
+            end_of_arg(),
+        ),
+        terminated(map(parse_query, FunctionExprArg::FilterQuery), end_of_arg()),
+        terminated(
+            preceded(
+                start_of_function,
+                map(parse_function_expr, FunctionExprArg::FunctionExpr),
+            ),
+            end_of_arg(),
+        ),
         map(parse_logical_or_expr, FunctionExprArg::LogicalExpr),
     ))(input)
 }
-- 
2.43.0


From 8779ca12c37ee33539d9ccfb6d5553b21820ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 15/27] fix: reject regular expressions that are only valid
 inside of the wrapping group

---
 .../src/parser/selector/function/registry.rs  | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/registry.rs b/serde_json_path/src/parser/selector/function/registry.rs
index 8174ca3..101ecfa 100644
--- a/serde_json_path/src/parser/selector/function/registry.rs
+++ b/serde_json_path/src/parser/selector/function/registry.rs
@@ -56,12 +56,11 @@ fn count(nodes: NodesType) -> ValueType {
 #[serde_json_path_macros::register(name = "match", target = MATCH_FUNC)]
 fn match_func(value: ValueType, rgx: ValueType) -> LogicalType {
     match (value.as_value(), rgx.as_value()) {
-        (Some(Value::String(s)), Some(Value::String(r))) => {
-            regex::Regex::new(format!("(?R)^({r})$").as_str())
-                .map(|r| r.is_match(s))
-                .map(Into::into)
-                .unwrap_or_default()
-        }
+        (Some(Value::String(s)), Some(Value::String(r))) => regex::Regex::new(r)
+            .and_then(|_| regex::Regex::new(format!("(?R)^({r})$").as_str()))
+            .map(|r| r.is_match(s))
+            .map(Into::into)
+            .unwrap_or_default(),
         _ => LogicalType::False,
     }
 }
@@ -70,12 +69,11 @@ fn match_func(value: ValueType, rgx: ValueType) -> LogicalType {
 #[serde_json_path_macros::register(target = SEARCH_FUNC)]
 fn search(value: ValueType, rgx: ValueType) -> LogicalType {
     match (value.as_value(), rgx.as_value()) {
-        (Some(Value::String(s)), Some(Value::String(r))) => {
-            regex::Regex::new(format!("(?R)({r})").as_str())
-                .map(|r| r.is_match(s))
-                .map(Into::into)
-                .unwrap_or_default()
-        }
+        (Some(Value::String(s)), Some(Value::String(r))) => regex::Regex::new(r)
+            .and_then(|_| regex::Regex::new(format!("(?R)({r})").as_str()))
+            .map(|r| r.is_match(s))
+            .map(Into::into)
+            .unwrap_or_default(),
         _ => LogicalType::False,
     }
 }
-- 
2.43.0


From 9942f1a3bf02339b113b6ff2fd21a0a766b7dc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 16/27] fix: order only numbers and strings, and let equality
 imply <= and >=

---
 .../src/spec/selector/filter.rs               | 34 +++----------------
 1 file changed, 4 insertions(+), 30 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index cdbedb2..113be37 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -300,25 +300,6 @@ fn check_less_than(left: &JsonPathValue, right: &JsonPathValue) -> bool {
     }
 }
 
-fn value_same_type(left: &Value, right: &Value) -> bool {
-    matches!((left, right), (Value::Null, Value::Null))
-        | matches!((left, right), (Value::Bool(_), Value::Bool(_)))
-        | matches!((left, right), (Value::Number(_), Value::Number(_)))
-        | matches!((left, right), (Value::String(_), Value::String(_)))
-        | matches!((left, right), (Value::Array(_), Value::Array(_)))
-        | matches!((left, right), (Value::Object(_), Value::Object(_)))
-}
-
-fn check_same_type(left: &JsonPathValue, right: &JsonPathValue) -> bool {
-    match (left, right) {
-        (JsonPathValue::Node(v1), JsonPathValue::Node(v2)) => value_same_type(v1, v2),
-        (JsonPathValue::Node(v1), JsonPathValue::Value(v2)) => value_same_type(v1, v2),
-        (JsonPathValue::Value(v1), JsonPathValue::Node(v2)) => value_same_type(v1, v2),
-        (JsonPathValue::Value(v1), JsonPathValue::Value(v2)) => value_same_type(v1, v2),
-        _ => false,
-    }
-}
-
 impl std::fmt::Display for ComparisonExpr {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(
@@ -339,20 +320,13 @@ impl TestFilter for ComparisonExpr {
         match self.op {
             ComparisonOperator::EqualTo => check_equal_to(&left, &right),
             ComparisonOperator::NotEqualTo => !check_equal_to(&left, &right),
-            ComparisonOperator::LessThan => {
-                check_same_type(&left, &right) && check_less_than(&left, &right)
-            }
-            ComparisonOperator::GreaterThan => {
-                check_same_type(&left, &right)
-                    && !check_less_than(&left, &right)
-                    && !check_equal_to(&left, &right)
-            }
+            ComparisonOperator::LessThan => check_less_than(&left, &right),
+            ComparisonOperator::GreaterThan => check_less_than(&right, &left),
             ComparisonOperator::LessThanEqualTo => {
-                check_same_type(&left, &right)
-                    && (check_less_than(&left, &right) || check_equal_to(&left, &right))
+                check_less_than(&left, &right) || check_equal_to(&left, &right)
             }
             ComparisonOperator::GreaterThanEqualTo => {
-                check_same_type(&left, &right) && !check_less_than(&left, &right)
+                check_less_than(&right, &left) || check_equal_to(&left, &right)
             }
         }
     }
-- 
2.43.0


From b0e80e3d117029fb9a23ad918b22be2e6135d702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 17/27] fix: name the right type when a logical value can not
 be converted

---
 serde_json_path_core/src/spec/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/functions.rs b/serde_json_path_core/src/spec/functions.rs
index 326e5fa..aab05bd 100644
--- a/serde_json_path_core/src/spec/functions.rs
+++ b/serde_json_path_core/src/spec/functions.rs
@@ -380,7 +380,7 @@ impl<'a> TryFrom<JsonPathValue<'a>> for ValueType<'a> {
                 to: JsonPathType::Value,
             }),
             JsonPathValue::Logical(_) => Err(ConversionError::IncompatibleTypes {
-                from: JsonPathType::Nodes,
+                from: JsonPathType::Logical,
                 to: JsonPathType::Value,
             }),
         }
-- 
2.43.0


From b6e8df74d97b9241ce430c26e11a96f1bef9db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 18/27] fix: print two dots, not three, before a shorthand
 descendant segment

---
 serde_json_path_core/src/spec/segment.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/segment.rs b/serde_json_path_core/src/spec/segment.rs
index 20e036e..84e55f9 100644
--- a/serde_json_path_core/src/spec/segment.rs
+++ b/serde_json_path_core/src/spec/segment.rs
@@ -29,7 +29,11 @@ impl QuerySegment {
 impl std::fmt::Display for QuerySegment {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if matches!(self.kind, QuerySegmentKind::Descendant) {
-            write!(f, "..")?;
+            // the shorthand segments bring one of the two dots
+            match self.segment {
+                Segment::LongHand(_) => write!(f, "..")?,
+                Segment::DotName(_) | Segment::Wildcard => write!(f, ".")?,
+            }
         }
         write!(f, "{segment}", segment = self.segment)
     }
-- 
2.43.0


From 4df67dc73c05c55b11854d577636ce7af8575d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:22 +0000
Subject: [PATCH 19/27] fix: accept calls of functions that take no arguments

---
 serde_json_path/src/parser/selector/function/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index b609751..ca9f9ad 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -1,5 +1,5 @@
 use nom::character::complete::{char, one_of};
-use nom::combinator::{cut, map_res, peek};
+use nom::combinator::{cut, map_res, not, peek};
 use nom::multi::separated_list0;
 use nom::sequence::{preceded, terminated};
 use nom::{
@@ -87,7 +87,8 @@ pub(crate) fn parse_function_expr(input: &str) -> PResult<FunctionExpr<Validated
                 terminated(char('('), multispace0),
                 separated_list0(
                     delimited(multispace0, char(','), multispace0),
-                    parse_function_argument,
+                    // Look ahead, as parsing an argument out of nothing is a failure:
+                    preceded(not(char(')')), parse_function_argument),
                 ),
                 preceded(multispace0, char(')')),
             ),
-- 
2.43.0


From ff2f3621d381dac7a505e0f2aada718828b06354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 20/27] Revert "fix: print two dots, not three, before a
 shorthand descendant segment"

This reverts commit b6e8df74d97b9241ce430c26e11a96f1bef9db47.
---
 serde_json_path_core/src/spec/segment.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/serde_json_path_core/src/spec/segment.rs b/serde_json_path_core/src/spec/segment.rs
index 84e55f9..20e036e 100644
--- a/serde_json_path_core/src/spec/segment.rs
+++ b/serde_json_path_core/src/spec/segment.rs
@@ -29,11 +29,7 @@ impl QuerySegment {
 impl std::fmt::Display for QuerySegment {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if matches!(self.kind, QuerySegmentKind::Descendant) {
-            // the shorthand segments bring one of the two dots
-            match self.segment {
-                Segment::LongHand(_) => write!(f, "..")?,
-                Segment::DotName(_) | Segment::Wildcard => write!(f, ".")?,
-            }
+            write!(f, "..")?;
         }
         write!(f, "{segment}", segment = self.segment)
     }
-- 
2.43.0


From f85753cd69f29c7a0449047dc125597abdce6a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 21/27] Revert "fix: name the right type when a logical value
 can not be converted"

This reverts commit b0e80e3d117029fb9a23ad918b22be2e6135d702.
---
 serde_json_path_core/src/spec/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/functions.rs b/serde_json_path_core/src/spec/functions.rs
index aab05bd..326e5fa 100644
--- a/serde_json_path_core/src/spec/functions.rs
+++ b/serde_json_path_core/src/spec/functions.rs
@@ -380,7 +380,7 @@ impl<'a> TryFrom<JsonPathValue<'a>> for ValueType<'a> {
                 to: JsonPathType::Value,
             }),
             JsonPathValue::Logical(_) => Err(ConversionError::IncompatibleTypes {
-                from: JsonPathType::Logical,
+                from: JsonPathType::Nodes,
                 to: JsonPathType::Value,
             }),
         }
-- 
2.43.0


From 85be2e584d42f3dd20b68fb371d9c5295cabac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 22/27] Revert "fix: order only numbers and strings, and let
 equality imply <= and >="

This reverts commit 9942f1a3bf02339b113b6ff2fd21a0a766b7dc52.
---
 .../src/spec/selector/filter.rs               | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 113be37..cdbedb2 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -300,6 +300,25 @@ fn check_less_than(left: &JsonPathValue, right: &JsonPathValue) -> bool {
     }
 }
 
+fn value_same_type(left: &Value, right: &Value) -> bool {
+    matches!((left, right), (Value::Null, Value::Null))
+        | matches!((left, right), (Value::Bool(_), Value::Bool(_)))
+        | matches!((left, right), (Value::Number(_), Value::Number(_)))
+        | matches!((left, right), (Value::String(_), Value::String(_)))
+        | matches!((left, right), (Value::Array(_), Value::Array(_)))
+        | matches!((left, right), (Value::Object(_), Value::Object(_)))
+}
+
+fn check_same_type(left: &JsonPathValue, right: &JsonPathValue) -> bool {
+    match (left, right) {
+        (JsonPathValue::Node(v1), JsonPathValue::Node(v2)) => value_same_type(v1, v2),
+        (JsonPathValue::Node(v1), JsonPathValue::Value(v2)) => value_same_type(v1, v2),
+        (JsonPathValue::Value(v1), JsonPathValue::Node(v2)) => value_same_type(v1, v2),
+        (JsonPathValue::Value(v1), JsonPathValue::Value(v2)) => value_same_type(v1, v2),
+        _ => false,
+    }
+}
+
 impl std::fmt::Display for ComparisonExpr {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(
@@ -320,13 +339,20 @@ impl TestFilter for ComparisonExpr {
         match self.op {
             ComparisonOperator::EqualTo => check_equal_to(&left, &right),
             ComparisonOperator::NotEqualTo => !check_equal_to(&left, &right),
-            ComparisonOperator::LessThan => check_less_than(&left, &right),
-            ComparisonOperator::GreaterThan => check_less_than(&right, &left),
+            ComparisonOperator::LessThan => {
+                check_same_type(&left, &right) && check_less_than(&left, &right)
+            }
+            ComparisonOperator::GreaterThan => {
+                check_same_type(&left, &right)
+                    && !check_less_than(&left, &right)
+                    && !check_equal_to(&left, &right)
+            }
             ComparisonOperator::LessThanEqualTo => {
-                check_less_than(&left, &right) || check_equal_to(&left, &right)
+                check_same_type(&left, &right)
+                    && (check_less_than(&left, &right) || check_equal_to(&left, &right))
             }
             ComparisonOperator::GreaterThanEqualTo => {
-                check_less_than(&right, &left) || check_equal_to(&left, &right)
+                check_same_type(&left, &right) && !check_less_than(&left, &right)
             }
         }
     }
-- 
2.43.0


From ea2a94d96c42c28ea2794d94e5ac5beb64a7ea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 23/27] Revert "fix: escape names and string literals in the
 string form of a query"

This reverts commit 2c3e17a8c396ad68f7cc60234cb92795955eda8d.
---
 serde_json_path_core/src/spec/selector/filter.rs | 4 ++--
 serde_json_path_core/src/spec/selector/name.rs   | 8 ++------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index cdbedb2..2c55147 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -3,7 +3,7 @@ use serde_json::{Number, Value};
 
 use crate::{
     node::LocatedNode,
-    path::{write_single_quoted, NormalizedPath},
+    path::NormalizedPath,
     spec::{
         functions::{FunctionExpr, JsonPathValue, Validated},
         query::{Query, QueryKind, Queryable},
@@ -480,7 +480,7 @@ impl std::fmt::Display for Literal {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             Literal::Number(n) => write!(f, "{n}"),
-            Literal::String(s) => write_single_quoted(f, s),
+            Literal::String(s) => write!(f, "'{s}'"),
             Literal::Bool(b) => write!(f, "{b}"),
             Literal::Null => write!(f, "null"),
         }
diff --git a/serde_json_path_core/src/spec/selector/name.rs b/serde_json_path_core/src/spec/selector/name.rs
index 2f83b90..758ef66 100644
--- a/serde_json_path_core/src/spec/selector/name.rs
+++ b/serde_json_path_core/src/spec/selector/name.rs
@@ -1,11 +1,7 @@
 //! Name selector for selecting object keys in JSONPath
 use serde_json::Value;
 
-use crate::{
-    node::LocatedNode,
-    path::{write_single_quoted, NormalizedPath},
-    spec::query::Queryable,
-};
+use crate::{node::LocatedNode, path::NormalizedPath, spec::query::Queryable};
 
 /// Select a single JSON object key
 #[derive(Debug, PartialEq, Eq, Clone)]
@@ -20,7 +16,7 @@ impl Name {
 
 impl std::fmt::Display for Name {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write_single_quoted(f, &self.0)
+        write!(f, "'{name}'", name = self.0)
     }
 }
 
-- 
2.43.0


From 0024420a6989f6b1e258a2cf5750bec18e285c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 24/27] Revert "fix: compare numbers nested in arrays and
 objects by value"

This reverts commit 9cb1ea6ea964c72dcf766c40ee38b0d4416d8daf.
---
 serde_json_path_core/src/spec/selector/filter.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 2c55147..50fe1ae 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -258,14 +258,6 @@ fn check_equal_to(left: &JsonPathValue, right: &JsonPathValue) -> bool {
 fn value_equal_to(left: &Value, right: &Value) -> bool {
     match (left, right) {
         (Value::Number(l), Value::Number(r)) => number_equal_to(l, r),
-        (Value::Array(l), Value::Array(r)) => {
-            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| value_equal_to(l, r))
-        }
-        (Value::Object(l), Value::Object(r)) => {
-            l.len() == r.len()
-                && l.iter()
-                    .all(|(k, l)| r.get(k).is_some_and(|r| value_equal_to(l, r)))
-        }
         _ => left == right,
     }
 }
-- 
2.43.0


From f1a6eaa23de4b6e5ae48e6121228ec3830f8d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 25/27] Revert "fix: print the negation of a function
 expression"

This reverts commit 78c0e1da7e91f12c0fd5a4b2ed0a440e18897829.
---
 serde_json_path_core/src/spec/selector/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 50fe1ae..75e40e6 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -182,7 +182,7 @@ impl std::fmt::Display for BasicExpr {
             BasicExpr::Exist(exist) => write!(f, "{exist}"),
             BasicExpr::NotExist(exist) => write!(f, "!{exist}"),
             BasicExpr::FuncExpr(expr) => write!(f, "{expr}"),
-            BasicExpr::NotFuncExpr(expr) => write!(f, "!{expr}"),
+            BasicExpr::NotFuncExpr(expr) => write!(f, "{expr}"),
         }
     }
 }
-- 
2.43.0


From 5ae6aacbfbc7a0a3f4b3da12321ac6cbdabd766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 26/27] Revert "fix: resolve negative indices in singular
 queries from the end of the array"

This reverts commit 15d752970c60ed84eec9f99e9e0b02ecb8993244.
---
 serde_json_path_core/src/spec/selector/filter.rs |  5 ++++-
 serde_json_path_core/src/spec/selector/index.rs  | 14 --------------
 2 files changed, 4 insertions(+), 15 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 75e40e6..a81b831 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -561,7 +561,10 @@ impl SingularQuery {
                     }
                 }
                 SingularQuerySegment::Index(index) => {
-                    if let Some(t) = target.as_array().and_then(|l| index.get(l)) {
+                    if let Some(t) = target
+                        .as_array()
+                        .and_then(|l| usize::try_from(index.0).ok().and_then(|i| l.get(i)))
+                    {
                         target = t;
                     } else {
                         return None;
diff --git a/serde_json_path_core/src/spec/selector/index.rs b/serde_json_path_core/src/spec/selector/index.rs
index 86836f1..e64bae6 100644
--- a/serde_json_path_core/src/spec/selector/index.rs
+++ b/serde_json_path_core/src/spec/selector/index.rs
@@ -19,20 +19,6 @@ impl std::fmt::Display for Index {
     }
 }
 
-impl Index {
-    /// Get the element of `list` selected by this index
-    ///
-    /// A negative index counts back from the end of the list.
-    pub(crate) fn get<'b>(&self, list: &'b [Value]) -> Option<&'b Value> {
-        let abs = usize::try_from(self.0.abs()).ok()?;
-        if self.0 < 0 {
-            list.len().checked_sub(abs).and_then(|i| list.get(i))
-        } else {
-            list.get(abs)
-        }
-    }
-}
-
 impl Queryable for Index {
     #[cfg_attr(feature = "trace", tracing::instrument(name = "Query Index", level = "trace", parent = None, ret))]
     fn query<'b>(&self, current: &'b Value, _root: &'b Value) -> Vec<&'b Value> {
-- 
2.43.0


From bfda1ff7ac29a53cce5c37a547d6f3ab47326a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 27/27] fix: parse nested queries and functions once, not once
 per alternative
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Where a basic expression or a function argument begins with a query or a
function, which alternative it belongs to shows only behind it. Trying the
alternatives one by one parsed it anew for each, and as it nests, parsing took
time exponential in the depth of the nesting: `$[?@[?@[?…` 22 deep took most of
a minute.
---
 serde_json_path/src/parser/selector/filter.rs | 123 ++++++++++++++++--
 .../src/parser/selector/function/mod.rs       |  54 +++++---
 2 files changed, 145 insertions(+), 32 deletions(-)

diff --git a/serde_json_path/src/parser/selector/filter.rs b/serde_json_path/src/parser/selector/filter.rs
index cf14b2c..795332d 100644
--- a/serde_json_path/src/parser/selector/filter.rs
+++ b/serde_json_path/src/parser/selector/filter.rs
@@ -1,22 +1,23 @@
 use nom::character::complete::{char, multispace0};
-use nom::combinator::{cut, map, map_res, not};
-use nom::multi::separated_list1;
+use nom::combinator::{cond, cut, map, map_res, not};
+use nom::multi::{many0, separated_list1};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
 use nom::{branch::alt, bytes::complete::tag, combinator::value};
 use serde_json_path_core::spec::functions::{
     FunctionArgType, FunctionExpr, FunctionValidationError, Validated,
 };
+use serde_json_path_core::spec::query::Query;
 use serde_json_path_core::spec::selector::filter::{
     BasicExpr, Comparable, ComparisonExpr, ComparisonOperator, ExistExpr, Filter, Literal,
-    LogicalAndExpr, LogicalOrExpr, SingularQuery,
+    LogicalAndExpr, LogicalOrExpr, NonSingularQueryError, SingularQuery,
 };
 
-use super::function::{parse_function_expr, parse_function_name_char};
+use super::function::{parse_function_expr, parse_function_name_char, peek_function_start};
 use crate::parser::primitive::number::parse_number;
 use crate::parser::primitive::string::parse_string_literal;
 use crate::parser::primitive::{parse_bool, parse_null};
 use crate::parser::utils::uncut;
-use crate::parser::{parse_query, PResult};
+use crate::parser::{parse_query, Error, FromInternalError, PResult};
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 pub(crate) fn parse_filter(input: &str) -> PResult<Filter> {
@@ -53,11 +54,6 @@ fn parse_exist_expr_inner(input: &str) -> PResult<ExistExpr> {
     map(parse_query, ExistExpr)(input)
 }
 
-#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-fn parse_exist_expr(input: &str) -> PResult<BasicExpr> {
-    map(parse_exist_expr_inner, BasicExpr::Exist)(input)
-}
-
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_not_exist_expr(input: &str) -> PResult<BasicExpr> {
     map(
@@ -68,10 +64,16 @@ fn parse_not_exist_expr(input: &str) -> PResult<BasicExpr> {
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_func_expr_inner(input: &str) -> PResult<FunctionExpr<Validated>> {
-    cut(map_res(parse_function_expr, |fe| match fe.return_type {
+    cut(map_res(parse_function_expr, check_func_expr))(input)
+}
+
+fn check_func_expr(
+    fe: FunctionExpr<Validated>,
+) -> Result<FunctionExpr<Validated>, FunctionValidationError> {
+    match fe.return_type {
         FunctionArgType::Logical | FunctionArgType::Nodelist => Ok(fe),
         _ => Err(FunctionValidationError::IncorrectFunctionReturnType),
-    }))(input)
+    }
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
@@ -114,14 +116,107 @@ fn parse_basic_expr(input: &str) -> PResult<BasicExpr> {
     alt((
         parse_not_parent_expr,
         parse_paren_expr,
-        map(parse_comp_expr, BasicExpr::Relation),
         parse_not_exist_expr,
-        parse_exist_expr,
         parse_not_func_expr,
+        parse_operand_expr,
+        // A literal, as anything else has been an operand:
+        map(parse_comp_expr, BasicExpr::Relation),
         parse_func_expr,
     ))(input)
 }
 
+/// A query or function, which may be compared, or be a test or argument on its own
+///
+/// These nest, so each is parsed once, and what follows it decides what it is; parsing it anew
+/// for every possibility would take time exponential in the depth of the nesting.
+pub(crate) enum Operand {
+    Query(Query),
+    Function(FunctionExpr<Validated>),
+}
+
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, err))]
+pub(crate) fn parse_operand(input: &str) -> PResult<Operand> {
+    alt((
+        map(parse_query, Operand::Query),
+        preceded(
+            peek_function_start,
+            map(parse_function_expr, Operand::Function),
+        ),
+    ))(input)
+}
+
+/// Parse what follows an operand that was parsed from the beginning of `input`
+fn parse_after_operand<'a>(
+    input: &'a str,
+    operand: Operand,
+    rest: &'a str,
+) -> PResult<'a, BasicExpr> {
+    let comparable = match &operand {
+        Operand::Query(q) => is_singular(q),
+        Operand::Function(fe) => matches!(fe.return_type, FunctionArgType::Value),
+    };
+    let comparison = preceded(
+        multispace0,
+        separated_pair(parse_comparison_operator, multispace0, parse_comparable),
+    );
+    match (cond(comparable, comparison)(rest), operand) {
+        (Ok((rest, Some((op, right)))), operand) => {
+            let left = match operand {
+                Operand::Query(q) => Comparable::SingularQuery(into_singular(input, q)?),
+                Operand::Function(fe) => Comparable::FunctionExpr(fe),
+            };
+            let relation = ComparisonExpr { left, op, right };
+            Ok((rest, BasicExpr::Relation(relation)))
+        }
+        (_, Operand::Query(q)) => Ok((rest, BasicExpr::Exist(ExistExpr(q)))),
+        (_, Operand::Function(fe)) => match check_func_expr(fe) {
+            Ok(fe) => Ok((rest, BasicExpr::FuncExpr(fe))),
+            Err(e) => Err(nom::Err::Failure(Error::from_internal_error(input, e))),
+        },
+    }
+}
+
+pub(crate) fn is_singular(query: &Query) -> bool {
+    let mut segments = query.segments.iter();
+    segments.all(|s| s.is_child() && s.segment.is_singular())
+}
+
+pub(crate) fn into_singular(
+    input: &str,
+    query: Query,
+) -> Result<SingularQuery, nom::Err<Error<&str>>> {
+    query
+        .try_into()
+        .map_err(|e: NonSingularQueryError| nom::Err::Failure(Error::from_internal_error(input, e)))
+}
+
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_operand_expr(input: &str) -> PResult<BasicExpr> {
+    let (rest, operand) = parse_operand(input)?;
+    parse_after_operand(input, operand, rest)
+}
+
+/// Parse the logical expression that goes on after an operand that was parsed from the beginning
+/// of `input`
+pub(crate) fn parse_logical_or_expr_after_operand<'a>(
+    input: &'a str,
+    operand: Operand,
+    rest: &'a str,
+) -> PResult<'a, LogicalOrExpr> {
+    let (rest, first) = parse_after_operand(input, operand, rest)?;
+    let (rest, mut and) = many0(preceded(
+        tuple((multispace0, tag("&&"), multispace0)),
+        parse_basic_expr,
+    ))(rest)?;
+    let (rest, mut or) = many0(preceded(
+        tuple((multispace0, tag("||"), multispace0)),
+        parse_logical_and,
+    ))(rest)?;
+    and.insert(0, first);
+    or.insert(0, LogicalAndExpr(and));
+    Ok((rest, LogicalOrExpr(or)))
+}
+
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_comp_expr(input: &str) -> PResult<ComparisonExpr> {
     map(
diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index ca9f9ad..c67adbd 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -15,11 +15,14 @@ use serde_json_path_core::spec::functions::{
 
 pub(crate) mod registry;
 
-use crate::parser::{parse_query, PResult};
+use crate::parser::PResult;
 
 use self::registry::REGISTRY;
 
-use super::filter::{parse_literal, parse_logical_or_expr, parse_singular_path};
+use super::filter::{
+    into_singular, is_singular, parse_literal, parse_logical_or_expr,
+    parse_logical_or_expr_after_operand, parse_operand, Operand,
+};
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_function_name_first(input: &str) -> PResult<char> {
@@ -53,27 +56,42 @@ fn parse_function_name(input: &str) -> PResult<String> {
     )(input)
 }
 
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+pub(crate) fn peek_function_start(input: &str) -> PResult<()> {
+    map(peek(pair(parse_function_name, char('('))), |_| ())(input)
+}
+
+// Anything that goes on past one of the simple arguments is a logical expression
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn peek_end_of_argument(input: &str) -> PResult<char> {
+    peek(preceded(multispace0, one_of(",)")))(input)
+}
+
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_operand_argument(input: &str) -> PResult<FunctionExprArg> {
+    let (rest, operand) = parse_operand(input)?;
+    if peek_end_of_argument(rest).is_err() {
+        return parse_logical_or_expr_after_operand(input, operand, rest)
+            .map(|(rest, expr)| (rest, FunctionExprArg::LogicalExpr(expr)));
+    }
+    let arg = match operand {
+        Operand::Query(q) if is_singular(&q) => {
+            FunctionExprArg::SingularQuery(into_singular(input, q)?)
+        }
+        Operand::Query(q) => FunctionExprArg::FilterQuery(q),
+        Operand::Function(fe) => FunctionExprArg::FunctionExpr(fe),
+    };
+    Ok((rest, arg))
+}
+
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_function_argument(input: &str) -> PResult<FunctionExprArg> {
-    // Anything that goes on past one of the simple arguments is a logical expression:
-    let end_of_arg = || peek(preceded(multispace0, one_of(",)")));
-    let start_of_function = peek(pair(parse_function_name, char('(')));
     alt((
         terminated(
-            alt((
-                map(parse_literal, FunctionExprArg::Literal),
-                map(parse_singular_path, FunctionExprArg::SingularQuery),
-            )),
-            end_of_arg(),
-        ),
-        terminated(map(parse_query, FunctionExprArg::FilterQuery), end_of_arg()),
-        terminated(
-            preceded(
-                start_of_function,
-                map(parse_function_expr, FunctionExprArg::FunctionExpr),
-            ),
-            end_of_arg(),
+            map(parse_literal, FunctionExprArg::Literal),
+            peek_end_of_argument,
         ),
+        parse_operand_argument,
         map(parse_logical_or_expr, FunctionExprArg::LogicalExpr),
     ))(input)
 }
-- 
2.43.0

