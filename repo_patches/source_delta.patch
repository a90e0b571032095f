From 97685c02104741fe7645a0bcd2b0e5b2deb77462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:55 +0000
Subject: [PATCH 01/16] fix: return InvalidLength when the padding of an opaque
 payload is missing

read_bytes() checked that the payload was present but then advanced past the
padding as well, so a message ending inside the padding panicked in
Bytes::advance().
---
 src/header.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index bd6e379..9e8a1ee 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -133,8 +133,9 @@ pub mod xdr {
 
         /// Try to read an opaque XDR array with a fixed length and padded modulo 4.
         fn read_bytes(&mut self, n: usize) -> Result<Self::Sliced, Error> {
-            // Validate the buffer contains enough data
-            if self.remaining() < n {
+            // Validate the buffer contains enough data, including any padding.
+            let remaining = self.remaining();
+            if remaining < n || remaining - n < pad_length(n) {
                 return Err(Error::InvalidLength);
             }
 
-- 
2.43.0


From 9fab9e77b47b2291d82aa64b82af556a48983b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:25 +0000
Subject: [PATCH 02/16] fix: do not trust the element count of a counted array

read_variable_array() reserved memory for the number of elements claimed on the
wire before decoding any of them, so a 4 byte message could request gigabytes
(or overflow the capacity and panic). Reject counts that exceed the bytes
present, grow the Vec as elements are decoded, and check the trailing padding is
present before skipping it.
---
 src/header.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index 9e8a1ee..b80d80d 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -159,9 +159,17 @@ pub mod xdr {
                 }
             }
 
+            // Every element occupies at least one byte on the wire.
+            if size_of::<T>() != 0 && n > self.remaining() {
+                return Err(Error::InvalidLength);
+            }
+
             // Try and decode n instances of T.
+            //
+            // The element count is untrusted, so memory is allocated only as
+            // elements are decoded.
             let mut sum = 0;
-            let mut out = Vec::with_capacity(n);
+            let mut out = Vec::new();
             for _ in 0..n {
                 let t = T::try_from(self.clone())?;
                 if self.remaining() < t.wire_size() {
@@ -172,6 +180,9 @@ pub mod xdr {
                 out.push(t);
             }
 
+            if self.remaining() < pad_length(sum) {
+                return Err(Error::InvalidLength);
+            }
             self.advance(pad_length(sum));
 
             Ok(out)
-- 
2.43.0


From 76cec48b4a1a657c5f38907737b68b98c4092222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:40 +0000
Subject: [PATCH 03/16] fix: include the length prefix of inline counted opaque
 fields in wire_size()

A struct field declared `opaque f<>` or `opaque f<N>` was sized as payload plus
padding, without the 4 byte length prefix that is on the wire.
---
 src/impls/wire_size.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 3395dde..fb9ba36 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -1,5 +1,5 @@
 use super::{NonDigitName, SafeName};
-use crate::ast::{indexes::AstType, Ast, BasicType};
+use crate::ast::{indexes::AstType, ArrayType, Ast, BasicType};
 use crate::impls::template::*;
 use crate::Result;
 
@@ -22,6 +22,11 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                                 r#" pad_length(self.{}.wire_size()) +"#,
                                 SafeName(&f.field_name)
                             )?;
+
+                            // Counted opaques carry a length prefix
+                            if let ArrayType::VariableSize(..) = f.field_value {
+                                writeln!(w, "4 +")?;
+                            }
                         }
                     }
 
-- 
2.43.0


From 1834b8f216d400e105132970809a9e24b47d93fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:57 +0000
Subject: [PATCH 04/16] fix: do not count a length prefix for fixed opaque
 typedefs in wire_size()

`typedef opaque x[N]` has no length prefix on the wire, but wire_size() added 4
for it as if it were counted.
---
 src/impls/wire_size.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index fb9ba36..686a3ee 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -95,9 +95,15 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                         writeln!(w, "self.0.wire_size()")?;
 
                         // If the target is opaque, it needs padding, and a
-                        // length prefix adding.
-                        if let BasicType::Opaque = v.target {
-                            writeln!(w, "+ pad_length(self.0.wire_size()) + 4")?;
+                        // length prefix adding (unless the length is fixed).
+                        match (&v.target, &v.alias) {
+                            (BasicType::Opaque, ArrayType::FixedSize(..)) => {
+                                writeln!(w, "+ pad_length(self.0.wire_size())")?;
+                            }
+                            (BasicType::Opaque, _) => {
+                                writeln!(w, "+ pad_length(self.0.wire_size()) + 4")?;
+                            }
+                            _ => {}
                         }
 
                         Ok(())
-- 
2.43.0


From d6e2fd03ff29ee2755a33e60742b7fd19ee9f981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 05/16] fix: enforce the declared maximum of counted opaque
 typedefs

`typedef opaque x<N>` dropped the bound while building the AST, so the decoder
of the newtype read an unbounded opaque. Keep the array declaration and pass the
limit to read_variable_bytes().
---
 src/ast/typedef.rs | 5 -----
 src/impls/from.rs  | 8 +++++++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ast/typedef.rs b/src/ast/typedef.rs
index 1ca7ad8..e612394 100644
--- a/src/ast/typedef.rs
+++ b/src/ast/typedef.rs
@@ -25,11 +25,6 @@ impl Typedef {
             match vs.remove(0) {
                 Node::ArrayFixed(s) => ArrayType::FixedSize(alias, ArraySize::from(s)),
 
-                // Typedefs to opaque types include a variable array identifier so the
-                // caller knows to read the length prefix bytes. This is already handled
-                // by the opaque reader however, so map this to a "no array" wrapper.
-                Node::ArrayVariable(_) if target.is_opaque() => ArrayType::None(alias),
-
                 Node::ArrayVariable(s) => ArrayType::VariableSize(
                     alias,
                     match s.trim() {
diff --git a/src/impls/from.rs b/src/impls/from.rs
index d3194ef..a668814 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -326,7 +326,13 @@ where
             .map(|s| format!("Some({})", s))
             .unwrap_or_else(|| "None".to_string());
 
-        match t {
+        // If requested, resolve a typedef the type to the target type.
+        let target = match ast.types().typedef_target(t.as_str()) {
+            Some(typedef) if !resolve_typedefs.use_alias() => &typedef.target,
+            _ => t,
+        };
+
+        match target {
             BasicType::Opaque => write!(w, "v.read_variable_bytes({})?", size)?,
             BasicType::String => write!(w, "v.read_string({})?", size)?,
             _ => write!(w, "v.read_variable_array::<{}>({})?", type_str, size)?,
-- 
2.43.0


From 93e97dd71c07bb3656919b00d33c80067ddb50c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:29 +0000
Subject: [PATCH 06/16] fix: generate a String for counted string typedefs

`typedef string x<N>` is a string of at most N bytes, but was generated as a
Vec<String>, which does not compile.
---
 src/impls/types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/impls/types.rs b/src/impls/types.rs
index 974c385..79dcd2d 100644
--- a/src/impls/types.rs
+++ b/src/impls/types.rs
@@ -117,7 +117,12 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
                 //
                 // Wrap the target in the same array as the alias to generate the
                 // array container for the target.
+                //
+                // The angle brackets of a string are its maximum length.
                 let target = match &v.alias {
+                    ArrayType::VariableSize(..) if v.target == BasicType::String => {
+                        ArrayType::None(&v.target)
+                    }
                     ArrayType::None(_) => ArrayType::None(&v.target),
                     ArrayType::FixedSize(_, s) => ArrayType::FixedSize(&v.target, s.clone()),
                     ArrayType::VariableSize(_, s) => ArrayType::VariableSize(&v.target, s.clone()),
-- 
2.43.0


From c26d4632fc93f400dae98dae840801afe1ab12a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:30 +0000
Subject: [PATCH 07/16] fix: match TRUE and FALSE labels of void union arms by
 value

The label of a void arm was printed verbatim, so `case FALSE: void;` became the
irrefutable binding pattern `FALSE` and matched every discriminant.
---
 src/impls/from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index a668814..d772ca6 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -157,7 +157,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                                         enum_name, variant, v.switch.var_type,
                                     ),
                                 })
-                                .unwrap_or_else(|| other.to_string()),
+                                .unwrap_or_else(|| SafeName(other).to_string()),
                         };
                         writeln!(
                             w,
-- 
2.43.0


From b6a554f7d8e5296505f57bbd129538c0fec69b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:56 +0000
Subject: [PATCH 08/16] fix: give the default variant of a union its payload

A `default:` arm holding data was declared as a unit variant, constructed with a
payload by the decoders and sized as both, so no such union compiled. The
decoders also resolved a typedef in the default arm to its target.
---
 src/impls/from.rs      |  2 +-
 src/impls/types.rs     | 11 +++++++++--
 src/impls/wire_size.rs | 16 +++++++++++-----
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index d772ca6..b3cb893 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -176,7 +176,7 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                             template,
                             &d.field_value,
                             ast,
-                            TypeResolve::UseTarget,
+                            TypeResolve::UseAlias,
                             try_from,
                         )?;
                         writeln!(w, "),")?;
diff --git a/src/impls/types.rs b/src/impls/types.rs
index 79dcd2d..a42fccc 100644
--- a/src/impls/types.rs
+++ b/src/impls/types.rs
@@ -91,8 +91,15 @@ pub fn print_types<W: std::fmt::Write>(w: &mut W, ast: &Ast, derive: &str) -> Re
                     writeln!(w, "{},", NonDigitName(SafeName(c.as_str())))?;
                 }
 
-                if v.default.is_some() {
-                    writeln!(w, "default,")?;
+                if let Some(ref d) = v.default {
+                    match d.field_value.unwrap_array() {
+                        BasicType::Opaque => writeln!(w, "default(T),")?,
+                        BasicType::String => writeln!(w, "default(String),")?,
+                        BasicType::Ident(i) if ast.generics().contains(i.as_ref()) => {
+                            writeln!(w, "default({}<T>),", i)?
+                        }
+                        _ => writeln!(w, "default({}),", d.field_value)?,
+                    }
                 }
 
                 writeln!(w, "}}")?;
diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 686a3ee..5606c42 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -38,9 +38,8 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
             AstType::Union(v) => {
                 print_impl(&mut w, template, v.name(), ast, |w| {
                     writeln!(w, "4 + match self {{")?;
-                    // Iterate over all the variants of v, including the
-                    // default.
-                    for case in v.cases.iter().chain(v.default.iter()) {
+                    // Iterate over all the variants of v.
+                    for case in v.cases.iter() {
                         // A single case statement may have many case values tied to it
                         // if fallthrough values are used:
                         //
@@ -69,8 +68,15 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
                         writeln!(w, "Self::{} => 0,", NonDigitName(SafeName(c.as_str())))?;
                     }
 
-                    if v.default.is_some() {
-                        writeln!(w, "Self::default => 0,")?;
+                    if let Some(ref d) = v.default {
+                        write!(w, "Self::default(inner) => inner.wire_size()")?;
+
+                        // In-line opaques require padding
+                        if d.contains_opaque() {
+                            writeln!(w, " + pad_length(inner.wire_size()),")?;
+                        } else {
+                            writeln!(w, ",")?;
+                        }
                     }
 
                     writeln!(w, "}}")?;
-- 
2.43.0


From 56932d5ca719f036d2a10cb4ca8d6fb3b8b4e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 09/16] fix: size 64-bit union discriminants as 8 bytes

wire_size() counted 4 bytes for every discriminant, including those declared as
(a typedef of) hyper or unsigned hyper.
---
 src/impls/wire_size.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/impls/wire_size.rs b/src/impls/wire_size.rs
index 5606c42..0e65d04 100644
--- a/src/impls/wire_size.rs
+++ b/src/impls/wire_size.rs
@@ -37,7 +37,16 @@ pub fn print_impl_wire_size<W: std::fmt::Write, T: FromTemplate>(
 
             AstType::Union(v) => {
                 print_impl(&mut w, template, v.name(), ast, |w| {
-                    writeln!(w, "4 + match self {{")?;
+                    // The discriminant may be declared through a typedef.
+                    let switch_type = match ast.types().typedef_target(v.switch.var_type.as_str()) {
+                        Some(t) => &t.target,
+                        None => &v.switch.var_type,
+                    };
+                    let discriminant = match switch_type {
+                        BasicType::U64 | BasicType::I64 => 8,
+                        _ => 4,
+                    };
+                    writeln!(w, "{} + match self {{", discriminant)?;
                     // Iterate over all the variants of v.
                     for case in v.cases.iter() {
                         // A single case statement may have many case values tied to it
-- 
2.43.0


From a39aae2e69406fef6c90342ebdee82726d337b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 10/16] fix: print exactly the generated code

The CLI appended a newline of its own to the text of each file.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index db6a188..b182a2b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -11,7 +11,7 @@ fn main() -> Result<()> {
     for e in env::args().skip(1) {
         let xdr = std::fs::read_to_string(e)?;
         let code = Generator::default().generate(&xdr)?;
-        println!("{}", code);
+        print!("{}", code);
     }
 
     Ok(())
-- 
2.43.0


From a3a1933a1d5d5ee6efb0c1246d24c961c2c88403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:03 +0000
Subject: [PATCH 11/16] fix: accept any layout between "unsigned" and "int" or
 "hyper"

The two words had to be separated by exactly one space: more whitespace turned
the type into an unresolvable identifier, and a comment was a syntax error.
---
 src/ast/basic_type.rs | 12 ++++++++++++
 src/xdr.pest          |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ast/basic_type.rs b/src/ast/basic_type.rs
index 4adb135..12b44c2 100644
--- a/src/ast/basic_type.rs
+++ b/src/ast/basic_type.rs
@@ -74,6 +74,18 @@ impl<'a> From<&'a str> for BasicType {
             "string" => Self::String,
             "opaque" => Self::Opaque,
             "bool" => Self::Bool,
+
+            // Any amount of whitespace and comments may separate "unsigned" from
+            // the word it qualifies. Neither can be part of an identifier.
+            s if s.starts_with("unsigned")
+                && s.contains(|c: char| c.is_whitespace() || c == '/') =>
+            {
+                match s.ends_with("hyper") {
+                    true => Self::U64,
+                    false => Self::U32,
+                }
+            }
+
             s => Self::Ident(s.to_string()),
         }
     }
diff --git a/src/xdr.pest b/src/xdr.pest
index a7690a6..c8bb822 100644
--- a/src/xdr.pest
+++ b/src/xdr.pest
@@ -2,7 +2,7 @@ ident = @{ !basic_type ~ (ASCII_ALPHANUMERIC | "_")+ }
 ident_const = { ident }
 ident_value = { ASCII_DIGIT+ }
 basic_type = @{ 
-	("unsigned" ~ WHITESPACE+)? ~ ("int" | "hyper") ~ WHITESPACE+ |
+	("unsigned" ~ (WHITESPACE | COMMENT)+)? ~ ("int" | "hyper") ~ WHITESPACE+ |
 	("float" | "double" | "string"| "opaque") ~ WHITESPACE+
 }
 
-- 
2.43.0


From a5a849fac149c23e412f3c1e34c7774170077f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:18 +0000
Subject: [PATCH 12/16] fix: accept hexadecimal constants as array sizes

A constant declared as 0x.. could be used anywhere but as an array size or
maximum, where generation failed with "invalid digit found in string".
---
 src/impls/from.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index b3cb893..ccffee6 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -355,7 +355,7 @@ where
                 .map(|v| v.to_string())
                 .ok_or(format!("unknown constant {}", size))?;
 
-            print_fixed(w, t, size.parse()?)?
+            print_fixed(w, t, parse_size(&size)?)?
         }
         ArrayType::VariableSize(t, Some(ArraySize::Known(size))) => {
             print_variable(w, t, Some(*size))?
@@ -368,7 +368,7 @@ where
                 .map(|v| v.to_string())
                 .ok_or("unknown constant")?;
 
-            print_variable(w, t, Some(size.parse()?))?;
+            print_variable(w, t, Some(parse_size(&size)?))?;
         }
         ArrayType::VariableSize(t, None) => {
             print_variable(w, t, None)?;
@@ -378,6 +378,15 @@ where
     Ok(())
 }
 
+/// Parses the value of a constant used as an array size, which may be written
+/// in hexadecimal.
+fn parse_size(size: &str) -> Result<u32> {
+    Ok(match size.strip_prefix("0x") {
+        Some(hex) => u32::from_str_radix(hex, 16)?,
+        None => size.parse()?,
+    })
+}
+
 /// Generates the template required to decode `t` from a variable called `v`
 /// that implements the reader trait.
 ///
-- 
2.43.0


From 3099cf5bec6ec7588177d135053fe13684324142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:20 +0000
Subject: [PATCH 13/16] fix: accept file names that are not valid UTF-8

env::args() panics on an argument that is not UTF-8, although the file it names
can be read like any other.
---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b182a2b..36f6784 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,12 +3,12 @@ use fastxdr::Result;
 use std::env;
 
 fn main() -> Result<()> {
-    if env::args().len() < 2 {
+    if env::args_os().len() < 2 {
         println!("usage: {} ./path/to/spec.x", env::args().next().unwrap());
         std::process::exit(1);
     }
 
-    for e in env::args().skip(1) {
+    for e in env::args_os().skip(1) {
         let xdr = std::fs::read_to_string(e)?;
         let code = Generator::default().generate(&xdr)?;
         print!("{}", code);
-- 
2.43.0


From 06e9e1117e4d554baec796f00946bf4e3e0490bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 14/16] fix: accept white space and comments after an array
 size

---
 src/xdr.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xdr.pest b/src/xdr.pest
index c8bb822..58ef27a 100644
--- a/src/xdr.pest
+++ b/src/xdr.pest
@@ -1,6 +1,6 @@
 ident = @{ !basic_type ~ (ASCII_ALPHANUMERIC | "_")+ }
 ident_const = { ident }
-ident_value = { ASCII_DIGIT+ }
+ident_value = @{ ASCII_DIGIT+ }
 basic_type = @{ 
 	("unsigned" ~ (WHITESPACE | COMMENT)+)? ~ ("int" | "hyper") ~ WHITESPACE+ |
 	("float" | "double" | "string"| "opaque") ~ WHITESPACE+
-- 
2.43.0


From add39c3d3615ac8d55a0b2c30be674c75beeb512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:47 +0000
Subject: [PATCH 15/16] fix: reject a count beyond the bytes present for
 zero-sized element types

The check of a counted array's element count skipped element types that take no
memory, such as enums with a single member, so a count of 2^32-1 was not
rejected as an invalid length and kept the decoder in its loop.
---
 src/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index b80d80d..e4a8786 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -160,7 +160,7 @@ pub mod xdr {
             }
 
             // Every element occupies at least one byte on the wire.
-            if size_of::<T>() != 0 && n > self.remaining() {
+            if n > self.remaining() {
                 return Err(Error::InvalidLength);
             }
 
-- 
2.43.0


From 7670c75fb06d41c8f6792cb770daabde5f4e0fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:47 +0000
Subject: [PATCH 16/16] fix: match the void default arm of a union last,
 wherever it is declared

---
 src/impls/from.rs | 45 +++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/impls/from.rs b/src/impls/from.rs
index ccffee6..425664d 100644
--- a/src/impls/from.rs
+++ b/src/impls/from.rs
@@ -139,26 +139,24 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                     let mut did_void_default = false;
                     for c in v.void_cases.iter() {
                         let variant = c.as_str();
-                        let matcher = match variant {
-                            "default" => {
-                                did_void_default = true;
-                                "_".to_string()
-                            }
-                            other => ast
-                                .constants()
-                                .get(other)
-                                .map(|c| match *c {
-                                    ConstantType::ConstValue(ref v) => SafeName(v).to_string(),
-                                    ConstantType::EnumValue {
-                                        ref enum_name,
-                                        ref variant,
-                                    } => format!(
-                                        "c if c == {}::{} as {}",
-                                        enum_name, variant, v.switch.var_type,
-                                    ),
-                                })
-                                .unwrap_or_else(|| SafeName(other).to_string()),
-                        };
+                        if variant == "default" {
+                            did_void_default = true;
+                            continue;
+                        }
+                        let matcher = ast
+                            .constants()
+                            .get(variant)
+                            .map(|c| match *c {
+                                ConstantType::ConstValue(ref v) => SafeName(v).to_string(),
+                                ConstantType::EnumValue {
+                                    ref enum_name,
+                                    ref variant,
+                                } => format!(
+                                    "c if c == {}::{} as {}",
+                                    enum_name, variant, v.switch.var_type,
+                                ),
+                            })
+                            .unwrap_or_else(|| SafeName(variant).to_string());
                         writeln!(
                             w,
                             "{} => Self::{},",
@@ -168,7 +166,8 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                     }
 
                     // Write a default case if present, else a catch all case that
-                    // returns an error.
+                    // returns an error. It matches anything, so it must be the
+                    // last, wherever it was declared.
                     if let Some(ref d) = v.default {
                         write!(w, "_ => Self::default(")?;
                         print_decode_array(
@@ -180,7 +179,9 @@ pub fn print_impl_from<W: std::fmt::Write, T: FromTemplate>(
                             try_from,
                         )?;
                         writeln!(w, "),")?;
-                    } else if !did_void_default {
+                    } else if did_void_default {
+                        writeln!(w, "_ => Self::default,")?;
+                    } else {
                         writeln!(w, "d => return Err(Error::UnknownVariant(d as i32)),")?;
                     }
 
-- 
2.43.0

