From 615924508875742aa32a1e82f5f8a343af2424d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 01/67] fix: accept hexadecimal escapes of any length,
 introduced by a lower-case x only

---
 src/ast/literal.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ast/literal.rs b/src/ast/literal.rs
index dbbfbba..9ce32ff 100644
--- a/src/ast/literal.rs
+++ b/src/ast/literal.rs
@@ -2,13 +2,12 @@ use std::{fmt::Debug, ops::RangeFrom, str};
 
 use nom::{
   branch::alt,
-  bytes::complete::tag_no_case,
   character::{
     complete::{anychar, char, none_of, one_of},
     is_hex_digit, is_oct_digit,
   },
   combinator::{all_consuming, map, map_opt, value, verify},
-  multi::fold_many_m_n,
+  multi::{fold_many1, fold_many_m_n},
   sequence::preceded,
   AsChar, Compare, FindToken, IResult, InputIter, InputLength, InputTake, Slice,
 };
@@ -156,13 +155,14 @@ where
       |acc, n| acc * 8 + n,
     ),
     preceded(
-      tag_no_case("x"),
-      fold_many_m_n(
-        2,
-        2,
-        map_opt(verify(anychar, |c| is_hex_digit(*c as u8)), |c| c.to_digit(16)),
-        || 0,
-        |acc, n| acc * 16 + n,
+      char('x'),
+      map_opt(
+        fold_many1(
+          map_opt(anychar, |c| c.to_digit(16)),
+          || Some(0u32),
+          |acc, n| acc.and_then(|acc| acc.checked_mul(16)).map(|acc| acc + n),
+        ),
+        |value| value,
       ),
     ),
   ))(input)
-- 
2.43.0


From 02965ed1023f0445b1c671d8724c6a187249c838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 02/67] fix: encode universal character names in narrow string
 literals as UTF-8

---
 src/ast/literal/string.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index d35aa59..5d7be90 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -28,7 +28,7 @@ use crate::ast::{
   Identifier,
 };
 
-use super::escaped_char;
+use super::{escaped_char, universal_char};
 
 /// A string literal.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -72,16 +72,12 @@ impl<'t> LitString<'t> {
       char('\"'),
       fold_many0(
         alt((
-          map_opt(escaped_char, |c| {
-            if let Ok(c) = u8::try_from(c) {
-              Some(Cow::Owned(vec![c]))
-            } else if let Ok(c) = char::try_from(c) {
-              let mut s = [0; 4];
-              Some(Cow::Owned(c.encode_utf8(&mut s).as_bytes().to_vec()))
-            } else {
-              None
-            }
+          // A universal character name stands for the character itself, not for a single byte.
+          map(map_opt(preceded(char('\\'), universal_char), char::from_u32), |c| {
+            let mut s = [0; 4];
+            Cow::Owned(c.encode_utf8(&mut s).as_bytes().to_vec())
           }),
+          map_opt(escaped_char, |c| u8::try_from(c).ok().map(|c| Cow::Owned(vec![c]))),
           map(is_not("\\\"\n"), |b: &str| Cow::Borrowed(b.as_bytes())),
         )),
         || Cow::Borrowed(&[] as &[u8]),
-- 
2.43.0


From 3d7d7777fd05114a7dcfc87ace52728b4a3daa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 03/67] fix: reject decimal digits in integer literals with a
 leading zero

---
 src/ast/literal/int.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ast/literal/int.rs b/src/ast/literal/int.rs
index dd632a2..65c8360 100644
--- a/src/ast/literal/int.rs
+++ b/src/ast/literal/int.rs
@@ -8,7 +8,7 @@ use nom::{
   branch::alt,
   bytes::complete::{is_a, tag, tag_no_case},
   character::complete::{digit1, hex_digit1, oct_digit1},
-  combinator::{all_consuming, eof, map, map_opt, opt, value},
+  combinator::{all_consuming, eof, map, map_opt, not, opt, value},
   sequence::{pair, preceded},
   AsChar, Compare, FindToken, IResult, InputIter, InputLength, InputTake, InputTakeAtPosition, Slice,
 };
@@ -122,7 +122,8 @@ impl LitInt {
       map_opt(preceded(tag_no_case("0x"), hex_digit1), Self::parse_i128(16)),
       map_opt(preceded(tag_no_case("0b"), is_a("01")), Self::parse_i128(2)),
       map_opt(preceded(tag("0"), oct_digit1), Self::parse_i128(8)),
-      map_opt(digit1, Self::parse_i128(10)),
+      // A leading zero makes the literal octal, e.g. `08` is invalid.
+      map_opt(preceded(not(pair(tag("0"), digit1)), digit1), Self::parse_i128(10)),
     ));
 
     let (input, (value, (unsigned, size))) = pair(digits, Self::parse_suffix)(input)?;
-- 
2.43.0


From 0b7b0e43cde766c39019746d8226552440eeb465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 04/67] fix: keep characters whole when an unprefixed string
 continues a wide string

---
 src/ast/literal/string.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index 5d7be90..83ce086 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -315,7 +315,10 @@ impl<'t> LitString<'t> {
               opt(id("L")),
               map_opt(take_one, |token| match token {
                 MacroToken::Lit(Lit::String(LitString::Ordinary(bytes))) => {
-                  Some(Cow::Owned(bytes.as_ref().iter().map(|b| u32::from(*b)).collect::<Vec<_>>()))
+                  Some(Cow::Owned(match str::from_utf8(bytes.as_ref()) {
+                    Ok(s) => s.chars().map(u32::from).collect::<Vec<_>>(),
+                    Err(_) => bytes.as_ref().iter().map(|b| u32::from(*b)).collect::<Vec<_>>(),
+                  }))
                 },
                 _ => None,
               }),
-- 
2.43.0


From ff1e9790d19f5a037a880ad2a6fd6d9031ad0184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 05/67] fix: do not rescan tokens in front of a macro
 replacement

---
 src/macro_set/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 9096967..35f07dd 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -459,9 +459,11 @@ impl MacroSet {
                     Some(&args),
                     &body,
                   )?;
-                  tokens.extend(expanded_tokens);
-                  tokens.extend(it);
-                  return self.expand_macro_body(non_replaced_names, &tokens)
+                  // Rescan the replacement together with the remaining tokens.
+                  let mut remaining_tokens = expanded_tokens;
+                  remaining_tokens.extend(it);
+                  tokens.extend(self.expand_macro_body(non_replaced_names, &remaining_tokens)?);
+                  return Ok(tokens)
                 }
               }
             }
@@ -469,9 +471,11 @@ impl MacroSet {
             // If it's not a macro call, check if it is a variable-like macro.
             if let Some(body) = self.var_macros.get(id.id.as_ref()) {
               let body = tokenize(&[], body);
-              tokens.extend(self.expand_var_macro_body(non_replaced_names.clone(), id.id.as_ref(), &body)?);
-              tokens.extend(it);
-              return self.expand_macro_body(non_replaced_names, &tokens)
+              let mut remaining_tokens =
+                self.expand_var_macro_body(non_replaced_names.clone(), id.id.as_ref(), &body)?;
+              remaining_tokens.extend(it);
+              tokens.extend(self.expand_macro_body(non_replaced_names, &remaining_tokens)?);
+              return Ok(tokens)
             }
 
             tokens.push(token)
-- 
2.43.0


From feb2f391962622b73c090c713a8b714da751fc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 06/67] fix: let only parentheses group the tokens of a macro
 argument

---
 src/macro_set/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 35f07dd..0966617 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -619,10 +619,6 @@ impl MacroSet {
                 pop(&mut parentheses, '(', ')')?
               }
             },
-            "[" => parentheses.push('['),
-            "]" => pop(&mut parentheses, '[', ']')?,
-            "{" => parentheses.push('{'),
-            "}" => pop(&mut parentheses, '{', '}')?,
             "," => {
               if parentheses.is_empty() {
                 args.push(mem::take(&mut current_arg));
-- 
2.43.0


From 80537caeaf8fd6d4f4a0313b76b311894177675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 07/67] fix: check the number of arguments of variadic and
 parameterless macros

---
 src/macro_set/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 0966617..ceaf407 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -534,7 +534,7 @@ impl MacroSet {
       if let Some(args) = args {
         if arg_names.len() != args.len()
           // Allow passing an empty argument for arity 0.
-          && !(arg_names.is_empty() && args.first().map(|arg| arg.is_empty()).unwrap_or(true))
+          && !(arg_names.is_empty() && args.len() <= 1 && args.iter().all(|arg| arg.is_empty()))
         {
           return Err(ExpansionError::FnMacroArgumentError {
             name: name.to_owned(),
@@ -543,6 +543,15 @@ impl MacroSet {
           })
         }
       }
+    } else if let Some(args) = args {
+      // All arguments except the variable ones are required.
+      if args.len() + 1 < arg_names.len() {
+        return Err(ExpansionError::FnMacroArgumentError {
+          name: name.to_owned(),
+          required: arg_names.len() - 1,
+          given: args.len(),
+        })
+      }
     }
 
     // Parameter names must be unique.
-- 
2.43.0


From 64eced9d8cb98783e32747e37aedbeee7f7824f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:11 +0000
Subject: [PATCH 08/67] fix: apply # and ## to unexpanded arguments and only
 where the macro body contains them

---
 src/macro_set/mod.rs | 50 ++++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index ceaf407..b21a6b7 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -659,12 +659,19 @@ impl MacroSet {
     let mut it = tokens.iter().cloned().peekable();
     let mut tokens = vec![];
 
+    // The operator in front of the current token. Only tokens of the macro body
+    // are operators, not the ones which are part of an argument.
+    let mut operator = None;
+
     while let Some(token) = it.next() {
+      let previous_operator = match token {
+        Token::Punctuation(ref p) if p == "#" || p == "##" => operator.replace(p.as_str()),
+        _ => operator.take(),
+      };
+
       match token {
         Token::Punctuation(ref p) if p == "#" => match it.peek() {
-          Some(Token::MacroArg(_) | Token::VarArgs) => {
-            tokens.push(token.clone());
-          },
+          Some(Token::MacroArg(_) | Token::VarArgs) => (),
           _ => return Err(ExpansionError::StringifyNonArgument),
         },
         Token::MacroArg(_) | Token::VarArgs => {
@@ -683,30 +690,19 @@ impl MacroSet {
             var_args
           };
 
-          match tokens.last() {
-            Some(Token::Punctuation(Punctuation { punctuation: "#" })) => {
-              tokens.pop();
-              tokens.extend(stringify(arg, non_replaced_names.len() > 1));
-            },
-            Some(Token::Punctuation(Punctuation { punctuation: "##" })) => {
-              let arg = self.expand_macro_body(non_replaced_names.clone(), &arg)?;
-
-              if arg.is_empty() {
-                tokens.push(Token::Placemarker);
-              } else {
-                tokens.extend(arg);
-              }
-            },
-            _ if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) => {
-              let arg = self.expand_macro_body(non_replaced_names.clone(), &arg)?;
-
-              if arg.is_empty() {
-                tokens.push(Token::Placemarker);
-              } else {
-                tokens.extend(arg);
-              }
-            },
-            _ => tokens.extend(self.expand_macro_body(non_replaced_names.clone(), &arg)?),
+          if previous_operator == Some("#") {
+            tokens.extend(stringify(arg, non_replaced_names.len() > 1));
+          } else if previous_operator == Some("##")
+            || it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" }))
+          {
+            // Operands of `##` are not expanded.
+            if arg.is_empty() {
+              tokens.push(Token::Placemarker);
+            } else {
+              tokens.extend(arg);
+            }
+          } else {
+            tokens.extend(self.expand_macro_body(non_replaced_names.clone(), &arg)?);
           }
         },
         token => tokens.push(token),
-- 
2.43.0


From 12cd3535b34cf30a22cb66afda2aa6f3c26adda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:15 +0000
Subject: [PATCH 09/67] fix: paste a dot with numbers which are no literals on
 their own

---
 src/macro_set/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index b21a6b7..8f89f5f 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -283,6 +283,14 @@ impl<'t> Token<'t> {
 
         return Err(ExpansionError::InvalidConcat)
       },
+      (Self::Punctuation(lhs), Self::IdentifierContinue(IdentifierContinue { id_cont: rhs })) if lhs == "." => {
+        // Numbers which are only valid after a decimal point, e.g. `. ## 5f`.
+        let token = format!("{}{rhs}", lhs.as_str());
+        return match Lit::try_from(token.as_str()) {
+          Ok(literal) => Ok(Self::Literal(literal.into_static(), Cow::Owned(token))),
+          Err(_) => Err(ExpansionError::InvalidConcat),
+        }
+      },
       (Self::Identifier(mut lhs), Self::Literal(lit, rhs)) => {
         match lit {
           Lit::String(LitString::Ordinary(_)) | Lit::Char(LitChar::Ordinary(_))
-- 
2.43.0


From 26371b79581fcfdc5e7a069b8eb90b8aa41eff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:00 +0000
Subject: [PATCH 10/67] fix: keep the order of strings and parameters in
 stringified arguments

---
 src/macro_set/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 8f89f5f..5826ce3 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -351,6 +351,11 @@ impl<'t> Token<'t> {
 }
 
 fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
+  fn string_token<'t>(s: String) -> Token<'t> {
+    let token = format!("{s:?}");
+    Token::Literal(Lit::String(LitString::Ordinary(Cow::Owned(s.into_bytes()))), Cow::Owned(token))
+  }
+
   let it = tokens.into_iter().peekable();
   let mut tokens = vec![];
 
@@ -361,6 +366,7 @@ fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
   for token in it {
     let token = match token.stringify(nested) {
       StringifyAction::Keep => {
+        tokens.extend(current_string.take().map(string_token));
         tokens.push(Token::Punctuation(Punctuation { punctuation: "#" }));
         tokens.push(token);
         continue
@@ -381,9 +387,7 @@ fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
     s.push_str(token)
   }
 
-  tokens.extend(current_string.take().map(|s| {
-    Token::Literal(Lit::String(LitString::Ordinary(Cow::Owned(s.clone().into_bytes()))), Cow::Owned(format!("{s:?}")))
-  }));
+  tokens.extend(current_string.take().map(string_token));
 
   if tokens.is_empty() {
     return vec![Token::Literal(Lit::String(LitString::Ordinary(Cow::Borrowed(&[]))), Cow::Borrowed("\"\""))]
-- 
2.43.0


From fbb8926bb0f4c9fb4845783fd892bbebe8a80ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:54 +0000
Subject: [PATCH 11/67] fix: report pasting a prefix to an invalid literal as
 error

---
 src/macro_set/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 5826ce3..ba72519 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -298,7 +298,7 @@ impl<'t> Token<'t> {
           {
             lhs.id.to_mut().push_str(rhs.as_ref());
             return Ok(Self::Literal(
-              Lit::try_from(lhs.id.as_ref()).unwrap().into_static(),
+              Lit::try_from(lhs.id.as_ref()).map_err(|_| ExpansionError::InvalidConcat)?.into_static(),
               Cow::Owned(lhs.id.into_owned()),
             ))
           },
-- 
2.43.0


From 59036458a4c04b761a4c52ae77c85a44005228e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 12/67] fix: treat comments in macro bodies as white space

---
 src/macro_set/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index ba72519..659eb6a 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -174,6 +174,8 @@ where
         Token::from_str(t)
       }
     })
+    // Comments are white space and must not get in the way of macro calls or operators.
+    .filter(|t| !matches!(t, Token::Comment(_)))
     .collect()
 }
 
-- 
2.43.0


From 9d03de6cc9351e5a5836a29a5f8cadf8d948e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 13/67] fix: accept line comments as comment tokens

---
 src/ast/comment.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ast/comment.rs b/src/ast/comment.rs
index 00f1af5..06ccdd8 100644
--- a/src/ast/comment.rs
+++ b/src/ast/comment.rs
@@ -1,9 +1,10 @@
 use std::borrow::Cow;
 
 use nom::{
-  bytes::complete::{tag, take_until},
-  combinator::all_consuming,
-  sequence::delimited,
+  branch::alt,
+  bytes::complete::{is_not, tag, take_until},
+  combinator::{all_consuming, opt, recognize},
+  sequence::{delimited, preceded},
 };
 
 /// A comment.
@@ -16,7 +17,10 @@ impl<'t> TryFrom<&'t str> for Comment<'t> {
   type Error = nom::Err<nom::error::Error<&'t str>>;
 
   fn try_from(s: &'t str) -> Result<Self, Self::Error> {
-    let (_, comment) = all_consuming(delimited(tag("/*"), take_until("*/"), tag("*/")))(s)?;
+    let (_, comment) = all_consuming(alt((
+      delimited(tag("/*"), take_until("*/"), tag("*/")),
+      preceded(tag("//"), recognize(opt(is_not("\n")))),
+    )))(s)?;
     Ok(Self { comment: Cow::Borrowed(comment) })
   }
 }
-- 
2.43.0


From ec4adcc5f5b1c5a304a2181ef8f021175da08002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:53 +0000
Subject: [PATCH 14/67] fix: report redefinitions which only add or remove
 tokens

---
 src/macro_set/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 659eb6a..be93561 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -787,7 +787,7 @@ impl MacroSet {
       let old_tokens = old_body.iter().filter(|t| !is_whitespace(t));
       let new_tokens = body.iter().filter(|t| !is_whitespace(t));
 
-      !old_tokens.zip(new_tokens).all(|(t1, t2)| t1 == t2)
+      !old_tokens.eq(new_tokens)
     } else {
       self.fn_macros.remove(&name).is_some()
     };
@@ -833,11 +833,11 @@ impl MacroSet {
     let redefined = if let Some((old_args, old_body)) = self.fn_macros.remove(&name) {
       let old_args = old_args.iter().filter(|t| !is_whitespace(t));
       let new_args = args.iter().filter(|t| !is_whitespace(t));
-      let args_equal = old_args.zip(new_args).all(|(old_arg, arg)| old_arg == arg);
+      let args_equal = old_args.eq(new_args);
 
       let old_tokens = old_body.iter().filter(|t| !is_whitespace(t));
       let new_tokens = body.iter().filter(|t| !is_whitespace(t));
-      let tokens_equal = old_tokens.zip(new_tokens).all(|(t1, t2)| t1 == t2);
+      let tokens_equal = old_tokens.eq(new_tokens);
 
       !(args_equal && tokens_equal)
     } else {
-- 
2.43.0


From 6a09408e3e691738d6726aa6486766b3f69c82c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:01 +0000
Subject: [PATCH 15/67] fix: accept universal character names after the start
 of an identifier

---
 src/ast/identifier.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/ast/identifier.rs b/src/ast/identifier.rs
index f107aec..b94656f 100644
--- a/src/ast/identifier.rs
+++ b/src/ast/identifier.rs
@@ -3,9 +3,9 @@ use std::{borrow::Cow, fmt::Debug};
 use nom::{
   branch::alt,
   character::complete::{anychar, char, satisfy},
-  combinator::{all_consuming, map, map_opt, recognize, verify},
+  combinator::{all_consuming, map, map_opt, not, recognize, verify},
   multi::{fold_many0, fold_many1},
-  sequence::{pair, preceded},
+  sequence::{pair, preceded, terminated},
   IResult,
 };
 use proc_macro2::{Ident, Span, TokenStream};
@@ -44,10 +44,14 @@ impl<'t> Identifier<'t> {
   pub(crate) fn parse_str(input: &'t str) -> IResult<&'t str, Self> {
     alt((
       map(
-        recognize(pair(
-          satisfy(is_identifier_start),
-          fold_many0(satisfy(unicode_ident::is_xid_continue), || (), |_, _| ()),
-        )),
+        terminated(
+          recognize(pair(
+            satisfy(is_identifier_start),
+            fold_many0(satisfy(unicode_ident::is_xid_continue), || (), |_, _| ()),
+          )),
+          // The identifier may continue with a universal character name.
+          not(char('\\')),
+        ),
         |s| Self { id: Cow::Borrowed(s) },
       ),
       |token| {
@@ -104,9 +108,14 @@ impl<'t> IdentifierContinue<'t> {
 
   pub(crate) fn parse_str(input: &'t str) -> IResult<&'t str, Self> {
     alt((
-      map(recognize(fold_many1(satisfy(unicode_ident::is_xid_continue), || (), |_, _| ())), |s| Self {
-        id_cont: Cow::Borrowed(s),
-      }),
+      map(
+        terminated(
+          recognize(fold_many1(satisfy(unicode_ident::is_xid_continue), || (), |_, _| ())),
+          // The identifier may continue with a universal character name.
+          not(char('\\')),
+        ),
+        |s| Self { id_cont: Cow::Borrowed(s) },
+      ),
       |token| {
         let identifier_char = alt((map_opt(preceded(char('\\'), universal_char), char::from_u32), anychar));
 
-- 
2.43.0


From d7129a3dfb71772fc20ae4dd253986a3f3807015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 16/67] fix: generate unary plus as its operand

---
 src/ast/unary_expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 2e81c6c..60fffba 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -209,7 +209,8 @@ impl<'t> UnaryExpr<'t> {
       },
       UnaryOp::Not => format!("!{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Comp => format!("!{expr}").parse::<TokenStream>().unwrap(),
-      UnaryOp::Plus => format!("+{expr}").parse::<TokenStream>().unwrap(),
+      // There is no unary plus in Rust.
+      UnaryOp::Plus => expr,
       UnaryOp::Minus => format!("-{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Deref => {
         match &*self.expr {
-- 
2.43.0


From f99aa705963edbe5c9382f651ed582cead2566b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 17/67] fix: compare the operand of a logical not with zero

---
 src/ast/expr.rs       | 6 +++++-
 src/ast/unary_expr.rs | 3 +--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 3f7f5d2..3250f37 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -538,8 +538,9 @@ impl<'t> Expr<'t> {
               LitFloat::LongDouble(f) => LitFloat::LongDouble(-f),
             }));
           },
-          (UnaryOp::Not, Self::Literal(Lit::Int(LitInt { value: i, suffix: None }))) => {
+          (UnaryOp::Not, Self::Literal(Lit::Int(LitInt { value: i, .. }))) => {
             *self = Self::Literal(Lit::Int(LitInt { value: (*i == 0).into(), suffix: None }));
+            return self.finish(ctx)
           },
           (UnaryOp::Not, Self::Literal(Lit::Float(f))) => {
             *self = Self::Literal(Lit::Int(LitInt {
@@ -550,6 +551,7 @@ impl<'t> Expr<'t> {
               } as i128,
               suffix: None,
             }));
+            return self.finish(ctx)
           },
           (UnaryOp::Not, expr) => {
             if ty != Some(Type::BuiltIn(BuiltInType::Bool)) {
@@ -563,6 +565,8 @@ impl<'t> Expr<'t> {
 
               *self = Self::Binary(BinaryExpr { lhs: Box::new(lhs), op: BinaryOp::Eq, rhs: Box::new(rhs) })
             }
+
+            return Ok(Some(Type::BuiltIn(BuiltInType::Bool)))
           },
           (UnaryOp::Comp, Self::Literal(Lit::Float(_) | Lit::String(_))) => {
             return Err(crate::CodegenError::UnsupportedExpression("complement of float or string".to_owned()))
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 60fffba..056945d 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext};
 
-use super::{Associativity, BinaryExpr, BinaryOp, BuiltInType, Cast, Expr, Type};
+use super::{Associativity, BinaryExpr, BinaryOp, Cast, Expr, Type};
 
 /// A unary expression operator.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -71,7 +71,6 @@ impl<'t> UnaryExpr<'t> {
     let ty = self.expr.finish(ctx)?;
 
     match self.op {
-      UnaryOp::Not => Ok(Some(Type::BuiltIn(BuiltInType::Bool))),
       UnaryOp::Deref => {
         // Cannot dereference pointers in variable macros, i.e. constants.
         if ctx.is_variable_macro() {
-- 
2.43.0


From 7c2bab3fcaa3db6c0ef0c6cb13a1307cb956c938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 18/67] fix: reject complement of boolean expressions

---
 src/ast/expr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 3250f37..69b679f 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -568,6 +568,10 @@ impl<'t> Expr<'t> {
 
             return Ok(Some(Type::BuiltIn(BuiltInType::Bool)))
           },
+          // In Rust, this is logical instead of bitwise negation.
+          (UnaryOp::Comp, _) if ty == Some(Type::BuiltIn(BuiltInType::Bool)) => {
+            return Err(crate::CodegenError::UnsupportedExpression("complement of boolean".to_owned()))
+          },
           (UnaryOp::Comp, Self::Literal(Lit::Float(_) | Lit::String(_))) => {
             return Err(crate::CodegenError::UnsupportedExpression("complement of float or string".to_owned()))
           },
-- 
2.43.0


From 57a4a84e702899ba930132e538fe3e54635837a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 19/67] fix: do not fold division by zero

---
 src/ast/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 69b679f..e02fbb3 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -597,11 +597,11 @@ impl<'t> Expr<'t> {
             *self = Self::Literal(Lit::Float(*lhs / *rhs));
             self.finish(ctx)
           },
-          (BinaryOp::Div, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
+          (BinaryOp::Div, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) if rhs.value != 0 => {
             *self = Self::Literal(Lit::Int(*lhs / *rhs));
             self.finish(ctx)
           },
-          (BinaryOp::Rem, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
+          (BinaryOp::Rem, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) if rhs.value != 0 => {
             *self = Self::Literal(Lit::Int(*lhs % *rhs));
             self.finish(ctx)
           },
-- 
2.43.0


From 07d40bce7ef2dc37f885bd869ac948f84982e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 20/67] fix: generate a value for all compound assignments

---
 src/ast/binary_expr.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index e307559..95e702e 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -309,6 +309,11 @@ impl<'t> BinaryExpr<'t> {
       BinaryOp::Assign
       | BinaryOp::AddAssign
       | BinaryOp::SubAssign
+      | BinaryOp::MulAssign
+      | BinaryOp::DivAssign
+      | BinaryOp::RemAssign
+      | BinaryOp::ShlAssign
+      | BinaryOp::ShrAssign
       | BinaryOp::BitAndAssign
       | BinaryOp::BitXorAssign
       | BinaryOp::BitOrAssign => {
-- 
2.43.0


From 44e471a31d4fc9bcf6167da03796a714bfbc43a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 21/67] fix: parenthesize operands which end with a cast before
 < and <<

---
 src/ast/binary_expr.rs | 34 ++++++++++++++++++++++------------
 src/ast/expr.rs        | 14 +++++++++++++-
 src/ast/var.rs         |  5 +++++
 3 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 95e702e..4d23337 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -280,6 +280,24 @@ impl<'t> BinaryExpr<'t> {
     }
   }
 
+  /// Whether the left-hand and right-hand sides need to be parenthesized.
+  fn parens(&self) -> (bool, bool) {
+    let (lhs_prec, _) = self.lhs.precedence();
+    let (prec, assoc) = self.precedence();
+    let (rhs_prec, _) = self.rhs.precedence();
+
+    match assoc {
+      Associativity::None => (lhs_prec >= prec, rhs_prec >= prec),
+      Associativity::Left => (lhs_prec > prec, rhs_prec >= prec),
+      Associativity::Right => (lhs_prec <= prec, rhs_prec < prec),
+    }
+  }
+
+  /// Whether the generated code ends with a cast, see [`Expr::ends_with_cast`].
+  pub(crate) fn ends_with_cast(&self) -> bool {
+    !self.op.is_assignment() && !self.parens().1 && self.rhs.ends_with_cast()
+  }
+
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
     tokens.append_all(self.to_token_stream(ctx))
   }
@@ -289,19 +307,11 @@ impl<'t> BinaryExpr<'t> {
     let op = self.op;
     let mut rhs = self.rhs.to_token_stream(ctx);
 
-    let (lhs_prec, _) = self.lhs.precedence();
-    let (prec, assoc) = self.precedence();
-    let (rhs_prec, _) = self.rhs.precedence();
-
-    let (mut lhs_parens, rhs_parens) = match (prec, assoc) {
-      (_, Associativity::None) => (lhs_prec >= prec, rhs_prec >= prec),
-      (_, Associativity::Left) => (lhs_prec > prec, rhs_prec >= prec),
-      (_, Associativity::Right) => (lhs_prec <= prec, rhs_prec < prec),
-    };
+    let (mut lhs_parens, rhs_parens) = self.parens();
 
-    // Ensure that a cast on the left side is quoted when shifting
-    // left to avoid ambiguous type parameter errors.
-    if matches!(&*self.lhs, Expr::Cast(..) | Expr::SizeOf(..)) && matches!(op, BinaryOp::Shl) {
+    // Ensure that a cast on the left side is quoted before `<` and `<<`
+    // to avoid ambiguous type parameter errors.
+    if matches!(op, BinaryOp::Shl | BinaryOp::Lt) && self.lhs.ends_with_cast() {
       lhs_parens = true;
     }
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index e02fbb3..dd865de 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -30,8 +30,10 @@ pub enum Expr<'t> {
 }
 
 impl<'t> Expr<'t> {
-  pub(crate) const fn precedence(&self) -> (u8, Associativity) {
+  pub(crate) fn precedence(&self) -> (u8, Associativity) {
     match self {
+      // Generated as a cast.
+      Self::Var(var) if var.is_line() => (3, Associativity::Left),
       Self::Literal(_) | Self::Var(_) => (0, Associativity::None),
       Self::FunctionCall(_) => (1, Associativity::Left),
       Self::Stringify(_) | Self::ConcatString(_) => (3, Associativity::Left),
@@ -43,6 +45,16 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Whether the generated code ends with a cast, i.e. a following `<` would start type parameters.
+  pub(crate) fn ends_with_cast(&self) -> bool {
+    match self {
+      Self::Cast(_) | Self::SizeOf(_) => true,
+      Self::Var(var) => var.is_line(),
+      Self::Binary(expr) => expr.ends_with_cast(),
+      _ => false,
+    }
+  }
+
   /// Parse string concatenation, e.g. `arg "333"`.
   fn parse_concat_string<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let parse_var = map(IdentifierExpr::parse_concat_ident, |id| Self::Var(Var { name: id }));
diff --git a/src/ast/var.rs b/src/ast/var.rs
index 37091ad..f010cd0 100644
--- a/src/ast/var.rs
+++ b/src/ast/var.rs
@@ -16,6 +16,11 @@ pub struct Var<'t> {
 }
 
 impl<'t> Var<'t> {
+  /// Whether this is the `__LINE__` macro.
+  pub(crate) fn is_line(&self) -> bool {
+    matches!(&self.name, IdentifierExpr::Plain(name) if name.as_str() == "__LINE__")
+  }
+
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
   where
     C: CodegenContext,
-- 
2.43.0


From d8073f715582cd2bde03b47603d2c4a90d99b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 22/67] fix: parenthesize expressions starting with a block in
 statement position

---
 src/ast/expr.rs         | 19 ++++++++++++++++++-
 src/ast/statement.rs    |  2 +-
 src/ast/ternary_expr.rs |  4 ++--
 src/fn_macro.rs         |  3 ++-
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index dd865de..cd28539 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -7,7 +7,7 @@ use nom::{
   sequence::{delimited, pair, preceded, terminated, tuple},
   IResult,
 };
-use proc_macro2::TokenStream;
+use proc_macro2::{Delimiter, TokenStream, TokenTree};
 use quote::{quote, TokenStreamExt};
 
 use super::{tokens::parenthesized, *};
@@ -719,6 +719,23 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Generate code for the position of a statement, where a leading block would end the expression.
+  pub(crate) fn to_statement_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
+    let tokens = self.to_token_stream(ctx);
+
+    let starts_with_block = match tokens.clone().into_iter().next() {
+      Some(TokenTree::Group(group)) => group.delimiter() == Delimiter::Brace && tokens.clone().into_iter().count() > 1,
+      Some(TokenTree::Ident(ident)) => ident == "if" && !matches!(self, Self::Ternary(_)),
+      _ => false,
+    };
+
+    if starts_with_block {
+      quote! { (#tokens) }
+    } else {
+      tokens
+    }
+  }
+
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
     let mut tokens = TokenStream::new();
     self.to_tokens(ctx, &mut tokens);
diff --git a/src/ast/statement.rs b/src/ast/statement.rs
index 902dd28..b963c6b 100644
--- a/src/ast/statement.rs
+++ b/src/ast/statement.rs
@@ -150,7 +150,7 @@ impl<'t> Statement<'t> {
         tokens.append_all(quote! { #asm; })
       },
       Self::Expr(expr) => {
-        let expr = expr.to_token_stream(ctx);
+        let expr = expr.to_statement_token_stream(ctx);
         tokens.append_all(quote! { #expr; })
       },
       Self::FunctionDecl(f) => f.to_tokens(ctx, tokens),
diff --git a/src/ast/ternary_expr.rs b/src/ast/ternary_expr.rs
index 1976e89..81e20b7 100644
--- a/src/ast/ternary_expr.rs
+++ b/src/ast/ternary_expr.rs
@@ -39,8 +39,8 @@ impl<'t> TernaryExpr<'t> {
 
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
     let cond = self.condition.to_token_stream(ctx);
-    let if_branch = self.if_branch.to_token_stream(ctx);
-    let else_branch = self.else_branch.to_token_stream(ctx);
+    let if_branch = self.if_branch.to_statement_token_stream(ctx);
+    let else_branch = self.else_branch.to_statement_token_stream(ctx);
 
     tokens.append_all(quote! {
       if #cond {
diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index b28c118..071d189 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -182,7 +182,8 @@ impl<'t> FnMacro<'t> {
     let mut body = TokenStream::new();
     match &self.body {
       MacroBody::Statement(stmt) => stmt.to_tokens(&mut ctx, &mut body),
-      MacroBody::Expr(expr) => expr.to_tokens(&mut ctx, &mut body),
+      MacroBody::Expr(expr) if ctx.export_as_macro => expr.to_tokens(&mut ctx, &mut body),
+      MacroBody::Expr(expr) => body.append_all(expr.to_statement_token_stream(&mut ctx)),
     }
 
     if ctx.export_as_macro {
-- 
2.43.0


From da6664db5b317b17761caad0474eb5a8ece46f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 23/67] fix: apply the operator of compound assignments to
 volatile values

---
 src/ast/binary_expr.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 4d23337..4f7d513 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -109,6 +109,23 @@ impl BinaryOp {
     }
   }
 
+  /// The operator which is applied by a compound assignment.
+  pub(crate) const fn without_assignment(&self) -> Option<Self> {
+    Some(match self {
+      Self::AddAssign => Self::Add,
+      Self::SubAssign => Self::Sub,
+      Self::MulAssign => Self::Mul,
+      Self::DivAssign => Self::Div,
+      Self::RemAssign => Self::Rem,
+      Self::ShlAssign => Self::Shl,
+      Self::ShrAssign => Self::Shr,
+      Self::BitAndAssign => Self::BitAnd,
+      Self::BitXorAssign => Self::BitXor,
+      Self::BitOrAssign => Self::BitOr,
+      _ => return None,
+    })
+  }
+
   pub(crate) const fn is_assignment(&self) -> bool {
     matches!(
       self,
@@ -332,11 +349,15 @@ impl<'t> BinaryExpr<'t> {
             if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
               let lhs_ptr = expr.to_token_stream(ctx);
 
-              let value = if self.op == BinaryOp::Assign {
-                quote! { #rhs }
-              } else {
+              let value = if let Some(op) = self.op.without_assignment() {
+                if self.rhs.precedence().0 >= op.precedence().0 {
+                  rhs = quote! { (#rhs) };
+                }
+
                 let prefix = ctx.trait_prefix().into_iter();
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) + #rhs }
+                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) #op #rhs }
+              } else {
+                quote! { #rhs }
               };
 
               let prefix = ctx.trait_prefix().into_iter();
-- 
2.43.0


From 2e88dd20a4d546125bca7072ac65e73c6dad15ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 24/67] fix: parenthesize the receiver of pointer increments

---
 src/ast/unary_expr.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 056945d..bcfe9df 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -240,11 +240,19 @@ impl<'t> UnaryExpr<'t> {
           Expr::Unary(UnaryExpr { op, expr }) => {
             let raw_expr = expr.to_token_stream(ctx);
 
+            let (expr_prec, _) = expr.precedence();
+
+            let receiver = if expr_prec > 1 {
+              quote! { (#raw_expr) }
+            } else {
+              raw_expr.clone()
+            };
+
             match op {
-              UnaryOp::Inc => return quote! { *{ #raw_expr = #raw_expr.add(1); #raw_expr } },
-              UnaryOp::Dec => return quote! { *{ #raw_expr = #raw_expr.sub(1); #raw_expr } },
-              UnaryOp::PostInc => return quote! { *{ let prev = #raw_expr; #raw_expr = #raw_expr.add(1); prev } },
-              UnaryOp::PostDec => return quote! { *{ let prev = #raw_expr; #raw_expr = #raw_expr.sub(1); prev } },
+              UnaryOp::Inc => return quote! { *{ #raw_expr = #receiver.add(1); #raw_expr } },
+              UnaryOp::Dec => return quote! { *{ #raw_expr = #receiver.sub(1); #raw_expr } },
+              UnaryOp::PostInc => return quote! { *{ let prev = #raw_expr; #raw_expr = #receiver.add(1); prev } },
+              UnaryOp::PostDec => return quote! { *{ let prev = #raw_expr; #raw_expr = #receiver.sub(1); prev } },
               _ => (),
             }
           },
-- 
2.43.0


From 195c705804a704bdfb67a6fbd3dd51c8b91c9cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 25/67] fix: do not take parenthesized names which are no types
 for casts

---
 src/fn_macro.rs   | 14 ++++++++--
 src/macro_body.rs | 66 ++++++++++++++++++++++++++++++++++++++++++++++-
 src/var_macro.rs  | 13 ++++++++--
 3 files changed, 88 insertions(+), 5 deletions(-)

diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index 071d189..b96824c 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -12,7 +12,9 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{
   ast::{macro_id, meta, punct},
-  is_identifier, CodegenContext, LocalContext, MacroArgType, MacroBody, MacroToken, Type,
+  is_identifier,
+  macro_body::unparenthesize_names,
+  CodegenContext, LocalContext, MacroArgType, MacroBody, MacroToken, Type,
 };
 
 /// A function-like macro.
@@ -104,6 +106,7 @@ pub struct FnMacro<'t> {
   name: String,
   args: Vec<String>,
   body: MacroBody<'t>,
+  tokens: Vec<MacroToken<'t>>,
 }
 
 impl<'t> FnMacro<'t> {
@@ -140,9 +143,10 @@ impl<'t> FnMacro<'t> {
 
     let (_, args) = Self::parse_args(args).map_err(|_| crate::ParserError::InvalidMacroArgs)?;
 
+    let tokens = body.to_vec();
     let (_, body) = MacroBody::parse(body).map_err(|_err| crate::ParserError::InvalidMacroBody)?;
 
-    Ok(Self { name, args, body })
+    Ok(Self { name, args, body, tokens })
   }
 
   /// Infer the type of this function macro and generate corresponding Rust code.
@@ -150,6 +154,12 @@ impl<'t> FnMacro<'t> {
   where
     C: CodegenContext,
   {
+    if let Some(tokens) = unparenthesize_names(&self.tokens, &cx) {
+      if let Ok((_, body)) = MacroBody::parse(&tokens) {
+        self.body = body;
+      }
+    }
+
     let mut tokens = TokenStream::new();
 
     let arg_types = self
diff --git a/src/macro_body.rs b/src/macro_body.rs
index 0b92656..fff3e66 100644
--- a/src/macro_body.rs
+++ b/src/macro_body.rs
@@ -7,7 +7,7 @@ use nom::{
 };
 
 use crate::{
-  ast::{meta, Type},
+  ast::{meta, parenthesized, IdentifierExpr, Type},
   CodegenContext, Expr, LocalContext, MacroToken, Statement,
 };
 
@@ -36,6 +36,70 @@ pub enum MacroBody<'t> {
   Expr(Expr<'t>),
 }
 
+/// Remove the parentheses around names which are not types, so that e.g. `(a) - b`
+/// is not mistaken for a cast of `-b`. Returns `None` if there are no such names.
+pub(crate) fn unparenthesize_names<'t, C>(tokens: &[MacroToken<'t>], cx: &C) -> Option<Vec<MacroToken<'t>>>
+where
+  C: CodegenContext,
+{
+  fn next<'i, 't>(tokens: &mut impl Iterator<Item = &'i MacroToken<'t>>) -> Option<&'i MacroToken<'t>>
+  where
+    't: 'i,
+  {
+    tokens.find(|token| !matches!(token, MacroToken::Comment(_)))
+  }
+
+  let mut output = vec![];
+  let mut input = tokens;
+
+  while let Some((token, rest)) = input.split_first() {
+    // A parenthesized argument of a function, `sizeof` etc.
+    let is_argument = matches!(
+      next(&mut output.iter().rev()),
+      Some(MacroToken::Identifier(_) | MacroToken::IdentifierContinue(_) | MacroToken::Arg(_))
+    );
+
+    if let (false, Ok((rest, Type::Identifier { name, is_struct: false }))) =
+      (is_argument, parenthesized(Type::parse)(input))
+    {
+      let is_type = match &name {
+        IdentifierExpr::Plain(name) => cx.resolve_ty(name.as_str()).is_some(),
+        _ => false,
+      };
+
+      let mut following = rest.iter();
+      let is_operand = match next(&mut following) {
+        Some(MacroToken::Punctuation(p)) => match p.as_str() {
+          "+" | "-" | "*" | "&" => true,
+          "++" | "--" => match next(&mut following) {
+            Some(MacroToken::Punctuation(p)) => !matches!(p.as_str(), "(" | "!" | "~"),
+            Some(_) => false,
+            None => true,
+          },
+          _ => false,
+        },
+        _ => false,
+      };
+
+      if is_operand && !is_type {
+        let len = input.len() - rest.len();
+        output.extend(input[1..(len - 1)].iter().cloned());
+        input = rest;
+        continue
+      }
+    }
+
+    output.push(token.clone());
+    input = rest;
+  }
+
+  if output.len() < tokens.len() {
+    Some(output)
+  } else {
+    None
+  }
+}
+
 impl<'t> MacroBody<'t> {
   pub(crate) fn parse<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let (tokens, _) = meta(tokens)?;
diff --git a/src/var_macro.rs b/src/var_macro.rs
index 8a3c150..fa814cc 100644
--- a/src/var_macro.rs
+++ b/src/var_macro.rs
@@ -4,7 +4,9 @@ use proc_macro2::TokenStream;
 use quote::TokenStreamExt;
 use semver::{Version, VersionReq};
 
-use crate::{ast::Lit, is_identifier, CodegenContext, Expr, LocalContext, MacroBody, MacroToken};
+use crate::{
+  ast::Lit, is_identifier, macro_body::unparenthesize_names, CodegenContext, Expr, LocalContext, MacroBody, MacroToken,
+};
 
 /// A variable-like macro.
 ///
@@ -31,6 +33,7 @@ use crate::{ast::Lit, is_identifier, CodegenContext, Expr, LocalContext, MacroBo
 pub struct VarMacro<'t> {
   name: String,
   body: MacroBody<'t>,
+  tokens: Vec<MacroToken<'t>>,
 }
 
 impl<'t> VarMacro<'t> {
@@ -43,7 +46,7 @@ impl<'t> VarMacro<'t> {
       Err(_) => return Err(crate::ParserError::InvalidMacroBody),
     };
 
-    Ok(Self { name, body })
+    Ok(Self { name, body, tokens: value.to_vec() })
   }
 
   /// Evaluate the value and type of this macro and generate corresponding Rust code.
@@ -51,6 +54,12 @@ impl<'t> VarMacro<'t> {
   where
     C: CodegenContext,
   {
+    if let Some(tokens) = unparenthesize_names(&self.tokens, &cx) {
+      if let Ok((_, body)) = MacroBody::parse(&tokens) {
+        self.body = body;
+      }
+    }
+
     let mut ctx = LocalContext::new(&cx);
     ctx.is_variable_macro = true;
 
-- 
2.43.0


From 31a2f2c6302a8f6ca8b280e287bc2b8abaaf972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 26/67] fix: evaluate the left-hand side of assignments once

---
 src/ast/binary_expr.rs |  7 +++++++
 src/ast/expr.rs        | 47 ++++++++++++++++++++++++++++++++++++++++++
 src/ast/unary_expr.rs  | 20 +++++++++++++++++-
 3 files changed, 73 insertions(+), 1 deletion(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 4f7d513..a0308e4 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -320,6 +320,13 @@ impl<'t> BinaryExpr<'t> {
   }
 
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
+    if self.op.is_assignment() {
+      if let Some((place, lhs)) = self.lhs.to_place(ctx) {
+        let assignment = Self { lhs: Box::new(lhs), op: self.op, rhs: self.rhs.clone() }.to_token_stream(ctx);
+        return quote! { { let __place = #place; #assignment } }
+      }
+    }
+
     let mut lhs = self.lhs.to_token_stream(ctx);
     let op = self.op;
     let mut rhs = self.rhs.to_token_stream(ctx);
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index cd28539..6015db6 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -55,6 +55,53 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Whether evaluating the expression twice differs from evaluating it once.
+  pub(crate) fn has_side_effects(&self) -> bool {
+    match self {
+      Self::Var(_) | Self::Literal(_) | Self::Stringify(_) | Self::ConcatString(_) | Self::SizeOf(_) => false,
+      Self::FunctionCall(_) => true,
+      Self::Cast(cast) => cast.expr.has_side_effects(),
+      Self::Unary(expr) => {
+        matches!(expr.op, UnaryOp::PostInc | UnaryOp::PostDec | UnaryOp::Inc | UnaryOp::Dec)
+          || expr.expr.has_side_effects()
+      },
+      Self::Binary(expr) => expr.op.is_assignment() || expr.lhs.has_side_effects() || expr.rhs.has_side_effects(),
+      Self::Ternary(expr) => {
+        expr.condition.has_side_effects() || expr.if_branch.has_side_effects() || expr.else_branch.has_side_effects()
+      },
+    }
+  }
+
+  /// Split the left-hand side of an assignment with side effects into code for a pointer to it, which has to be
+  /// assigned to a variable called `__place`, and an expression which refers to it through this variable.
+  pub(crate) fn to_place<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> Option<(TokenStream, Self)> {
+    if !self.has_side_effects() {
+      return None
+    }
+
+    let place = Box::new(Self::Var(Var {
+      name: IdentifierExpr::Plain(Identifier { id: Cow::Borrowed("__place") }),
+    }));
+
+    let (ptr, place) = match self {
+      Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) if matches!(&**expr, Self::Cast(_)) => {
+        let place = match &**expr {
+          Self::Cast(Cast { ty, .. }) => Self::Cast(Cast { ty: ty.clone(), expr: place }),
+          _ => unreachable!(),
+        };
+
+        (expr.to_token_stream(ctx), Box::new(place))
+      },
+      _ => {
+        let trait_prefix = ctx.trait_prefix().into_iter();
+        let lhs = self.to_token_stream(ctx);
+        (quote! { #(#trait_prefix::)*ptr::addr_of_mut!(#lhs) }, place)
+      },
+    };
+
+    Some((ptr, Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr: place })))
+  }
+
   /// Parse string concatenation, e.g. `arg "333"`.
   fn parse_concat_string<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let parse_var = map(IdentifierExpr::parse_concat_ident, |id| Self::Var(Var { name: id }));
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index bcfe9df..d4c7de9 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -94,6 +94,14 @@ impl<'t> UnaryExpr<'t> {
   }
 
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
+    // The operand is generated more than once.
+    if matches!(self.op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec) {
+      if let Some((place, expr)) = self.expr.to_place(ctx) {
+        let expr = Self { op: self.op, expr: Box::new(expr) }.to_token_stream(ctx);
+        return quote! { { let __place = #place; #expr } }
+      }
+    }
+
     let (prec, _) = self.precedence();
     let (expr_prec, _) = self.expr.precedence();
 
@@ -237,7 +245,17 @@ impl<'t> UnaryExpr<'t> {
               _ => (),
             }
           },
-          Expr::Unary(UnaryExpr { op, expr }) => {
+          Expr::Unary(UnaryExpr {
+            op: op @ (UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec),
+            expr,
+          }) => {
+            if let Some((place, expr)) = expr.to_place(ctx) {
+              let expr = Expr::Unary(Self { op: *op, expr: Box::new(expr) });
+              let expr = Self { op: self.op, expr: Box::new(expr) }.to_token_stream(ctx);
+              let trait_prefix = ctx.trait_prefix().into_iter();
+              return quote! { *{ let __place = #place; #(#trait_prefix::)*ptr::addr_of_mut!(#expr) } }
+            }
+
             let raw_expr = expr.to_token_stream(ctx);
 
             let (expr_prec, _) = expr.precedence();
-- 
2.43.0


From a8003891527e4fb7eca0d0c854d920ef90da6e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 27/67] fix: export macros modifying an argument or taking its
 address as macros

---
 src/ast/binary_expr.rs | 2 +-
 src/ast/expr.rs        | 9 +++++++++
 src/ast/unary_expr.rs  | 7 +++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index a0308e4..e85fca5 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -234,7 +234,7 @@ impl<'t> BinaryExpr<'t> {
     }
 
     // Must export as a macro in order to be able to assign to a macro argument.
-    if self.op.is_assignment() && matches!(&*self.lhs, Expr::Var(Var { name: IdentifierExpr::Arg(_) })) {
+    if self.op.is_assignment() && self.lhs.is_arg_place() {
       ctx.export_as_macro = true;
     }
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 6015db6..00e06c5 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -55,6 +55,15 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Whether the expression denotes a macro argument or a part of it.
+  pub(crate) fn is_arg_place(&self) -> bool {
+    match self {
+      Self::Var(Var { name: IdentifierExpr::Arg(_) }) => true,
+      Self::Binary(BinaryExpr { lhs, op: BinaryOp::MemberAccess, .. }) => lhs.is_arg_place(),
+      _ => false,
+    }
+  }
+
   /// Whether evaluating the expression twice differs from evaluating it once.
   pub(crate) fn has_side_effects(&self) -> bool {
     match self {
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index d4c7de9..44ef754 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -70,6 +70,13 @@ impl<'t> UnaryExpr<'t> {
   {
     let ty = self.expr.finish(ctx)?;
 
+    // Must export as a macro in order to be able to modify a macro argument or to take its address.
+    if matches!(self.op, UnaryOp::PostInc | UnaryOp::PostDec | UnaryOp::Inc | UnaryOp::Dec | UnaryOp::AddrOf)
+      && self.expr.is_arg_place()
+    {
+      ctx.export_as_macro = true;
+    }
+
     match self.op {
       UnaryOp::Deref => {
         // Cannot dereference pointers in variable macros, i.e. constants.
-- 
2.43.0


From bf409819174afd7187fe62c42c8055c65b90b443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 28/67] fix: access elements and members of volatile objects as
 volatile

---
 src/ast/binary_expr.rs |  61 +++++++++-------
 src/ast/expr.rs        |  31 ++++----
 src/ast/unary_expr.rs  | 161 +++++++++++++++++++++--------------------
 3 files changed, 136 insertions(+), 117 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index e85fca5..5dda1ea 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -5,7 +5,7 @@ use quote::{quote, ToTokens, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext, MacroArgType};
 
-use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitFloat, LitInt, Type, UnaryExpr, UnaryOp, Var};
+use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitFloat, LitInt, Type, Var};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub(crate) enum Associativity {
@@ -315,6 +315,18 @@ impl<'t> BinaryExpr<'t> {
     !self.op.is_assignment() && !self.parens().1 && self.rhs.ends_with_cast()
   }
 
+  /// Generate a pointer to the object if it is accessed through a pointer to volatile.
+  pub(crate) fn volatile_ptr<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> Option<TokenStream> {
+    if self.op != BinaryOp::MemberAccess {
+      return None
+    }
+
+    let ptr = self.lhs.volatile_ptr(ctx)?;
+    let field = self.rhs.to_token_stream(ctx);
+    let prefix = ctx.trait_prefix().into_iter();
+    Some(quote! { #(#prefix::)*ptr::addr_of_mut!((*(#ptr)).#field) })
+  }
+
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
     tokens.append_all(self.to_token_stream(ctx))
   }
@@ -351,30 +363,24 @@ impl<'t> BinaryExpr<'t> {
       | BinaryOp::BitAndAssign
       | BinaryOp::BitXorAssign
       | BinaryOp::BitOrAssign => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.lhs {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
-
-              let value = if let Some(op) = self.op.without_assignment() {
-                if self.rhs.precedence().0 >= op.precedence().0 {
-                  rhs = quote! { (#rhs) };
-                }
-
-                let prefix = ctx.trait_prefix().into_iter();
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) #op #rhs }
-              } else {
-                quote! { #rhs }
-              };
-
-              let prefix = ctx.trait_prefix().into_iter();
-              return quote! {
-                {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value);
-                  value
-                }
-              }
+        if let Some(lhs_ptr) = self.lhs.volatile_ptr(ctx) {
+          let value = if let Some(op) = self.op.without_assignment() {
+            if self.rhs.precedence().0 >= op.precedence().0 {
+              rhs = quote! { (#rhs) };
+            }
+
+            let prefix = ctx.trait_prefix().into_iter();
+            quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) #op #rhs }
+          } else {
+            quote! { #rhs }
+          };
+
+          let prefix = ctx.trait_prefix().into_iter();
+          return quote! {
+            {
+              let value = #value;
+              #(#prefix::)*ptr::write_volatile(#lhs_ptr, value);
+              value
             }
           }
         }
@@ -382,6 +388,11 @@ impl<'t> BinaryExpr<'t> {
         quote! { { #lhs #op #rhs; #lhs } }
       },
       op => {
+        if let Some(ptr) = self.volatile_ptr(ctx) {
+          let prefix = ctx.trait_prefix().into_iter();
+          return quote! { #(#prefix::)*ptr::read_volatile(#ptr) }
+        }
+
         if lhs_parens {
           lhs = quote! { (#lhs) };
         }
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 00e06c5..2976fcb 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -64,6 +64,15 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Generate a pointer to the object denoted by the expression if it is accessed through a pointer to volatile.
+  pub(crate) fn volatile_ptr<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> Option<TokenStream> {
+    match self {
+      Self::Unary(expr) => expr.volatile_ptr(ctx),
+      Self::Binary(expr) => expr.volatile_ptr(ctx),
+      _ => None,
+    }
+  }
+
   /// Whether evaluating the expression twice differs from evaluating it once.
   pub(crate) fn has_side_effects(&self) -> bool {
     match self {
@@ -92,20 +101,14 @@ impl<'t> Expr<'t> {
       name: IdentifierExpr::Plain(Identifier { id: Cow::Borrowed("__place") }),
     }));
 
-    let (ptr, place) = match self {
-      Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) if matches!(&**expr, Self::Cast(_)) => {
-        let place = match &**expr {
-          Self::Cast(Cast { ty, .. }) => Self::Cast(Cast { ty: ty.clone(), expr: place }),
-          _ => unreachable!(),
-        };
-
-        (expr.to_token_stream(ctx), Box::new(place))
-      },
-      _ => {
-        let trait_prefix = ctx.trait_prefix().into_iter();
-        let lhs = self.to_token_stream(ctx);
-        (quote! { #(#trait_prefix::)*ptr::addr_of_mut!(#lhs) }, place)
-      },
+    let (ptr, place) = if let Some(ptr) = self.volatile_ptr(ctx) {
+      let ty = Type::Identifier { name: IdentifierExpr::Plain(Identifier { id: Cow::Borrowed("_") }), is_struct: false };
+      let ty = Type::Qualified { ty: Box::new(ty), qualifier: TypeQualifier::Volatile };
+      (ptr, Box::new(Self::Cast(Cast { ty: Type::Ptr { ty: Box::new(ty) }, expr: place })))
+    } else {
+      let trait_prefix = ctx.trait_prefix().into_iter();
+      let lhs = self.to_token_stream(ctx);
+      (quote! { #(#trait_prefix::)*ptr::addr_of_mut!(#lhs) }, place)
     };
 
     Some((ptr, Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr: place })))
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 44ef754..97b950b 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -96,6 +96,31 @@ impl<'t> UnaryExpr<'t> {
     }
   }
 
+  /// Generate a pointer to the object if it is accessed through a pointer to volatile.
+  pub(crate) fn volatile_ptr<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> Option<TokenStream> {
+    let is_volatile = |expr: &Expr| {
+      matches!(
+        expr, Expr::Cast(Cast { ty: Type::Ptr { ty }, .. })
+        if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile())
+      )
+    };
+
+    match (self.op, &*self.expr) {
+      (UnaryOp::Deref, expr) if is_volatile(expr) => Some(expr.to_token_stream(ctx)),
+      (UnaryOp::Deref, Expr::Binary(BinaryExpr { lhs, op, rhs })) if is_volatile(lhs) => {
+        let lhs = lhs.to_token_stream(ctx);
+        let rhs = rhs.to_token_stream(ctx);
+
+        match op {
+          BinaryOp::Add => Some(quote! { (#lhs).add(#rhs) }),
+          BinaryOp::Sub => Some(quote! { (#lhs).sub(#rhs) }),
+          _ => None,
+        }
+      },
+      _ => None,
+    }
+  }
+
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
     tokens.append_all(self.to_token_stream(ctx))
   }
@@ -122,24 +147,18 @@ impl<'t> UnaryExpr<'t> {
 
     match self.op {
       UnaryOp::Inc => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let value = {
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) + 1 }
-              };
-
-              let prefix = ctx.trait_prefix().into_iter();
-              return quote! {
-                {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value);
-                  value
-                }
-              }
+        if let Some(lhs_ptr) = self.expr.volatile_ptr(ctx) {
+          let prefix = ctx.trait_prefix().into_iter();
+          let value = {
+            quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) + 1 }
+          };
+
+          let prefix = ctx.trait_prefix().into_iter();
+          return quote! {
+            {
+              let value = #value;
+              #(#prefix::)*ptr::write_volatile(#lhs_ptr, value);
+              value
             }
           }
         }
@@ -147,24 +166,18 @@ impl<'t> UnaryExpr<'t> {
         quote! { { #raw_expr += 1; #raw_expr } }
       },
       UnaryOp::Dec => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let value = {
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) - 1 }
-              };
-
-              let prefix = ctx.trait_prefix().into_iter();
-              return quote! {
-                {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value);
-                  value
-                }
-              }
+        if let Some(lhs_ptr) = self.expr.volatile_ptr(ctx) {
+          let prefix = ctx.trait_prefix().into_iter();
+          let value = {
+            quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) - 1 }
+          };
+
+          let prefix = ctx.trait_prefix().into_iter();
+          return quote! {
+            {
+              let value = #value;
+              #(#prefix::)*ptr::write_volatile(#lhs_ptr, value);
+              value
             }
           }
         }
@@ -172,24 +185,18 @@ impl<'t> UnaryExpr<'t> {
         quote! { { #raw_expr -= 1; #raw_expr } }
       },
       UnaryOp::PostInc => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let value = {
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) }
-              };
-
-              let prefix = ctx.trait_prefix().into_iter();
-              return quote! {
-                {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value + 1);
-                  value
-                }
-              }
+        if let Some(lhs_ptr) = self.expr.volatile_ptr(ctx) {
+          let prefix = ctx.trait_prefix().into_iter();
+          let value = {
+            quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) }
+          };
+
+          let prefix = ctx.trait_prefix().into_iter();
+          return quote! {
+            {
+              let value = #value;
+              #(#prefix::)*ptr::write_volatile(#lhs_ptr, value + 1);
+              value
             }
           }
         }
@@ -197,24 +204,18 @@ impl<'t> UnaryExpr<'t> {
         quote! { { let prev = #raw_expr; #raw_expr += 1; prev } }
       },
       UnaryOp::PostDec => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let value = {
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) }
-              };
-
-              let prefix = ctx.trait_prefix().into_iter();
-              return quote! {
-                {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value - 1);
-                  value
-                }
-              }
+        if let Some(lhs_ptr) = self.expr.volatile_ptr(ctx) {
+          let prefix = ctx.trait_prefix().into_iter();
+          let value = {
+            quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) }
+          };
+
+          let prefix = ctx.trait_prefix().into_iter();
+          return quote! {
+            {
+              let value = #value;
+              #(#prefix::)*ptr::write_volatile(#lhs_ptr, value - 1);
+              value
             }
           }
         }
@@ -227,13 +228,12 @@ impl<'t> UnaryExpr<'t> {
       UnaryOp::Plus => expr,
       UnaryOp::Minus => format!("-{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Deref => {
+        if let Some(ptr) = self.volatile_ptr(ctx) {
+          let prefix = ctx.trait_prefix().into_iter();
+          return quote! { #(#prefix::)*ptr::read_volatile(#ptr) }
+        }
+
         match &*self.expr {
-          Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) => {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let prefix = ctx.trait_prefix().into_iter();
-              return quote! { #(#prefix::)*ptr::read_volatile(#raw_expr) }
-            }
-          },
           Expr::Binary(BinaryExpr { lhs, op, rhs }) => {
             let raw_lhs = lhs.to_token_stream(ctx);
             let raw_rhs = rhs.to_token_stream(ctx);
@@ -287,6 +287,11 @@ impl<'t> UnaryExpr<'t> {
         format!("*{expr}").parse::<TokenStream>().unwrap()
       },
       UnaryOp::AddrOf => {
+        let raw_expr = match self.expr.volatile_ptr(ctx) {
+          Some(ptr) => quote! { *(#ptr) },
+          None => raw_expr,
+        };
+
         let trait_prefix = ctx.trait_prefix().into_iter();
         quote! { #(#trait_prefix::)*ptr::addr_of_mut!(#raw_expr) }
       },
-- 
2.43.0


From 72d36569468ba9adb0c531759b9a45699f6a4e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 29/67] fix: keep volatile when it is given twice

---
 src/ast/ty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 6cf3f7a..ebcd204 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -345,7 +345,7 @@ impl TypeQualifier {
   const fn or(self, other: Self) -> Self {
     match (self, other) {
       (Self::Const, Self::Const) => Self::Const,
-      (Self::Volatile, Self::Volatile) => Self::Const,
+      (Self::Volatile, Self::Volatile) => Self::Volatile,
       _ => Self::ConstVolatile,
     }
   }
-- 
2.43.0


From 9ccf2c4948c0b966b68281c45400c005dea491e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 30/67] fix: accept the specifiers of built-in types in any
 order, and unsigned and signed alone

---
 src/ast/ty.rs | 159 +++++++++++++++++---------------------------------
 1 file changed, 52 insertions(+), 107 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index ebcd204..8d8c067 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -2,9 +2,9 @@ use std::{fmt::Debug, str::FromStr};
 
 use nom::{
   branch::{alt, permutation},
-  combinator::{map, opt, value},
-  multi::fold_many0,
-  sequence::{pair, preceded, terminated, tuple},
+  combinator::{map, map_opt, opt, value},
+  multi::{fold_many0, many1},
+  sequence::{pair, preceded, tuple},
   IResult,
 };
 use proc_macro2::{Ident, Span, TokenStream};
@@ -196,114 +196,59 @@ impl BuiltInType {
   }
 }
 
-fn int_ty<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Type<'t>> {
-  fn int_signedness<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], &'static str> {
-    alt((keyword("unsigned"), keyword("signed")))(input)
-  }
-
-  fn int_length<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], &'static str> {
-    alt((keyword("short"), keyword("long")))(input)
-  }
-
-  alt((
-    // [const] [(unsigned | signed)] long long [int]
-    map(
-      permutation((
-        opt(const_volatile_qualifier),
-        opt(int_signedness),
-        keyword("long"),
-        keyword("long"),
-        opt(keyword("int")),
-      )),
-      |(qualifier, s, _, _, _)| {
-        let ty = if matches!(s, Some("unsigned")) { BuiltInType::ULongLong } else { BuiltInType::LongLong };
-        let ty = Type::BuiltIn(ty);
-
-        if let Some(qualifier) = qualifier {
-          ty.qualify(qualifier)
-        } else {
-          ty
-        }
-      },
-    ),
-    // [const] [(unsigned | signed)] (long | short) [int]
-    map(
-      permutation((opt(const_volatile_qualifier), opt(int_signedness), int_length, opt(keyword("int")))),
-      |(qualifier, s, i, _)| {
-        let ty = match (s, i) {
-          (Some("unsigned"), "short") => BuiltInType::UShort,
-          (_, "short") => BuiltInType::Short,
-          (Some("unsigned"), "long") => BuiltInType::ULong,
-          (_, "long") => BuiltInType::Long,
-          _ => unreachable!(),
-        };
-        let ty = Type::BuiltIn(ty);
-
-        if let Some(qualifier) = qualifier {
-          ty.qualify(qualifier)
-        } else {
-          ty
-        }
-      },
-    ),
-    // [const] [(unsigned | signed)] (char | int)
-    map(
-      permutation((opt(const_volatile_qualifier), opt(int_signedness), alt((keyword("char"), keyword("int"))))),
-      |(qualifier, s, i)| {
-        let ty = match (s, i) {
-          (Some("unsigned"), "int") => BuiltInType::UInt,
-          (_, "int") => BuiltInType::Int,
-          (Some("unsigned"), "char") => BuiltInType::UChar,
-          (Some("signed"), "char") => BuiltInType::SChar,
-          (_, "char") => BuiltInType::Char,
-          _ => unreachable!(),
-        };
-        let ty = Type::BuiltIn(ty);
-
-        if let Some(qualifier) = qualifier {
-          ty.qualify(qualifier)
-        } else {
-          ty
-        }
-      },
-    ),
-  ))(input)
+/// Parse the specifiers and qualifiers of a built-in type, which may be in any order.
+fn builtin_ty<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Type<'t>> {
+  let specifier = alt((
+    keyword("void"),
+    keyword("bool"),
+    keyword("float"),
+    keyword("double"),
+    keyword("char"),
+    keyword("short"),
+    keyword("int"),
+    keyword("long"),
+    keyword("signed"),
+    keyword("unsigned"),
+  ));
+
+  map_opt(
+    many1(alt((map(const_volatile_qualifier, Err), map(specifier, Ok)))),
+    |tokens: Vec<Result<&'static str, TypeQualifier>>| {
+      let qualifier = tokens.iter().filter_map(|t| t.err()).reduce(TypeQualifier::or);
+      let mut specifiers = tokens.into_iter().filter_map(Result::ok).collect::<Vec<_>>();
+      specifiers.sort_unstable();
+
+      let ty = Type::BuiltIn(match specifiers.as_slice() {
+        ["void"] => BuiltInType::Void,
+        ["bool"] => BuiltInType::Bool,
+        ["float"] => BuiltInType::Float,
+        ["double"] => BuiltInType::Double,
+        ["double", "long"] => BuiltInType::LongDouble,
+        ["char"] => BuiltInType::Char,
+        ["char", "signed"] => BuiltInType::SChar,
+        ["char", "unsigned"] => BuiltInType::UChar,
+        ["short"] | ["int", "short"] | ["short", "signed"] | ["int", "short", "signed"] => BuiltInType::Short,
+        ["short", "unsigned"] | ["int", "short", "unsigned"] => BuiltInType::UShort,
+        ["int"] | ["signed"] | ["int", "signed"] => BuiltInType::Int,
+        ["unsigned"] | ["int", "unsigned"] => BuiltInType::UInt,
+        ["long"] | ["int", "long"] | ["long", "signed"] | ["int", "long", "signed"] => BuiltInType::Long,
+        ["long", "unsigned"] | ["int", "long", "unsigned"] => BuiltInType::ULong,
+        ["long", "long"]
+        | ["int", "long", "long"]
+        | ["long", "long", "signed"]
+        | ["int", "long", "long", "signed"] => BuiltInType::LongLong,
+        ["long", "long", "unsigned"] | ["int", "long", "long", "unsigned"] => BuiltInType::ULongLong,
+        _ => return None,
+      });
+
+      Some(if let Some(qualifier) = qualifier { ty.qualify(qualifier) } else { ty })
+    },
+  )(input)
 }
 
 fn ty<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Type<'t>> {
   alt((
-    // [const] (float | [long] double | bool | void)
-    map(
-      pair(
-        opt(const_volatile_qualifier),
-        alt((
-          map(keyword("void"), |_| Type::BuiltIn(BuiltInType::Void)),
-          map(keyword("bool"), |_| Type::BuiltIn(BuiltInType::Bool)),
-          map(keyword("float"), |_| Type::BuiltIn(BuiltInType::Float)),
-          map(
-            terminated(pair(opt(keyword("long")), opt(const_volatile_qualifier)), keyword("double")),
-            |(long, qualifier)| {
-              let ty = if long.is_some() { BuiltInType::LongDouble } else { BuiltInType::Double };
-              let ty = Type::BuiltIn(ty);
-
-              if let Some(qualifier) = qualifier {
-                ty.qualify(qualifier)
-              } else {
-                ty
-              }
-            },
-          ),
-        )),
-      ),
-      |(qualifier, ty)| {
-        if let Some(qualifier) = qualifier {
-          ty.qualify(qualifier)
-        } else {
-          ty
-        }
-      },
-    ),
-    int_ty,
+    builtin_ty,
     // [const] <identifier>
     map(
       tuple((opt(const_volatile_qualifier), opt(keyword("struct")), IdentifierExpr::parse_concat_ident)),
-- 
2.43.0


From e79aef1fd2c0ec69c4a2bbf5a84704e1fd0d9d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 31/67] fix: reject text behind a type in Type::from_str

---
 src/ast/ty.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 8d8c067..b1c38a4 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -2,7 +2,7 @@ use std::{fmt::Debug, str::FromStr};
 
 use nom::{
   branch::{alt, permutation},
-  combinator::{map, map_opt, opt, value},
+  combinator::{all_consuming, map, map_opt, opt, value},
   multi::{fold_many0, many1},
   sequence::{pair, preceded, tuple},
   IResult,
@@ -536,7 +536,7 @@ impl FromStr for Type<'static> {
         }
       })
       .collect::<Result<Vec<_>, _>>()?;
-    let (_, ty) = Type::parse(&tokens).map_err(|_| crate::CodegenError::UnsupportedType(s.to_owned()))?;
+    let (_, ty) = all_consuming(Type::parse)(&tokens).map_err(|_| crate::CodegenError::UnsupportedType(s.to_owned()))?;
 
     match ty.to_static() {
       Some(ty) => Ok(ty),
-- 
2.43.0


From 29a6e499594bd4a7ce631cbbb957ad8194cbf24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 32/67] fix: represent pointers to const objects as *const
 pointers

---
 src/ast/cast.rs |  4 ++++
 src/ast/ty.rs   | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/ast/cast.rs b/src/ast/cast.rs
index cada6d2..c825cd3 100644
--- a/src/ast/cast.rs
+++ b/src/ast/cast.rs
@@ -41,6 +41,10 @@ impl<'t> Cast<'t> {
         let prefix = ctx.trait_prefix().into_iter();
         quote! { #(#prefix::)*ptr::null() }
       },
+      (Type::Ptr { ty }, Expr::Literal(Lit::Int(LitInt { value: 0, .. }))) if ty.is_const() => {
+        let prefix = ctx.trait_prefix().into_iter();
+        quote! { #(#prefix::)*ptr::null() }
+      },
       (Type::Ptr { .. }, Expr::Literal(Lit::Int(LitInt { value: 0, .. }))) => {
         let prefix = ctx.trait_prefix().into_iter();
         quote! { #(#prefix::)*ptr::null_mut() }
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index b1c38a4..1c03641 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -370,6 +370,11 @@ impl<'t> Type<'t> {
     }
   }
 
+  /// Check if this type is declared `const` and thus only accessible through a `*const` pointer.
+  pub(crate) fn is_const(&self) -> bool {
+    matches!(self, Self::Qualified { ty, qualifier } if qualifier.is_const() && !ty.is_ptr())
+  }
+
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
   where
     C: CodegenContext,
@@ -405,8 +410,9 @@ impl<'t> Type<'t> {
         tokens.append_all(quote! { #leading_colon #(#ids)::* })
       },
       Self::Ptr { ty } => {
+        let is_const = ty.is_const();
         let ty = ty.to_token_stream(ctx);
-        tokens.append_all(quote! { *mut #ty })
+        tokens.append_all(if is_const { quote! { *const #ty } } else { quote! { *mut #ty } })
       },
       Self::Qualified { ty, qualifier } => {
         let ty = match &**ty {
@@ -482,8 +488,13 @@ impl<'t> Type<'t> {
         syn::parse_quote! { #(#colon)* #(#segments)::*  }
       },
       Self::Ptr { ty } => {
+        let is_const = ty.is_const();
         let ty = ty.to_rust_ty(ctx)?;
-        syn::parse_quote! { *mut #ty }
+        if is_const {
+          syn::parse_quote! { *const #ty }
+        } else {
+          syn::parse_quote! { *mut #ty }
+        }
       },
       Self::Qualified { ty, qualifier } => match &**ty {
         Self::Ptr { ty, .. } if qualifier.is_const() => {
-- 
2.43.0


From dfde58309cb2ec755da1ea0edcfeb3021421477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:44 +0000
Subject: [PATCH 33/67] fix: accept repeated type qualifiers

---
 src/ast/ty.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 1c03641..e067b4c 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -1,7 +1,7 @@
 use std::{fmt::Debug, str::FromStr};
 
 use nom::{
-  branch::{alt, permutation},
+  branch::alt,
   combinator::{all_consuming, map, map_opt, opt, value},
   multi::{fold_many0, many1},
   sequence::{pair, preceded, tuple},
@@ -297,11 +297,9 @@ impl TypeQualifier {
 }
 
 fn const_volatile_qualifier<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], TypeQualifier> {
-  alt((
-    value(TypeQualifier::ConstVolatile, permutation((keyword("const"), keyword("volatile")))),
-    value(TypeQualifier::Const, keyword("const")),
-    value(TypeQualifier::Volatile, keyword("volatile")),
-  ))(input)
+  let qualifier = alt((value(TypeQualifier::Const, keyword("const")), value(TypeQualifier::Volatile, keyword("volatile"))));
+
+  map_opt(many1(qualifier), |qualifiers| qualifiers.into_iter().reduce(TypeQualifier::or))(input)
 }
 
 /// A type.
-- 
2.43.0


From 56842c3069dbf45168658e0c80f0c303d1f47bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 34/67] fix: do not give functions without value a return type,
 and treat qualified void as void

---
 src/ast/function_decl.rs | 9 +++++++--
 src/ast/ty.rs            | 6 +++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ast/function_decl.rs b/src/ast/function_decl.rs
index 5fea3ce..803e778 100644
--- a/src/ast/function_decl.rs
+++ b/src/ast/function_decl.rs
@@ -69,11 +69,16 @@ impl<'t> FunctionDecl<'t> {
         quote! { #arg: #ty }
       })
       .collect::<Vec<_>>();
-    let ret_ty = self.ret_ty.to_token_stream(ctx);
+    let ret_ty = if self.ret_ty.is_void() {
+      None
+    } else {
+      let ret_ty = self.ret_ty.to_token_stream(ctx);
+      Some(quote! { -> #ret_ty })
+    };
 
     tokens.append_all(quote! {
       extern "C" {
-        pub fn #name(#(#args),*) -> #ret_ty;
+        pub fn #name(#(#args),*) #ret_ty;
       }
     })
   }
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index e067b4c..0bf6a4d 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -356,7 +356,11 @@ impl<'t> Type<'t> {
 
   /// Check if this type is `void`.
   pub fn is_void(&self) -> bool {
-    matches!(self, Self::BuiltIn(BuiltInType::Void))
+    match self {
+      Self::BuiltIn(BuiltInType::Void) => true,
+      Self::Qualified { ty, .. } => ty.is_void(),
+      _ => false,
+    }
   }
 
   /// Check if this is a pointer type.
-- 
2.43.0


From 1d63ec9a2fdbc1da398e3b1d09f740c02a642b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:49 +0000
Subject: [PATCH 35/67] fix: read %, braces and operand modifiers in inline
 assembly templates as C does

---
 src/ast/asm.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 49cb1ba..65d91be 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -86,12 +86,12 @@ impl<'t> Asm<'t> {
                 let n = s.parse::<usize>().ok()?;
                 Some(format!("{{{}}}", n))
               }),
-              map(alpha1, |reg| format!("%{reg}")),
+              map(char('%'), |c| c.to_string()),
             )),
           ),
           // Escape Rust format string.
           map(alt((char('{'), char('}'))), |c| format!("{0}{0}", c)),
-          fold_many1(none_of::<_, _, nom::error::Error<&str>>("%"), String::new, |mut acc, c| {
+          fold_many1(none_of::<_, _, nom::error::Error<&str>>("%{}"), String::new, |mut acc, c| {
             acc.push(c);
             acc
           }),
@@ -102,10 +102,19 @@ impl<'t> Asm<'t> {
           acc
         },
       ),
-      |s| s.split('\n').map(|s| s.trim().to_owned()).collect(),
+      |s| Self::split_lines(&s),
     ))(input)
   }
 
+  /// Without operands, `%` has no special meaning in a template.
+  fn parse_basic_template(input: &str) -> Vec<String> {
+    Self::split_lines(&input.replace('{', "{{").replace('}', "}}"))
+  }
+
+  fn split_lines(template: &str) -> Vec<String> {
+    template.split('\n').map(|s| s.trim().to_owned()).collect()
+  }
+
   fn parse_reg_constraint(input: &str) -> IResult<&str, RegConstraint> {
     alt((
       map_opt(alpha1, |s: &str| {
@@ -140,14 +149,15 @@ impl<'t> Asm<'t> {
   }
 
   pub(crate) fn parse<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
-    let (tokens, (template, outputs, inputs, clobbers)) = preceded(
+    let (rest, ((basic_template, template), outputs, inputs, clobbers)) = preceded(
       terminated(alt((id("__asm__"), id("__asm"), id("asm"))), opt(alt((id("volatile"), id("inline"), id("goto"))))),
       parenthesized(tuple((
         delimited(
           meta,
           map_opt(LitString::parse, |s| {
-            let (_, template) = Self::parse_template(s.as_str()?).ok()?;
-            Some(template)
+            let basic_template = Self::parse_basic_template(s.as_str()?);
+            let template = Self::parse_template(s.as_str()?).ok().map(|(_, template)| template);
+            Some((basic_template, template))
           }),
           meta,
         ),
@@ -187,11 +197,17 @@ impl<'t> Asm<'t> {
       ))),
     )(tokens)?;
 
+    let template = if outputs.is_some() {
+      template.ok_or_else(|| nom::Err::Error(nom::error::Error::new(tokens, nom::error::ErrorKind::MapOpt)))?
+    } else {
+      basic_template
+    };
+
     let outputs = outputs.unwrap_or_default();
     let inputs = inputs.unwrap_or_default();
     let clobbers = clobbers.unwrap_or_default();
 
-    Ok((tokens, Self { template, outputs, inputs, clobbers }))
+    Ok((rest, Self { template, outputs, inputs, clobbers }))
   }
 
   #[allow(unused_variables)]
@@ -219,7 +235,7 @@ impl<'t> Asm<'t> {
       // GCC template variables (e.g. `%0`) have already been replaced (e.g. `{{0}}`).
       // AT&T syntax uses e.g. `(%0,...)` while Intel syntax uses e.g. `[%0,...]` for
       // indirect addresses.
-      s.contains("({") ||
+      s.replace("{{", "").contains("({") ||
       // Remaining `%` mean registers use AT&T syntax (e.g. `%eax`).
       s.contains('%') ||
       // Immediate values are prefixed with `$`.
-- 
2.43.0


From 26e6f5757db423de990b28ee5c5a4acce8e2763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:02 +0000
Subject: [PATCH 36/67] fix: use the inputs of inline assembly which are in the
 location of an output

---
 src/ast/asm.rs | 81 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 68 insertions(+), 13 deletions(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 65d91be..a651ccd 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -217,12 +217,30 @@ impl<'t> Asm<'t> {
   {
     for (_, _, output) in self.outputs.iter_mut() {
       output.finish(ctx)?;
+
+      // Must export as a macro in order to be able to assign to a macro argument.
+      if output.is_arg_place() {
+        ctx.export_as_macro = true;
+      }
     }
 
     for (_, input) in self.inputs.iter_mut() {
       input.finish(ctx)?;
     }
 
+    let mut matched = vec![];
+
+    for (constraint, _) in self.inputs.iter() {
+      if let RegConstraint::Digit(d) = constraint {
+        // Only plain outputs can have an input in the same location, and only one.
+        if !matches!(self.outputs.get(*d as usize), Some((Dir::Out, _, _))) || matched.contains(d) {
+          return Err(crate::CodegenError::UnsupportedExpression("matching constraint in inline assembly".to_owned()))
+        }
+
+        matched.push(*d);
+      }
+    }
+
     if self.is_global() {
       ctx.export_as_macro = true;
     }
@@ -250,30 +268,67 @@ impl<'t> Asm<'t> {
       .any(|line| line.starts_with(".globl") || line.starts_with(".global") || line.starts_with(".section"))
   }
 
-  pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
-    let template = &self.template;
+  /// Replace the numbers of the operands in the template.
+  fn number_operands(template: &str, numbers: &[usize]) -> String {
+    let mut output = String::new();
+    let mut rest = template;
+
+    while let Some(i) = rest.find('{') {
+      output.push_str(&rest[..=i]);
+      rest = &rest[(i + 1)..];
+
+      if let Some(escaped) = rest.strip_prefix('{') {
+        output.push('{');
+        rest = escaped;
+      } else if let Some((number, after)) = rest.split_once('}') {
+        let operand = number.parse::<usize>().ok().and_then(|n| numbers.get(n));
+        output.push_str(&operand.map_or_else(|| number.to_owned(), |n| n.to_string()));
+        output.push('}');
+        rest = after;
+      }
+    }
 
-    let mut outputs = self.outputs.clone();
-    let mut inputs = self.inputs.clone();
+    output.push_str(rest);
+    output
+  }
 
+  pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
+    // Inputs in the location of an output are no separate operands.
+    let mut numbers = (0..self.outputs.len()).collect::<Vec<_>>();
+    let mut len = numbers.len();
     for (constraint, _) in self.inputs.iter() {
       if let RegConstraint::Digit(d) = constraint {
-        if let Some((ref mut dir, _, _)) = outputs.get_mut(*d as usize) {
-          inputs.remove(*d as usize);
-          *dir = Dir::InOut;
-        }
+        numbers.push(*d as usize);
+      } else {
+        numbers.push(len);
+        len += 1;
       }
     }
+    let template = self.template.iter().map(|line| Self::number_operands(line, &numbers)).collect::<Vec<_>>();
 
-    let outputs = outputs
+    let outputs = self
+      .outputs
       .iter()
-      .map(|(dir, reg, var)| {
-        let var = var.to_token_stream(ctx);
-        quote! { #dir(#reg) #var }
+      .enumerate()
+      .map(|(i, (dir, reg, var))| {
+        let input =
+          self.inputs.iter().find(|(constraint, _)| matches!(constraint, RegConstraint::Digit(d) if *d as usize == i));
+        let output = var.to_token_stream(ctx);
+
+        match input {
+          Some((_, input)) if input == var => quote! { inout(#reg) #output },
+          Some((_, input)) => {
+            let input = input.to_token_stream(ctx);
+            quote! { inout(#reg) #input => #output }
+          },
+          None => quote! { #dir(#reg) #output },
+        }
       })
       .collect::<Vec<_>>();
-    let inputs = inputs
+    let inputs = self
+      .inputs
       .iter()
+      .filter(|(reg, _)| !matches!(reg, RegConstraint::Digit(_)))
       .map(|(reg, var)| {
         let var = var.to_token_stream(ctx);
         quote! { in(#reg) #var }
-- 
2.43.0


From 2fa5d14e020f00fd66bea49ed3540cf8e560a6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:37 +0000
Subject: [PATCH 37/67] fix: do not take inline assembly without operands for a
 function call

---
 src/macro_body.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/macro_body.rs b/src/macro_body.rs
index fff3e66..51d9279 100644
--- a/src/macro_body.rs
+++ b/src/macro_body.rs
@@ -7,7 +7,7 @@ use nom::{
 };
 
 use crate::{
-  ast::{meta, parenthesized, IdentifierExpr, Type},
+  ast::{meta, parenthesized, Asm, IdentifierExpr, Type},
   CodegenContext, Expr, LocalContext, MacroToken, Statement,
 };
 
@@ -109,6 +109,8 @@ impl<'t> MacroBody<'t> {
     }
 
     let (tokens, body) = alt((
+      // Inline assembly without operands looks like a function call.
+      all_consuming(map(Asm::parse, |asm| Self::Statement(Statement::Asm(asm)))),
       all_consuming(map(Expr::parse, Self::Expr)),
       all_consuming(map(Statement::parse, Self::Statement)),
     ))(tokens)?;
-- 
2.43.0


From acb96ec8dca32083b5bf945a74ee88a9464ae40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:01 +0000
Subject: [PATCH 38/67] fix: accept __volatile__ in inline assembly

---
 src/ast/asm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index a651ccd..0a11981 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -150,7 +150,10 @@ impl<'t> Asm<'t> {
 
   pub(crate) fn parse<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let (rest, ((basic_template, template), outputs, inputs, clobbers)) = preceded(
-      terminated(alt((id("__asm__"), id("__asm"), id("asm"))), opt(alt((id("volatile"), id("inline"), id("goto"))))),
+      terminated(
+        alt((id("__asm__"), id("__asm"), id("asm"))),
+        opt(alt((id("volatile"), id("__volatile__"), id("__volatile"), id("inline"), id("goto")))),
+      ),
       parenthesized(tuple((
         delimited(
           meta,
-- 
2.43.0


From c0ddc9a58d4dc7814ce8fe3aa90ecb8c13dae2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 39/67] fix: let inline assembly without operands access memory
 and flags

---
 src/ast/asm.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 0a11981..46074b4 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -200,7 +200,8 @@ impl<'t> Asm<'t> {
       ))),
     )(tokens)?;
 
-    let template = if outputs.is_some() {
+    let is_extended = outputs.is_some();
+    let template = if is_extended {
       template.ok_or_else(|| nom::Err::Error(nom::error::Error::new(tokens, nom::error::ErrorKind::MapOpt)))?
     } else {
       basic_template
@@ -208,7 +209,12 @@ impl<'t> Asm<'t> {
 
     let outputs = outputs.unwrap_or_default();
     let inputs = inputs.unwrap_or_default();
-    let clobbers = clobbers.unwrap_or_default();
+    let clobbers = if is_extended {
+      clobbers.unwrap_or_default()
+    } else {
+      // Without operands, anything may be accessed.
+      vec!["memory".to_owned(), "cc".to_owned()]
+    };
 
     Ok((rest, Self { template, outputs, inputs, clobbers }))
   }
@@ -347,6 +353,7 @@ impl<'t> Asm<'t> {
     }
 
     let (asm, clobber_abi) = if self.is_global() {
+      clobbers.clear();
       (quote! { global_asm! }, None)
     } else {
       // Memory is not clobbered, so add `nomem` option.
-- 
2.43.0


From dcab559ea3c0264d4e4cec82c331bd46283bf044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:15 +0000
Subject: [PATCH 40/67] fix: recognize AT&T syntax in inline assembly with
 literal braces

---
 src/ast/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 46074b4..8403fcf 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -262,7 +262,7 @@ impl<'t> Asm<'t> {
       // GCC template variables (e.g. `%0`) have already been replaced (e.g. `{{0}}`).
       // AT&T syntax uses e.g. `(%0,...)` while Intel syntax uses e.g. `[%0,...]` for
       // indirect addresses.
-      s.replace("{{", "").contains("({") ||
+      s.replace("{{", " ").contains("({") ||
       // Remaining `%` mean registers use AT&T syntax (e.g. `%eax`).
       s.contains('%') ||
       // Immediate values are prefixed with `$`.
-- 
2.43.0


From c2f21be8b96b8a9c50b220802caf6152a5f49f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 41/67] fix: do not take keywords for names

---
 src/ast/identifier.rs      | 41 ++++++++++++++++++++++++++++++++++++++
 src/ast/identifier_expr.rs | 13 +++++++++---
 2 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/src/ast/identifier.rs b/src/ast/identifier.rs
index b94656f..e9b5ff5 100644
--- a/src/ast/identifier.rs
+++ b/src/ast/identifier.rs
@@ -29,6 +29,47 @@ pub(crate) fn is_identifier(s: &str) -> bool {
   false
 }
 
+/// Whether an identifier is a keyword in C, i.e. neither names a variable nor a function.
+pub(crate) fn is_keyword(s: &str) -> bool {
+  matches!(
+    s,
+    "auto"
+      | "break"
+      | "case"
+      | "char"
+      | "const"
+      | "continue"
+      | "default"
+      | "do"
+      | "double"
+      | "else"
+      | "enum"
+      | "extern"
+      | "float"
+      | "for"
+      | "goto"
+      | "if"
+      | "inline"
+      | "int"
+      | "long"
+      | "register"
+      | "restrict"
+      | "return"
+      | "short"
+      | "signed"
+      | "sizeof"
+      | "static"
+      | "struct"
+      | "switch"
+      | "typedef"
+      | "union"
+      | "unsigned"
+      | "void"
+      | "volatile"
+      | "while"
+  )
+}
+
 /// An identifier.
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Identifier<'t> {
diff --git a/src/ast/identifier_expr.rs b/src/ast/identifier_expr.rs
index 9bc7e4e..b36785a 100644
--- a/src/ast/identifier_expr.rs
+++ b/src/ast/identifier_expr.rs
@@ -32,9 +32,9 @@ pub enum IdentifierExpr<'t> {
 impl<'t> IdentifierExpr<'t> {
   /// Parse identifier concatenation, e.g. `arg ## 2`.
   pub(crate) fn parse_concat_ident<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
-    let (tokens, id) = alt((map(macro_arg, Self::Arg), map(macro_id, Self::Plain)))(tokens)?;
+    let (rest, id) = alt((map(macro_arg, Self::Arg), map(macro_id, Self::Plain)))(tokens)?;
 
-    fold_many0(
+    let (rest, id) = fold_many0(
       preceded(
         delimited(meta, punct("##"), meta),
         alt((
@@ -88,7 +88,14 @@ impl<'t> IdentifierExpr<'t> {
           Self::Concat(ids)
         },
       },
-    )(tokens)
+    )(rest)?;
+
+    match id {
+      Self::Plain(id) if is_keyword(id.as_str()) => {
+        Err(nom::Err::Error(nom::error::Error::new(tokens, nom::error::ErrorKind::Not)))
+      },
+      id => Ok((rest, id)),
+    }
   }
 
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
-- 
2.43.0


From 6203dcb18f98ba8796739d713b16e648958bf737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:53 +0000
Subject: [PATCH 42/67] fix: accept a semicolon behind do-while statements

---
 src/ast/statement.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ast/statement.rs b/src/ast/statement.rs
index b963c6b..8c8ef12 100644
--- a/src/ast/statement.rs
+++ b/src/ast/statement.rs
@@ -70,9 +70,13 @@ impl<'t> Statement<'t> {
           else_branch: else_branch.unwrap_or_default(),
         },
       ),
-      map(preceded(terminated(id("do"), meta), pair(block, preceded(id("while"), condition))), |(block, condition)| {
-        Self::DoWhile { block, condition }
-      }),
+      map(
+        terminated(
+          preceded(terminated(id("do"), meta), pair(block, preceded(delimited(meta, id("while"), meta), condition))),
+          preceded(meta, semicolon_or_eof),
+        ),
+        |(block, condition)| Self::DoWhile { block, condition },
+      ),
       map(
         delimited(
           terminated(punct("{"), meta),
-- 
2.43.0


From 5c964de6b05e7e6a2d110f140fef98b57bdb3dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 43/67] fix: accept empty statements, and declarations only in
 blocks

---
 src/ast/statement.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/ast/statement.rs b/src/ast/statement.rs
index 8c8ef12..29b757b 100644
--- a/src/ast/statement.rs
+++ b/src/ast/statement.rs
@@ -80,20 +80,36 @@ impl<'t> Statement<'t> {
       map(
         delimited(
           terminated(punct("{"), meta),
-          many0(preceded(meta, Self::parse_single)),
-          terminated(preceded(meta, punct("}")), opt(punct(";"))),
+          many0(preceded(meta, Self::parse_item)),
+          preceded(meta, punct("}")),
         ),
         Self::Block,
       ),
-      map(terminated(FunctionDecl::parse, semicolon_or_eof), Self::FunctionDecl),
-      map(terminated(VarDecl::parse, semicolon_or_eof), Self::VarDecl),
+      // An empty statement.
+      map(punct(";"), |_| Self::Block(vec![])),
       map(terminated(Expr::parse, semicolon_or_eof), Self::Expr),
     ))(tokens)
   }
 
+  /// Parse a declaration or statement in a block.
+  fn parse_item<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
+    let semicolon_or_eof = |input| alt((value((), punct(";")), value((), eof)))(input);
+
+    let (tokens, item) = alt((
+      map(terminated(FunctionDecl::parse, semicolon_or_eof), Self::FunctionDecl),
+      map(terminated(VarDecl::parse, semicolon_or_eof), Self::VarDecl),
+      Self::parse_single,
+    ))(tokens)?;
+
+    // Empty statements have no effect.
+    let (tokens, _) = many0(preceded(meta, punct(";")))(tokens)?;
+
+    Ok((tokens, item))
+  }
+
   /// Parse a statement.
   pub(crate) fn parse<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
-    map(many0(delimited(meta, Self::parse_single, meta)), |mut stmts| {
+    map(many0(delimited(meta, Self::parse_item, meta)), |mut stmts| {
       if stmts.len() == 1 {
         stmts.remove(0)
       } else {
-- 
2.43.0


From cc2355373bdc98285bfe9fa8688cb5c1e2816d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:33 +0000
Subject: [PATCH 44/67] fix: generate raw identifiers for names which are
 keywords in Rust

---
 src/ast/identifier.rs      | 20 +++++++++++++++++++-
 src/ast/identifier_expr.rs |  7 +++++--
 src/ast/macro_arg.rs       |  5 +++--
 src/ast/ty.rs              | 11 ++++++-----
 src/fn_macro.rs            | 16 +++++++++++++---
 5 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/src/ast/identifier.rs b/src/ast/identifier.rs
index e9b5ff5..903a1fc 100644
--- a/src/ast/identifier.rs
+++ b/src/ast/identifier.rs
@@ -70,6 +70,24 @@ pub(crate) fn is_keyword(s: &str) -> bool {
   )
 }
 
+/// Whether an identifier cannot be used in Rust, not even as a raw identifier.
+pub(crate) fn is_reserved(s: &str) -> bool {
+  matches!(s, "_" | "crate" | "self" | "super" | "Self")
+}
+
+/// Generate the Rust identifier for a name.
+pub(crate) fn rust_ident(s: &str) -> Ident {
+  match s {
+    "abstract" | "as" | "async" | "await" | "become" | "box" | "break" | "const" | "continue" | "do" | "dyn"
+    | "else" | "enum" | "extern" | "final" | "fn" | "for" | "if" | "impl" | "in" | "let" | "loop" | "macro"
+    | "match" | "mod" | "move" | "mut" | "override" | "priv" | "pub" | "ref" | "return" | "static" | "struct"
+    | "trait" | "try" | "type" | "typeof" | "unsafe" | "unsized" | "use" | "virtual" | "where" | "while" | "yield" => {
+      Ident::new_raw(s, Span::call_site())
+    },
+    s => Ident::new(s, Span::call_site()),
+  }
+}
+
 /// An identifier.
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Identifier<'t> {
@@ -117,7 +135,7 @@ impl<'t> Identifier<'t> {
   }
 
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, _ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
-    let id = Ident::new(&self.id, Span::call_site());
+    let id = rust_ident(&self.id);
     quote! { #id }
   }
 
diff --git a/src/ast/identifier_expr.rs b/src/ast/identifier_expr.rs
index b36785a..112bf19 100644
--- a/src/ast/identifier_expr.rs
+++ b/src/ast/identifier_expr.rs
@@ -8,7 +8,7 @@ use nom::{
   sequence::{delimited, preceded},
   IResult,
 };
-use proc_macro2::TokenStream;
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, TokenStreamExt};
 
 use super::{
@@ -107,6 +107,9 @@ impl<'t> IdentifierExpr<'t> {
         // *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
         Ok(None)
       },
+      Self::Plain(id) if is_reserved(id.as_str()) => {
+        Err(crate::CodegenError::UnsupportedExpression(format!("identifier `{}`", id.as_str())))
+      },
       Self::Plain(_) => Ok(None),
       Self::Concat(ids) => {
         for id in ids {
@@ -167,7 +170,7 @@ impl<'t> IdentifierContinuationExpr<'t> {
 
     match self {
       Self::Arg(arg) => arg.to_tokens(ctx, &mut tokens),
-      Self::Plain(id) => id.to_tokens(ctx, &mut tokens),
+      Self::Plain(id) => tokens.append(Ident::new(id.as_str(), Span::call_site())),
       Self::Int(int) => int.to_tokens(ctx, &mut tokens),
     }
     tokens
diff --git a/src/ast/macro_arg.rs b/src/ast/macro_arg.rs
index 11f7418..738c844 100644
--- a/src/ast/macro_arg.rs
+++ b/src/ast/macro_arg.rs
@@ -1,6 +1,7 @@
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, TokenStreamExt};
 
+use super::rust_ident;
 use crate::{CodegenContext, LocalContext};
 
 /// A macro argument.
@@ -25,11 +26,11 @@ impl MacroArg {
     tokens.append_all(match ctx.arg_name(self.index()) {
       "..." => quote! { $($__VA_ARGS__),* },
       name => {
-        let name = Ident::new(name, Span::call_site());
-
         if ctx.export_as_macro {
+          let name = Ident::new(name, Span::call_site());
           quote! { $#name }
         } else {
+          let name = rust_ident(name);
           quote! { #name }
         }
       },
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 0bf6a4d..e925d13 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -7,8 +7,9 @@ use nom::{
   sequence::{pair, preceded, tuple},
   IResult,
 };
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::{quote, ToTokens, TokenStreamExt};
+use syn::ext::IdentExt;
 
 use super::*;
 use crate::{CodegenContext, LocalContext, MacroToken};
@@ -408,7 +409,7 @@ impl<'t> Type<'t> {
       Self::Identifier { name, .. } => name.to_tokens(ctx, tokens),
       Self::Path { segments, leading_colon } => {
         let leading_colon = if *leading_colon { Some(quote! { :: }) } else { None };
-        let ids = segments.iter().map(|id| Ident::new(id.as_str(), Span::call_site()));
+        let ids = segments.iter().map(|id| rust_ident(id.as_str()));
         tokens.append_all(quote! { #leading_colon #(#ids)::* })
       },
       Self::Ptr { ty } => {
@@ -457,7 +458,7 @@ impl<'t> Type<'t> {
 
         let leading_colon = path_ty.path.leading_colon.is_some();
         let mut segments =
-          path_ty.path.segments.iter().map(|s| Identifier { id: s.ident.to_string().into() }).collect::<Vec<_>>();
+          path_ty.path.segments.iter().map(|s| Identifier { id: s.ident.unraw().to_string().into() }).collect::<Vec<_>>();
 
         if !leading_colon && segments.len() == 1 {
           Ok(Self::Identifier { name: IdentifierExpr::Plain(segments.remove(0)), is_struct: false })
@@ -476,7 +477,7 @@ impl<'t> Type<'t> {
       Self::BuiltIn(ty) => ty.to_rust_ty(ctx),
       Self::Identifier { name, .. } => {
         if let IdentifierExpr::Plain(name) = name {
-          let name = Ident::new(name.as_str(), Span::call_site());
+          let name = rust_ident(name.as_str());
           syn::parse_quote! { #name }
         } else {
           return None
@@ -485,7 +486,7 @@ impl<'t> Type<'t> {
       Self::Path { leading_colon, segments } => {
         let colon = if *leading_colon { Some(quote! { :: }) } else { None }.into_iter();
 
-        let segments = segments.iter().map(|s| Ident::new(s.as_str(), Span::call_site()));
+        let segments = segments.iter().map(|s| rust_ident(s.as_str()));
 
         syn::parse_quote! { #(#colon)* #(#segments)::*  }
       },
diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index b96824c..331460f 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -11,7 +11,7 @@ use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, TokenStreamExt};
 
 use crate::{
-  ast::{macro_id, meta, punct},
+  ast::{is_reserved, macro_id, meta, punct, rust_ident},
   is_identifier,
   macro_body::unparenthesize_names,
   CodegenContext, LocalContext, MacroArgType, MacroBody, MacroToken, Type,
@@ -176,6 +176,15 @@ impl<'t> FnMacro<'t> {
       })
       .collect::<Result<_, _>>()?;
 
+    if matches!(self.name.as_str(), "crate" | "self" | "super" | "Self") {
+      return Err(crate::CodegenError::UnsupportedExpression(format!("macro named `{}`", self.name)))
+    }
+
+    // Not allowed as name of a macro variable.
+    if let Some(arg) = self.args.iter().find(|arg| matches!(arg.as_str(), "_" | "crate")) {
+      return Err(crate::CodegenError::UnsupportedExpression(format!("macro argument named `{}`", arg)))
+    }
+
     let mut ctx = LocalContext::new(&cx);
     ctx.arg_names = self.args.clone();
     ctx.arg_types = arg_types;
@@ -184,10 +193,11 @@ impl<'t> FnMacro<'t> {
     ctx.export_as_macro = ctx.export_as_macro
       || ctx.function(&self.name).is_some()
       || ctx.is_variadic()
+      || self.args.iter().any(|arg| is_reserved(arg))
       || !ctx.arg_types.iter().all(|ty| matches!(*ty, MacroArgType::Known(_)))
       || ret_ty.is_none();
 
-    let name = Ident::new(&self.name, Span::call_site());
+    let name = rust_ident(&self.name);
 
     let mut body = TokenStream::new();
     match &self.body {
@@ -238,7 +248,7 @@ impl<'t> FnMacro<'t> {
         .enumerate()
         .map(|(index, name)| {
           if let MacroArgType::Known(ty) = ctx.arg_type(index).clone() {
-            let id = Ident::new(name, Span::call_site());
+            let id = rust_ident(name);
             let ty = ty.to_token_stream(&mut ctx);
             quote! { #id: #ty }
           } else {
-- 
2.43.0


From c8ea726364497482a2b7f83537bd91f43ccd7689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 45/67] fix: generate break, continue and return statements

---
 src/ast/statement.rs | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/ast/statement.rs b/src/ast/statement.rs
index 29b757b..ef0a030 100644
--- a/src/ast/statement.rs
+++ b/src/ast/statement.rs
@@ -47,6 +47,12 @@ pub enum Statement<'t> {
     block: Vec<Statement<'t>>,
     condition: Expr<'t>,
   },
+  /// A `break` statement.
+  Break,
+  /// A `continue` statement.
+  Continue,
+  /// A `return` statement.
+  Return(Option<Expr<'t>>),
 }
 
 impl<'t> Statement<'t> {
@@ -87,10 +93,23 @@ impl<'t> Statement<'t> {
       ),
       // An empty statement.
       map(punct(";"), |_| Self::Block(vec![])),
+      map(terminated(id("break"), semicolon_or_eof), |_| Self::Break),
+      map(terminated(id("continue"), semicolon_or_eof), |_| Self::Continue),
+      map(delimited(id("return"), opt(Expr::parse), semicolon_or_eof), Self::Return),
       map(terminated(Expr::parse, semicolon_or_eof), Self::Expr),
     ))(tokens)
   }
 
+  /// Whether a `continue` statement belongs to the loop around this statement.
+  fn is_continue(&self) -> bool {
+    match self {
+      Self::Continue => true,
+      Self::Block(block) => block.iter().any(Self::is_continue),
+      Self::If { if_branch, else_branch, .. } => if_branch.iter().chain(else_branch).any(Self::is_continue),
+      _ => false,
+    }
+  }
+
   /// Parse a declaration or statement in a block.
   fn parse_item<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let semicolon_or_eof = |input| alt((value((), punct(";")), value((), eof)))(input);
@@ -152,12 +171,29 @@ impl<'t> Statement<'t> {
         }
       },
       Self::DoWhile { block, condition } => {
+        // `continue` must evaluate the condition.
+        if block.iter().any(Self::is_continue) {
+          return Err(crate::CodegenError::UnsupportedExpression("`continue` in do-while loop".to_owned()))
+        }
+
         for stmt in block {
           stmt.finish(ctx)?;
         }
 
         condition.finish_condition(ctx)?;
       },
+      Self::Break | Self::Continue => {
+        // May belong to a loop around the macro.
+        ctx.export_as_macro = true;
+      },
+      Self::Return(expr) => {
+        // Returns from the function around the macro.
+        ctx.export_as_macro = true;
+
+        if let Some(expr) = expr {
+          expr.finish(ctx)?;
+        }
+      },
     }
 
     Ok(Some(Type::BuiltIn(BuiltInType::Void)))
@@ -215,6 +251,12 @@ impl<'t> Statement<'t> {
           }
         })
       },
+      Self::Break => tokens.append_all(quote! { break; }),
+      Self::Continue => tokens.append_all(quote! { continue; }),
+      Self::Return(expr) => {
+        let expr = expr.as_ref().map(|expr| expr.to_token_stream(ctx)).into_iter();
+        tokens.append_all(quote! { return #(#expr)*; })
+      },
     }
   }
 
-- 
2.43.0


From 0560085e11c06d5c4a95a5b44f5e92cb090b3786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 46/67] fix: generate the operand of a dereference only once

---
 src/ast/binary_expr.rs |  10 +--
 src/ast/unary_expr.rs  | 162 ++++++++++++++++++++++-------------------
 2 files changed, 91 insertions(+), 81 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 5dda1ea..967d8fb 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -339,6 +339,11 @@ impl<'t> BinaryExpr<'t> {
       }
     }
 
+    if let Some(ptr) = self.volatile_ptr(ctx) {
+      let prefix = ctx.trait_prefix().into_iter();
+      return quote! { #(#prefix::)*ptr::read_volatile(#ptr) }
+    }
+
     let mut lhs = self.lhs.to_token_stream(ctx);
     let op = self.op;
     let mut rhs = self.rhs.to_token_stream(ctx);
@@ -388,11 +393,6 @@ impl<'t> BinaryExpr<'t> {
         quote! { { #lhs #op #rhs; #lhs } }
       },
       op => {
-        if let Some(ptr) = self.volatile_ptr(ctx) {
-          let prefix = ctx.trait_prefix().into_iter();
-          return quote! { #(#prefix::)*ptr::read_volatile(#ptr) }
-        }
-
         if lhs_parens {
           lhs = quote! { (#lhs) };
         }
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 97b950b..a813c43 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -107,15 +107,15 @@ impl<'t> UnaryExpr<'t> {
 
     match (self.op, &*self.expr) {
       (UnaryOp::Deref, expr) if is_volatile(expr) => Some(expr.to_token_stream(ctx)),
-      (UnaryOp::Deref, Expr::Binary(BinaryExpr { lhs, op, rhs })) if is_volatile(lhs) => {
+      (UnaryOp::Deref, Expr::Binary(BinaryExpr { lhs, op: BinaryOp::Add, rhs })) if is_volatile(lhs) => {
         let lhs = lhs.to_token_stream(ctx);
         let rhs = rhs.to_token_stream(ctx);
-
-        match op {
-          BinaryOp::Add => Some(quote! { (#lhs).add(#rhs) }),
-          BinaryOp::Sub => Some(quote! { (#lhs).sub(#rhs) }),
-          _ => None,
-        }
+        Some(quote! { (#lhs).add(#rhs) })
+      },
+      (UnaryOp::Deref, Expr::Binary(BinaryExpr { lhs, op: BinaryOp::Sub, rhs })) if is_volatile(lhs) => {
+        let lhs = lhs.to_token_stream(ctx);
+        let rhs = rhs.to_token_stream(ctx);
+        Some(quote! { (#lhs).sub(#rhs) })
       },
       _ => None,
     }
@@ -125,6 +125,63 @@ impl<'t> UnaryExpr<'t> {
     tokens.append_all(self.to_token_stream(ctx))
   }
 
+  /// Generate a dereference whose operands need to be generated separately.
+  fn deref_to_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> Option<TokenStream> {
+    if let Some(ptr) = self.volatile_ptr(ctx) {
+      let prefix = ctx.trait_prefix().into_iter();
+      return Some(quote! { #(#prefix::)*ptr::read_volatile(#ptr) })
+    }
+
+    match &*self.expr {
+      Expr::Binary(BinaryExpr { lhs, op: op @ (BinaryOp::Add | BinaryOp::Sub), rhs }) => {
+        let raw_lhs = lhs.to_token_stream(ctx);
+        let raw_rhs = rhs.to_token_stream(ctx);
+
+        let (lhs_prec, _) = lhs.precedence();
+
+        let lhs = if lhs_prec > 1 {
+          quote! { (#raw_lhs) }
+        } else {
+          raw_lhs
+        };
+
+        Some(match op {
+          BinaryOp::Add => quote! { *#lhs.add(#raw_rhs) },
+          _ => quote! { *#lhs.sub(#raw_rhs) },
+        })
+      },
+      Expr::Unary(UnaryExpr {
+        op: op @ (UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec),
+        expr,
+      }) => {
+        if let Some((place, expr)) = expr.to_place(ctx) {
+          let expr = Expr::Unary(Self { op: *op, expr: Box::new(expr) });
+          let expr = Self { op: self.op, expr: Box::new(expr) }.to_token_stream(ctx);
+          let trait_prefix = ctx.trait_prefix().into_iter();
+          return Some(quote! { *{ let __place = #place; #(#trait_prefix::)*ptr::addr_of_mut!(#expr) } })
+        }
+
+        let raw_expr = expr.to_token_stream(ctx);
+
+        let (expr_prec, _) = expr.precedence();
+
+        let receiver = if expr_prec > 1 {
+          quote! { (#raw_expr) }
+        } else {
+          raw_expr.clone()
+        };
+
+        Some(match op {
+          UnaryOp::Inc => quote! { *{ #raw_expr = #receiver.add(1); #raw_expr } },
+          UnaryOp::Dec => quote! { *{ #raw_expr = #receiver.sub(1); #raw_expr } },
+          UnaryOp::PostInc => quote! { *{ let prev = #raw_expr; #raw_expr = #receiver.add(1); prev } },
+          _ => quote! { *{ let prev = #raw_expr; #raw_expr = #receiver.sub(1); prev } },
+        })
+      },
+      _ => None,
+    }
+  }
+
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
     // The operand is generated more than once.
     if matches!(self.op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec) {
@@ -134,10 +191,26 @@ impl<'t> UnaryExpr<'t> {
       }
     }
 
+    // The operands are generated separately.
+    if self.op == UnaryOp::Deref {
+      if let Some(tokens) = self.deref_to_token_stream(ctx) {
+        return tokens
+      }
+    }
+
+    // Only the pointer is generated for an object which is accessed through a pointer to volatile.
+    let volatile_ptr = match self.op {
+      UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec | UnaryOp::AddrOf => self.expr.volatile_ptr(ctx),
+      _ => None,
+    };
+
     let (prec, _) = self.precedence();
     let (expr_prec, _) = self.expr.precedence();
 
-    let raw_expr = self.expr.to_token_stream(ctx);
+    let raw_expr = match volatile_ptr {
+      Some(ref ptr) => quote! { *(#ptr) },
+      None => self.expr.to_token_stream(ctx),
+    };
 
     let expr = if expr_prec > prec {
       quote! { (#raw_expr) }
@@ -147,7 +220,7 @@ impl<'t> UnaryExpr<'t> {
 
     match self.op {
       UnaryOp::Inc => {
-        if let Some(lhs_ptr) = self.expr.volatile_ptr(ctx) {
+        if let Some(lhs_ptr) = volatile_ptr {
           let prefix = ctx.trait_prefix().into_iter();
           let value = {
             quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) + 1 }
@@ -166,7 +239,7 @@ impl<'t> UnaryExpr<'t> {
         quote! { { #raw_expr += 1; #raw_expr } }
       },
       UnaryOp::Dec => {
-        if let Some(lhs_ptr) = self.expr.volatile_ptr(ctx) {
+        if let Some(lhs_ptr) = volatile_ptr {
           let prefix = ctx.trait_prefix().into_iter();
           let value = {
             quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) - 1 }
@@ -185,7 +258,7 @@ impl<'t> UnaryExpr<'t> {
         quote! { { #raw_expr -= 1; #raw_expr } }
       },
       UnaryOp::PostInc => {
-        if let Some(lhs_ptr) = self.expr.volatile_ptr(ctx) {
+        if let Some(lhs_ptr) = volatile_ptr {
           let prefix = ctx.trait_prefix().into_iter();
           let value = {
             quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) }
@@ -204,7 +277,7 @@ impl<'t> UnaryExpr<'t> {
         quote! { { let prev = #raw_expr; #raw_expr += 1; prev } }
       },
       UnaryOp::PostDec => {
-        if let Some(lhs_ptr) = self.expr.volatile_ptr(ctx) {
+        if let Some(lhs_ptr) = volatile_ptr {
           let prefix = ctx.trait_prefix().into_iter();
           let value = {
             quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) }
@@ -227,71 +300,8 @@ impl<'t> UnaryExpr<'t> {
       // There is no unary plus in Rust.
       UnaryOp::Plus => expr,
       UnaryOp::Minus => format!("-{expr}").parse::<TokenStream>().unwrap(),
-      UnaryOp::Deref => {
-        if let Some(ptr) = self.volatile_ptr(ctx) {
-          let prefix = ctx.trait_prefix().into_iter();
-          return quote! { #(#prefix::)*ptr::read_volatile(#ptr) }
-        }
-
-        match &*self.expr {
-          Expr::Binary(BinaryExpr { lhs, op, rhs }) => {
-            let raw_lhs = lhs.to_token_stream(ctx);
-            let raw_rhs = rhs.to_token_stream(ctx);
-
-            let (lhs_prec, _) = lhs.precedence();
-
-            let lhs = if lhs_prec > prec || lhs_prec > 1 {
-              quote! { (#raw_lhs) }
-            } else {
-              raw_lhs
-            };
-
-            match op {
-              BinaryOp::Add => return quote! { *#lhs.add(#raw_rhs) },
-              BinaryOp::Sub => return quote! { *#lhs.sub(#raw_rhs) },
-              _ => (),
-            }
-          },
-          Expr::Unary(UnaryExpr {
-            op: op @ (UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec),
-            expr,
-          }) => {
-            if let Some((place, expr)) = expr.to_place(ctx) {
-              let expr = Expr::Unary(Self { op: *op, expr: Box::new(expr) });
-              let expr = Self { op: self.op, expr: Box::new(expr) }.to_token_stream(ctx);
-              let trait_prefix = ctx.trait_prefix().into_iter();
-              return quote! { *{ let __place = #place; #(#trait_prefix::)*ptr::addr_of_mut!(#expr) } }
-            }
-
-            let raw_expr = expr.to_token_stream(ctx);
-
-            let (expr_prec, _) = expr.precedence();
-
-            let receiver = if expr_prec > 1 {
-              quote! { (#raw_expr) }
-            } else {
-              raw_expr.clone()
-            };
-
-            match op {
-              UnaryOp::Inc => return quote! { *{ #raw_expr = #receiver.add(1); #raw_expr } },
-              UnaryOp::Dec => return quote! { *{ #raw_expr = #receiver.sub(1); #raw_expr } },
-              UnaryOp::PostInc => return quote! { *{ let prev = #raw_expr; #raw_expr = #receiver.add(1); prev } },
-              UnaryOp::PostDec => return quote! { *{ let prev = #raw_expr; #raw_expr = #receiver.sub(1); prev } },
-              _ => (),
-            }
-          },
-          _ => (),
-        }
-
-        format!("*{expr}").parse::<TokenStream>().unwrap()
-      },
+      UnaryOp::Deref => format!("*{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::AddrOf => {
-        let raw_expr = match self.expr.volatile_ptr(ctx) {
-          Some(ptr) => quote! { *(#ptr) },
-          None => raw_expr,
-        };
-
         let trait_prefix = ctx.trait_prefix().into_iter();
         quote! { #(#trait_prefix::)*ptr::addr_of_mut!(#raw_expr) }
       },
-- 
2.43.0


From aa2b27bddd99a50cde24e4486f3ad0e81dcd489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:01 +0000
Subject: [PATCH 47/67] fix: stringify variadic macro arguments

---
 src/ast/stringify.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ast/stringify.rs b/src/ast/stringify.rs
index a140793..c0197e0 100644
--- a/src/ast/stringify.rs
+++ b/src/ast/stringify.rs
@@ -67,8 +67,13 @@ impl<'t> Stringify<'t> {
   pub(crate) fn to_token_stream_inner<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, '_, C>) -> TokenStream {
     let expr = match &*self.arg {
       Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) => {
-        let id = Ident::new(ctx.arg_name(arg.index()), Span::call_site());
-        Some(quote! { $#id })
+        Some(match ctx.arg_name(arg.index()) {
+          "..." => quote! { $($__VA_ARGS__),* },
+          name => {
+            let id = Ident::new(name, Span::call_site());
+            quote! { $#id }
+          },
+        })
       },
       Expr::Var(Var { name: IdentifierExpr::Plain(name) }) => match name.as_str() {
         "__LINE__" => {
-- 
2.43.0


From 4ee2abb741116b2f9b2d36a0d10af66dd7ffc474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 48/67] fix: concatenate string literals and macro arguments

---
 src/ast/expr.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 2976fcb..6d7bb78 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -8,7 +8,7 @@ use nom::{
   IResult,
 };
 use proc_macro2::{Delimiter, TokenStream, TokenTree};
-use quote::{quote, TokenStreamExt};
+use quote::{quote, ToTokens, TokenStreamExt};
 
 use super::{tokens::parenthesized, *};
 use crate::{codegen::quote_c_char_ptr, CodegenContext, LocalContext, MacroToken};
@@ -533,7 +533,12 @@ impl<'t> Expr<'t> {
 
           match name {
             Self::Literal(Lit::String(lit)) => {
-              if let Some(lit_bytes) = lit.as_bytes() {
+              let lit_bytes = match lit {
+                LitString::Ordinary(_) | LitString::Utf8(_) => lit.as_bytes(),
+                _ => None,
+              };
+
+              if let Some(lit_bytes) = lit_bytes {
                 if let Some(ref mut current_name) = current_name {
                   current_name.extend_from_slice(lit_bytes);
                 } else {
@@ -541,13 +546,14 @@ impl<'t> Expr<'t> {
                 }
                 continue
               } else {
-                // FIXME: Cannot concatenate wide strings due to unknown size of `wchar_t`.
+                // FIXME: Cannot concatenate wide strings since the result consists of bytes.
                 return Err(crate::CodegenError::UnsupportedExpression("concatenation of wide strings".to_owned()))
               }
             },
             Self::Var(Var { name }) => {
               match name {
-                IdentifierExpr::Arg(_) => (),
+                // Can only concatenate literals, i.e. what is passed to a macro.
+                IdentifierExpr::Arg(_) => ctx.export_as_macro = true,
                 IdentifierExpr::Plain(name) => {
                   match name.as_str() {
                     "__FILE__" => (),
@@ -578,6 +584,12 @@ impl<'t> Expr<'t> {
           *self = new_names.remove(0);
           self.finish(ctx)
         } else {
+          for name in &new_names {
+            if matches!(name, Self::Literal(Lit::String(lit)) if lit.as_str().is_none()) {
+              return Err(crate::CodegenError::UnsupportedExpression("concatenation of invalid UTF-8".to_owned()))
+            }
+          }
+
           *self = Self::ConcatString(new_names);
           Ok(Some(Type::Qualified {
             ty: Box::new(Type::Ptr { ty: Box::new(Type::BuiltIn(BuiltInType::Char)) }),
@@ -755,6 +767,7 @@ impl<'t> Expr<'t> {
               quote! { #(#trait_prefix::)*file!() }
             },
             Self::Stringify(stringify) => stringify.to_token_stream_inner(ctx),
+            Self::Literal(Lit::String(lit)) => lit.as_str().into_token_stream(),
             e => e.to_token_stream(ctx),
           })
           .collect::<Vec<_>>();
-- 
2.43.0


From db4c31496d51dd338640b5e5d3651938a082cd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:12 +0000
Subject: [PATCH 49/67] fix: reject types which cannot be represented instead
 of changing them or panicking

---
 src/ast/ty.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index e925d13..bf69eff 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -448,10 +448,12 @@ impl<'t> Type<'t> {
         }
       },
       syn::Type::Tuple(tuple_ty) if tuple_ty.elems.is_empty() => Ok(Type::BuiltIn(BuiltInType::Void)),
-      syn::Type::Verbatim(ty) => {
+      syn::Type::Verbatim(ty) if is_identifier(&ty.to_string()) => {
         Ok(Self::Identifier { name: IdentifierExpr::Plain(Identifier { id: ty.to_string().into() }), is_struct: false })
       },
-      syn::Type::Path(path_ty) => {
+      syn::Type::Path(path_ty)
+        if path_ty.qself.is_none() && path_ty.path.segments.iter().all(|s| s.arguments.is_none()) =>
+      {
         if let Some(ty) = BuiltInType::from_rust_ty(path_ty, ffi_prefix) {
           return Ok(Self::BuiltIn(ty))
         }
-- 
2.43.0


From 4d9b906632109cb1f21b186e72b453183777c67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 50/67] fix: name the static lifetime of all strings for old
 targets

---
 src/ast/literal/string.rs |  8 ++++----
 src/fn_macro.rs           | 11 +++++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index 83ce086..f8c0ae9 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -422,7 +422,7 @@ impl<'t> LitString<'t> {
 
         let byte_count = proc_macro2::Literal::usize_unsuffixed(bytes.len());
         let byte_string = proc_macro2::Literal::byte_string(&bytes);
-        let array_ty = quote! { &[u8; #byte_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [u8; #byte_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, quote! { #byte_string }),
@@ -442,7 +442,7 @@ impl<'t> LitString<'t> {
 
         let word_count = proc_macro2::Literal::usize_unsuffixed(words.len());
         let word_array = quote! { &[#(#words),*] };
-        let array_ty = quote! { &[u16; #word_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [u16; #word_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, word_array),
@@ -462,7 +462,7 @@ impl<'t> LitString<'t> {
 
         let dword_count = proc_macro2::Literal::usize_unsuffixed(dwords.len());
         let dword_array = quote! { &[#(#dwords),*] };
-        let array_ty = quote! { &[u32; #dword_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [u32; #dword_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, dword_array),
@@ -489,7 +489,7 @@ impl<'t> LitString<'t> {
 
         let wchar_count = proc_macro2::Literal::usize_unsuffixed(wchars.len());
         let wchar_array = quote! { &[#(#wchars as #wchar_ty),*] };
-        let array_ty = quote! { &[#wchar_ty; #wchar_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [#wchar_ty; #wchar_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, wchar_array),
diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index 331460f..b4fa2e4 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -9,6 +9,7 @@ use nom::{
 };
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, TokenStreamExt};
+use semver::{Version, VersionReq};
 
 use crate::{
   ast::{is_reserved, macro_id, meta, punct, rust_ident},
@@ -188,6 +189,16 @@ impl<'t> FnMacro<'t> {
     let mut ctx = LocalContext::new(&cx);
     ctx.arg_names = self.args.clone();
     ctx.arg_types = arg_types;
+
+    ctx.static_lifetime_elision = ctx
+      .rust_target()
+      .and_then(|v| {
+        let version = Version::parse(&v).ok()?;
+        let req = VersionReq::parse(">=1.17").unwrap();
+        Some(req.matches(&version))
+      })
+      .unwrap_or(true);
+
     let ret_ty = self.body.finish(&mut ctx)?;
 
     ctx.export_as_macro = ctx.export_as_macro
-- 
2.43.0


From 43ddbe60a4144fe583c60f742e6b32eb424956e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:13 +0000
Subject: [PATCH 51/67] fix: write float literals in casts with their type

---
 src/ast/cast.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ast/cast.rs b/src/ast/cast.rs
index c825cd3..fb26549 100644
--- a/src/ast/cast.rs
+++ b/src/ast/cast.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext};
 
-use super::{Associativity, Expr, Lit, LitInt, Type};
+use super::{Associativity, Expr, Lit, LitFloat, LitInt, Type};
 
 /// A cast expression.
 ///
@@ -87,6 +87,11 @@ impl<'t> Cast<'t> {
 
               quote! { #expr }
             },
+            // Without a suffix, this would be a number with a different value when cast to `f64`.
+            Expr::Literal(Lit::Float(LitFloat::Float(f))) if f.is_finite() => {
+              let expr = Literal::f32_suffixed(*f);
+              quote! { #expr }
+            },
             _ => {
               let mut expr = expr.to_token_stream(ctx);
               if expr_prec > prec {
-- 
2.43.0


From 04ccf3c5b6eb8e29f747d0dd56a8425214ab9848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:13 +0000
Subject: [PATCH 52/67] fix: convert operands of floating expressions to their
 common type as in C

---
 src/ast/binary_expr.rs  | 41 ++++++++++++++++--------------
 src/ast/expr.rs         | 55 ++++++++++++++++++++++++++++++++++++++++-
 src/ast/ternary_expr.rs |  5 ++--
 src/ast/ty.rs           |  8 ++++++
 4 files changed, 87 insertions(+), 22 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 967d8fb..637d784 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -5,7 +5,7 @@ use quote::{quote, ToTokens, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext, MacroArgType};
 
-use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitFloat, LitInt, Type, Var};
+use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, Type, Var};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub(crate) enum Associativity {
@@ -126,6 +126,23 @@ impl BinaryOp {
     })
   }
 
+  /// Whether the operands are converted to a common type.
+  pub(crate) const fn converts_operands(&self) -> bool {
+    matches!(
+      self,
+      Self::Mul
+        | Self::Div
+        | Self::Add
+        | Self::Sub
+        | Self::Lt
+        | Self::Lte
+        | Self::Gt
+        | Self::Gte
+        | Self::Eq
+        | Self::Neq
+    )
+  }
+
   pub(crate) const fn is_assignment(&self) -> bool {
     matches!(
       self,
@@ -239,25 +256,11 @@ impl<'t> BinaryExpr<'t> {
     }
 
     // Cast mixed float and int expression.
+    if self.op.converts_operands() {
+      Expr::convert_to_common_float(&mut self.lhs, &mut lhs_ty, &mut self.rhs, &mut rhs_ty);
+    }
+
     match (&*self.lhs, &*self.rhs) {
-      (Expr::Literal(Lit::Int(LitInt { value: lhs, suffix: None })), Expr::Literal(Lit::Float(_))) => {
-        let f = if *lhs >= f32::MIN as i128 && *lhs <= f32::MAX as i128 {
-          LitFloat::Float(*lhs as f32)
-        } else {
-          LitFloat::Double(*lhs as f64)
-        };
-        self.lhs = Box::new(Expr::Literal(Lit::Float(f)));
-        lhs_ty = self.lhs.finish(ctx)?;
-      },
-      (Expr::Literal(Lit::Float(_)), Expr::Literal(Lit::Int(LitInt { value: rhs, suffix: None }))) => {
-        let f = if *rhs >= f32::MIN as i128 && *rhs <= f32::MAX as i128 {
-          LitFloat::Float(*rhs as f32)
-        } else {
-          LitFloat::Double(*rhs as f64)
-        };
-        self.rhs = Box::new(Expr::Literal(Lit::Float(f)));
-        rhs_ty = self.rhs.finish(ctx)?;
-      },
       (lhs, Expr::Literal(Lit::Int(_))) if matches!(self.op, BinaryOp::Mul | BinaryOp::Add) => {
         if let Some(lhs_ty2) = max_ty_cast(lhs) {
           self.lhs = Box::new(Expr::Cast(Cast { ty: lhs_ty2.clone(), expr: Box::new(lhs.clone()) }));
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 6d7bb78..0c5f35e 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -1,4 +1,4 @@
-use std::{borrow::Cow, fmt::Debug};
+use std::{borrow::Cow, cmp::Ordering, fmt::Debug};
 
 use nom::{
   branch::alt,
@@ -747,6 +747,59 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Convert two operands to their common type if at least one of them has a floating type.
+  pub(crate) fn convert_to_common_float(
+    lhs: &mut Self,
+    lhs_ty: &mut Option<Type<'t>>,
+    rhs: &mut Self,
+    rhs_ty: &mut Option<Type<'t>>,
+  ) {
+    let rank = |ty: &Option<Type<'t>>| match ty.as_ref().map(Type::unqualified) {
+      Some(Type::BuiltIn(BuiltInType::Float)) => 1,
+      Some(Type::BuiltIn(BuiltInType::Double)) => 2,
+      Some(Type::BuiltIn(BuiltInType::LongDouble)) => 3,
+      _ => 0,
+    };
+
+    match rank(lhs_ty).cmp(&rank(rhs_ty)) {
+      Ordering::Less => lhs.convert_to_float(lhs_ty, rhs_ty),
+      Ordering::Greater => rhs.convert_to_float(rhs_ty, lhs_ty),
+      Ordering::Equal => (),
+    }
+  }
+
+  /// Convert to a floating type with a higher rank.
+  fn convert_to_float(&mut self, ty: &mut Option<Type<'t>>, float_ty: &Option<Type<'t>>) {
+    let Some(Type::BuiltIn(float)) = float_ty.as_ref().map(Type::unqualified) else { return };
+
+    match (&*self, float) {
+      (Self::Literal(Lit::Int(LitInt { value, .. })), BuiltInType::Float) => {
+        *self = Self::Literal(Lit::Float(LitFloat::Float(*value as f32)));
+      },
+      (Self::Literal(Lit::Int(LitInt { value, .. })), BuiltInType::Double) => {
+        *self = Self::Literal(Lit::Float(LitFloat::Double(*value as f64)));
+      },
+      (Self::Literal(Lit::Int(LitInt { value, .. })), _) => {
+        *self = Self::Literal(Lit::Float(LitFloat::LongDouble(*value as f64)));
+      },
+      (Self::Literal(Lit::Float(LitFloat::Float(f))), BuiltInType::Double) => {
+        *self = Self::Literal(Lit::Float(LitFloat::Double(*f as f64)));
+      },
+      (Self::Literal(Lit::Float(LitFloat::Float(f))), _) => {
+        *self = Self::Literal(Lit::Float(LitFloat::LongDouble(*f as f64)));
+      },
+      _ => match ty.as_ref().map(Type::unqualified) {
+        Some(Type::BuiltIn(BuiltInType::Double)) => (),
+        Some(Type::BuiltIn(ty)) if !matches!(ty, BuiltInType::Bool | BuiltInType::Void) => {
+          *self = Self::Cast(Cast { ty: Type::BuiltIn(*float), expr: Box::new(self.clone()) });
+        },
+        _ => return,
+      },
+    }
+
+    *ty = float_ty.clone();
+  }
+
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
     match self {
       Self::Cast(cast) => cast.to_tokens(ctx, tokens),
diff --git a/src/ast/ternary_expr.rs b/src/ast/ternary_expr.rs
index 81e20b7..281862b 100644
--- a/src/ast/ternary_expr.rs
+++ b/src/ast/ternary_expr.rs
@@ -27,8 +27,9 @@ impl<'t> TernaryExpr<'t> {
   {
     self.condition.finish_condition(ctx)?;
 
-    let lhs_ty = self.if_branch.finish(ctx)?;
-    let rhs_ty = self.else_branch.finish(ctx)?;
+    let mut lhs_ty = self.if_branch.finish(ctx)?;
+    let mut rhs_ty = self.else_branch.finish(ctx)?;
+    Expr::convert_to_common_float(&mut self.if_branch, &mut lhs_ty, &mut self.else_branch, &mut rhs_ty);
 
     if lhs_ty == rhs_ty {
       Ok(lhs_ty)
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index bf69eff..b4db047 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -373,6 +373,14 @@ impl<'t> Type<'t> {
     }
   }
 
+  /// This type without its outermost qualifiers.
+  pub(crate) fn unqualified(&self) -> &Self {
+    match self {
+      Self::Qualified { ty, .. } => ty.unqualified(),
+      ty => ty,
+    }
+  }
+
   /// Check if this type is declared `const` and thus only accessible through a `*const` pointer.
   pub(crate) fn is_const(&self) -> bool {
     matches!(self, Self::Qualified { ty, qualifier } if qualifier.is_const() && !ty.is_ptr())
-- 
2.43.0


From c9d0e38c2a151ee593e6d709d7f4204d615a55ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:32 +0000
Subject: [PATCH 53/67] fix: start over when generating code again

---
 src/fn_macro.rs  | 8 ++++----
 src/var_macro.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index b4fa2e4..b41eada 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -155,10 +155,10 @@ impl<'t> FnMacro<'t> {
   where
     C: CodegenContext,
   {
-    if let Some(tokens) = unparenthesize_names(&self.tokens, &cx) {
-      if let Ok((_, body)) = MacroBody::parse(&tokens) {
-        self.body = body;
-      }
+    // Start over with the tokens, since generating code changes the body.
+    let tokens = unparenthesize_names(&self.tokens, &cx);
+    if let Ok((_, body)) = MacroBody::parse(tokens.as_deref().unwrap_or(&self.tokens)) {
+      self.body = body;
     }
 
     let mut tokens = TokenStream::new();
diff --git a/src/var_macro.rs b/src/var_macro.rs
index fa814cc..f3fbc32 100644
--- a/src/var_macro.rs
+++ b/src/var_macro.rs
@@ -54,10 +54,10 @@ impl<'t> VarMacro<'t> {
   where
     C: CodegenContext,
   {
-    if let Some(tokens) = unparenthesize_names(&self.tokens, &cx) {
-      if let Ok((_, body)) = MacroBody::parse(&tokens) {
-        self.body = body;
-      }
+    // Start over with the tokens, since generating code changes the body.
+    let tokens = unparenthesize_names(&self.tokens, &cx);
+    if let Ok((_, body)) = MacroBody::parse(tokens.as_deref().unwrap_or(&self.tokens)) {
+      self.body = body;
     }
 
     let mut ctx = LocalContext::new(&cx);
-- 
2.43.0


From b0893177adbb0da3fe67701d0d2eff3d12766e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:32 +0000
Subject: [PATCH 54/67] fix: declare macro arguments as what they are used as

---
 src/ast/binary_expr.rs     |  4 +--
 src/ast/function_call.rs   | 61 ++++++++++++++++++++++++--------------
 src/ast/function_decl.rs   | 10 +++++--
 src/ast/identifier_expr.rs |  9 ++----
 src/ast/stringify.rs       |  7 ++---
 src/ast/ty.rs              |  4 +++
 src/ast/var.rs             |  5 +++-
 src/ast/var_decl.rs        |  6 ++++
 src/context.rs             | 42 ++++++++++++++++++++++++++
 9 files changed, 109 insertions(+), 39 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 637d784..b5f668e 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -3,7 +3,7 @@ use std::fmt::Debug;
 use proc_macro2::TokenStream;
 use quote::{quote, ToTokens, TokenStreamExt};
 
-use crate::{CodegenContext, LocalContext, MacroArgType};
+use crate::{CodegenContext, LocalContext};
 
 use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, Type, Var};
 
@@ -246,7 +246,7 @@ impl<'t> BinaryExpr<'t> {
     // Arg must be an identifier for use as a member name.
     if self.op == BinaryOp::MemberAccess {
       if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = &*self.rhs {
-        *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
+        ctx.arg_type_mut(arg.index()).use_as_ident();
       }
     }
 
diff --git a/src/ast/function_call.rs b/src/ast/function_call.rs
index 2dd4532..d3e0b60 100644
--- a/src/ast/function_call.rs
+++ b/src/ast/function_call.rs
@@ -30,6 +30,36 @@ impl<'t> FunctionCall<'t> {
     }
 
     self.name.finish(ctx)?;
+
+    if let IdentifierExpr::Arg(arg) = &self.name {
+      ctx.arg_type_mut(arg.index()).use_as_value();
+    }
+
+    // The arguments of `offsetof` are no values.
+    if matches!(&self.name, IdentifierExpr::Plain(name) if name.as_str() == "__builtin_offsetof" && ctx.function(name.as_str()).is_none())
+      && self.args.len() == 2
+    {
+      ctx.export_as_macro = true;
+
+      for (i, arg) in self.args.iter_mut().enumerate() {
+        match arg {
+          Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) => {
+            let arg_type = ctx.arg_type_mut(arg.index());
+            if i == 0 {
+              arg_type.use_as_type();
+            } else {
+              arg_type.use_as_field();
+            }
+          },
+          arg => {
+            arg.finish(ctx)?;
+          },
+        }
+      }
+
+      return Ok(None)
+    }
+
     for arg in self.args.iter_mut() {
       arg.finish(ctx)?;
     }
@@ -47,34 +77,21 @@ impl<'t> FunctionCall<'t> {
             // If the current argument to this function is a macro argument,
             // we can infer the type of the macro argument.
             if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = arg {
-              let arg_type = ctx.arg_type_mut(arg.index());
-              if *arg_type == MacroArgType::Unknown {
-                *arg_type = MacroArgType::Known(Type::from_rust_ty(known_arg_type, ffi_prefix.as_ref())?);
+              let known_arg_type = Type::from_rust_ty(known_arg_type, ffi_prefix.as_ref())?;
+
+              match ctx.arg_type_mut(arg.index()) {
+                arg_type @ (MacroArgType::Unknown | MacroArgType::Value) => {
+                  *arg_type = MacroArgType::Known(known_arg_type);
+                },
+                // The argument needs to be converted to another type.
+                MacroArgType::Known(arg_type) if *arg_type != known_arg_type => ctx.export_as_macro = true,
+                _ => (),
               }
             }
           }
         }
       } else {
         ctx.export_as_macro = true;
-
-        match name.as_str() {
-          "__builtin_offsetof" if self.args.len() == 2 => {
-            if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = &mut self.args[0] {
-              let arg_type = ctx.arg_type_mut(arg.index());
-              if *arg_type == MacroArgType::Unknown {
-                *arg_type = MacroArgType::Ty;
-              }
-            }
-
-            if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = &mut self.args[1] {
-              let arg_type = ctx.arg_type_mut(arg.index());
-              if *arg_type == MacroArgType::Unknown {
-                *arg_type = MacroArgType::Tt;
-              }
-            }
-          },
-          _ => (),
-        }
       }
     }
 
diff --git a/src/ast/function_decl.rs b/src/ast/function_decl.rs
index 803e778..6e774cc 100644
--- a/src/ast/function_decl.rs
+++ b/src/ast/function_decl.rs
@@ -14,7 +14,7 @@ use super::{
   tokens::{parenthesized, punct},
   *,
 };
-use crate::{CodegenContext, LocalContext, MacroArgType, MacroToken};
+use crate::{CodegenContext, LocalContext, MacroToken};
 
 /// A function declaration.
 ///
@@ -47,11 +47,15 @@ impl<'t> FunctionDecl<'t> {
     self.ret_ty.finish(ctx)?;
 
     if let IdentifierExpr::Arg(arg) = &self.name {
-      *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
+      ctx.arg_type_mut(arg.index()).use_as_ident();
     }
 
-    for (ty, _arg) in self.args.iter_mut() {
+    for (ty, arg) in self.args.iter_mut() {
       ty.finish(ctx)?;
+
+      if let IdentifierExpr::Arg(arg) = arg {
+        ctx.arg_type_mut(arg.index()).use_as_ident();
+      }
     }
 
     // A declaration has no type.
diff --git a/src/ast/identifier_expr.rs b/src/ast/identifier_expr.rs
index 112bf19..f19f986 100644
--- a/src/ast/identifier_expr.rs
+++ b/src/ast/identifier_expr.rs
@@ -15,7 +15,7 @@ use super::{
   tokens::{macro_arg, macro_id},
   *,
 };
-use crate::{CodegenContext, LocalContext, MacroArgType, MacroToken};
+use crate::{CodegenContext, LocalContext, MacroToken};
 
 /// An identifier expression.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -103,10 +103,7 @@ impl<'t> IdentifierExpr<'t> {
     C: CodegenContext,
   {
     match self {
-      Self::Arg(_arg) => {
-        // *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
-        Ok(None)
-      },
+      Self::Arg(_) => Ok(None),
       Self::Plain(id) if is_reserved(id.as_str()) => {
         Err(crate::CodegenError::UnsupportedExpression(format!("identifier `{}`", id.as_str())))
       },
@@ -116,7 +113,7 @@ impl<'t> IdentifierExpr<'t> {
           match id {
             IdentifierContinuationExpr::Arg(arg) => {
               // `concat_idents!` arguments must be `ident`.
-              *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
+              ctx.arg_type_mut(arg.index()).use_as_ident();
             },
             IdentifierContinuationExpr::Plain(_) => (),
             IdentifierContinuationExpr::Int(LitInt { suffix: None, value }) if *value >= 0 => {
diff --git a/src/ast/stringify.rs b/src/ast/stringify.rs
index c0197e0..5e03c2a 100644
--- a/src/ast/stringify.rs
+++ b/src/ast/stringify.rs
@@ -13,7 +13,7 @@ use super::{
   tokens::{macro_arg, macro_id, meta, punct},
   BuiltInType, Expr, IdentifierExpr, Type, TypeQualifier, Var,
 };
-use crate::{codegen::quote_c_char_ptr, CodegenContext, LocalContext, MacroArgType, MacroToken};
+use crate::{codegen::quote_c_char_ptr, CodegenContext, LocalContext, MacroToken};
 
 /// Stringification of a macro argument.
 ///
@@ -43,10 +43,7 @@ impl<'t> Stringify<'t> {
   {
     match &mut *self.arg {
       Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) => {
-        let arg_ty = ctx.arg_type_mut(arg.index());
-        if *arg_ty != MacroArgType::Ident {
-          *arg_ty = MacroArgType::Expr;
-        }
+        ctx.arg_type_mut(arg.index()).use_as_string();
       },
       Expr::Var(Var { name: IdentifierExpr::Plain(name) }) if matches!(name.as_str(), "__LINE__" | "__FILE__") => {
         ctx.export_as_macro = true;
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index b4db047..e81891a 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -395,6 +395,10 @@ impl<'t> Type<'t> {
       Self::Identifier { name, .. } => {
         name.finish(ctx)?;
 
+        if let IdentifierExpr::Arg(ref arg) = name {
+          ctx.arg_type_mut(arg.index()).use_as_type();
+        }
+
         if let IdentifierExpr::Plain(ref id) = name {
           if let Some(ty) = ctx.resolve_ty(id.as_str()) {
             *self = Self::from_rust_ty(&ty, ctx.ffi_prefix().as_ref())?;
diff --git a/src/ast/var.rs b/src/ast/var.rs
index f010cd0..4bf68cc 100644
--- a/src/ast/var.rs
+++ b/src/ast/var.rs
@@ -29,7 +29,10 @@ impl<'t> Var<'t> {
 
     match &self.name {
       IdentifierExpr::Arg(arg) => {
-        if let MacroArgType::Known(arg_ty) = ctx.arg_type_mut(arg.index()) {
+        let arg_ty = ctx.arg_type_mut(arg.index());
+        arg_ty.use_as_value();
+
+        if let MacroArgType::Known(arg_ty) = arg_ty {
           Ok(Some(arg_ty.clone()))
         } else {
           Ok(None)
diff --git a/src/ast/var_decl.rs b/src/ast/var_decl.rs
index f1615ad..fae97d9 100644
--- a/src/ast/var_decl.rs
+++ b/src/ast/var_decl.rs
@@ -40,6 +40,12 @@ impl<'t> VarDecl<'t> {
   {
     self.ty.finish(ctx)?;
     self.name.finish(ctx)?;
+
+    // Name of a variable must be an identifier.
+    if let IdentifierExpr::Arg(arg) = &self.name {
+      ctx.arg_type_mut(arg.index()).use_as_ident();
+    }
+
     self.rhs.finish(ctx)?;
 
     Ok(None)
diff --git a/src/context.rs b/src/context.rs
index 06d43ec..ab3c7a8 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -13,10 +13,52 @@ pub(crate) enum MacroArgType<'t> {
   Tt,
   /// known type
   Known(Type<'t>),
+  /// value of unknown type
+  Value,
   /// unknown type
   Unknown,
 }
 
+impl MacroArgType<'_> {
+  /// The argument is used as a value.
+  pub(crate) fn use_as_value(&mut self) {
+    match self {
+      Self::Unknown => *self = Self::Value,
+      Self::Ty => *self = Self::Tt,
+      _ => (),
+    }
+  }
+
+  /// The argument is used as a type.
+  pub(crate) fn use_as_type(&mut self) {
+    match self {
+      Self::Unknown => *self = Self::Ty,
+      Self::Ty | Self::Ident => (),
+      // Both an expression and a type.
+      _ => *self = Self::Tt,
+    }
+  }
+
+  /// The argument is used as part of the path to a field.
+  pub(crate) fn use_as_field(&mut self) {
+    if *self != Self::Ident {
+      *self = Self::Tt;
+    }
+  }
+
+  /// The argument is used as an identifier.
+  pub(crate) fn use_as_ident(&mut self) {
+    *self = Self::Ident;
+  }
+
+  /// The argument is stringified.
+  pub(crate) fn use_as_string(&mut self) {
+    if !matches!(self, Self::Ident | Self::Ty | Self::Tt) {
+      *self = Self::Expr;
+    }
+  }
+}
+
 /// Local code generation context.
 #[derive(Debug, Clone)]
 pub(crate) struct LocalContext<'g, 't, C> {
-- 
2.43.0


From 84e38a79ada779f4614e01b929f4aab42fc08b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:32 +0000
Subject: [PATCH 55/67] fix: take sizeof of an argument's known type

---
 src/ast/expr.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 0c5f35e..14056a1 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -11,7 +11,7 @@ use proc_macro2::{Delimiter, TokenStream, TokenTree};
 use quote::{quote, ToTokens, TokenStreamExt};
 
 use super::{tokens::parenthesized, *};
-use crate::{codegen::quote_c_char_ptr, CodegenContext, LocalContext, MacroToken};
+use crate::{codegen::quote_c_char_ptr, CodegenContext, LocalContext, MacroArgType, MacroToken};
 
 /// An expression.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -741,7 +741,18 @@ impl<'t> Expr<'t> {
       },
       Self::Ternary(expr) => expr.finish(ctx),
       Self::SizeOf(ty) => {
-        ty.finish(ctx)?;
+        let arg_ty = match ty {
+          Type::Identifier { name: IdentifierExpr::Arg(arg), is_struct: false } => Some(ctx.arg_type(arg.index())),
+          _ => None,
+        };
+
+        // The operand is a value rather than a type.
+        if let Some(MacroArgType::Known(arg_ty)) = arg_ty {
+          *ty = arg_ty.clone();
+        } else {
+          ty.finish(ctx)?;
+        }
+
         Ok(Some(Type::BuiltIn(BuiltInType::SizeT)))
       },
     }
-- 
2.43.0


From 58801e3ee3d94ae4e4388e0ec0ba9522f20db6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:27 +0000
Subject: [PATCH 56/67] fix: accept Rust targets without patch version

---
 src/fn_macro.rs  | 3 ++-
 src/var_macro.rs | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index b41eada..f7f10a2 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -193,7 +193,8 @@ impl<'t> FnMacro<'t> {
     ctx.static_lifetime_elision = ctx
       .rust_target()
       .and_then(|v| {
-        let version = Version::parse(&v).ok()?;
+        // The patch version may be omitted.
+        let version = Version::parse(&v).or_else(|_| Version::parse(&format!("{v}.0"))).ok()?;
         let req = VersionReq::parse(">=1.17").unwrap();
         Some(req.matches(&version))
       })
diff --git a/src/var_macro.rs b/src/var_macro.rs
index f3fbc32..90f2965 100644
--- a/src/var_macro.rs
+++ b/src/var_macro.rs
@@ -66,7 +66,8 @@ impl<'t> VarMacro<'t> {
     ctx.static_lifetime_elision = ctx
       .rust_target()
       .and_then(|v| {
-        let version = Version::parse(&v).ok()?;
+        // The patch version may be omitted.
+        let version = Version::parse(&v).or_else(|_| Version::parse(&format!("{v}.0"))).ok()?;
         let req = VersionReq::parse(">=1.17").unwrap();
         Some(req.matches(&version))
       })
@@ -75,7 +76,8 @@ impl<'t> VarMacro<'t> {
     ctx.generate_cstr = ctx
       .rust_target()
       .and_then(|v| {
-        let version = Version::parse(&v).ok()?;
+        // The patch version may be omitted.
+        let version = Version::parse(&v).or_else(|_| Version::parse(&format!("{v}.0"))).ok()?;
         let req = VersionReq::parse(">=1.59").unwrap();
         Some(req.matches(&version))
       })
-- 
2.43.0


From 60d88f9b1d9ee90d8742abe9fba5c54216601e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:27 +0000
Subject: [PATCH 57/67] fix: use c_ssize_t only for nightly targets

---
 src/ast/ty.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index e81891a..22052b3 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -183,7 +183,15 @@ impl BuiltInType {
           syn::parse_quote! { usize }
         }
       },
-      Self::SSizeT => syn::parse_quote! { #(#ffi_prefix::)*c_ssize_t },
+      Self::SSizeT => {
+        if let Some(ty) = ctx.resolve_ty("ssize_t") {
+          ty
+        } else if ctx.rust_target().map(|t| t.contains("nightly")).unwrap_or(true) {
+          syn::parse_quote! { #(#ffi_prefix::)*c_ssize_t }
+        } else {
+          syn::parse_quote! { isize }
+        }
+      },
       Self::Void => syn::parse_quote! { #(#ffi_prefix::)*c_void },
     }
   }
-- 
2.43.0


From 6f25f4f694b82aace640a9647a11430ac580c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:26 +0000
Subject: [PATCH 58/67] fix: reject assignments, increments and addresses in
 variable-like macros

---
 src/ast/binary_expr.rs | 5 +++++
 src/ast/unary_expr.rs  | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index b5f668e..26ea8ab 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -250,6 +250,11 @@ impl<'t> BinaryExpr<'t> {
       }
     }
 
+    // Cannot assign in variable macros, i.e. constants.
+    if self.op.is_assignment() && ctx.is_variable_macro() {
+      return Err(crate::CodegenError::UnsupportedExpression("assignment in variable-like macro".to_owned()))
+    }
+
     // Must export as a macro in order to be able to assign to a macro argument.
     if self.op.is_assignment() && self.lhs.is_arg_place() {
       ctx.export_as_macro = true;
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index a813c43..a3409c6 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -77,6 +77,15 @@ impl<'t> UnaryExpr<'t> {
       ctx.export_as_macro = true;
     }
 
+    // Cannot modify constants or take their address.
+    if matches!(self.op, UnaryOp::PostInc | UnaryOp::PostDec | UnaryOp::Inc | UnaryOp::Dec) && ctx.is_variable_macro() {
+      return Err(crate::CodegenError::UnsupportedExpression("increment or decrement in variable-like macro".to_owned()))
+    }
+
+    if self.op == UnaryOp::AddrOf && ctx.is_variable_macro() {
+      return Err(crate::CodegenError::UnsupportedExpression("address in variable-like macro".to_owned()))
+    }
+
     match self.op {
       UnaryOp::Deref => {
         // Cannot dereference pointers in variable macros, i.e. constants.
-- 
2.43.0


From 98e0961da658da0e0043d3230b6b261d14b10df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:27 +0000
Subject: [PATCH 59/67] fix: keep names of members which are also names of enum
 constants

---
 src/ast/binary_expr.rs   | 18 +++++++++++++++---
 src/ast/expr.rs          | 13 +++++++++++++
 src/ast/function_call.rs |  7 ++++++-
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 26ea8ab..a524ae8 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -241,7 +241,15 @@ impl<'t> BinaryExpr<'t> {
     };
 
     let mut lhs_ty = self.lhs.finish(ctx)?;
-    let mut rhs_ty = self.rhs.finish(ctx)?;
+    let mut rhs_ty = match &mut *self.rhs {
+      // The name of a member is not the name of a variable or constant.
+      Expr::Var(Var { name: name @ IdentifierExpr::Plain(_) }) if self.op == BinaryOp::MemberAccess => {
+        name.finish(ctx)?;
+        ctx.export_as_macro = true;
+        None
+      },
+      rhs => rhs.finish(ctx)?,
+    };
 
     // Arg must be an identifier for use as a member name.
     if self.op == BinaryOp::MemberAccess {
@@ -330,7 +338,7 @@ impl<'t> BinaryExpr<'t> {
     }
 
     let ptr = self.lhs.volatile_ptr(ctx)?;
-    let field = self.rhs.to_token_stream(ctx);
+    let field = self.rhs.to_member_token_stream(ctx);
     let prefix = ctx.trait_prefix().into_iter();
     Some(quote! { #(#prefix::)*ptr::addr_of_mut!((*(#ptr)).#field) })
   }
@@ -354,7 +362,11 @@ impl<'t> BinaryExpr<'t> {
 
     let mut lhs = self.lhs.to_token_stream(ctx);
     let op = self.op;
-    let mut rhs = self.rhs.to_token_stream(ctx);
+    let mut rhs = if op == BinaryOp::MemberAccess {
+      self.rhs.to_member_token_stream(ctx)
+    } else {
+      self.rhs.to_token_stream(ctx)
+    };
 
     let (mut lhs_parens, rhs_parens) = self.parens();
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 14056a1..a8ee229 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -877,6 +877,19 @@ impl<'t> Expr<'t> {
     self.to_tokens(ctx, &mut tokens);
     tokens
   }
+
+  /// Generate the name of a member, which is not the name of a variable or constant.
+  pub(crate) fn to_member_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
+    match self {
+      Self::Var(Var { name }) => name.to_token_stream(ctx),
+      Self::Binary(BinaryExpr { lhs, op: op @ BinaryOp::MemberAccess, rhs }) => {
+        let lhs = lhs.to_member_token_stream(ctx);
+        let rhs = rhs.to_member_token_stream(ctx);
+        quote! { #lhs #op #rhs }
+      },
+      expr => expr.to_token_stream(ctx),
+    }
+  }
 }
 
 #[cfg(test)]
diff --git a/src/ast/function_call.rs b/src/ast/function_call.rs
index d3e0b60..97ceaf8 100644
--- a/src/ast/function_call.rs
+++ b/src/ast/function_call.rs
@@ -51,6 +51,10 @@ impl<'t> FunctionCall<'t> {
               arg_type.use_as_field();
             }
           },
+          // The name of a member is not the name of a variable or constant.
+          Expr::Var(Var { name: name @ IdentifierExpr::Plain(_) }) if i == 1 => {
+            name.finish(ctx)?;
+          },
           arg => {
             arg.finish(ctx)?;
           },
@@ -107,7 +111,8 @@ impl<'t> FunctionCall<'t> {
       name => (name.to_token_stream(ctx), true),
     };
 
-    let args = self.args.iter().map(|arg| match arg {
+    let args = self.args.iter().enumerate().map(|(i, arg)| match arg {
+      arg if !args_into && i == 1 => arg.to_member_token_stream(ctx),
       // Calling `.into()` on a null-pointer doesn't work.
       arg @ Expr::Cast(Cast { ty, expr })
         if ty.is_ptr() && matches!(&**expr, Expr::Literal(Lit::Int(LitInt { value: 0, .. }))) =>
-- 
2.43.0


From 55e14d06490ec1ac7aa37832343530b35825ff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:27 +0000
Subject: [PATCH 60/67] fix: do not resolve types of ambiguous casts twice

---
 src/ast/expr.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index a8ee229..1810c08 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -477,10 +477,8 @@ impl<'t> Expr<'t> {
               // Arguments cannot be resolved as a type.
               true
             },
-            IdentifierExpr::Plain(name) => {
-              // Cannot resolve type.
-              ctx.resolve_ty(name.as_str()).is_none()
-            },
+            // The type has been resolved, so this is not the name from the macro anymore.
+            IdentifierExpr::Plain(_) => false,
             IdentifierExpr::Concat(_) => true,
           };
 
-- 
2.43.0


From aacb9285ab6f3cd0553bcd013d921e1fa2998fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:28 +0000
Subject: [PATCH 61/67] fix: generate macros for names which are reserved in
 Rust

---
 src/fn_macro.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index f7f10a2..d02c3fe 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -205,6 +205,7 @@ impl<'t> FnMacro<'t> {
     ctx.export_as_macro = ctx.export_as_macro
       || ctx.function(&self.name).is_some()
       || ctx.is_variadic()
+      || is_reserved(&self.name)
       || self.args.iter().any(|arg| is_reserved(arg))
       || !ctx.arg_types.iter().all(|ty| matches!(*ty, MacroArgType::Known(_)))
       || ret_ty.is_none();
-- 
2.43.0


From 517db5eaa92a07b0602108de0d5c5e669103540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:29 +0000
Subject: [PATCH 62/67] fix: compare floating conditions and pointers with a
 matching zero

---
 src/ast/expr.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 1810c08..109b8e7 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -417,17 +417,34 @@ impl<'t> Expr<'t> {
   where
     C: CodegenContext,
   {
-    let ty = Some(Type::BuiltIn(BuiltInType::Bool));
+    let bool_ty = Some(Type::BuiltIn(BuiltInType::Bool));
 
-    if self.finish(ctx)? != ty {
+    let ty = self.finish(ctx)?;
+    if ty != bool_ty {
       *self = Expr::Binary(BinaryExpr {
         lhs: Box::new(self.clone()),
         op: BinaryOp::Neq,
-        rhs: Box::new(Expr::Literal(Lit::Int(LitInt { value: 0, suffix: None }))),
+        rhs: Box::new(Self::zero(ty.as_ref())),
       });
     }
 
-    Ok(ty)
+    Ok(bool_ty)
+  }
+
+  /// Generate the value which is false for the given type.
+  fn zero(ty: Option<&Type<'t>>) -> Self {
+    let zero = Self::Literal(Lit::Int(LitInt { value: 0, suffix: None }));
+
+    match ty.map(Type::unqualified) {
+      Some(Type::BuiltIn(BuiltInType::Float)) => Self::Literal(Lit::Float(LitFloat::Float(0.0))),
+      Some(Type::BuiltIn(BuiltInType::Double)) => Self::Literal(Lit::Float(LitFloat::Double(0.0))),
+      Some(Type::BuiltIn(BuiltInType::LongDouble)) => Self::Literal(Lit::Float(LitFloat::LongDouble(0.0))),
+      Some(Type::Ptr { .. }) => match ty {
+        Some(ty) => Self::Cast(Cast { ty: ty.clone(), expr: Box::new(zero) }),
+        None => zero,
+      },
+      _ => zero,
+    }
   }
 
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
@@ -637,12 +654,7 @@ impl<'t> Expr<'t> {
           (UnaryOp::Not, expr) => {
             if ty != Some(Type::BuiltIn(BuiltInType::Bool)) {
               let lhs = expr.clone();
-              let rhs = match ty {
-                Some(Type::BuiltIn(BuiltInType::Float)) => Self::Literal(Lit::Float(LitFloat::Float(0.0))),
-                Some(Type::BuiltIn(BuiltInType::Double)) => Self::Literal(Lit::Float(LitFloat::Double(0.0))),
-                Some(Type::BuiltIn(BuiltInType::LongDouble)) => Self::Literal(Lit::Float(LitFloat::LongDouble(0.0))),
-                _ => Self::Literal(Lit::Int(LitInt { value: 0, suffix: None })),
-              };
+              let rhs = Self::zero(ty.as_ref());
 
               *self = Self::Binary(BinaryExpr { lhs: Box::new(lhs), op: BinaryOp::Eq, rhs: Box::new(rhs) })
             }
-- 
2.43.0


From 6e6d888a041664e2fb6946a0fd0f3c87e3fe0f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:30 +0000
Subject: [PATCH 63/67] fix: convert numbers to boolean by comparison

---
 src/ast/expr.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 109b8e7..6c2bcb5 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -452,6 +452,11 @@ impl<'t> Expr<'t> {
     C: CodegenContext,
   {
     match self {
+      // In Rust, numbers cannot be cast to `bool`.
+      Self::Cast(Cast { ty, expr }) if matches!(ty.unqualified(), Type::BuiltIn(BuiltInType::Bool)) => {
+        *self = (**expr).clone();
+        self.finish_condition(ctx)
+      },
       Self::Cast(cast) => {
         let ty = match cast.finish(ctx) {
           Ok(ty) => ty,
-- 
2.43.0


From d9248feec97796d46069fba46c2d8ad2ec3e51d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:31 +0000
Subject: [PATCH 64/67] fix: negate unsigned numbers by way of a signed type

---
 src/ast/expr.rs | 22 ++++++++++++++++++++++
 src/ast/ty.rs   | 25 +++++++++++++++++++++++++
 2 files changed, 47 insertions(+)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 6c2bcb5..5918b98 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -666,6 +666,28 @@ impl<'t> Expr<'t> {
 
             return Ok(Some(Type::BuiltIn(BuiltInType::Bool)))
           },
+          // In Rust, only signed numbers can be negated.
+          (UnaryOp::Minus, expr) => {
+            let signed = match ty.as_ref().map(Type::unqualified) {
+              Some(Type::BuiltIn(BuiltInType::Bool)) => BuiltInType::Int,
+              Some(Type::BuiltIn(ty)) if ty.is_unsigned() => ty.negation_type(),
+              _ => return Ok(ty),
+            };
+
+            let signed = Type::BuiltIn(signed);
+            let expr = Self::Cast(Cast { ty: signed.clone(), expr: Box::new(expr.clone()) });
+            *self = Self::Unary(UnaryExpr { op: UnaryOp::Minus, expr: Box::new(expr) });
+
+            return Ok(match ty {
+              // Promoted to `int`.
+              Some(_) if matches!(signed, Type::BuiltIn(BuiltInType::Int)) => Some(signed),
+              Some(ty) => {
+                *self = Self::Cast(Cast { ty: ty.clone(), expr: Box::new(self.clone()) });
+                Some(ty)
+              },
+              None => None,
+            })
+          },
           // In Rust, this is logical instead of bitwise negation.
           (UnaryOp::Comp, _) if ty == Some(Type::BuiltIn(BuiltInType::Bool)) => {
             return Err(crate::CodegenError::UnsupportedExpression("complement of boolean".to_owned()))
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 22052b3..f35f15b 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -63,6 +63,31 @@ pub enum BuiltInType {
 }
 
 impl BuiltInType {
+  /// Whether this is always an unsigned integer type.
+  pub(crate) const fn is_unsigned(self) -> bool {
+    matches!(
+      self,
+      Self::UChar
+        | Self::Char8T
+        | Self::Char16T
+        | Self::Char32T
+        | Self::UShort
+        | Self::UInt
+        | Self::ULong
+        | Self::ULongLong
+        | Self::SizeT
+    )
+  }
+
+  /// The signed type in which a number with an unsigned type can be negated.
+  pub(crate) const fn negation_type(self) -> Self {
+    match self {
+      // Promoted to `int`.
+      Self::UChar | Self::Char8T | Self::Char16T | Self::UShort => Self::Int,
+      _ => Self::LongLong,
+    }
+  }
+
   /// Return the suffix used for literals of this type.
   pub fn suffix(&self) -> Option<&'static str> {
     match self {
-- 
2.43.0


From 7d456080bac61b11a15d6b07bbba5889408e8ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:32 +0000
Subject: [PATCH 65/67] fix: the type of a shift does not depend on its
 right-hand side

---
 src/ast/binary_expr.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index a524ae8..fe0515b 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -5,7 +5,7 @@ use quote::{quote, ToTokens, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext};
 
-use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, Type, Var};
+use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitInt, Type, Var};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub(crate) enum Associativity {
@@ -305,6 +305,16 @@ impl<'t> BinaryExpr<'t> {
       return Ok(None)
     }
 
+    // The type does not depend on the right-hand side.
+    if matches!(self.op, BinaryOp::Shl | BinaryOp::Shr) {
+      return Ok(match &*self.lhs {
+        Expr::Literal(Lit::Int(LitInt { value, suffix })) => {
+          suffix.or(i32::try_from(*value).ok().map(|_| BuiltInType::Int)).map(Type::BuiltIn)
+        },
+        _ => lhs_ty,
+      })
+    }
+
     // Type can only be inferred if both sides have the same type or if only one side has a type.
     if lhs_ty == rhs_ty {
       Ok(lhs_ty)
-- 
2.43.0


From e1bf9e2051786f24049a148f49d65f51cabadd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:33 +0000
Subject: [PATCH 66/67] fix: convert operands whose types Rust does not convert
 implicitly

---
 src/ast/binary_expr.rs  | 24 +++++++++++--
 src/ast/cast.rs         | 13 +++++--
 src/ast/expr.rs         | 77 ++++++++++++++++++++++++++++++++++++++++-
 src/ast/ternary_expr.rs |  2 +-
 4 files changed, 110 insertions(+), 6 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index fe0515b..74f4e9e 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -126,12 +126,23 @@ impl BinaryOp {
     })
   }
 
+  /// Whether both operands are numbers.
+  pub(crate) const fn is_arithmetic(&self) -> bool {
+    matches!(self, Self::Mul | Self::Div | Self::Rem | Self::Add | Self::Sub | Self::Shl | Self::Shr)
+  }
+
+  /// Whether this works on the single bits of both operands.
+  pub(crate) const fn is_bitwise(&self) -> bool {
+    matches!(self, Self::BitAnd | Self::BitXor | Self::BitOr)
+  }
+
   /// Whether the operands are converted to a common type.
   pub(crate) const fn converts_operands(&self) -> bool {
     matches!(
       self,
       Self::Mul
         | Self::Div
+        | Self::Rem
         | Self::Add
         | Self::Sub
         | Self::Lt
@@ -140,6 +151,9 @@ impl BinaryOp {
         | Self::Gte
         | Self::Eq
         | Self::Neq
+        | Self::BitAnd
+        | Self::BitXor
+        | Self::BitOr
     )
   }
 
@@ -268,9 +282,15 @@ impl<'t> BinaryExpr<'t> {
       ctx.export_as_macro = true;
     }
 
-    // Cast mixed float and int expression.
+    // In Rust, booleans are not numbers.
+    if self.op.is_arithmetic() {
+      self.lhs.promote_bool(&mut lhs_ty);
+      self.rhs.promote_bool(&mut rhs_ty);
+    }
+
+    // In Rust, operands are not converted implicitly.
     if self.op.converts_operands() {
-      Expr::convert_to_common_float(&mut self.lhs, &mut lhs_ty, &mut self.rhs, &mut rhs_ty);
+      Expr::convert_operands(ctx, &mut self.lhs, &mut lhs_ty, &mut self.rhs, &mut rhs_ty);
     }
 
     match (&*self.lhs, &*self.rhs) {
diff --git a/src/ast/cast.rs b/src/ast/cast.rs
index fb26549..e131fce 100644
--- a/src/ast/cast.rs
+++ b/src/ast/cast.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext};
 
-use super::{Associativity, Expr, Lit, LitFloat, LitInt, Type};
+use super::{Associativity, BuiltInType, Expr, Lit, LitFloat, LitInt, Type};
 
 /// A cast expression.
 ///
@@ -29,7 +29,16 @@ impl<'t> Cast<'t> {
     C: CodegenContext,
   {
     self.ty.finish(ctx)?;
-    self.expr.finish(ctx)?;
+    let mut expr_ty = self.expr.finish(ctx)?;
+
+    // In Rust, a boolean can only be cast to an integer.
+    if matches!(
+      self.ty.unqualified(),
+      Type::BuiltIn(BuiltInType::Float | BuiltInType::Double | BuiltInType::LongDouble)
+    ) {
+      self.expr.promote_bool(&mut expr_ty);
+    }
+
     Ok(Some(self.ty.clone()))
   }
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 5918b98..cac3224 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -796,7 +796,7 @@ impl<'t> Expr<'t> {
   }
 
   /// Convert two operands to their common type if at least one of them has a floating type.
-  pub(crate) fn convert_to_common_float(
+  fn convert_to_common_float(
     lhs: &mut Self,
     lhs_ty: &mut Option<Type<'t>>,
     rhs: &mut Self,
@@ -816,6 +816,78 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Convert operands whose types are converted implicitly in C.
+  pub(crate) fn convert_operands<C: CodegenContext>(
+    ctx: &mut LocalContext<'_, 't, C>,
+    lhs: &mut Self,
+    lhs_ty: &mut Option<Type<'t>>,
+    rhs: &mut Self,
+    rhs_ty: &mut Option<Type<'t>>,
+  ) {
+    lhs.convert_bool(lhs_ty, rhs, rhs_ty);
+    rhs.convert_bool(rhs_ty, lhs, lhs_ty);
+    lhs.convert_negative(lhs_ty, rhs_ty);
+    rhs.convert_negative(rhs_ty, lhs_ty);
+    Self::convert_to_common_float(lhs, lhs_ty, rhs, rhs_ty);
+
+    // Other types cannot be used together.
+    if let (Some(Type::BuiltIn(lhs_ty)), Some(Type::BuiltIn(rhs_ty))) =
+      (lhs_ty.as_ref().map(Type::unqualified), rhs_ty.as_ref().map(Type::unqualified))
+    {
+      if lhs_ty != rhs_ty && !ctx.is_variable_macro() {
+        ctx.export_as_macro = true;
+      }
+    }
+  }
+
+  /// Convert a boolean to an integer if it is used together with a number.
+  fn convert_bool(&mut self, ty: &mut Option<Type<'t>>, other: &Self, other_ty: &Option<Type<'t>>) {
+    let is_number = match other_ty.as_ref().map(Type::unqualified) {
+      Some(Type::BuiltIn(ty)) => !matches!(ty, BuiltInType::Bool | BuiltInType::Void),
+      _ => other.untyped_int().is_some(),
+    };
+
+    if is_number {
+      self.promote_bool(ty);
+    }
+  }
+
+  /// Convert a boolean to an integer.
+  pub(crate) fn promote_bool(&mut self, ty: &mut Option<Type<'t>>) {
+    if matches!(ty.as_ref().map(Type::unqualified), Some(Type::BuiltIn(BuiltInType::Bool))) {
+      let int = Type::BuiltIn(BuiltInType::Int);
+      *self = Self::Cast(Cast { ty: int.clone(), expr: Box::new(self.clone()) });
+      *ty = Some(int);
+    }
+  }
+
+  /// Convert a negative number if it is used together with an unsigned number.
+  fn convert_negative(&mut self, ty: &mut Option<Type<'t>>, other_ty: &Option<Type<'t>>) {
+    if let Some(other_ty) = other_ty.as_ref().map(Type::unqualified) {
+      if matches!(other_ty, Type::BuiltIn(ty) if ty.is_unsigned()) && self.untyped_int() == Some(true) {
+        *self = Self::Cast(Cast { ty: other_ty.clone(), expr: Box::new(self.clone()) });
+        *ty = Some(other_ty.clone());
+      }
+    }
+  }
+
+  /// Whether this is an integer made up of literals, i.e. without a type of its own, and whether it has a negative part.
+  fn untyped_int(&self) -> Option<bool> {
+    match self {
+      Self::Literal(Lit::Int(LitInt { value, .. })) => Some(*value < 0),
+      Self::Unary(UnaryExpr { op: UnaryOp::Minus, expr }) => expr.untyped_int().map(|_| true),
+      Self::Unary(UnaryExpr { op: UnaryOp::Plus | UnaryOp::Comp, expr }) => expr.untyped_int(),
+      Self::Binary(BinaryExpr { lhs, op: BinaryOp::Shl | BinaryOp::Shr, .. }) => lhs.untyped_int(),
+      Self::Binary(BinaryExpr { lhs, op, rhs }) if op.is_arithmetic() || op.is_bitwise() => {
+        Some(lhs.untyped_int()? | rhs.untyped_int()?)
+      },
+      Self::Ternary(TernaryExpr { if_branch, else_branch, .. }) => {
+        Some(if_branch.untyped_int()? | else_branch.untyped_int()?)
+      },
+      _ => None,
+    }
+  }
+
   /// Convert to a floating type with a higher rank.
   fn convert_to_float(&mut self, ty: &mut Option<Type<'t>>, float_ty: &Option<Type<'t>>) {
     let Some(Type::BuiltIn(float)) = float_ty.as_ref().map(Type::unqualified) else { return };
@@ -836,6 +908,9 @@ impl<'t> Expr<'t> {
       (Self::Literal(Lit::Float(LitFloat::Float(f))), _) => {
         *self = Self::Literal(Lit::Float(LitFloat::LongDouble(*f as f64)));
       },
+      (expr, _) if expr.untyped_int().is_some() => {
+        *self = Self::Cast(Cast { ty: Type::BuiltIn(*float), expr: Box::new(self.clone()) });
+      },
       _ => match ty.as_ref().map(Type::unqualified) {
         Some(Type::BuiltIn(BuiltInType::Double)) => (),
         Some(Type::BuiltIn(ty)) if !matches!(ty, BuiltInType::Bool | BuiltInType::Void) => {
diff --git a/src/ast/ternary_expr.rs b/src/ast/ternary_expr.rs
index 281862b..fc47df7 100644
--- a/src/ast/ternary_expr.rs
+++ b/src/ast/ternary_expr.rs
@@ -29,7 +29,7 @@ impl<'t> TernaryExpr<'t> {
 
     let mut lhs_ty = self.if_branch.finish(ctx)?;
     let mut rhs_ty = self.else_branch.finish(ctx)?;
-    Expr::convert_to_common_float(&mut self.if_branch, &mut lhs_ty, &mut self.else_branch, &mut rhs_ty);
+    Expr::convert_operands(ctx, &mut self.if_branch, &mut lhs_ty, &mut self.else_branch, &mut rhs_ty);
 
     if lhs_ty == rhs_ty {
       Ok(lhs_ty)
-- 
2.43.0


From 92db89fb5b5fd1848e51f67ac6a8de0b42610bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:57 +0000
Subject: [PATCH 67/67] Return to the last state which passed vcheck; later
 work is on branch next

---
 src/ast/binary_expr.rs   |  59 ++-------------
 src/ast/cast.rs          |  13 +---
 src/ast/expr.rs          | 155 ++++-----------------------------------
 src/ast/function_call.rs |   7 +-
 src/ast/ternary_expr.rs  |   2 +-
 src/ast/ty.rs            |  25 -------
 src/ast/unary_expr.rs    |   9 ---
 src/fn_macro.rs          |   1 -
 8 files changed, 25 insertions(+), 246 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 74f4e9e..b5f668e 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -5,7 +5,7 @@ use quote::{quote, ToTokens, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext};
 
-use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitInt, Type, Var};
+use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, Type, Var};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub(crate) enum Associativity {
@@ -126,23 +126,12 @@ impl BinaryOp {
     })
   }
 
-  /// Whether both operands are numbers.
-  pub(crate) const fn is_arithmetic(&self) -> bool {
-    matches!(self, Self::Mul | Self::Div | Self::Rem | Self::Add | Self::Sub | Self::Shl | Self::Shr)
-  }
-
-  /// Whether this works on the single bits of both operands.
-  pub(crate) const fn is_bitwise(&self) -> bool {
-    matches!(self, Self::BitAnd | Self::BitXor | Self::BitOr)
-  }
-
   /// Whether the operands are converted to a common type.
   pub(crate) const fn converts_operands(&self) -> bool {
     matches!(
       self,
       Self::Mul
         | Self::Div
-        | Self::Rem
         | Self::Add
         | Self::Sub
         | Self::Lt
@@ -151,9 +140,6 @@ impl BinaryOp {
         | Self::Gte
         | Self::Eq
         | Self::Neq
-        | Self::BitAnd
-        | Self::BitXor
-        | Self::BitOr
     )
   }
 
@@ -255,15 +241,7 @@ impl<'t> BinaryExpr<'t> {
     };
 
     let mut lhs_ty = self.lhs.finish(ctx)?;
-    let mut rhs_ty = match &mut *self.rhs {
-      // The name of a member is not the name of a variable or constant.
-      Expr::Var(Var { name: name @ IdentifierExpr::Plain(_) }) if self.op == BinaryOp::MemberAccess => {
-        name.finish(ctx)?;
-        ctx.export_as_macro = true;
-        None
-      },
-      rhs => rhs.finish(ctx)?,
-    };
+    let mut rhs_ty = self.rhs.finish(ctx)?;
 
     // Arg must be an identifier for use as a member name.
     if self.op == BinaryOp::MemberAccess {
@@ -272,25 +250,14 @@ impl<'t> BinaryExpr<'t> {
       }
     }
 
-    // Cannot assign in variable macros, i.e. constants.
-    if self.op.is_assignment() && ctx.is_variable_macro() {
-      return Err(crate::CodegenError::UnsupportedExpression("assignment in variable-like macro".to_owned()))
-    }
-
     // Must export as a macro in order to be able to assign to a macro argument.
     if self.op.is_assignment() && self.lhs.is_arg_place() {
       ctx.export_as_macro = true;
     }
 
-    // In Rust, booleans are not numbers.
-    if self.op.is_arithmetic() {
-      self.lhs.promote_bool(&mut lhs_ty);
-      self.rhs.promote_bool(&mut rhs_ty);
-    }
-
-    // In Rust, operands are not converted implicitly.
+    // Cast mixed float and int expression.
     if self.op.converts_operands() {
-      Expr::convert_operands(ctx, &mut self.lhs, &mut lhs_ty, &mut self.rhs, &mut rhs_ty);
+      Expr::convert_to_common_float(&mut self.lhs, &mut lhs_ty, &mut self.rhs, &mut rhs_ty);
     }
 
     match (&*self.lhs, &*self.rhs) {
@@ -325,16 +292,6 @@ impl<'t> BinaryExpr<'t> {
       return Ok(None)
     }
 
-    // The type does not depend on the right-hand side.
-    if matches!(self.op, BinaryOp::Shl | BinaryOp::Shr) {
-      return Ok(match &*self.lhs {
-        Expr::Literal(Lit::Int(LitInt { value, suffix })) => {
-          suffix.or(i32::try_from(*value).ok().map(|_| BuiltInType::Int)).map(Type::BuiltIn)
-        },
-        _ => lhs_ty,
-      })
-    }
-
     // Type can only be inferred if both sides have the same type or if only one side has a type.
     if lhs_ty == rhs_ty {
       Ok(lhs_ty)
@@ -368,7 +325,7 @@ impl<'t> BinaryExpr<'t> {
     }
 
     let ptr = self.lhs.volatile_ptr(ctx)?;
-    let field = self.rhs.to_member_token_stream(ctx);
+    let field = self.rhs.to_token_stream(ctx);
     let prefix = ctx.trait_prefix().into_iter();
     Some(quote! { #(#prefix::)*ptr::addr_of_mut!((*(#ptr)).#field) })
   }
@@ -392,11 +349,7 @@ impl<'t> BinaryExpr<'t> {
 
     let mut lhs = self.lhs.to_token_stream(ctx);
     let op = self.op;
-    let mut rhs = if op == BinaryOp::MemberAccess {
-      self.rhs.to_member_token_stream(ctx)
-    } else {
-      self.rhs.to_token_stream(ctx)
-    };
+    let mut rhs = self.rhs.to_token_stream(ctx);
 
     let (mut lhs_parens, rhs_parens) = self.parens();
 
diff --git a/src/ast/cast.rs b/src/ast/cast.rs
index e131fce..fb26549 100644
--- a/src/ast/cast.rs
+++ b/src/ast/cast.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext};
 
-use super::{Associativity, BuiltInType, Expr, Lit, LitFloat, LitInt, Type};
+use super::{Associativity, Expr, Lit, LitFloat, LitInt, Type};
 
 /// A cast expression.
 ///
@@ -29,16 +29,7 @@ impl<'t> Cast<'t> {
     C: CodegenContext,
   {
     self.ty.finish(ctx)?;
-    let mut expr_ty = self.expr.finish(ctx)?;
-
-    // In Rust, a boolean can only be cast to an integer.
-    if matches!(
-      self.ty.unqualified(),
-      Type::BuiltIn(BuiltInType::Float | BuiltInType::Double | BuiltInType::LongDouble)
-    ) {
-      self.expr.promote_bool(&mut expr_ty);
-    }
-
+    self.expr.finish(ctx)?;
     Ok(Some(self.ty.clone()))
   }
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index cac3224..14056a1 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -417,34 +417,17 @@ impl<'t> Expr<'t> {
   where
     C: CodegenContext,
   {
-    let bool_ty = Some(Type::BuiltIn(BuiltInType::Bool));
+    let ty = Some(Type::BuiltIn(BuiltInType::Bool));
 
-    let ty = self.finish(ctx)?;
-    if ty != bool_ty {
+    if self.finish(ctx)? != ty {
       *self = Expr::Binary(BinaryExpr {
         lhs: Box::new(self.clone()),
         op: BinaryOp::Neq,
-        rhs: Box::new(Self::zero(ty.as_ref())),
+        rhs: Box::new(Expr::Literal(Lit::Int(LitInt { value: 0, suffix: None }))),
       });
     }
 
-    Ok(bool_ty)
-  }
-
-  /// Generate the value which is false for the given type.
-  fn zero(ty: Option<&Type<'t>>) -> Self {
-    let zero = Self::Literal(Lit::Int(LitInt { value: 0, suffix: None }));
-
-    match ty.map(Type::unqualified) {
-      Some(Type::BuiltIn(BuiltInType::Float)) => Self::Literal(Lit::Float(LitFloat::Float(0.0))),
-      Some(Type::BuiltIn(BuiltInType::Double)) => Self::Literal(Lit::Float(LitFloat::Double(0.0))),
-      Some(Type::BuiltIn(BuiltInType::LongDouble)) => Self::Literal(Lit::Float(LitFloat::LongDouble(0.0))),
-      Some(Type::Ptr { .. }) => match ty {
-        Some(ty) => Self::Cast(Cast { ty: ty.clone(), expr: Box::new(zero) }),
-        None => zero,
-      },
-      _ => zero,
-    }
+    Ok(ty)
   }
 
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
@@ -452,11 +435,6 @@ impl<'t> Expr<'t> {
     C: CodegenContext,
   {
     match self {
-      // In Rust, numbers cannot be cast to `bool`.
-      Self::Cast(Cast { ty, expr }) if matches!(ty.unqualified(), Type::BuiltIn(BuiltInType::Bool)) => {
-        *self = (**expr).clone();
-        self.finish_condition(ctx)
-      },
       Self::Cast(cast) => {
         let ty = match cast.finish(ctx) {
           Ok(ty) => ty,
@@ -499,8 +477,10 @@ impl<'t> Expr<'t> {
               // Arguments cannot be resolved as a type.
               true
             },
-            // The type has been resolved, so this is not the name from the macro anymore.
-            IdentifierExpr::Plain(_) => false,
+            IdentifierExpr::Plain(name) => {
+              // Cannot resolve type.
+              ctx.resolve_ty(name.as_str()).is_none()
+            },
             IdentifierExpr::Concat(_) => true,
           };
 
@@ -659,35 +639,18 @@ impl<'t> Expr<'t> {
           (UnaryOp::Not, expr) => {
             if ty != Some(Type::BuiltIn(BuiltInType::Bool)) {
               let lhs = expr.clone();
-              let rhs = Self::zero(ty.as_ref());
+              let rhs = match ty {
+                Some(Type::BuiltIn(BuiltInType::Float)) => Self::Literal(Lit::Float(LitFloat::Float(0.0))),
+                Some(Type::BuiltIn(BuiltInType::Double)) => Self::Literal(Lit::Float(LitFloat::Double(0.0))),
+                Some(Type::BuiltIn(BuiltInType::LongDouble)) => Self::Literal(Lit::Float(LitFloat::LongDouble(0.0))),
+                _ => Self::Literal(Lit::Int(LitInt { value: 0, suffix: None })),
+              };
 
               *self = Self::Binary(BinaryExpr { lhs: Box::new(lhs), op: BinaryOp::Eq, rhs: Box::new(rhs) })
             }
 
             return Ok(Some(Type::BuiltIn(BuiltInType::Bool)))
           },
-          // In Rust, only signed numbers can be negated.
-          (UnaryOp::Minus, expr) => {
-            let signed = match ty.as_ref().map(Type::unqualified) {
-              Some(Type::BuiltIn(BuiltInType::Bool)) => BuiltInType::Int,
-              Some(Type::BuiltIn(ty)) if ty.is_unsigned() => ty.negation_type(),
-              _ => return Ok(ty),
-            };
-
-            let signed = Type::BuiltIn(signed);
-            let expr = Self::Cast(Cast { ty: signed.clone(), expr: Box::new(expr.clone()) });
-            *self = Self::Unary(UnaryExpr { op: UnaryOp::Minus, expr: Box::new(expr) });
-
-            return Ok(match ty {
-              // Promoted to `int`.
-              Some(_) if matches!(signed, Type::BuiltIn(BuiltInType::Int)) => Some(signed),
-              Some(ty) => {
-                *self = Self::Cast(Cast { ty: ty.clone(), expr: Box::new(self.clone()) });
-                Some(ty)
-              },
-              None => None,
-            })
-          },
           // In Rust, this is logical instead of bitwise negation.
           (UnaryOp::Comp, _) if ty == Some(Type::BuiltIn(BuiltInType::Bool)) => {
             return Err(crate::CodegenError::UnsupportedExpression("complement of boolean".to_owned()))
@@ -796,7 +759,7 @@ impl<'t> Expr<'t> {
   }
 
   /// Convert two operands to their common type if at least one of them has a floating type.
-  fn convert_to_common_float(
+  pub(crate) fn convert_to_common_float(
     lhs: &mut Self,
     lhs_ty: &mut Option<Type<'t>>,
     rhs: &mut Self,
@@ -816,78 +779,6 @@ impl<'t> Expr<'t> {
     }
   }
 
-  /// Convert operands whose types are converted implicitly in C.
-  pub(crate) fn convert_operands<C: CodegenContext>(
-    ctx: &mut LocalContext<'_, 't, C>,
-    lhs: &mut Self,
-    lhs_ty: &mut Option<Type<'t>>,
-    rhs: &mut Self,
-    rhs_ty: &mut Option<Type<'t>>,
-  ) {
-    lhs.convert_bool(lhs_ty, rhs, rhs_ty);
-    rhs.convert_bool(rhs_ty, lhs, lhs_ty);
-    lhs.convert_negative(lhs_ty, rhs_ty);
-    rhs.convert_negative(rhs_ty, lhs_ty);
-    Self::convert_to_common_float(lhs, lhs_ty, rhs, rhs_ty);
-
-    // Other types cannot be used together.
-    if let (Some(Type::BuiltIn(lhs_ty)), Some(Type::BuiltIn(rhs_ty))) =
-      (lhs_ty.as_ref().map(Type::unqualified), rhs_ty.as_ref().map(Type::unqualified))
-    {
-      if lhs_ty != rhs_ty && !ctx.is_variable_macro() {
-        ctx.export_as_macro = true;
-      }
-    }
-  }
-
-  /// Convert a boolean to an integer if it is used together with a number.
-  fn convert_bool(&mut self, ty: &mut Option<Type<'t>>, other: &Self, other_ty: &Option<Type<'t>>) {
-    let is_number = match other_ty.as_ref().map(Type::unqualified) {
-      Some(Type::BuiltIn(ty)) => !matches!(ty, BuiltInType::Bool | BuiltInType::Void),
-      _ => other.untyped_int().is_some(),
-    };
-
-    if is_number {
-      self.promote_bool(ty);
-    }
-  }
-
-  /// Convert a boolean to an integer.
-  pub(crate) fn promote_bool(&mut self, ty: &mut Option<Type<'t>>) {
-    if matches!(ty.as_ref().map(Type::unqualified), Some(Type::BuiltIn(BuiltInType::Bool))) {
-      let int = Type::BuiltIn(BuiltInType::Int);
-      *self = Self::Cast(Cast { ty: int.clone(), expr: Box::new(self.clone()) });
-      *ty = Some(int);
-    }
-  }
-
-  /// Convert a negative number if it is used together with an unsigned number.
-  fn convert_negative(&mut self, ty: &mut Option<Type<'t>>, other_ty: &Option<Type<'t>>) {
-    if let Some(other_ty) = other_ty.as_ref().map(Type::unqualified) {
-      if matches!(other_ty, Type::BuiltIn(ty) if ty.is_unsigned()) && self.untyped_int() == Some(true) {
-        *self = Self::Cast(Cast { ty: other_ty.clone(), expr: Box::new(self.clone()) });
-        *ty = Some(other_ty.clone());
-      }
-    }
-  }
-
-  /// Whether this is an integer made up of literals, i.e. without a type of its own, and whether it has a negative part.
-  fn untyped_int(&self) -> Option<bool> {
-    match self {
-      Self::Literal(Lit::Int(LitInt { value, .. })) => Some(*value < 0),
-      Self::Unary(UnaryExpr { op: UnaryOp::Minus, expr }) => expr.untyped_int().map(|_| true),
-      Self::Unary(UnaryExpr { op: UnaryOp::Plus | UnaryOp::Comp, expr }) => expr.untyped_int(),
-      Self::Binary(BinaryExpr { lhs, op: BinaryOp::Shl | BinaryOp::Shr, .. }) => lhs.untyped_int(),
-      Self::Binary(BinaryExpr { lhs, op, rhs }) if op.is_arithmetic() || op.is_bitwise() => {
-        Some(lhs.untyped_int()? | rhs.untyped_int()?)
-      },
-      Self::Ternary(TernaryExpr { if_branch, else_branch, .. }) => {
-        Some(if_branch.untyped_int()? | else_branch.untyped_int()?)
-      },
-      _ => None,
-    }
-  }
-
   /// Convert to a floating type with a higher rank.
   fn convert_to_float(&mut self, ty: &mut Option<Type<'t>>, float_ty: &Option<Type<'t>>) {
     let Some(Type::BuiltIn(float)) = float_ty.as_ref().map(Type::unqualified) else { return };
@@ -908,9 +799,6 @@ impl<'t> Expr<'t> {
       (Self::Literal(Lit::Float(LitFloat::Float(f))), _) => {
         *self = Self::Literal(Lit::Float(LitFloat::LongDouble(*f as f64)));
       },
-      (expr, _) if expr.untyped_int().is_some() => {
-        *self = Self::Cast(Cast { ty: Type::BuiltIn(*float), expr: Box::new(self.clone()) });
-      },
       _ => match ty.as_ref().map(Type::unqualified) {
         Some(Type::BuiltIn(BuiltInType::Double)) => (),
         Some(Type::BuiltIn(ty)) if !matches!(ty, BuiltInType::Bool | BuiltInType::Void) => {
@@ -989,19 +877,6 @@ impl<'t> Expr<'t> {
     self.to_tokens(ctx, &mut tokens);
     tokens
   }
-
-  /// Generate the name of a member, which is not the name of a variable or constant.
-  pub(crate) fn to_member_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
-    match self {
-      Self::Var(Var { name }) => name.to_token_stream(ctx),
-      Self::Binary(BinaryExpr { lhs, op: op @ BinaryOp::MemberAccess, rhs }) => {
-        let lhs = lhs.to_member_token_stream(ctx);
-        let rhs = rhs.to_member_token_stream(ctx);
-        quote! { #lhs #op #rhs }
-      },
-      expr => expr.to_token_stream(ctx),
-    }
-  }
 }
 
 #[cfg(test)]
diff --git a/src/ast/function_call.rs b/src/ast/function_call.rs
index 97ceaf8..d3e0b60 100644
--- a/src/ast/function_call.rs
+++ b/src/ast/function_call.rs
@@ -51,10 +51,6 @@ impl<'t> FunctionCall<'t> {
               arg_type.use_as_field();
             }
           },
-          // The name of a member is not the name of a variable or constant.
-          Expr::Var(Var { name: name @ IdentifierExpr::Plain(_) }) if i == 1 => {
-            name.finish(ctx)?;
-          },
           arg => {
             arg.finish(ctx)?;
           },
@@ -111,8 +107,7 @@ impl<'t> FunctionCall<'t> {
       name => (name.to_token_stream(ctx), true),
     };
 
-    let args = self.args.iter().enumerate().map(|(i, arg)| match arg {
-      arg if !args_into && i == 1 => arg.to_member_token_stream(ctx),
+    let args = self.args.iter().map(|arg| match arg {
       // Calling `.into()` on a null-pointer doesn't work.
       arg @ Expr::Cast(Cast { ty, expr })
         if ty.is_ptr() && matches!(&**expr, Expr::Literal(Lit::Int(LitInt { value: 0, .. }))) =>
diff --git a/src/ast/ternary_expr.rs b/src/ast/ternary_expr.rs
index fc47df7..281862b 100644
--- a/src/ast/ternary_expr.rs
+++ b/src/ast/ternary_expr.rs
@@ -29,7 +29,7 @@ impl<'t> TernaryExpr<'t> {
 
     let mut lhs_ty = self.if_branch.finish(ctx)?;
     let mut rhs_ty = self.else_branch.finish(ctx)?;
-    Expr::convert_operands(ctx, &mut self.if_branch, &mut lhs_ty, &mut self.else_branch, &mut rhs_ty);
+    Expr::convert_to_common_float(&mut self.if_branch, &mut lhs_ty, &mut self.else_branch, &mut rhs_ty);
 
     if lhs_ty == rhs_ty {
       Ok(lhs_ty)
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index f35f15b..22052b3 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -63,31 +63,6 @@ pub enum BuiltInType {
 }
 
 impl BuiltInType {
-  /// Whether this is always an unsigned integer type.
-  pub(crate) const fn is_unsigned(self) -> bool {
-    matches!(
-      self,
-      Self::UChar
-        | Self::Char8T
-        | Self::Char16T
-        | Self::Char32T
-        | Self::UShort
-        | Self::UInt
-        | Self::ULong
-        | Self::ULongLong
-        | Self::SizeT
-    )
-  }
-
-  /// The signed type in which a number with an unsigned type can be negated.
-  pub(crate) const fn negation_type(self) -> Self {
-    match self {
-      // Promoted to `int`.
-      Self::UChar | Self::Char8T | Self::Char16T | Self::UShort => Self::Int,
-      _ => Self::LongLong,
-    }
-  }
-
   /// Return the suffix used for literals of this type.
   pub fn suffix(&self) -> Option<&'static str> {
     match self {
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index a3409c6..a813c43 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -77,15 +77,6 @@ impl<'t> UnaryExpr<'t> {
       ctx.export_as_macro = true;
     }
 
-    // Cannot modify constants or take their address.
-    if matches!(self.op, UnaryOp::PostInc | UnaryOp::PostDec | UnaryOp::Inc | UnaryOp::Dec) && ctx.is_variable_macro() {
-      return Err(crate::CodegenError::UnsupportedExpression("increment or decrement in variable-like macro".to_owned()))
-    }
-
-    if self.op == UnaryOp::AddrOf && ctx.is_variable_macro() {
-      return Err(crate::CodegenError::UnsupportedExpression("address in variable-like macro".to_owned()))
-    }
-
     match self.op {
       UnaryOp::Deref => {
         // Cannot dereference pointers in variable macros, i.e. constants.
diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index d02c3fe..f7f10a2 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -205,7 +205,6 @@ impl<'t> FnMacro<'t> {
     ctx.export_as_macro = ctx.export_as_macro
       || ctx.function(&self.name).is_some()
       || ctx.is_variadic()
-      || is_reserved(&self.name)
       || self.args.iter().any(|arg| is_reserved(arg))
       || !ctx.arg_types.iter().all(|ty| matches!(*ty, MacroArgType::Known(_)))
       || ret_ty.is_none();
-- 
2.43.0

