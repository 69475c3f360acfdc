From 4618e2d9b2dfc3c8a028d62c391f70bd2ad90131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:01 +0000
Subject: [PATCH 01/41] fix: report number literals that do not fit in 32 bits
 instead of panicking

---
 src/lexer.rs | 61 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index ec9d8ab..7887237 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -311,26 +311,39 @@ fn clean_str(string: &str) -> String {
 
 struct Matcher {
     regex: Regex,
-    convert: fn(&str) -> TokenType,
+    convert: Box<dyn Fn(&str) -> Option<TokenType> + Send + Sync>,
 }
 
 impl Matcher {
     pub fn new(re: &str, convert: fn(&str) -> TokenType) -> Matcher {
         Matcher {
             regex: Regex::new(("^".to_owned() + re).as_str()).unwrap(),
-            convert: convert,
+            convert: Box::new(move |text| Some(convert(text))),
         }
     }
 
-    pub fn do_match<'a>(&self, input: &Input<'a>) -> Option<(Input<'a>, Token)> {
+    /// A matcher for numbers, whose value may not be representable.
+    pub fn number(re: &str, convert: fn(&str) -> Option<TokenType>) -> Matcher {
+        Matcher {
+            regex: Regex::new(("^".to_owned() + re).as_str()).unwrap(),
+            convert: Box::new(convert),
+        }
+    }
+
+    /// `None` if the input doesn't match, `Some(None)` if it matches,
+    /// but isn't a valid token.
+    pub fn do_match<'a>(&self, input: &Input<'a>) -> Option<Option<(Input<'a>, Token)>> {
         match self.regex.captures_iter(input.as_str()).next() {
             Some(cap) => {
                 let capture: &str = &cap[0];
                 let convert = &self.convert;
-                let token_type = convert(capture);
+                let token_type = match convert(capture) {
+                    Some(token_type) => token_type,
+                    None => return Some(None),
+                };
                 let new_input = input.update(capture.len());
                 let span = Span::new(input.location(), new_input.location());
-                Some((new_input, Token::new(token_type, span)))
+                Some(Some((new_input, Token::new(token_type, span))))
             }
             None => None,
         }
@@ -398,24 +411,24 @@ fn skip_whitespace_and_comments<'a>(input: &Input<'a>) -> Input<'a> {
     current
 }
 
-fn to_hex_num(text: &str, prefix: usize) -> TokenType {
-    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 16).unwrap();
-    TokenType::Number(num, Radix::Hex)
+fn to_hex_num(text: &str, prefix: usize) -> Option<TokenType> {
+    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 16).ok()?;
+    Some(TokenType::Number(num, Radix::Hex))
 }
 
-fn to_oct_num(text: &str) -> TokenType {
-    let num = i32::from_str_radix(&(&text[2..]).replace('\'', ""), 8).unwrap();
-    TokenType::Number(num, Radix::Octal)
+fn to_oct_num(text: &str) -> Option<TokenType> {
+    let num = i32::from_str_radix(&(&text[2..]).replace('\'', ""), 8).ok()?;
+    Some(TokenType::Number(num, Radix::Octal))
 }
 
-fn to_bin_num(text: &str, prefix: usize) -> TokenType {
-    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 2).unwrap();
-    TokenType::Number(num, Radix::Binary)
+fn to_bin_num(text: &str, prefix: usize) -> Option<TokenType> {
+    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 2).ok()?;
+    Some(TokenType::Number(num, Radix::Binary))
 }
 
-fn to_dec_num(text: &str) -> TokenType {
-    let num = i32::from_str_radix(&text.replace('\'', ""), 10).unwrap();
-    TokenType::Number(num, Radix::Decimal)
+fn to_dec_num(text: &str) -> Option<TokenType> {
+    let num = i32::from_str_radix(&text.replace('\'', ""), 10).ok()?;
+    Some(TokenType::Number(num, Radix::Decimal))
 }
 
 fn read_token<'a>(
@@ -469,12 +482,12 @@ fn read_token<'a>(
                 }),
                 Matcher::new("@[rR][0123]", |text| to_indr_mode(text)),
                 Matcher::new(ident, |text| TokenType::Name(text.to_lowercase())),
-                Matcher::new(hex_num, |text| to_hex_num(text, 1)),
-                Matcher::new(oct_num, |text| to_oct_num(text)),
-                Matcher::new(hex_num2, |text| to_hex_num(text, 2)),
-                Matcher::new(bin_num, |text| to_bin_num(text, 1)),
-                Matcher::new(bin_num2, |text| to_bin_num(text, 2)),
-                Matcher::new(dec_num, |text| to_dec_num(text)),
+                Matcher::number(hex_num, |text| to_hex_num(text, 1)),
+                Matcher::number(oct_num, |text| to_oct_num(text)),
+                Matcher::number(hex_num2, |text| to_hex_num(text, 2)),
+                Matcher::number(bin_num, |text| to_bin_num(text, 1)),
+                Matcher::number(bin_num2, |text| to_bin_num(text, 2)),
+                Matcher::number(dec_num, |text| to_dec_num(text)),
             ]
         };
     }
@@ -486,7 +499,7 @@ fn read_token<'a>(
         for matcher in MATCHERS.iter() {
             match matcher.do_match(&input) {
                 None => (),
-                matched => return matched,
+                Some(matched) => return matched,
             }
         }
         None
-- 
2.43.0


From c12157142216724ec9201c8641aaabdd935e3a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:40 +0000
Subject: [PATCH 02/41] fix: report arithmetic overflow in expressions instead
 of panicking or wrapping

---
 src/asm.rs        |  2 ++
 src/expression.rs | 26 +++++++++++++++++++++-----
 src/lib.rs        |  6 ++++++
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index fec5de0..6f6d3aa 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -388,6 +388,7 @@ impl std::convert::From<img::IconError> for AssemblyError {
 pub enum AssemblyError {
     NameNotFound(Span, String),
     DivideByZero(Span, String),
+    ArithmeticOverflow(Span),
     MustBeLiteralNumber(Span),
     NumberOfBytesIsLongerThanLength(Span, usize, usize), // length, number-of-bytes
     NameAlreadyExists(Span, Span, String),
@@ -552,6 +553,7 @@ impl From<EvaluationError> for AssemblyError {
             DivideByZero(span, message) => {
                 AssemblyError::DivideByZero(span.clone(), message.clone())
             }
+            ArithmeticOverflow(span) => AssemblyError::ArithmeticOverflow(span.clone()),
             MustBeLiteralNumber(span) => AssemblyError::MustBeLiteralNumber(span.clone()),
             MacroLabelOutsideOfMacro(span) => AssemblyError::MacroLabelOutsideOfMacro(span),
             MacroArgOutsideOfMacro(span) => AssemblyError::MacroArgOutsideOfMacro(span),
diff --git a/src/expression.rs b/src/expression.rs
index 75c106d..0223b53 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -8,6 +8,7 @@ use std::fmt;
 pub enum EvaluationError {
     NameNotFound(Span, String),
     DivideByZero(Span, String),
+    ArithmeticOverflow(Span),
     MustBeLiteralNumber(Span),
     MacroLabelOutsideOfMacro(Span),
     MacroArgOutsideOfMacro(Span),
@@ -22,6 +23,7 @@ impl EvaluationError {
         match self {
             NameNotFound(span, msg) => format!("{}: {}", span, msg),
             DivideByZero(span, msg) => format!("{}: {}", span, msg),
+            ArithmeticOverflow(span) => format!("{}: Arithmetic overflow", span),
             MustBeLiteralNumber(span) => format!("{}: Must be a literal integer", span),
             MacroLabelOutsideOfMacro(span) => format!("{}: Macro label ouside of macro", span),
             MacroArgOutsideOfMacro(span) => format!("{}: Macro arg outside of macro", span),
@@ -479,10 +481,22 @@ impl Expr {
                     format!("{} '{}' not found", name_lookup.name(), name),
                 )),
             },
-            Expr::Plus(_, left, right) => Ok(left.eval(name_lookup)? + right.eval(name_lookup)?),
-            Expr::Minus(_, left, right) => Ok(left.eval(name_lookup)? - right.eval(name_lookup)?),
-            Expr::UnaryMinus(_, expr) => Ok(-1 * expr.eval(name_lookup)?),
-            Expr::Times(_, left, right) => Ok(left.eval(name_lookup)? * right.eval(name_lookup)?),
+            Expr::Plus(_, left, right) => left
+                .eval(name_lookup)?
+                .checked_add(right.eval(name_lookup)?)
+                .ok_or_else(|| EvaluationError::ArithmeticOverflow(self.span())),
+            Expr::Minus(_, left, right) => left
+                .eval(name_lookup)?
+                .checked_sub(right.eval(name_lookup)?)
+                .ok_or_else(|| EvaluationError::ArithmeticOverflow(self.span())),
+            Expr::UnaryMinus(_, expr) => expr
+                .eval(name_lookup)?
+                .checked_neg()
+                .ok_or_else(|| EvaluationError::ArithmeticOverflow(self.span())),
+            Expr::Times(_, left, right) => left
+                .eval(name_lookup)?
+                .checked_mul(right.eval(name_lookup)?)
+                .ok_or_else(|| EvaluationError::ArithmeticOverflow(self.span())),
             Expr::Divide(_, left, right) => {
                 let left_val = left.eval(name_lookup)?;
                 let right_val = right.eval(name_lookup)?;
@@ -492,7 +506,9 @@ impl Expr {
                         format!("Divide by zero: {}/{}", left_val, right_val),
                     ))
                 } else {
-                    Ok(left_val / right_val)
+                    left_val
+                        .checked_div(right_val)
+                        .ok_or_else(|| EvaluationError::ArithmeticOverflow(self.span()))
                 }
             }
             Expr::Number(_, num, _radix) => Ok(*num),
diff --git a/src/lib.rs b/src/lib.rs
index 8bcc1c2..b4a3e8c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -572,6 +572,12 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
             stderr.newline();
             highlight_line(&span, "", files, stderr);
         }
+        ArithmeticOverflow(span) => {
+            stderr
+                .writeln("Arithmetic overflow: the result does not fit in 32 bits")
+                .newline();
+            highlight_line(&span, "", files, stderr);
+        }
         MustBeLiteralNumber(span) => {
             stderr.writeln(" Must be a literal number").newline();
             highlight_line(&span, "", files, stderr);
-- 
2.43.0


From d90e1e21109e72b9cdd9de06e0ea9810437f0a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:41 +0000
Subject: [PATCH 03/41] fix: C header comments may contain multi-byte
 characters

---
 src/cheader.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/cheader.rs b/src/cheader.rs
index 84d2955..d42ab29 100644
--- a/src/cheader.rs
+++ b/src/cheader.rs
@@ -9,17 +9,11 @@ use crate::location::Span;
 
 fn skip_multiline_comment<'a>(input: &Input<'a>) -> Input<'a> {
     let text = input.as_str();
-    let mut skipped = 0;
     if text.starts_with("/*") {
-        skipped = skipped + 2;
-        while skipped < text.len() && !text[skipped..].starts_with("*/") {
-            skipped = skipped + 1;
-        }
-        if text[skipped..].starts_with("*/") {
-            return input.update(skipped + 2);
-        } else {
-            return input.update(skipped);
-        }
+        return match text[2..].find("*/") {
+            Some(length) => input.update(2 + length + 2),
+            None => input.update(text.len()),
+        };
     }
     input.clone()
 }
-- 
2.43.0


From 38165e921ffbfe1bb2ac70808c0a69c4ddad70c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:43 +0000
Subject: [PATCH 04/41] fix: relative operands wrap around modulo 64K, as
 documented

---
 src/instruction.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 394fe6e..aa79004 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -373,7 +373,8 @@ fn eval16<E: Env<i32>>(expr: &Expr, env: &E) -> EncResult<i32> {
 fn rel8<E: Env<i32>>(expr: &Expr, pos: usize, env: &E) -> EncResult<i32> {
     let address = expr.eval(env)?;
     if address >= 0 && address <= 65535 {
-        let value = address - (pos as i32);
+        // Addresses are 16 bits, so displacements wrap around
+        let value = i32::from((address - (pos as i32)) as i16);
         if value >= -128 && value <= 127 {
             Ok(value)
         } else {
@@ -405,12 +406,8 @@ fn eval12<E: Env<i32>>(expr: &Expr, pos: usize, env: &E) -> EncResult<i32> {
 fn rel16<E: Env<i32>>(expr: &Expr, pos: usize, env: &E) -> EncResult<i32> {
     let address = expr.eval(env)?;
     if address >= 0 && address <= 65535 {
-        let value = address - (pos as i32) + 1;
-        if value >= -32768 && value <= 32767 {
-            Ok(value)
-        } else {
-            Err(EncodingError::signed_out_of_range(expr.span(), 16, value))
-        }
+        // The addition is performed modulo 65536, so every address can be reached
+        Ok(i32::from((address - (pos as i32) + 1) as i16))
     } else {
         Err(EncodingError::invalid_addr(expr.span(), address))
     }
-- 
2.43.0


From 24c9b79b0e4754c62f12ab7b773bc584d021ccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 05/41] fix: report files that include themselves instead of
 overflowing the stack

---
 src/asm.rs | 26 +++++++++++++++++++++++---
 src/lib.rs |  9 +++++++++
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 6f6d3aa..a876433 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -17,7 +17,7 @@ use crate::parser;
 use crate::parser::{ParseError, Parser};
 use std;
 use std::collections::HashMap;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use uuid::Uuid;
 
 pub fn assemble_file(files: &mut SourceFiles, filename: &str) -> Result<Vec<u8>, AssemblyError> {
@@ -48,18 +48,27 @@ fn read_statements(
             let input = Input::new(file.id(), file.contents());
             lexer::lex_input(&input)?
         };
-        replace_includes(&filename, &parser, &mut files, &tokens)?
+        let mut including = vec![canonical(&filename)];
+        replace_includes(&filename, &parser, &mut files, &tokens, &mut including)?
     };
     let stmts = parser.parse(&tokens)?;
     let stmts = replace_byte_includes(&filename, &mut files, &stmts)?;
     Ok(stmts)
 }
 
+fn canonical(path: &Path) -> PathBuf {
+    path.canonicalize().unwrap_or_else(|_| path.to_path_buf())
+}
+
+/// Replaces the include directives in `tokens` by what they
+/// include. `including` contains the files that are currently being
+/// included, from the root file down to `filename`.
 fn replace_includes(
     filename: &Path,
     parser: &Parser,
     files: &mut SourceFiles,
     tokens: &[Token],
+    including: &mut Vec<PathBuf>,
 ) -> Result<Vec<Token>, AssemblyError> {
     let mut results = vec![];
     for line in parser::lines(tokens) {
@@ -71,8 +80,16 @@ fn replace_includes(
                     .map(|path| path.to_string_lossy().to_string())
                     .unwrap_or(String::new());
                 match stmt.fixup_paths(files, Some(filename)) {
-                    Statement::Directive(Directive::Include(_span, typ, path)) => match typ {
+                    Statement::Directive(Directive::Include(span, typ, path)) => match typ {
                         IncludeType::Asm => {
+                            let canonical_path = canonical(&path);
+                            if including.contains(&canonical_path) {
+                                return Err(AssemblyError::IncludeCycle(
+                                    span,
+                                    path.display().to_string(),
+                                ));
+                            }
+                            including.push(canonical_path);
                             let file = files.load(Some(filename), &path)?;
                             let new_tokens = {
                                 let input = Input::new(file.id(), file.contents());
@@ -83,7 +100,9 @@ fn replace_includes(
                                 parser,
                                 files,
                                 &new_tokens,
+                                including,
                             )?;
+                            including.pop();
                             for token in new_tokens.iter() {
                                 results.push(token.clone());
                             }
@@ -442,6 +461,7 @@ pub enum AssemblyError {
     UnexpectedEof,
     FileLoadFailure(String, std::io::Error),
     FileUtf8Error(String, std::string::FromUtf8Error),
+    IncludeCycle(Span, String),
     MacroNameConflictsWithInstruction(Span, String),
     MacroAlreadyExists(Span, Span, String, usize),
     DuplicateMacroArg(Span),
diff --git a/src/lib.rs b/src/lib.rs
index b4a3e8c..cf22cfa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -843,6 +843,15 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
                 .writeln(err)
                 .newline();
         }
+        IncludeCycle(span, path) => {
+            stderr
+                .write("File includes itself: ")
+                .cyan()
+                .writeln(path)
+                .reset()
+                .newline();
+            highlight_line(&span, "", files, stderr);
+        }
         FileUtf8Error(file, err) => {
             stderr
                 .write("UTF-8 Error loading file ")
-- 
2.43.0


From 9529f04df430bc17b2a2f4afa9179b4ec807ffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 06/41] fix: report macros that call themselves instead of
 overflowing the stack

---
 src/asm.rs | 13 ++++++++++++-
 src/lib.rs |  9 +++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index a876433..1c07941 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -473,6 +473,7 @@ pub enum AssemblyError {
     ImmediateValueNotAllowedHere(Span),
     IndirectionModeNotAllowedHere(Span),
     NoSuchMacro(Span, String),
+    RecursiveMacro(Span, String),
     InvalidSpriteType(Span, String),
 }
 
@@ -724,7 +725,8 @@ fn expand_macros(statements: &Statements) -> Result<Statements, AssemblyError> {
     for stmt in statements.iter() {
         match stmt {
             Statement::MacroCall(span, name, args) => {
-                let mut stmts = expand(statements, span.clone(), name.to_owned(), args)?;
+                let mut stmts =
+                    expand(statements, span.clone(), name.to_owned(), args, &mut vec![])?;
                 new.append(&mut stmts);
             }
             _ => {
@@ -792,11 +794,14 @@ fn gen_labels(statements: &[MacroStatement]) -> Result<HashMap<String, String>,
     Ok(map)
 }
 
+/// Expands a macro call. `expanding` contains the macros that are
+/// currently being expanded, outermost first.
 fn expand(
     stmts: &Statements,
     span: Span,
     name: String,
     args: &[Arg],
+    expanding: &mut Vec<MacroIdentifier>,
 ) -> Result<Vec<Statement>, AssemblyError> {
     let ident = MacroIdentifier::new(name.clone(), args.len());
     let macrodef = match stmts.macro_def(&ident) {
@@ -813,6 +818,10 @@ fn expand(
             args.len(),
         ));
     }
+    if expanding.contains(&ident) {
+        return Err(AssemblyError::RecursiveMacro(span.clone(), name.clone()));
+    }
+    expanding.push(ident);
     let argmap = {
         let mut argmap = HashMap::new();
         let arg_defs = macrodef.args();
@@ -838,6 +847,7 @@ fn expand(
                             ispan.with_parent(span.clone()),
                             iname.to_owned(),
                             new_args.as_slice(),
+                            expanding,
                         )?;
                         statements.append(&mut new_stmts);
                     }
@@ -870,6 +880,7 @@ fn expand(
             }
         }
     }
+    expanding.pop();
     Ok(statements)
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index cf22cfa..bb49191 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -948,6 +948,15 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
                 .newline();
             highlight_line(span, "", files, stderr);
         }
+        RecursiveMacro(span, name) => {
+            stderr
+                .write("Macro calls itself: ")
+                .bold()
+                .writeln(name)
+                .reset()
+                .newline();
+            highlight_line(&span, "", files, stderr);
+        }
         NoSuchMacro(span, name) => {
             stderr
                 .write("No macro definition found for name ")
-- 
2.43.0


From fe5b83e3716d69a7171147e2adb027a66616a0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:41 +0000
Subject: [PATCH 07/41] fix: do not substitute macro arguments again inside an
 argument of the caller

---
 src/expression.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 0223b53..313f66d 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -193,9 +193,11 @@ impl Expr {
                         Imm(expr) => Err(EvaluationError::ImmediateValueNotAllowedHere(
                             span.with_parent(expr.span()),
                         )),
-                        Ex(expr) => Ok(expr
-                            .replace_macro_args(inv_span.clone(), labels, args)?
-                            .with_span(expr.span().with_parent(inv_span.clone()))),
+                        // The argument belongs to the caller, whose macro
+                        // arguments and labels have been replaced already
+                        Ex(expr) => {
+                            Ok(expr.with_span(expr.span().with_parent(inv_span.clone())))
+                        }
                         IM(im_span, _) => Err(EvaluationError::IndirectionModeNotAllowedHere(
                             span.with_parent(im_span.clone()),
                         )),
-- 
2.43.0


From 65924e750b949608de6068c4a9cb675fb042bc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:20 +0000
Subject: [PATCH 08/41] fix: report positions out of range instead of panicking
 on .org, .cnop and .text overflows

---
 src/asm.rs | 34 ++++++++++++++++++++++++++--------
 src/ast.rs |  7 ++++---
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 1c07941..af328f7 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -359,7 +359,7 @@ fn generate_bytes(
                         panic!("There should be no .include directives left at this point")
                     }
                     Cnop(_, _add, _multiple) => {
-                        pos += dir.size(pos as i32)? as usize;
+                        pos = next_pos(pos as i32, dir)? as usize;
                     }
                 }
             }
@@ -616,6 +616,24 @@ struct NamesBuilder {
     locals: HashMap<String, HashMap<String, NameValue>>,
 }
 
+/// The position after `dir`, if `dir` starts at `pos`.
+fn next_pos(pos: i32, dir: &Directive) -> Result<i32, AssemblyError> {
+    if let Directive::Org(span, location) = dir {
+        if *location > 0xFFFF {
+            return Err(AssemblyError::InvalidCodeLocation(
+                span.clone(),
+                *location as i32,
+            ));
+        }
+    }
+    advance(pos, dir.size(pos)?, &Directive::span(dir))
+}
+
+fn advance(pos: i32, size: i32, span: &Span) -> Result<i32, AssemblyError> {
+    pos.checked_add(size)
+        .ok_or_else(|| AssemblyError::InvalidCodeLocation(span.clone(), pos))
+}
+
 fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError> {
     let mut globals = HashMap::new();
     let mut locals = HashMap::new();
@@ -625,7 +643,7 @@ fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError
     for statement in statements.iter() {
         use crate::ast::Statement::*;
         match statement {
-            Directive(dir) => pos += dir.size(pos)?,
+            Directive(dir) => pos = next_pos(pos, dir)?,
             Label(_, name) => {
                 if name.starts_with(".") {
                     let val = NameValue {
@@ -644,8 +662,8 @@ fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError
                     current_global = name.to_lowercase();
                 }
             }
-            Instr(_, instr) => {
-                pos += instr.size() as i32;
+            Instr(span, instr) => {
+                pos = advance(pos, instr.size() as i32, span)?;
             }
             Variable(_, _name, _expr) | Alias(_, _name, _expr) => {}
             Comment(_) => {}
@@ -672,10 +690,10 @@ fn compute_names(statements: &Statements) -> Result<(usize, Names), AssemblyErro
     for statement in statements.iter() {
         use crate::ast::Statement::*;
         match statement {
-            Directive(dir) => pos += dir.size(pos)?,
+            Directive(dir) => pos = next_pos(pos, dir)?,
             Label(_, _name) => (),
-            Instr(_, instr) => {
-                pos += instr.size() as i32;
+            Instr(span, instr) => {
+                pos = advance(pos, instr.size() as i32, span)?;
             }
             Variable(_, name, expr) | Alias(_, name, expr) => {
                 let val = {
@@ -712,7 +730,7 @@ fn compute_names(statements: &Statements) -> Result<(usize, Names), AssemblyErro
         new_locals.insert(key.to_owned(), new_local);
     }
     Ok((
-        (max_pos + 1) as usize,
+        max_pos as usize + 1,
         Names {
             globals: new_globals,
             locals: new_locals,
diff --git a/src/ast.rs b/src/ast.rs
index 85deadd..18a7abb 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -247,19 +247,20 @@ impl Directive {
     }
 
     pub fn eval_cnop(pos: i32, add: &Expr, multiple: &Expr) -> Result<i32, EvaluationError> {
+        let overflow = || EvaluationError::ArithmeticOverflow(multiple.span());
         let add = Directive::eval_cnop_expr(add)?;
         let multiple = Directive::eval_cnop_expr(multiple)?;
         if multiple == 0 {
             Ok(add)
         } else {
-            let mut mult = 0;
+            let mut mult: i32 = 0;
             loop {
                 if pos <= mult {
                     break;
                 }
-                mult = mult + multiple;
+                mult = mult.checked_add(multiple).ok_or_else(overflow)?;
             }
-            Ok(mult + add)
+            mult.checked_add(add).ok_or_else(overflow)
         }
     }
 
-- 
2.43.0


From fece1464a4ffe372e9e46b6449e601b20297a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:01 +0000
Subject: [PATCH 09/41] fix: quote the last source line without its line end,
 and one-byte files without panicking

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bb49191..14c11e4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1208,8 +1208,8 @@ fn end_of_line(pos: usize, text: &str) -> usize {
     let bytes = text.as_bytes();
     let mut loc = pos;
     while loc < bytes.len()
-        && !((loc < bytes.len() - 1 && bytes[loc] == b'\n')
-            || (loc < bytes.len() - 2 && bytes[loc] == b'\r' && bytes[loc + 1] == b'\n'))
+        && bytes[loc] != b'\n'
+        && !(bytes[loc] == b'\r' && bytes.get(loc + 1) == Some(&b'\n'))
     {
         loc += 1;
     }
-- 
2.43.0


From 22bd36184ed79902e88831b6b6e6e75514e13926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:01 +0000
Subject: [PATCH 10/41] fix: combining characters after a token no longer hang
 the lexer

---
 src/input.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 02505c0..74adee0 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -86,13 +86,13 @@ impl<'b> Input<'b> {
     pub fn update(&self, num_bytes: usize) -> Input<'b> {
         let mut input = self.clone();
         let start = input.pos;
-        let mut graphemes = UnicodeSegmentation::graphemes(&input.text[input.pos..], true);
+        // Only look at the bytes skipped: what follows them may combine
+        // with the last of them to a single grapheme
+        let end = std::cmp::min(start + num_bytes, input.text.len());
+        let mut graphemes = UnicodeSegmentation::graphemes(&input.text[start..end], true);
         loop {
             match graphemes.next() {
                 Some(text) => {
-                    if (input.pos - start) + text.len() > num_bytes {
-                        break;
-                    }
                     input.pos += text.len();
                     if text == "\r\n" || text == "\n" {
                         input.line += 1;
-- 
2.43.0


From e735c18dd6ae968c26a3bff8f7daf66d8074f9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:16 +0000
Subject: [PATCH 11/41] fix: report unexpected characters where they are, not
 where the whitespace before them starts

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 7887237..893efc8 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -520,7 +520,7 @@ pub fn lex_for_ws<'a>(
         cinput = input;
     }
     if current.is_none() {
-        Err(LexerError::UnexpectedChar(cinput.location()))
+        Err(LexerError::UnexpectedChar(skip_ws(&cinput).location()))
     } else {
         results.push(Token::new(
             TokenType::EOF,
-- 
2.43.0


From 020192757175beb64cf61d2aa95b303d2484f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:42 +0000
Subject: [PATCH 12/41] fix: split lines at the end of an included file and
 after multi-line strings

---
 src/parser.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4c106f7..c46306a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -50,14 +50,17 @@ impl<'a> Iterator for LineIterator<'a> {
 
     fn next(&mut self) -> Option<&'a [Token]> {
         if self.pos < self.tokens.len() {
+            // Tokens are on the same line if one starts on the line
+            // the one before it ends on. The end of a file ends its
+            // last line, even if the same file is included again.
             let start = self.pos;
-            let start_line = self.tokens[start].span().end().line();
-            let start_file = self.tokens[start].span().end().file();
             let mut end = start + 1;
-            while end < self.tokens.len()
-                && start_line == self.tokens[end].span().start().line()
-                && start_file == self.tokens[end].span().start().file()
-            {
+            while end < self.tokens.len() && !self.tokens[end - 1].is_eof() {
+                let last = self.tokens[end - 1].span().end();
+                let next = self.tokens[end].span().start();
+                if last.line() != next.line() || last.file() != next.file() {
+                    break;
+                }
                 end += 1;
             }
             self.pos = end;
-- 
2.43.0


From 16e22c85a6fcb9e5b81cf9fb0cc9f37a94096ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:26 +0000
Subject: [PATCH 13/41] fix: resolve eyecatch paths relative to the file that
 contains the include

---
 src/asm.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index af328f7..1a3489e 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -75,10 +75,6 @@ fn replace_includes(
         let mut stream = parser::TokenStream::from(line);
         match parser.parse_directive(&mut stream) {
             Ok(Some(stmt)) => {
-                let original_path = stmt
-                    .path()
-                    .map(|path| path.to_string_lossy().to_string())
-                    .unwrap_or(String::new());
                 match stmt.fixup_paths(files, Some(filename)) {
                     Statement::Directive(Directive::Include(span, typ, path)) => match typ {
                         IncludeType::Asm => {
@@ -119,11 +115,21 @@ fn replace_includes(
                             results.append(&mut new_tokens);
                         }
                         IncludeType::Bytes | IncludeType::Icon(_, _) | IncludeType::Sprite(..) => {
-                            for token in line.iter() {
+                            // The first string is the path of the file to include
+                            let mut included = false;
+                            for (idx, token) in line.iter().enumerate() {
                                 if let TokenType::String(string) = token.token_type() {
-                                    if string == &original_path {
+                                    let new_path = if !included {
+                                        included = true;
+                                        Some(path.clone())
+                                    } else if is_eyecatch(&typ, line, idx) {
+                                        Some(files.path(Some(filename), string))
+                                    } else {
+                                        None
+                                    };
+                                    if let Some(new_path) = new_path {
                                         results.push(Token::new(
-                                            TokenType::String(path.display().to_string()),
+                                            TokenType::String(new_path.display().to_string()),
                                             token.span().clone(),
                                         ));
                                         continue;
@@ -150,6 +156,16 @@ fn replace_includes(
     Ok(results)
 }
 
+/// Whether the token at `idx` is the value of `eyecatch = ...`.
+fn is_eyecatch(typ: &IncludeType, line: &[Token], idx: usize) -> bool {
+    match typ {
+        IncludeType::Icon(..) => {
+            idx >= 2 && line[idx - 1].is_equ() && line[idx - 2].has_name("eyecatch")
+        }
+        _ => false,
+    }
+}
+
 fn replace_byte_includes(
     filename: &Path,
     files: &mut SourceFiles,
-- 
2.43.0


From a267caa8becf9a3b0e36ec843408d5acfba58d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:27 +0000
Subject: [PATCH 14/41] fix: report icon speeds that do not fit in 16 bits
 instead of truncating them

---
 src/asm.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 1a3489e..fcb7812 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -194,7 +194,17 @@ fn replace_byte_includes(
                 }
                 IncludeType::Icon(ref speed_opt, ref eyecatch_opt) => {
                     let speed = match speed_opt {
-                        Some(expr) => Some(expr.eval(&HashMap::new())? as u16),
+                        Some(expr) => {
+                            let value = expr.eval(&HashMap::new())?;
+                            if value < 0 || value > (std::u16::MAX as i32) {
+                                return Err(AssemblyError::NumOutOfRange {
+                                    span: expr.span(),
+                                    bits: 16,
+                                    value,
+                                });
+                            }
+                            Some(value as u16)
+                        }
                         None => None,
                     };
                     let eyecatch = match eyecatch_opt {
@@ -211,7 +221,7 @@ fn replace_byte_includes(
                     };
                     let path = files.path(Some(filename), path);
                     let eyecatch = eyecatch.map(|eyecatch| files.path(Some(filename), eyecatch));
-                    let stmts = img::to_icon(&path, speed.map(|v| v as u16), eyecatch)?;
+                    let stmts = img::to_icon(&path, speed, eyecatch)?;
                     for stmt in stmts.as_slice() {
                         results.push(stmt.clone());
                     }
-- 
2.43.0


From a42d03f1b0a6450bb9fad4c2ad31d957dc5cdb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 15/41] fix: resolve includes found in the working directory
 against it only once

---
 src/files.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/files.rs b/src/files.rs
index 7374d1b..4fe1b5f 100644
--- a/src/files.rs
+++ b/src/files.rs
@@ -147,7 +147,12 @@ impl SourceFiles {
                     filename.display()
                 );
                 eprintln!("         Please change the path to be relative to the source file, instead of relative to your working directory.");
-                filename.to_path_buf()
+                // Absolute, so that it isn't resolved against another
+                // source file later
+                match std::env::current_dir() {
+                    Ok(dir) => dir.join(filename),
+                    Err(_) => filename.to_path_buf(),
+                }
             }
         } else {
             self.working_dir.join(filename)
-- 
2.43.0


From 36cd160fefdf530e14075b38a0cb0218672f2783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 16/41] fix: a line break in a string may be escaped like any
 other character

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 893efc8..f686685 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -477,7 +477,7 @@ fn read_token<'a>(
                 Matcher::new("\\^", |_| TokenType::Caret),
                 Matcher::new(">", |_| TokenType::UpperByte),
                 Matcher::new("<", |_| TokenType::LowerByte),
-                Matcher::new(r#""(\\.|[^"\\])*""#, |text| {
+                Matcher::new(r#""(\\(?s:.)|[^"\\])*""#, |text| {
                     TokenType::String(clean_str(text))
                 }),
                 Matcher::new("@[rR][0123]", |text| to_indr_mode(text)),
-- 
2.43.0


From 2ab32f503c4b7c13458023f71a50442873c50fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:58 +0000
Subject: [PATCH 17/41] fix: expand prints strings that can be read back

---
 src/ast.rs | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 18a7abb..c2c450e 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -367,10 +367,10 @@ impl fmt::Display for Directive {
                 write!(f, "")
             }
             Directive::Text(_, size, bytes) => {
-                write!(f, "  .text {} {}", size, escape_string(&bytes))
+                write!(f, "  .text {} \"{}\"", size, escape_string(&bytes))
             }
             Directive::String(_, size, bytes) => {
-                write!(f, "  .string {} {}", size, escape_string(&bytes))
+                write!(f, "  .string {} \"{}\"", size, escape_string(&bytes))
             }
             Directive::Org(_, num) => {
                 if *num == 0 {
@@ -613,24 +613,12 @@ fn escape_string<'a>(bytes: &Vec<u8>) -> String {
         }
         let current = bytes[index];
         match current {
-            // \a
-            0x07 => {
-                escaped.push(0x5C);
-                escaped.push(0x61)
-            }
-
             // \b
             0x08 => {
                 escaped.push(0x5C);
                 escaped.push(0x62)
             }
 
-            // \f
-            0x0C => {
-                escaped.push(0x5C);
-                escaped.push(0x66)
-            }
-
             // \n
             0x0A => {
                 escaped.push(0x5C);
@@ -649,18 +637,18 @@ fn escape_string<'a>(bytes: &Vec<u8>) -> String {
                 escaped.push(0x74)
             }
 
-            // \v
-            0x0B => {
-                escaped.push(0x5C);
-                escaped.push(0x76)
-            }
-
             // \0
             0x00 => {
                 escaped.push(b'\\');
                 escaped.push(b'0');
             }
 
+            // Every other escaped character stands for itself
+            b'"' | b'\\' => {
+                escaped.push(b'\\');
+                escaped.push(current);
+            }
+
             _ => escaped.push(current),
         }
         index = index + 1;
-- 
2.43.0


From 0c22e8ba73c84ec603dab2079f62a79edd84a788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:58 +0000
Subject: [PATCH 18/41] fix: expand prints octal numbers as octal numbers

---
 src/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index 313f66d..12c75c7 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -412,7 +412,7 @@ impl fmt::Display for Expr {
                         write!(f, "${:04X}", num)
                     }
                 }
-                Radix::Octal => write!(f, "${:04o}", num),
+                Radix::Octal => write!(f, "0o{:o}", num),
                 Radix::Binary => write!(f, "%{:08b}", num),
             },
             Expr::UpperByte(_, expr) => {
-- 
2.43.0


From 04249bb2a0f375850b46fd947bec5d386430c924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:58 +0000
Subject: [PATCH 19/41] fix: expand prints nothing for an included file without
 any bytes

---
 src/asm.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index fcb7812..59c722e 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -187,10 +187,13 @@ fn replace_byte_includes(
                     for byte in bytes.iter() {
                         byte_vals.push(ByteValue::Expr(Expr::num(*byte as i32)));
                     }
-                    results.push(Statement::Directive(Directive::Byte(
-                        span.clone(),
-                        byte_vals,
-                    )));
+                    // .byte requires at least one byte
+                    if !byte_vals.is_empty() {
+                        results.push(Statement::Directive(Directive::Byte(
+                            span.clone(),
+                            byte_vals,
+                        )));
+                    }
                 }
                 IncludeType::Icon(ref speed_opt, ref eyecatch_opt) => {
                     let speed = match speed_opt {
-- 
2.43.0


From a5a924319dd9e5fa05b0cdedcb55042103c0fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:00 +0000
Subject: [PATCH 20/41] fix: report macro definitions without an %end

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index c46306a..5b25099 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -308,11 +308,13 @@ impl Parser {
                 macro_lines[idx] = true;
                 idx = idx + 1;
                 let mut statements = vec![];
+                let mut ended = false;
                 while idx < lines.len() {
                     let line = lines[idx];
                     let mut tokens = TokenStream::from(line);
                     if tokens.check(|tok| tok.has_macro_name("%end")) {
                         tokens.next()?;
+                        ended = true;
                         macro_lines[idx] = true;
                         if !tokens.is_empty() {
                             return Err(ParseError::UnexpectedToken(tokens.next()?));
@@ -327,6 +329,9 @@ impl Parser {
                     }
                     idx = idx + 1;
                 }
+                if !ended {
+                    return Err(ParseError::UnexpectedEof);
+                }
                 macros.insert(
                     ident,
                     MacroDefinition::new(nspan.clone(), name.clone(), args, statements),
-- 
2.43.0


From ca4753b98c2ab225ce761b491ba21c36c1e2c4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:49 +0000
Subject: [PATCH 21/41] fix: report macro calls and includes nested too deeply
 instead of overflowing the stack

---
 src/asm.rs | 11 +++++++++++
 src/lib.rs |  7 +++++++
 2 files changed, 18 insertions(+)

diff --git a/src/asm.rs b/src/asm.rs
index 59c722e..b0bf285 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -20,6 +20,10 @@ use std::collections::HashMap;
 use std::path::{Path, PathBuf};
 use uuid::Uuid;
 
+/// Macro calls and includes may be nested this deep.
+const MAX_MACRO_DEPTH: usize = 64;
+const MAX_INCLUDE_DEPTH: usize = 256;
+
 pub fn assemble_file(files: &mut SourceFiles, filename: &str) -> Result<Vec<u8>, AssemblyError> {
     let statements = read_statements(files, filename)?;
     let statements = expand_macros(&statements)?;
@@ -85,6 +89,9 @@ fn replace_includes(
                                     path.display().to_string(),
                                 ));
                             }
+                            if including.len() > MAX_INCLUDE_DEPTH {
+                                return Err(AssemblyError::NestedTooDeeply(span, "Includes"));
+                            }
                             including.push(canonical_path);
                             let file = files.load(Some(filename), &path)?;
                             let new_tokens = {
@@ -491,6 +498,7 @@ pub enum AssemblyError {
     FileLoadFailure(String, std::io::Error),
     FileUtf8Error(String, std::string::FromUtf8Error),
     IncludeCycle(Span, String),
+    NestedTooDeeply(Span, &'static str),
     MacroNameConflictsWithInstruction(Span, String),
     MacroAlreadyExists(Span, Span, String, usize),
     DuplicateMacroArg(Span),
@@ -868,6 +876,9 @@ fn expand(
     if expanding.contains(&ident) {
         return Err(AssemblyError::RecursiveMacro(span.clone(), name.clone()));
     }
+    if expanding.len() >= MAX_MACRO_DEPTH {
+        return Err(AssemblyError::NestedTooDeeply(span.clone(), "Macro calls"));
+    }
     expanding.push(ident);
     let argmap = {
         let mut argmap = HashMap::new();
diff --git a/src/lib.rs b/src/lib.rs
index 14c11e4..316008a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -852,6 +852,13 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
                 .newline();
             highlight_line(&span, "", files, stderr);
         }
+        NestedTooDeeply(span, what) => {
+            stderr
+                .write(what)
+                .writeln(" are nested too deeply")
+                .newline();
+            highlight_line(&span, "", files, stderr);
+        }
         FileUtf8Error(file, err) => {
             stderr
                 .write("UTF-8 Error loading file ")
-- 
2.43.0


From db8da3413b30edd234290e3c7baa268300e820c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:37 +0000
Subject: [PATCH 22/41] fix: report expressions that are too long instead of
 overflowing the stack

---
 src/parser.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 5b25099..fc9fdd4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -71,6 +71,10 @@ impl<'a> Iterator for LineIterator<'a> {
     }
 }
 
+/// Longer expressions are rejected, because parsing and evaluating them
+/// recursively could overflow the stack.
+const MAX_EXPR_TOKENS: usize = 400;
+
 type Macros = HashMap<MacroIdentifier, MacroDefinition>;
 
 pub fn lines(tokens: &[Token]) -> impl Iterator<Item = &[Token]> {
@@ -738,6 +742,16 @@ impl Parser {
     }
 
     pub fn parse_expr(&self, tokens: &mut TokenStream) -> Result<Expr, ParseError> {
+        let length = tokens
+            .remaining()
+            .iter()
+            .take(MAX_EXPR_TOKENS + 1)
+            .take_while(|tok| !tok.is_eof() && *tok.token_type() != TokenType::Comma)
+            .count();
+        if length > MAX_EXPR_TOKENS {
+            let loc = tokens.current()?.span().start().clone();
+            return Err(ParseError::InvalidExpression(loc));
+        }
         self.expr_parser.parse(tokens, 0)
     }
 
-- 
2.43.0


From bfffa4fa436b59954fd07fa4108590c9c2ede63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:53 +0000
Subject: [PATCH 23/41] fix: report errors writing output instead of panicking
 or ignoring them

---
 src/asm.rs    | 10 +++---
 src/disasm.rs |  1 +
 src/lib.rs    | 99 +++++++++++++++++++++++++++++++++++++++------------
 3 files changed, 84 insertions(+), 26 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index b0bf285..64a681e 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -30,11 +30,12 @@ pub fn assemble_file(files: &mut SourceFiles, filename: &str) -> Result<Vec<u8>,
     assemble(&statements)
 }
 
-pub fn expand_file(files: &mut SourceFiles, filename: &str) -> Result<(), AssemblyError> {
+pub fn expand_file(
+    files: &mut SourceFiles,
+    filename: &str,
+) -> Result<Statements, AssemblyError> {
     let statements = read_statements(files, filename)?;
-    let statements = expand_macros(&statements)?;
-    println!("{}", statements);
-    Ok(())
+    expand_macros(&statements)
 }
 
 fn read_statements(
@@ -496,6 +497,7 @@ pub enum AssemblyError {
     WrongInstructionArgs(Span, String, Vec<Vec<ArgType>>),
     UnexpectedEof,
     FileLoadFailure(String, std::io::Error),
+    FileWriteFailure(String, std::io::Error),
     FileUtf8Error(String, std::string::FromUtf8Error),
     IncludeCycle(Span, String),
     NestedTooDeeply(Span, &'static str),
diff --git a/src/disasm.rs b/src/disasm.rs
index 3891b71..fe6ffe2 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -10,6 +10,7 @@ use std::collections::HashSet;
 pub enum DisasmError {
     NoInstruction(usize, u8),
     NoSuchFile(String, std::io::Error),
+    FileWriteFailure(String, std::io::Error),
     UnknownFileType(String),
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index 316008a..0fea37e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -237,11 +237,20 @@ pub fn run_command(args: &[String]) {
 
         match matches.value_of("OUTPUT") {
             Some(output) => {
-                let mut outfile = File::create(output).unwrap();
-                outfile.write(serialized.as_bytes()).unwrap();
+                if let Err(err) = write_file(output, serialized.as_bytes()) {
+                    stderr
+                        .write("Error writing file ")
+                        .cyan()
+                        .write(output)
+                        .reset()
+                        .write(": ")
+                        .writeln(err)
+                        .newline();
+                    std::process::exit(1);
+                }
             }
             None => {
-                println!("{}", serialized);
+                stdout.writeln(serialized);
             }
         }
     } else if let Some(matches) = matches.subcommand_matches("vmi") {
@@ -279,7 +288,9 @@ pub fn run_command(args: &[String]) {
 
         let mut files = files::SourceFiles::new();
         match expand_cmd(&mut files, matches) {
-            Ok(_) => {}
+            Ok(statements) => {
+                stdout.writeln(statements);
+            }
             Err(ref err) => {
                 stderr
                     .write_error()
@@ -343,6 +354,16 @@ pub fn run_command(args: &[String]) {
         eprintln!("No subcommand specified");
         std::process::exit(1);
     }
+
+    if let Err(err) = stdout.finish() {
+        stderr.write("Error writing to stdout: ").writeln(err);
+        std::process::exit(1);
+    }
+}
+
+fn write_file(filename: &str, contents: &[u8]) -> std::io::Result<()> {
+    let mut outfile = File::create(filename)?;
+    outfile.write_all(contents)
 }
 
 fn generate_vmi(
@@ -467,10 +488,8 @@ fn generate_vmi(
         Weekday::Sat => 6,
     };
 
-    let mut outfile = File::create(output_file).unwrap();
-    outfile.write_all(&bytes).unwrap();
-
-    Ok(())
+    write_file(output_file, &bytes)
+        .map_err(|e| DisasmError::FileWriteFailure(output_file.to_string(), e))
 }
 
 fn disassemble_cmd(
@@ -506,29 +525,37 @@ fn disassemble_cmd(
     };
     let statements = disasm::disassemble(arrived_from, &entry_points, &bytes)?;
 
-    let mut outfile = File::create(output_file).unwrap();
-    for dstmt in statements.to_vec() {
+    write_disassembly(positions, &statements.to_vec(), output_file)
+        .map_err(|e| DisasmError::FileWriteFailure(output_file.to_string(), e))
+}
+
+fn write_disassembly(
+    positions: bool,
+    statements: &[disasm::DStatement],
+    output_file: &str,
+) -> std::io::Result<()> {
+    let mut outfile = File::create(output_file)?;
+    for dstmt in statements {
         if positions {
             if let Some(pos) = dstmt.pos() {
-                write!(outfile, "{:04X}| ", pos).unwrap();
+                write!(outfile, "{:04X}| ", pos)?;
             } else {
-                write!(outfile, "    | ").unwrap();
+                write!(outfile, "    | ")?;
             }
         }
-        write!(outfile, "{}", dstmt.statement()).unwrap();
+        write!(outfile, "{}", dstmt.statement())?;
         if let Some(comment) = dstmt.cmt() {
-            write!(outfile, " ; {}", comment).unwrap();
+            write!(outfile, " ; {}", comment)?;
         }
-        writeln!(outfile, "").unwrap();
+        writeln!(outfile, "")?;
     }
-
     Ok(())
 }
 
 fn expand_cmd(
     mut files: &mut SourceFiles,
     matches: &clap::ArgMatches,
-) -> Result<(), AssemblyError> {
+) -> Result<ast::Statements, AssemblyError> {
     let input_file = matches.value_of("INPUT").unwrap();
     asm::expand_file(&mut files, input_file)
 }
@@ -541,8 +568,8 @@ fn assemble_cmd(
     let input_file = matches.value_of("INPUT").unwrap();
     let bytes = asm::assemble_file(&mut files, input_file)?;
     let output_file = matches.value_of("OUTPUT").unwrap();
-    let mut outfile = File::create(output_file).unwrap();
-    outfile.write_all(&bytes).unwrap();
+    write_file(output_file, &bytes)
+        .map_err(|e| AssemblyError::FileWriteFailure(output_file.to_string(), e))?;
 
     stderr
         .write_ok()
@@ -843,6 +870,16 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
                 .writeln(err)
                 .newline();
         }
+        FileWriteFailure(file, err) => {
+            stderr
+                .write("Error writing file ")
+                .cyan()
+                .write(file)
+                .reset()
+                .write(": ")
+                .writeln(err)
+                .newline();
+        }
         IncludeCycle(span, path) => {
             stderr
                 .write("File includes itself: ")
@@ -1225,11 +1262,27 @@ fn end_of_line(pos: usize, text: &str) -> usize {
 
 struct ColorWriter {
     stream: StandardStream,
+    result: std::io::Result<()>,
 }
 
 impl ColorWriter {
     pub fn new(stream: StandardStream) -> ColorWriter {
-        ColorWriter { stream }
+        ColorWriter {
+            stream,
+            result: Ok(()),
+        }
+    }
+
+    /// Whether everything could be written.
+    pub fn finish(mut self) -> std::io::Result<()> {
+        self.result?;
+        self.stream.flush()
+    }
+
+    fn check(&mut self, result: std::io::Result<()>) {
+        if self.result.is_ok() {
+            self.result = result;
+        }
     }
 
     pub fn newline(&mut self) -> &mut ColorWriter {
@@ -1256,12 +1309,14 @@ impl ColorWriter {
     }
 
     pub fn write<T: Display>(&mut self, value: T) -> &mut ColorWriter {
-        write!(self.stream, "{}", value).ok();
+        let result = write!(self.stream, "{}", value);
+        self.check(result);
         self
     }
 
     pub fn writeln<T: Display>(&mut self, value: T) -> &mut ColorWriter {
-        writeln!(self.stream, "{}", value).ok();
+        let result = writeln!(self.stream, "{}", value);
+        self.check(result);
         self
     }
 
-- 
2.43.0


From 0baac01cde9b2fa1e078e03ab1d87365e214031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:19 +0000
Subject: [PATCH 24/41] fix: disassembly uses labels only for instructions it
 lists

---
 src/disasm.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/disasm.rs b/src/disasm.rs
index fe6ffe2..30dec01 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -205,6 +205,8 @@ fn build_names(graph: &InstructionGraph<i32, u8>) -> Names {
     compute_bit_aliases(&mut names);
     compute_aliases(&mut names);
     compute_labels(graph, &mut names);
+    // Only instructions that are listed can carry a label.
+    names.retain_labels(|pos| graph.contains_instr(pos));
     names
 }
 
@@ -1015,6 +1017,10 @@ impl Names {
         }
     }
 
+    pub fn retain_labels<F: Fn(usize) -> bool>(&mut self, keep: F) {
+        self.labels.retain(|pos, _| keep(*pos));
+    }
+
     pub fn alias(&self, pos: usize) -> Option<&str> {
         self.aliases.get(&pos).map(|string| string.as_str())
     }
-- 
2.43.0


From 67138b46c258c61b668eff560b96bbbc54e4c0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:19 +0000
Subject: [PATCH 25/41] fix: relative branch targets wrap around modulo 64K
 when disassembling

---
 src/disasm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index 30dec01..3ff6d23 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -739,11 +739,11 @@ fn lift_instr(
 }
 
 fn rel16(rel: i32, next: usize) -> usize {
-    (rel + (next as i32) - 1) as usize
+    ((rel + (next as i32) - 1) & 0xFFFF) as usize
 }
 
 fn rel8(rel: i32, next: usize) -> usize {
-    (rel + (next as i32)) as usize
+    ((rel + (next as i32)) & 0xFFFF) as usize
 }
 
 fn targets(pos: usize, instr: &Instr<i32, u8>, graph: &InstructionGraph<i32, u8>) -> Vec<usize> {
-- 
2.43.0


From f91a90b9d45ec29195784d86b2862f96c6e8bb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:23 +0000
Subject: [PATCH 26/41] fix: disassembly emits .org wherever the position
 changes and pads to the exact length

---
 src/disasm.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index 3ff6d23..1c92e27 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -33,24 +33,27 @@ pub fn disassemble(
     };
 
     let mask = build_byte_mask(bytes, &graph);
-    let mut written_mask = vec![false; bytes.len()];
 
     let mut stmts = DStatements::new();
     let mut pos = 0;
+    // Where the next statement would end up.
+    let mut cursor = 0;
     while pos < bytes.len() {
         if entry_points.contains(&pos) {
             stmts.push_comment("");
             stmts.push_comment("Entry point");
             stmts.push_org(pos);
+            cursor = pos;
         }
 
         if let Some(instr) = graph.instrs().get(&pos) {
             if pos > 0 && !mask[pos - 1] && !entry_points.contains(&pos) {
                 stmts.push_comment("");
-                if !written_mask[pos - 1] {
-                    stmts.push_org(pos);
-                }
             }
+            if cursor != pos {
+                stmts.push_org(pos);
+            }
+            cursor = pos + instr.size();
             if names.contains_label(pos) {
                 stmts.push_label(names.label(pos).unwrap());
             }
@@ -102,14 +105,14 @@ pub fn disassemble(
                     if pos > 0 && mask[pos - 1] {
                         stmts.push_comment("");
                     }
-                    if pos > 0 && !written_mask[pos - 1] && !mask[pos - 1] {
-                        stmts.push_comment("");
+                    if cursor != pos {
+                        if !mask[pos - 1] {
+                            stmts.push_comment("");
+                        }
                         stmts.push_org(pos);
                     }
                     stmts.push_bytes(pos, chunk);
-                    for (idx, _) in chunk.iter().enumerate() {
-                        written_mask[pos + idx] = true;
-                    }
+                    cursor = pos + chunk.len();
                 } else {
                 }
                 pos = pos + chunk.len();
@@ -120,7 +123,7 @@ pub fn disassemble(
     }
 
     stmts.push_comment("\nPad size of binary");
-    stmts.push_cnop(bytes.len() % 0x200, 0x200);
+    stmts.push_cnop(0, bytes.len());
 
     stmts.push_comment("\nPSW bits");
     for (name, value) in names.sorted_psw_bits() {
-- 
2.43.0


From a82b232e353c1bfc6484d68d499489a9d8083ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:23 +0000
Subject: [PATCH 27/41] fix: report VMS files that are too short for a
 description instead of panicking

---
 src/disasm.rs | 1 +
 src/lib.rs    | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index 1c92e27..c3f9877 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -12,6 +12,7 @@ pub enum DisasmError {
     NoSuchFile(String, std::io::Error),
     FileWriteFailure(String, std::io::Error),
     UnknownFileType(String),
+    FileTooShort(String),
 }
 
 pub fn disassemble(
diff --git a/src/lib.rs b/src/lib.rs
index 0fea37e..8b59a17 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -402,9 +402,10 @@ fn generate_vmi(
     let mut bytes = [0u8; 108];
 
     // Copy description field from VMS file
-    for idx in 0..32usize {
-        bytes[0x4 + idx] = vms_bytes[offset + 0x10 + idx];
-    }
+    let description = vms_bytes
+        .get(offset + 0x10..offset + 0x30)
+        .ok_or_else(|| DisasmError::FileTooShort(input_file.to_string()))?;
+    bytes[0x4..0x24].copy_from_slice(description);
 
     // Write copyright notice
     let copyright_bytes = copyright.as_bytes();
-- 
2.43.0


From 63a22a7ce901a927ac9fcb0b514bd6073ea0c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:23 +0000
Subject: [PATCH 28/41] fix: icon reports an invalid animation speed instead of
 panicking

---
 src/lib.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8b59a17..6058012 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -159,7 +159,22 @@ pub fn run_command(args: &[String]) {
     } else if let Some(matches) = matches.subcommand_matches("icon") {
         use img::IconError;
         let input_file = matches.value_of("INPUT").unwrap();
-        let animation_speed = matches.value_of("SPEED").map(|s| s.parse::<u16>().unwrap());
+        let animation_speed = matches.value_of("SPEED").map(|s| match s.parse::<u16>() {
+            Ok(speed) => speed,
+            Err(err) => {
+                stderr
+                    .write_error()
+                    .space()
+                    .write("Invalid animation speed ")
+                    .cyan()
+                    .write(s)
+                    .reset()
+                    .write(": ")
+                    .writeln(err)
+                    .newline();
+                std::process::exit(1);
+            }
+        });
         let eyecatch_file = matches.value_of("EYECATCH");
 
         match img::to_icon(input_file, animation_speed, eyecatch_file) {
-- 
2.43.0


From 202149b924bb4407281344a1eb5b2515ab01355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:23 +0000
Subject: [PATCH 29/41] fix: image reports files that are not images instead of
 panicking

---
 src/lib.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6058012..42a0c35 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -240,7 +240,31 @@ pub fn run_command(args: &[String]) {
         let input_file = matches.value_of("INPUT").unwrap();
         let format = img::ImageFormat::from(matches.value_of("format").unwrap_or(""))
             .unwrap_or(img::ImageFormat::Asm1Bit);
-        let image = img::load_image(input_file).unwrap();
+        let image = match img::load_image(input_file) {
+            Ok(image) => image,
+            Err(img::ImageLoadError::FileLoadFailure(filename, err)) => {
+                stderr
+                    .write("Error loading file ")
+                    .cyan()
+                    .write(filename)
+                    .reset()
+                    .write(": ")
+                    .writeln(err)
+                    .newline();
+                std::process::exit(1);
+            }
+            Err(img::ImageLoadError::ImageParseError(filename, err)) => {
+                stderr
+                    .write("Error parsing image ")
+                    .cyan()
+                    .write(filename)
+                    .reset()
+                    .write(": ")
+                    .writeln(err)
+                    .newline();
+                std::process::exit(1);
+            }
+        };
 
         use img::ImageFormat;
         let serialized = match format {
-- 
2.43.0


From 7eb4d66a33f94f6962a58ab39294824fb4863f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:07 +0000
Subject: [PATCH 30/41] fix: report images without any frame instead of
 panicking

---
 src/img.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/img.rs b/src/img.rs
index 13e5a48..9715601 100644
--- a/src/img.rs
+++ b/src/img.rs
@@ -2,6 +2,7 @@ use enum_iterator::Sequence;
 use image;
 use image::codecs::gif::GifDecoder;
 use image::codecs::png::PngDecoder;
+use image::error::{DecodingError, ImageFormatHint};
 use image::AnimationDecoder;
 use image::{DynamicImage, GenericImageView, Rgba};
 use serde::{Deserialize, Serialize};
@@ -448,15 +449,25 @@ impl Image {
 
 pub fn load_image(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
     let path = path.as_ref();
-    match path.extension().and_then(OsStr::to_str) {
-        Some("png") => load_png(path),
-        Some("gif") => load_gif(path),
+    let image = match path.extension().and_then(OsStr::to_str) {
+        Some("png") => load_png(path)?,
+        Some("gif") => load_gif(path)?,
         _ => {
             let image = image::open(path)
                 .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
-            Ok(to_image(&image))
+            to_image(&image)
         }
+    };
+    if image.frames.is_empty() {
+        return Err(ImageLoadError::ImageParseError(
+            path.display().to_string(),
+            image::ImageError::Decoding(DecodingError::new(
+                ImageFormatHint::Unknown,
+                "the image has no frames",
+            )),
+        ));
     }
+    Ok(image)
 }
 
 fn load_gif(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
-- 
2.43.0


From 9964ca8774962acbc38d634a3780bfbd37651e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 31/41] fix: line breaks in generated comments stay inside the
 comment

---
 src/ast.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index c2c450e..b528b17 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -510,11 +510,14 @@ impl fmt::Display for Statement {
             Statement::Comment(ref comment) => {
                 if comment.trim().is_empty() {
                     write!(f, "{}", comment)
-                } else if comment.starts_with("\n") {
-                    writeln!(f, "")?;
-                    write!(f, "  ;; {}", &comment[1..comment.len()])
                 } else {
-                    write!(f, "  ;; {}", comment)
+                    let mut comment = comment.as_str();
+                    if comment.starts_with("\n") {
+                        writeln!(f, "")?;
+                        comment = &comment[1..comment.len()];
+                    }
+                    // Names of files may contain line breaks, too.
+                    write!(f, "  ;; {}", comment.replace("\n", "\n  ;; "))
                 }
             }
             Statement::MacroCall(_, name, args) => {
-- 
2.43.0


From b22c80cc94133581c6eb15972fa64faff789b4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:05 +0000
Subject: [PATCH 32/41] fix: a position is disassembled once, however many
 paths lead to it

---
 src/disasm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disasm.rs b/src/disasm.rs
index c3f9877..e6b7330 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -943,6 +943,10 @@ fn build_instruction_graph(
                 eprintln!("Invalid instruction position found: {}", pos);
                 continue;
             }
+            // The same position can have been queued more than once.
+            if graph.contains_instr(*pos) {
+                continue;
+            }
             let decoded = Instr::<i32, u8>::decode(&bytes[*pos..bytes.len()]);
             match decoded {
                 Some(instr) => {
-- 
2.43.0


From 0352f3a778d405c8519fcda968d1952205334b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:54 +0000
Subject: [PATCH 33/41] fix: report images that would take an unreasonable
 amount of memory instead of aborting

---
 src/img.rs | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/img.rs b/src/img.rs
index 9715601..f52932e 100644
--- a/src/img.rs
+++ b/src/img.rs
@@ -3,8 +3,9 @@ use image;
 use image::codecs::gif::GifDecoder;
 use image::codecs::png::PngDecoder;
 use image::error::{DecodingError, ImageFormatHint};
+use image::io::Limits;
 use image::AnimationDecoder;
-use image::{DynamicImage, GenericImageView, Rgba};
+use image::{DynamicImage, GenericImageView, ImageDecoder, ImageResult, Rgba};
 use serde::{Deserialize, Serialize};
 use std::collections::HashMap;
 use std::ffi::OsStr;
@@ -474,20 +475,34 @@ fn load_gif(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
     let path = path.as_ref();
     let file_in = File::open(path)
         .map_err(|e| ImageLoadError::FileLoadFailure(path.display().to_string(), e))?;
-    let decoder = GifDecoder::new(file_in)
-        .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
-    let frames = decoder
-        .into_frames()
-        .collect_frames()
+    let frames = GifDecoder::new(file_in)
+        .and_then(|decoder| {
+            let limits = reserve(Limits::default(), decoder.dimensions())?;
+            collect_frames(decoder.into_frames(), limits)
+        })
         .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
+    Ok(Image { frames })
+}
+
+/// What remains of the limits after decoding an image of this
+/// size. Fails for images that need an unreasonable amount of memory.
+fn reserve(mut limits: Limits, (width, height): (u32, u32)) -> ImageResult<Limits> {
+    let pixels = u64::from(width).saturating_mul(u64::from(height));
+    limits.reserve(pixels.saturating_mul(4))?;
+    Ok(limits)
+}
+
+fn collect_frames(frames: image::Frames, mut limits: Limits) -> ImageResult<Vec<Frame>> {
     let mut out_frames = vec![];
     for frame in frames {
+        let frame = frame?;
+        limits = reserve(limits, frame.buffer().dimensions())?;
         out_frames.push(to_frame(
             frame.delay().numer_denom_ms(),
             &frame.into_buffer(),
         ));
     }
-    Ok(Image { frames: out_frames })
+    Ok(out_frames)
 }
 
 fn load_png(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
@@ -496,20 +511,12 @@ fn load_png(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
         .map_err(|e| ImageLoadError::FileLoadFailure(path.display().to_string(), e))?;
     let decoder = PngDecoder::new(file_in)
         .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
+    let limits = reserve(Limits::default(), decoder.dimensions())
+        .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
     if decoder.is_apng() {
-        let frames = decoder
-            .apng()
-            .into_frames()
-            .collect_frames()
+        let frames = collect_frames(decoder.apng().into_frames(), limits)
             .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
-        let mut out_frames = vec![];
-        for frame in frames {
-            out_frames.push(to_frame(
-                frame.delay().numer_denom_ms(),
-                &frame.into_buffer(),
-            ));
-        }
-        Ok(Image { frames: out_frames })
+        Ok(Image { frames })
     } else {
         let image = DynamicImage::from_decoder(decoder)
             .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
-- 
2.43.0


From 9dafdfa194d4448248bfca3486fb332a9fee3f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:30 +0000
Subject: [PATCH 34/41] fix: report arguments that are not valid UTF-8 instead
 of panicking

---
 src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ca1e0af..ed02ba5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,6 +3,12 @@ extern crate waterbear;
 use std::env;
 
 fn main() {
-    let args: Vec<String> = env::args().collect();
-    waterbear::run_command(&args);
+    let args: Result<Vec<String>, _> = env::args_os().map(|arg| arg.into_string()).collect();
+    match args {
+        Ok(args) => waterbear::run_command(&args),
+        Err(arg) => {
+            eprintln!("Argument is not valid UTF-8: {}", arg.to_string_lossy());
+            std::process::exit(1);
+        }
+    }
 }
-- 
2.43.0


From ae392e1e80cbe2b329e815f090ea053be5c52a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:07 +0000
Subject: [PATCH 35/41] fix: errors in macro expansions always list the calls
 that lead to them

---
 src/asm.rs        | 31 +++++++++++++++++++++++--------
 src/expression.rs | 16 ++++++++++------
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 64a681e..fe6ce69 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -807,7 +807,11 @@ fn replace_args(
                 Some(arg) => {
                     new_args.push(arg.clone());
                 }
-                None => return Err(AssemblyError::InvalidMacroArg(aspan.clone())),
+                None => {
+                    return Err(AssemblyError::InvalidMacroArg(
+                        aspan.with_parent(inv_span.clone()),
+                    ))
+                }
             },
             Arg::Imm(expr) => {
                 new_args.push(Arg::Imm(expr.replace_macro_args(
@@ -829,7 +833,10 @@ fn replace_args(
     Ok(new_args)
 }
 
-fn gen_labels(statements: &[MacroStatement]) -> Result<HashMap<String, String>, AssemblyError> {
+fn gen_labels(
+    inv_span: &Span,
+    statements: &[MacroStatement],
+) -> Result<HashMap<String, String>, AssemblyError> {
     let mut map = HashMap::new();
     for stmt in statements.iter() {
         match stmt {
@@ -842,7 +849,9 @@ fn gen_labels(statements: &[MacroStatement]) -> Result<HashMap<String, String>,
                     );
                     map.insert(name.to_owned(), label_name);
                 } else {
-                    return Err(AssemblyError::DuplicateLabel(span.clone()));
+                    return Err(AssemblyError::DuplicateLabel(
+                        span.with_parent(inv_span.clone()),
+                    ));
                 }
             }
             _ => {}
@@ -892,7 +901,7 @@ fn expand(
         }
         argmap
     };
-    let labels = gen_labels(macrodef.body())?;
+    let labels = gen_labels(&span, macrodef.body())?;
     let mut statements = vec![];
     for stmt in macrodef.body().iter() {
         use crate::ast::MacroStatement::*;
@@ -931,12 +940,18 @@ fn expand(
                     }
                 }
             }
-            Label(span, string) => {
-                statements.push(Statement::Label(span.clone(), string.clone()));
+            Label(lspan, string) => {
+                statements.push(Statement::Label(
+                    lspan.with_parent(span.clone()),
+                    string.clone(),
+                ));
             }
-            MacroLabel(span, name) => {
+            MacroLabel(lspan, name) => {
                 let label_name = labels[name].clone();
-                statements.push(Statement::Label(span.clone(), label_name));
+                statements.push(Statement::Label(
+                    lspan.with_parent(span.clone()),
+                    label_name,
+                ));
             }
         }
     }
diff --git a/src/expression.rs b/src/expression.rs
index 12c75c7..fe428d9 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -184,28 +184,32 @@ impl Expr {
                     span.with_parent(inv_span.clone()).clone(),
                     label.clone(),
                 )),
-                None => Err(EvaluationError::MacroLabelOutsideOfMacro(span.clone())),
+                None => Err(EvaluationError::MacroLabelOutsideOfMacro(
+                    span.with_parent(inv_span.clone()),
+                )),
             },
             MacroArg(span, name) => {
                 use crate::expression::Arg::*;
                 match args.get(name) {
                     Some(arg) => match arg {
-                        Imm(expr) => Err(EvaluationError::ImmediateValueNotAllowedHere(
-                            span.with_parent(expr.span()),
+                        Imm(_) => Err(EvaluationError::ImmediateValueNotAllowedHere(
+                            span.with_parent(inv_span.clone()),
                         )),
                         // The argument belongs to the caller, whose macro
                         // arguments and labels have been replaced already
                         Ex(expr) => {
                             Ok(expr.with_span(expr.span().with_parent(inv_span.clone())))
                         }
-                        IM(im_span, _) => Err(EvaluationError::IndirectionModeNotAllowedHere(
-                            span.with_parent(im_span.clone()),
+                        IM(_, _) => Err(EvaluationError::IndirectionModeNotAllowedHere(
+                            span.with_parent(inv_span.clone()),
                         )),
                         MacroArg(mspan, _) => Err(EvaluationError::MacroArgOutsideOfMacro(
                             mspan.with_parent(inv_span.clone()),
                         )),
                     },
-                    None => Err(EvaluationError::InvalidMacroArg(span.clone())),
+                    None => Err(EvaluationError::InvalidMacroArg(
+                        span.with_parent(inv_span.clone()),
+                    )),
                 }
             }
         }
-- 
2.43.0


From ad44e667f49548a0a42acaabe7cc58df9520aa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:55 +0000
Subject: [PATCH 36/41] fix: name every instruction an instruction overlaps
 with

---
 src/disasm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index e6b7330..2a76327 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -1082,7 +1082,7 @@ impl<Ex, IM> InstructionGraph<Ex, IM> {
     pub fn find_overlaps(&self, pos: usize) -> Vec<usize> {
         let mut overlaps = vec![];
         if let Some(instr) = self.instrs.get(&pos) {
-            for idx in 1..2 {
+            for idx in 1..3 {
                 if pos >= idx {
                     let loc = pos - idx;
                     if let Some(instr2) = self.instrs.get(&loc) {
-- 
2.43.0


From eb475e058523151f8ff04953efd607900852f998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:57 +0000
Subject: [PATCH 37/41] fix: lines that end too early and unterminated macros
 are reported with their place

---
 src/asm.rs    |  6 ++++--
 src/lib.rs    |  7 ++++++-
 src/parser.rs | 14 ++++++++++----
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index fe6ce69..ba6d266 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -495,7 +495,8 @@ pub enum AssemblyError {
     UnknownDirective(Token),
     UnknownInstruction(Span),
     WrongInstructionArgs(Span, String, Vec<Vec<ArgType>>),
-    UnexpectedEof,
+    UnexpectedEol(Location),
+    UnexpectedEof(Span),
     FileLoadFailure(String, std::io::Error),
     FileWriteFailure(String, std::io::Error),
     FileUtf8Error(String, std::string::FromUtf8Error),
@@ -570,7 +571,8 @@ impl From<ParseError> for AssemblyError {
             DuplicateMacroArg(span) => AssemblyError::DuplicateMacroArg(span),
             InvalidMacroArg(span) => AssemblyError::InvalidMacroArg(span),
             InvalidSpriteType(span, typ) => AssemblyError::InvalidSpriteType(span, typ),
-            UnexpectedEof => AssemblyError::UnexpectedEof,
+            UnexpectedEol(loc) => AssemblyError::UnexpectedEol(loc),
+            UnexpectedEof(span) => AssemblyError::UnexpectedEof(span),
             InvalidSpriteHeader(span, string) => AssemblyError::InvalidSpriteHeader(span, string),
         }
     }
diff --git a/src/lib.rs b/src/lib.rs
index 42a0c35..aa91035 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -897,8 +897,13 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
             }
             stderr.newline();
         }
-        UnexpectedEof => {
+        UnexpectedEol(loc) => {
+            stderr.writeln("Unexpected end of line").newline();
+            highlight_line(&loc.to_span(), "", files, stderr);
+        }
+        UnexpectedEof(span) => {
             stderr.writeln("Unexpected EOF").newline();
+            highlight_line(span, "", files, stderr);
         }
         FileLoadFailure(file, err) => {
             stderr
diff --git a/src/parser.rs b/src/parser.rs
index fc9fdd4..6f601c3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -28,7 +28,8 @@ pub enum ParseError {
     InvalidMacroArg(Span),
     InvalidSpriteType(Span, String),
     InvalidSpriteHeader(Span, String),
-    UnexpectedEof,
+    UnexpectedEol(Location),
+    UnexpectedEof(Span),
 }
 
 impl From<LexerError> for ParseError {
@@ -334,7 +335,7 @@ impl Parser {
                     idx = idx + 1;
                 }
                 if !ended {
-                    return Err(ParseError::UnexpectedEof);
+                    return Err(ParseError::UnexpectedEof(nspan));
                 }
                 macros.insert(
                     ident,
@@ -885,10 +886,15 @@ impl<'a> TokenStream<'a> {
         self.advance_by(1);
     }
 
+    fn unexpected_eol(&self) -> ParseError {
+        let end = self.tokens.last().map(|tok| tok.span().end().clone());
+        ParseError::UnexpectedEol(end.unwrap_or_else(Location::default))
+    }
+
     pub fn current(&self) -> Result<Token, ParseError> {
         match self.peek() {
             Some(tok) => Ok(tok.clone()),
-            None => Err(ParseError::UnexpectedEof),
+            None => Err(self.unexpected_eol()),
         }
     }
 
@@ -931,7 +937,7 @@ impl<'a> TokenStream<'a> {
                 token_type.name(),
                 tok.clone(),
             )),
-            None => Err(ParseError::UnexpectedEof),
+            None => Err(self.unexpected_eol()),
         }
     }
 }
-- 
2.43.0


From ef0b7fbe44c996c87068243a9bf8efdd0f0266ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:28 +0000
Subject: [PATCH 38/41] fix: find included binary files when the name of the
 working directory isn't UTF-8

The path of an included binary file, icon or sprite is kept as text
between the passes. The working directory, which needn't be valid
UTF-8, was part of it, so the file wasn't found.
---
 src/asm.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index ba6d266..916e192 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -57,7 +57,7 @@ fn read_statements(
         replace_includes(&filename, &parser, &mut files, &tokens, &mut including)?
     };
     let stmts = parser.parse(&tokens)?;
-    let stmts = replace_byte_includes(&filename, &mut files, &stmts)?;
+    let stmts = replace_byte_includes(&mut files, &stmts)?;
     Ok(stmts)
 }
 
@@ -137,7 +137,7 @@ fn replace_includes(
                                     };
                                     if let Some(new_path) = new_path {
                                         results.push(Token::new(
-                                            TokenType::String(new_path.display().to_string()),
+                                            TokenType::String(path_text(files, &new_path)),
                                             token.span().clone(),
                                         ));
                                         continue;
@@ -164,6 +164,19 @@ fn replace_includes(
     Ok(results)
 }
 
+/// The text of a path. Outside of the working directory, whose name
+/// might not be valid UTF-8, all of a path comes from text.
+fn path_text(files: &SourceFiles, path: &Path) -> String {
+    match path.to_str() {
+        Some(text) => text.to_owned(),
+        None => path
+            .strip_prefix(files.working_directory())
+            .unwrap_or(path)
+            .display()
+            .to_string(),
+    }
+}
+
 /// Whether the token at `idx` is the value of `eyecatch = ...`.
 fn is_eyecatch(typ: &IncludeType, line: &[Token], idx: usize) -> bool {
     match typ {
@@ -175,7 +188,6 @@ fn is_eyecatch(typ: &IncludeType, line: &[Token], idx: usize) -> bool {
 }
 
 fn replace_byte_includes(
-    filename: &Path,
     files: &mut SourceFiles,
     statements: &Statements,
 ) -> Result<Statements, AssemblyError> {
@@ -190,7 +202,7 @@ fn replace_byte_includes(
                     panic!("There should be no C Header .includes at this stage.");
                 }
                 IncludeType::Bytes => {
-                    let bytes = files::load_bytes(&files.path(Some(filename), &path))?;
+                    let bytes = files::load_bytes(&files.path(None::<&Path>, path))?;
                     let mut byte_vals = vec![];
                     for byte in bytes.iter() {
                         byte_vals.push(ByteValue::Expr(Expr::num(*byte as i32)));
@@ -230,15 +242,15 @@ fn replace_byte_includes(
                             ));
                         }
                     };
-                    let path = files.path(Some(filename), path);
-                    let eyecatch = eyecatch.map(|eyecatch| files.path(Some(filename), eyecatch));
+                    let path = files.path(None::<&Path>, path);
+                    let eyecatch = eyecatch.map(|eyecatch| files.path(None::<&Path>, eyecatch));
                     let stmts = img::to_icon(&path, speed, eyecatch)?;
                     for stmt in stmts.as_slice() {
                         results.push(stmt.clone());
                     }
                 }
                 IncludeType::Sprite(ref typ, ref include_header) => {
-                    let path = files.path(Some(filename), path);
+                    let path = files.path(None::<&Path>, path);
                     let image = img::load_image(&path)?;
                     if include_header.is_yes() {
                         let max_byte = usize::from(u8::MAX);
-- 
2.43.0


From ccff8c925e9e96f8481fa763e1a9770d72b4a2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:25 +0000
Subject: [PATCH 39/41] fix: don't look for sources where a stale PWD points

PWD was trusted to name the working directory, so when a program
started waterbear in a directory of its choice without changing PWD,
sources were looked for in another directory than the one outputs were
written to. A PWD that was relative and didn't exist caused a panic.
---
 src/files.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/files.rs b/src/files.rs
index 4fe1b5f..1d6e4c0 100644
--- a/src/files.rs
+++ b/src/files.rs
@@ -75,18 +75,26 @@ pub fn load_file(path: impl AsRef<Path>) -> Result<String, FileLoadError> {
     Ok(text)
 }
 
+/// The working directory, by the name it has in `PWD` unless that's
+/// the name of another directory.
+fn current_working_dir() -> PathBuf {
+    let pwd = std::env::var_os("PWD")
+        .map(PathBuf::from)
+        .filter(|pwd| pwd.is_absolute());
+    match (std::env::current_dir(), pwd) {
+        (Ok(dir), Some(pwd)) => match (dir.canonicalize(), pwd.canonicalize()) {
+            (Ok(real_dir), Ok(real_pwd)) if real_dir == real_pwd => pwd,
+            _ => dir,
+        },
+        (Ok(dir), None) => dir,
+        (Err(_), pwd) => pwd.unwrap_or_else(|| PathBuf::from(".")),
+    }
+}
+
 impl SourceFiles {
     pub fn new() -> SourceFiles {
-        let working_dir = match std::env::var_os("PWD") {
-            Some(pwd) => PathBuf::from(pwd),
-            None => std::env::current_dir().unwrap(),
-        };
         SourceFiles {
-            working_dir: if working_dir.is_absolute() {
-                working_dir
-            } else {
-                working_dir.canonicalize().unwrap()
-            },
+            working_dir: current_working_dir(),
             files: vec![],
         }
     }
-- 
2.43.0


From e63eb16fc6ab7fe118a672c73298a8a18b99d956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:13 +0000
Subject: [PATCH 40/41] fix: recognise image files by their extension in
 capital letters

An animated icon.PNG or icon.GIF was loaded as a still image: only its
first frame was used.
---
 src/img.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/img.rs b/src/img.rs
index f52932e..b674fb6 100644
--- a/src/img.rs
+++ b/src/img.rs
@@ -450,7 +450,11 @@ impl Image {
 
 pub fn load_image(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
     let path = path.as_ref();
-    let image = match path.extension().and_then(OsStr::to_str) {
+    let extension = path
+        .extension()
+        .and_then(OsStr::to_str)
+        .map(str::to_ascii_lowercase);
+    let image = match extension.as_deref() {
         Some("png") => load_png(path)?,
         Some("gif") => load_gif(path)?,
         _ => {
-- 
2.43.0


From dded0fa20638acb5a711b5a81d98e5a16849dcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:46 +0000
Subject: [PATCH 41/41] fix: reject arguments that are not UTF-8 in the C
 interface

They made waterbear_invoke_command_line panic, which aborts the calling
program.
---
 libwaterbear/src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libwaterbear/src/lib.rs b/libwaterbear/src/lib.rs
index 8bf8f8e..db7a469 100644
--- a/libwaterbear/src/lib.rs
+++ b/libwaterbear/src/lib.rs
@@ -7,10 +7,19 @@ use std::slice;
 
 #[no_mangle]
 pub extern "C" fn waterbear_invoke_command_line(len: usize, ptr: *const *const c_char) {
-    let args: Vec<String> = unsafe { slice::from_raw_parts(ptr, len) }.into_iter()
+    let args: Result<Vec<String>, String> = unsafe { slice::from_raw_parts(ptr, len) }.into_iter()
         .into_iter()
-        .map(|c_char: &*const c_char| unsafe { CStr::from_ptr(*c_char) }.to_str().unwrap().to_owned() )
+        .map(|c_char: &*const c_char| {
+            let arg = unsafe { CStr::from_ptr(*c_char) };
+            arg.to_str().map(|s| s.to_owned()).map_err(|_| arg.to_string_lossy().into_owned())
+        })
         .collect();
-    waterbear::run_command(&args)
+    match args {
+        Ok(args) => waterbear::run_command(&args),
+        Err(arg) => {
+            eprintln!("Argument is not valid UTF-8: {}", arg);
+            std::process::exit(1);
+        }
+    }
 }
 
-- 
2.43.0

