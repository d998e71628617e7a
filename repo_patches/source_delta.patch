From 399d8998d44cd4e92d8836730b60e71828495894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:07 +0000
Subject: [PATCH 01/52] Add verification hooks, compiled only with --cfg
 dune_verif

---
 src/bin.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/bin.rs b/src/bin.rs
index c85931b..6018c08 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -681,3 +681,32 @@ fn main() -> Result<(), Error> {
 
     Ok(())
 }
+
+/// Entry points for the verification harness. Compiled only with `--cfg dune_verif`.
+#[cfg(dune_verif)]
+pub mod verif_hooks {
+    use super::*;
+
+    /// Define every builtin in the given environment.
+    pub fn init(env: &mut Environment) {
+        binary::init(env)
+    }
+
+    /// Highlight a line like the line editor does.
+    pub fn highlight(line: &str) -> String {
+        syntax_highlight(line)
+    }
+
+    /// Remove the escape sequences from a prompt like the line editor does.
+    pub fn strip(text: &str) -> String {
+        strip_ansi_escapes(text)
+    }
+
+    /// The hint the line editor shows after the given line, with an empty history.
+    pub fn hint(line: &str) -> Option<String> {
+        let editor = new_editor(&Environment::new());
+        let history = rustyline::history::History::new();
+        let ctx = Context::new(&history);
+        editor.helper().and_then(|h| h.hint(line, line.len(), &ctx))
+    }
+}
-- 
2.43.0


From c0c9ed263cebd13b6c1cbeeb1e19c562dbafc987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 02/52] fix: report an escaped multi-byte character as an
 invalid escape instead of panicking

---
 src/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index c094193..26a4fe8 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -304,7 +304,9 @@ fn parse_escape(input: Input<'_>) -> TokenizationResult<'_, Diagnostic> {
             }
         }
         Err(_) => {
-            let (rest, range) = input.split_saturating(2);
+            // The backslash and the character after it, which may take several bytes.
+            let len = input.chars().take(2).map(char::len_utf8).sum();
+            let (rest, range) = input.split_saturating(len);
             let ranges = vec![range].into_boxed_slice();
             return Ok((rest, Diagnostic::InvalidStringEscapes(ranges)));
         }
-- 
2.43.0


From 41b6a0b870b57ae9d85e3c8ff3ee4738394a3825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 03/52] fix: parse nested brackets in polynomial instead of
 exponential time

---
 src/parser.rs | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 32f8567..5f3c208 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -8,7 +8,10 @@ use nom::{
     IResult,
 };
 
-use std::collections::BTreeMap;
+use std::{
+    cell::RefCell,
+    collections::{BTreeMap, HashMap},
+};
 
 use crate::{
     tokens::{Input, Tokens},
@@ -123,7 +126,24 @@ fn empty(input: Tokens<'_>) -> IResult<Tokens<'_>, (), SyntaxError> {
     }
 }
 
+/// The outcome of parsing a bracketed expression, and how many tokens it took.
+type Memo = HashMap<usize, Result<(usize, Expression), nom::Err<SyntaxError>>>;
+
+thread_local! {
+    /// The bracketed expressions parsed so far, by the address of their first token.
+    /// Without it, each level of nesting is parsed once for every alternative
+    /// that starts with an expression, which takes exponential time.
+    static MEMO: RefCell<Memo> = RefCell::new(HashMap::new());
+}
+
 pub fn parse_script(input: &str) -> Result<Expression, nom::Err<SyntaxError>> {
+    MEMO.with(|memo| memo.borrow_mut().clear());
+    let result = parse_script_text(input);
+    MEMO.with(|memo| memo.borrow_mut().clear());
+    result
+}
+
+fn parse_script_text(input: &str) -> Result<Expression, nom::Err<SyntaxError>> {
     let str = input.into();
     let tokenization_input = Input::new(&str);
     let (mut token_vec, mut diagnostics) = super::parse_tokens(tokenization_input);
@@ -817,6 +837,24 @@ fn parse_expression_prec_two(input: Tokens<'_>) -> IResult<Tokens<'_>, Expressio
 }
 
 fn parse_expression_prec_one(input: Tokens<'_>) -> IResult<Tokens<'_>, Expression, SyntaxError> {
+    match input.first() {
+        Some(token) if matches!(token.text(input), "(" | "[" | "{" | "'") => {}
+        _ => return parse_expression_prec_one_uncached(input),
+    }
+
+    let key = input.slice.as_ptr() as usize;
+    if let Some(result) = MEMO.with(|memo| memo.borrow().get(&key).cloned()) {
+        return result.map(|(count, expr)| (input.skip_n(count), expr));
+    }
+    let result = parse_expression_prec_one_uncached(input)
+        .map(|(rest, expr)| (input.len() - rest.len(), expr));
+    MEMO.with(|memo| memo.borrow_mut().insert(key, result.clone()));
+    result.map(|(count, expr)| (input.skip_n(count), expr))
+}
+
+fn parse_expression_prec_one_uncached(
+    input: Tokens<'_>,
+) -> IResult<Tokens<'_>, Expression, SyntaxError> {
     alt((
         parse_group,
         parse_quote,
-- 
2.43.0


From 7f6905b0271d79a4aaf031ac0cab6bacd534c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 04/52] fix: report runaway recursion through builtins and deep
 nesting instead of overflowing the stack

---
 src/bin.rs    |  4 +++
 src/expr.rs   | 11 +++++++-
 src/lib.rs    |  3 +++
 src/parser.rs | 10 ++++++++
 src/stack.rs  | 69 +++++++++++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 96 insertions(+), 1 deletion(-)
 create mode 100644 src/stack.rs

diff --git a/src/bin.rs b/src/bin.rs
index 6018c08..a166351 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -544,6 +544,10 @@ fn run_file(path: PathBuf, env: &mut Environment) -> Result<Expression, Error> {
 }
 
 fn main() -> Result<(), Error> {
+    dune::with_large_stack(run)
+}
+
+fn run() -> Result<(), Error> {
     let matches = App::new(
         r#"
         888                            
diff --git a/src/expr.rs b/src/expr.rs
index 639924e..6cdd1b9 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -1,4 +1,7 @@
-use super::{Environment, Error, Int};
+use super::{
+    stack::{is_exhausted, StackGuard},
+    Environment, Error, Int,
+};
 use std::{
     cmp::Ordering,
     collections::BTreeMap,
@@ -470,6 +473,7 @@ impl Expression {
     }
 
     pub fn eval(&self, env: &mut Environment) -> Result<Self, Error> {
+        let _guard = StackGuard::enter();
         self.clone().eval_mut(env, 0)
     }
 
@@ -480,6 +484,11 @@ impl Expression {
                     return Err(Error::RecursionDepth(self));
                 }
             }
+            // Builtins evaluate their arguments from a depth of zero,
+            // so the depth alone does not bound the recursion.
+            if is_exhausted() {
+                return Err(Error::RecursionDepth(self));
+            }
 
             match self {
                 Self::Quote(inner) => return Ok(*inner),
diff --git a/src/lib.rs b/src/lib.rs
index b6b95b6..7d769b9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -21,4 +21,7 @@ pub use tokens::{Token, TokenKind};
 mod tokenizer;
 pub use tokenizer::*;
 
+mod stack;
+pub use stack::with_large_stack;
+
 pub const VERSION: &str = env!("CARGO_PKG_VERSION");
diff --git a/src/parser.rs b/src/parser.rs
index 5f3c208..de14bad 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -14,6 +14,7 @@ use std::{
 };
 
 use crate::{
+    stack::{is_exhausted, StackGuard},
     tokens::{Input, Tokens},
     Diagnostic, Environment, Expression, Int, Token, TokenKind,
 };
@@ -137,6 +138,7 @@ thread_local! {
 }
 
 pub fn parse_script(input: &str) -> Result<Expression, nom::Err<SyntaxError>> {
+    let _guard = StackGuard::enter();
     MEMO.with(|memo| memo.borrow_mut().clear());
     let result = parse_script_text(input);
     MEMO.with(|memo| memo.borrow_mut().clear());
@@ -855,6 +857,14 @@ fn parse_expression_prec_one(input: Tokens<'_>) -> IResult<Tokens<'_>, Expressio
 fn parse_expression_prec_one_uncached(
     input: Tokens<'_>,
 ) -> IResult<Tokens<'_>, Expression, SyntaxError> {
+    if is_exhausted() {
+        return Err(SyntaxError::unrecoverable(
+            input.get_str_slice(),
+            "an expression with less nesting",
+            None,
+            None,
+        ));
+    }
     alt((
         parse_group,
         parse_quote,
diff --git a/src/stack.rs b/src/stack.rs
new file mode 100644
index 0000000..2c12fc8
--- /dev/null
+++ b/src/stack.rs
@@ -0,0 +1,69 @@
+use std::cell::Cell;
+
+/// The stack that a thread may use for parsing and evaluation unless
+/// it was started by `with_large_stack`. Threads have 2 MiB by default.
+const DEFAULT_LIMIT: usize = 1 << 20;
+/// The stack size of the threads started by `with_large_stack`.
+const LARGE_STACK: usize = 1 << 26;
+/// How much of its stack such a thread may use for parsing and evaluation.
+const LARGE_LIMIT: usize = 1 << 25;
+
+thread_local! {
+    static LIMIT: Cell<usize> = const { Cell::new(DEFAULT_LIMIT) };
+    static BASE: Cell<Option<usize>> = const { Cell::new(None) };
+}
+
+/// Marks the place where parsing or evaluation starts on this thread.
+/// Entering again before the outermost guard is dropped has no effect.
+pub(crate) struct StackGuard {
+    outermost: bool,
+}
+
+impl StackGuard {
+    pub(crate) fn enter() -> Self {
+        let outermost = BASE.with(|base| base.get().is_none());
+        if outermost {
+            BASE.with(|base| base.set(Some(stack_address())));
+        }
+        StackGuard { outermost }
+    }
+}
+
+impl Drop for StackGuard {
+    fn drop(&mut self) {
+        if self.outermost {
+            BASE.with(|base| base.set(None));
+        }
+    }
+}
+
+#[inline(never)]
+fn stack_address() -> usize {
+    let local = 0u8;
+    std::hint::black_box(&local) as *const u8 as usize
+}
+
+/// Is there too little stack left to recurse any further?
+pub(crate) fn is_exhausted() -> bool {
+    match BASE.with(|base| base.get()) {
+        Some(base) => base.abs_diff(stack_address()) > LIMIT.with(|limit| limit.get()),
+        None => false,
+    }
+}
+
+/// Run a function on a thread with enough stack for deep recursion.
+pub fn with_large_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
+    std::thread::scope(|scope| {
+        let thread = std::thread::Builder::new()
+            .stack_size(LARGE_STACK)
+            .spawn_scoped(scope, || {
+                LIMIT.with(|limit| limit.set(LARGE_LIMIT));
+                f()
+            })
+            .expect("failed to start a thread");
+        match thread.join() {
+            Ok(result) => result,
+            Err(panic) => std::panic::resume_unwind(panic),
+        }
+    })
+}
-- 
2.43.0


From 1ba3a277e33ad472f17c930777fc8fcead0e8b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 05/52] fix: show the right line in syntax errors, and do not
 panic on long multi-line ones

---
 src/error.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 27d69b8..0445211 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -1,7 +1,7 @@
 use common_macros::b_tree_map;
 use detached_str::{Str, StrSlice};
 
-use core::{cmp::max, fmt};
+use core::fmt;
 
 use crate::Diagnostic;
 
@@ -199,10 +199,11 @@ fn print_error_lines(
     let before = &string[..at.start()];
     let after = &string[at.end()..];
 
-    let line_before = before.lines().next_back().unwrap_or_default();
+    // If the error starts right after a newline, its line has nothing before it.
+    let line_before = before.rsplit('\n').next().unwrap_or_default();
     let line_after = after.lines().next().unwrap_or_default();
 
-    let first_line_number = max(before.lines().count(), 1);
+    let first_line_number = before.matches('\n').count() + 1;
 
     writeln!(f, "      |")?;
 
@@ -241,10 +242,10 @@ fn print_error_lines(
         let last_len = lines.last().unwrap().chars().count();
         let suffix = line_after
             .chars()
-            .take(max_width - last_len)
+            .take(max_width.saturating_sub(last_len))
             .chain(RESET.chars())
             .collect::<String>();
-        writeln!(f, "\n{}", suffix)?;
+        writeln!(f, "{}", suffix)?;
     }
 
     writeln!(f, "      |")?;
-- 
2.43.0


From 82509ee72b4eab5377a13cda82d6d2c7113100fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:30 +0000
Subject: [PATCH 06/52] fix: hint only commands that start with the typed line

---
 src/bin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index a166351..c74cdac 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -331,8 +331,8 @@ impl Hinter for DuneHelper {
             return self.hinter.hint(line, pos, ctx);
         } else {
             for cmd in &cmds {
-                if cmd.contains(line) {
-                    return Some(cmd.trim_start_matches(line).to_string());
+                if let Some(rest) = cmd.strip_prefix(line) {
+                    return Some(rest.to_string());
                 }
             }
         }
-- 
2.43.0


From 75d9ad27ed85156fb9bbb69ab563944493b967a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:49 +0000
Subject: [PATCH 07/52] fix: do not drop the function and arguments in front of
 a negated argument

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index de14bad..2444a26 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -698,6 +698,11 @@ fn parse_range(input: Tokens<'_>) -> IResult<Tokens<'_>, Expression, SyntaxError
 
 fn parse_expression_prec_five(input: Tokens<'_>) -> IResult<Tokens<'_>, Expression, SyntaxError> {
     no_terminating_punctuation(input)?;
+    match parse_not(input) {
+        Err(nom::Err::Error(_)) => {}
+        result => return result,
+    }
+
     let expr_parser = parse_expression_prec_four;
 
     let (input, mut head) = expr_parser(input)?;
@@ -732,8 +737,6 @@ fn parse_expression_prec_five(input: Tokens<'_>) -> IResult<Tokens<'_>, Expressi
                     vec![head, to],
                 ),
             ));
-        } else if let Ok(result) = parse_not(input) {
-            return Ok(result);
         } else {
             return Ok((input, head));
         }
-- 
2.43.0


From a8584920c359d42263bb011113e6eb14ec82b296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:19 +0000
Subject: [PATCH 08/52] fix: report missing arguments to builtins instead of
 panicking

---
 src/binary/init/chess_module.rs    |  2 +-
 src/binary/init/fmt_module.rs      | 23 +++++++++++++++++++++++
 src/binary/init/mod.rs             | 27 ++++++++++++++++++---------
 src/binary/init/operator_module.rs | 11 ++++++++++-
 src/binary/init/string_module.rs   | 13 +++++++++++++
 src/binary/init/sys_module.rs      |  4 ++--
 6 files changed, 67 insertions(+), 13 deletions(-)

diff --git a/src/binary/init/chess_module.rs b/src/binary/init/chess_module.rs
index ceacc8f..8cf228e 100644
--- a/src/binary/init/chess_module.rs
+++ b/src/binary/init/chess_module.rs
@@ -3,7 +3,7 @@ use dune::{Environment, Error, Expression};
 pub fn chess_fn(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
     let mut won = false;
 
-    let player_color = match &args[0] {
+    let player_color = match super::first_arg("chess", &args)? {
         Expression::String(color) | Expression::Symbol(color) if color == "white" => {
             chess_engine::WHITE
         }
diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index e58d170..46d71dc 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -15,95 +15,118 @@ pub fn get() -> Expression {
             "create a hyperlink on the console"),
 
         String::from("bold") => Expression::builtin("bold", |args, env| {
+            super::check_args_len("bold", &args, 1..)?;
             Ok(format!("\x1b[1m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to bold on the console"),
 
         String::from("faint") => Expression::builtin("faint", |args, env| {
+            super::check_args_len("faint", &args, 1..)?;
             Ok(format!("\x1b[2m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to italics on the console"),
 
         String::from("italics") => Expression::builtin("italics", |args, env| {
+            super::check_args_len("italics", &args, 1..)?;
             Ok(format!("\x1b[3m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to italics on the console"),
 
         String::from("underline") => Expression::builtin("underline", |args, env| {
+            super::check_args_len("underline", &args, 1..)?;
             Ok(format!("\x1b[4m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "underline text on the console"),
 
         String::from("blink") => Expression::builtin("blink", |args, env| {
+            super::check_args_len("blink", &args, 1..)?;
             Ok(format!("\x1b[5m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "blink text on the console"),
 
         String::from("invert") => Expression::builtin("invert", |args, env| {
+            super::check_args_len("invert", &args, 1..)?;
             Ok(format!("\x1b[7m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "invert text on the console"),
 
         String::from("strike") => Expression::builtin("strike", |args, env| {
+            super::check_args_len("strike", &args, 1..)?;
             Ok(format!("\x1b[9m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "strike out text on the console"),
 
         String::from("black") => Expression::builtin("black", |args, env| {
+            super::check_args_len("black", &args, 1..)?;
             Ok(format!("\x1b[90m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to black on the console"),
 
         String::from("red") => Expression::builtin("red", |args, env| {
+            super::check_args_len("red", &args, 1..)?;
             Ok(format!("\x1b[91m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to red on the console"),
 
         String::from("green") => Expression::builtin("green", |args, env| {
+            super::check_args_len("green", &args, 1..)?;
             Ok(format!("\x1b[92m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to green on the console"),
 
         String::from("yellow") => Expression::builtin("yellow", |args, env| {
+            super::check_args_len("yellow", &args, 1..)?;
             Ok(format!("\x1b[93m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to yellow on the console"),
 
         String::from("blue") => Expression::builtin("blue", |args, env| {
+            super::check_args_len("blue", &args, 1..)?;
             Ok(format!("\x1b[94m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to blue on the console"),
 
         String::from("magenta") => Expression::builtin("magenta", |args, env| {
+            super::check_args_len("magenta", &args, 1..)?;
             Ok(format!("\x1b[95m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to magenta on the console"),
 
         String::from("cyan") => Expression::builtin("cyan", |args, env| {
+            super::check_args_len("cyan", &args, 1..)?;
             Ok(format!("\x1b[96m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to cyan on the console"),
 
         String::from("white") => Expression::builtin("white", |args, env| {
+            super::check_args_len("white", &args, 1..)?;
             Ok(format!("\x1b[97m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to white on the console"),
 
         String::from("dark") => b_tree_map! {
             String::from("black") => Expression::builtin("black", |args, env| {
+                super::check_args_len("black", &args, 1..)?;
                 Ok(format!("\x1b[30m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to black on the console"),
 
             String::from("red") => Expression::builtin("red", |args, env| {
+                super::check_args_len("red", &args, 1..)?;
                 Ok(format!("\x1b[31m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to red on the console"),
 
             String::from("green") => Expression::builtin("green", |args, env| {
+                super::check_args_len("green", &args, 1..)?;
                 Ok(format!("\x1b[32m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to green on the console"),
 
             String::from("yellow") => Expression::builtin("yellow", |args, env| {
+                super::check_args_len("yellow", &args, 1..)?;
                 Ok(format!("\x1b[33m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to yellow on the console"),
 
             String::from("blue") => Expression::builtin("blue", |args, env| {
+                super::check_args_len("blue", &args, 1..)?;
                 Ok(format!("\x1b[34m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to blue on the console"),
 
             String::from("magenta") => Expression::builtin("magenta", |args, env| {
+                super::check_args_len("magenta", &args, 1..)?;
                 Ok(format!("\x1b[35m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to magenta on the console"),
 
             String::from("cyan") => Expression::builtin("cyan", |args, env| {
+                super::check_args_len("cyan", &args, 1..)?;
                 Ok(format!("\x1b[36m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to cyan on the console"),
 
             String::from("white") => Expression::builtin("white", |args, env| {
+                super::check_args_len("white", &args, 1..)?;
                 Ok(format!("\x1b[37m{}\x1b[m\x6b[0m", args[0].eval(env)?).into())
             }, "convert text to white on the console"),
         }.into()
diff --git a/src/binary/init/mod.rs b/src/binary/init/mod.rs
index 4d8e79a..40ce581 100644
--- a/src/binary/init/mod.rs
+++ b/src/binary/init/mod.rs
@@ -191,13 +191,17 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "str",
-        |args, env| Ok(Expression::String(args[0].eval(env)?.to_string())),
+        |args, env| {
+            Ok(Expression::String(
+                first_arg("str", &args)?.eval(env)?.to_string(),
+            ))
+        },
         "format an expression to a string",
     );
 
     env.define_builtin(
         "int",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("int", &args)?.eval(env)? {
             Expression::Integer(x) => Ok(Expression::Integer(x)),
             Expression::Float(x) => Ok(Expression::Integer(x as Int)),
             Expression::String(x) => {
@@ -264,7 +268,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "keys",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("keys", &args)?.eval(env)? {
             Expression::Map(m) => Ok(m.into_keys().collect::<Vec<_>>().into()),
             otherwise => Err(Error::CustomError(format!(
                 "cannot get the keys of {}",
@@ -276,7 +280,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "vals",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("vals", &args)?.eval(env)? {
             Expression::Map(m) => Ok(m.into_values().collect::<Vec<_>>().into()),
             otherwise => Err(Error::CustomError(format!(
                 "cannot get the values of {}",
@@ -294,7 +298,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "len",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("len", &args)?.eval(env)? {
             Expression::Map(m) => Ok(Expression::Integer(m.len() as Int)),
             Expression::List(list) => Ok(Expression::Integer(list.len() as Int)),
             Expression::Symbol(x) | Expression::String(x) => {
@@ -371,7 +375,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "lines",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("lines", &args)?.eval(env)? {
             Expression::String(x) => Ok(Expression::List(
                 x.lines()
                     .map(|ch| Expression::String(ch.to_string()))
@@ -389,14 +393,14 @@ pub fn init(env: &mut Environment) {
         "eval",
         |args, env| {
             let mut new_env = env.clone();
-            args[0].clone().eval(env)?.eval(&mut new_env)
+            first_arg("eval", &args)?.eval(env)?.eval(&mut new_env)
         },
         "evaluate an expression without changing the environment",
     );
 
     env.define_builtin(
         "exec",
-        |args, env| args[0].clone().eval(env)?.eval(env),
+        |args, env| first_arg("exec", &args)?.eval(env)?.eval(env),
         "evaluate an expression in the current environment",
     );
 
@@ -424,7 +428,7 @@ pub fn init(env: &mut Environment) {
     env.define_builtin(
         "report",
         |args, env| {
-            let val = args[0].eval(env)?;
+            let val = first_arg("report", &args)?.eval(env)?;
             match val {
                 Expression::Map(_) => println!("{}", val),
                 Expression::String(s) => println!("{}", s),
@@ -438,6 +442,11 @@ pub fn init(env: &mut Environment) {
     );
 }
 
+fn first_arg(name: impl ToString, args: &[Expression]) -> Result<&Expression, Error> {
+    check_args_len(name, args, 1..)?;
+    Ok(&args[0])
+}
+
 fn check_args_len(
     name: impl ToString,
     args: &[Expression],
diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index f12eef4..b587774 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -1,4 +1,4 @@
-use super::{curry, reverse_curry};
+use super::{check_args_len, curry, reverse_curry};
 use dune::{Environment, Error, Expression};
 use std::{
     io::Write,
@@ -6,6 +6,7 @@ use std::{
 };
 
 fn add_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
+    check_args_len("+", &args, 1..)?;
     let mut result = args[0].clone().eval(env)?;
     if args.len() == 1 {
         return Expression::Apply(
@@ -45,6 +46,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "-",
         |args, env| {
+            check_args_len("-", &args, 1..)?;
             // If there are two expressions or more, subtract them
             let mut result = args[0].clone().eval(env)?;
 
@@ -191,6 +193,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "==",
         |args, env| {
+            check_args_len("==", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].eval(env)? == args[1].eval(env)?,
             ))
@@ -201,6 +204,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "!=",
         |args, env| {
+            check_args_len("!=", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].eval(env)? != args[1].eval(env)?,
             ))
@@ -211,6 +215,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "<",
         |args, env| {
+            check_args_len("<", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? < args[1].clone().eval(env)?,
             ))
@@ -221,6 +226,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "<=",
         |args, env| {
+            check_args_len("<=", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? <= args[1].clone().eval(env)?,
             ))
@@ -231,6 +237,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         ">",
         |args, env| {
+            check_args_len(">", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? > args[1].clone().eval(env)?,
             ))
@@ -241,6 +248,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         ">=",
         |args, env| {
+            check_args_len(">=", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? >= args[1].clone().eval(env)?,
             ))
@@ -251,6 +259,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "@",
         |args, env| {
+            check_args_len("@", &args, 1..)?;
             let mut val = args[0].eval(env)?;
             for arg in &args[1..] {
                 val = match arg {
diff --git a/src/binary/init/string_module.rs b/src/binary/init/string_module.rs
index 62b7a76..dee5513 100644
--- a/src/binary/init/string_module.rs
+++ b/src/binary/init/string_module.rs
@@ -105,6 +105,7 @@ pub fn get() -> Expression {
         }, "get the width of a string"),
 
         String::from("is-whitespace?") => Expression::builtin("is-whitespace?", |args, env| {
+            super::check_args_len("is-whitespace?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_whitespace())))
@@ -117,6 +118,7 @@ pub fn get() -> Expression {
         }, "is this string whitespace?"),
 
         String::from("is-alpha?") => Expression::builtin("is-alpha?", |args, env| {
+            super::check_args_len("is-alpha?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_alphabetic())))
@@ -129,6 +131,7 @@ pub fn get() -> Expression {
         }, "is this string alphabetic?"),
 
         String::from("is-alphanumeric?") => Expression::builtin("is-alphanumeric?", |args, env| {
+            super::check_args_len("is-alphanumeric?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_alphanumeric())))
@@ -141,6 +144,7 @@ pub fn get() -> Expression {
         }, "is this string alphanumeric?"),
 
         String::from("is-numeric?") => Expression::builtin("is-numeric?", |args, env| {
+            super::check_args_len("is-numeric?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_numeric())))
@@ -160,6 +164,7 @@ pub fn get() -> Expression {
         }, "split a string on a given character"),
 
         String::from("to-lower") => Expression::builtin("to-lower", |args, env| {
+            super::check_args_len("to-lower", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.to_lowercase()))
@@ -172,6 +177,7 @@ pub fn get() -> Expression {
         }, "convert a string to lowercase"),
 
         String::from("to-upper") => Expression::builtin("to-upper", |args, env| {
+            super::check_args_len("to-upper", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.to_uppercase()))
@@ -184,6 +190,7 @@ pub fn get() -> Expression {
         }, "convert a string to uppercase"),
 
         String::from("to-title") => Expression::builtin("to-title", |args, env| {
+            super::check_args_len("to-title", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     let mut title = String::new();
@@ -209,6 +216,7 @@ pub fn get() -> Expression {
         }, "convert a string to title case"),
 
         String::from("is-lower") => Expression::builtin("is-lower", |args, env| {
+            super::check_args_len("is-lower", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_lowercase())))
@@ -221,6 +229,7 @@ pub fn get() -> Expression {
         }, "is this string lowercase?"),
 
         String::from("is-upper") => Expression::builtin("is-upper", |args, env| {
+            super::check_args_len("is-upper", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_uppercase())))
@@ -233,6 +242,7 @@ pub fn get() -> Expression {
         }, "is this string uppercase?"),
 
         String::from("is-title") => Expression::builtin("is-title", |args, env| {
+            super::check_args_len("is-title", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     let mut title = String::new();
@@ -357,6 +367,7 @@ pub fn get() -> Expression {
         }, "split a string at a given index"),
 
         String::from("trim") => Expression::builtin("trim", |args, env| {
+            super::check_args_len("trim", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.trim().to_string()))
@@ -369,6 +380,7 @@ pub fn get() -> Expression {
         }, "trim whitespace from a string"),
 
         String::from("trim-start") => Expression::builtin("trim-start", |args, env| {
+            super::check_args_len("trim-start", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.trim_start().to_string()))
@@ -381,6 +393,7 @@ pub fn get() -> Expression {
         }, "trim whitespace from the start of a string"),
 
         String::from("trim-end") => Expression::builtin("trim-end", |args, env| {
+            super::check_args_len("trim-end", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.trim_end().to_string()))
diff --git a/src/binary/init/sys_module.rs b/src/binary/init/sys_module.rs
index 3ab218b..111fc17 100644
--- a/src/binary/init/sys_module.rs
+++ b/src/binary/init/sys_module.rs
@@ -21,11 +21,11 @@ pub fn get() -> Expression {
 
         String::from("eval") => Expression::builtin("eval", |args, env| {
             let mut new_env = env.clone();
-            args[0].clone().eval(env)?.eval(&mut new_env)
+            super::first_arg("eval", &args)?.eval(env)?.eval(&mut new_env)
         }, "evaluate an expression without changing the environment"),
 
         String::from("exec") => Expression::builtin("exec", |args, env| {
-            args[0].clone().eval(env)?.eval(env)
+            super::first_arg("exec", &args)?.eval(env)?.eval(env)
         }, "evaluate an expression in the current environment"),
 
         // Evaluate a file in the current environment.
-- 
2.43.0


From f11694d5036a4cff2779cbf915da2014586fd043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:22 +0000
Subject: [PATCH 09/52] fix: report overflow in remainder, negation and
 repetition instead of panicking

---
 src/binary/init/operator_module.rs |  8 +++++++-
 src/expr.rs                        | 31 +++++++++++++++++++++++++-----
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index b587774..5e0780f 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -64,7 +64,13 @@ pub fn get(env: &mut Environment) -> Expression {
                 Ok(result)
             } else {
                 // Return the negated original
-                Ok(-result)
+                match -result.clone() {
+                    Expression::None => Err(Error::CustomError(format!(
+                        "cannot negate {:?}",
+                        result
+                    ))),
+                    negated => Ok(negated),
+                }
             }
         },
         "subtract two expressions",
diff --git a/src/expr.rs b/src/expr.rs
index 6cdd1b9..96dd757 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -736,7 +736,10 @@ impl Neg for Expression {
     type Output = Expression;
     fn neg(self) -> Self::Output {
         match self {
-            Self::Integer(n) => Self::Integer(-n),
+            Self::Integer(n) => match n.checked_neg() {
+                Some(i) => Self::Integer(i),
+                None => Self::None,
+            },
             Self::Boolean(b) => Self::Boolean(!b),
             Self::Float(n) => Self::Float(-n),
             _ => Self::None,
@@ -756,12 +759,27 @@ impl Mul for Expression {
             (Self::Float(m), Self::Integer(n)) => Self::Float(m * n as f64),
             (Self::Float(m), Self::Float(n)) => Self::Float(m * n),
             (Self::String(m), Self::Integer(n)) | (Self::Integer(n), Self::String(m)) => {
-                Self::String(m.repeat(n as usize))
+                // A negative count repeats nothing, just like it does for lists.
+                let n = usize::try_from(n).unwrap_or(0);
+                let mut result = String::new();
+                match m.len().checked_mul(n) {
+                    Some(len) if result.try_reserve_exact(len).is_ok() => {}
+                    _ => return Self::None,
+                }
+                if !m.is_empty() {
+                    (0..n).for_each(|_| result.push_str(&m));
+                }
+                Self::String(result)
             }
             (Self::List(m), Self::Integer(n)) | (Self::Integer(n), Self::List(m)) => {
+                let n = usize::try_from(n).unwrap_or(0);
                 let mut result = vec![];
-                for _ in 0..n {
-                    result.extend(m.clone());
+                match m.len().checked_mul(n) {
+                    Some(len) if result.try_reserve_exact(len).is_ok() => {}
+                    _ => return Self::None,
+                }
+                if !m.is_empty() {
+                    (0..n).for_each(|_| result.extend(m.clone()));
                 }
                 Self::List(result)
             }
@@ -790,7 +808,10 @@ impl Rem for Expression {
     type Output = Self;
     fn rem(self, other: Self) -> Self {
         match (self, other) {
-            (Self::Integer(m), Self::Integer(n)) => Self::Integer(m % n),
+            (Self::Integer(m), Self::Integer(n)) => match m.checked_rem(n) {
+                Some(i) => Self::Integer(i),
+                None => Self::None,
+            },
             _ => Self::None,
         }
     }
-- 
2.43.0


From 296b06f198f32794c1dfa48538bd4ea1ec6fb255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:22 +0000
Subject: [PATCH 10/52] fix: list@head returns the first element

---
 src/binary/init/list_module.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index 1ba42df..63a4bed 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -71,11 +71,7 @@ fn head(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Erro
     }
     let list = args[0].eval(env)?;
     if let Expression::List(list) = list {
-        if list.is_empty() {
-            Ok(Expression::List(list))
-        } else {
-            Ok(Expression::None)
-        }
+        Ok(list.into_iter().next().unwrap_or(Expression::None))
     } else {
         Err(Error::CustomError(
             "head requires a list as its argument".to_string(),
-- 
2.43.0


From 2a4263650ef2c5da7b7170a52d2024a847e20108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:16 +0000
Subject: [PATCH 11/52] fix: report an index out of bounds in list@nth instead
 of panicking

---
 src/binary/init/list_module.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index 63a4bed..b134c23 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -388,10 +388,14 @@ fn nth(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error
     let list = args[1].eval(env)?;
     if let Expression::Integer(n) = n {
         if let Expression::List(list) = list {
-            if n < 0 {
-                Ok(list[list.len() - (-n as usize)].clone())
-            } else {
-                Ok(list[n as usize].clone())
+            // A negative index counts from the end of the list.
+            let index = if n < 0 { n + list.len() as Int } else { n };
+            match usize::try_from(index).ok().and_then(|i| list.get(i)) {
+                Some(item) => Ok(item.clone()),
+                None => Err(Error::CustomError(format!(
+                    "index {} out of bounds for {:?}",
+                    n, list
+                ))),
             }
         } else {
             Err(Error::CustomError(
-- 
2.43.0


From 608a7db5be8ee68cfd061d7a488d4e4c7694b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:16 +0000
Subject: [PATCH 12/52] fix: report an empty range or list in rand instead of
 panicking

---
 src/binary/init/rand_module.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/binary/init/rand_module.rs b/src/binary/init/rand_module.rs
index dcfe21e..262d6a9 100644
--- a/src/binary/init/rand_module.rs
+++ b/src/binary/init/rand_module.rs
@@ -14,6 +14,9 @@ pub fn get() -> Expression {
 fn int(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
     super::check_exact_args_len("int", &args, 2)?;
     match (args[0].eval(env)?, args[1].eval(env)?) {
+        (Expression::Integer(l), Expression::Integer(h)) if l >= h => Err(Error::CustomError(
+            format!("expected a range with a number in it, but got {} to {}", l, h),
+        )),
         (Expression::Integer(l), Expression::Integer(h)) => {
             let mut rng = rand::thread_rng();
             let n = Uniform::new(l, h);
@@ -29,6 +32,9 @@ fn int(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error
 fn choose(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
     super::check_exact_args_len("choose", &args, 1)?;
     match args[0].eval(env)? {
+        Expression::List(list) if list.is_empty() => Err(Error::CustomError(
+            "cannot choose an item in an empty list".to_string(),
+        )),
         Expression::List(list) => {
             let mut rng = rand::thread_rng();
             let n = Uniform::new(0, list.len());
-- 
2.43.0


From f700c45ce119375648b9701fc7cb97b47ba78e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:16 +0000
Subject: [PATCH 13/52] fix: report a string index inside a character, and
 shift caesar by any number

---
 src/binary/init/mod.rs           |  2 +-
 src/binary/init/string_module.rs | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/mod.rs b/src/binary/init/mod.rs
index 40ce581..f5bc03e 100644
--- a/src/binary/init/mod.rs
+++ b/src/binary/init/mod.rs
@@ -244,7 +244,7 @@ pub fn init(env: &mut Environment) {
                     }
                 }
                 (Expression::String(s), Expression::Integer(i)) => {
-                    if *i as usize <= s.len() {
+                    if s.is_char_boundary(*i as usize) {
                         s.insert_str(*i as usize, &val.to_string());
                     } else {
                         return Err(Error::CustomError(format!(
diff --git a/src/binary/init/string_module.rs b/src/binary/init/string_module.rs
index dee5513..71c529f 100644
--- a/src/binary/init/string_module.rs
+++ b/src/binary/init/string_module.rs
@@ -58,7 +58,7 @@ pub fn get() -> Expression {
                             // Get the offset from the base
                             let offset = c as u8 - base;
                             // Shift the offset
-                            let shifted_offset = (offset + (i as u8)) % 26;
+                            let shifted_offset = (offset + i.rem_euclid(26) as u8) % 26;
                             // Get the shifted character
                             let shifted_char = (shifted_offset + base) as char;
                             // Add the shifted character to the result
@@ -357,9 +357,16 @@ pub fn get() -> Expression {
             let index = args[1].clone().eval(env)?;
             Ok(match (expr, index) {
                 (Expression::Symbol(x) | Expression::String(x), Expression::Integer(i)) => {
+                    let i = i as usize;
+                    if !x.is_char_boundary(i) {
+                        return Err(Error::CustomError(format!(
+                            "cannot split {:?} at index {}",
+                            x, i
+                        )));
+                    }
                     Expression::List(vec![
-                        Expression::String(x[..i as usize].to_string()),
-                        Expression::String(x[i as usize..].to_string()),
+                        Expression::String(x[..i].to_string()),
+                        Expression::String(x[i..].to_string()),
                     ])
                 }
                 _ => Expression::None,
-- 
2.43.0


From 7ea1885e084cc098876f482a5ec6ebe2f1adfb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:36 +0000
Subject: [PATCH 14/52] fix: exact integer powers, shifts, sums, products,
 factorials and parity

---
 src/binary/init/math_module.rs | 60 +++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/src/binary/init/math_module.rs b/src/binary/init/math_module.rs
index b1e757e..f4e28b2 100644
--- a/src/binary/init/math_module.rs
+++ b/src/binary/init/math_module.rs
@@ -2,6 +2,20 @@ use super::curry;
 use common_macros::b_tree_map;
 use dune::{Environment, Error, Expression, Int};
 
+fn overflow(name: &str) -> Error {
+    Error::CustomError(format!("integer overflow in {}", name))
+}
+
+/// Raise an integer to a power, if the result is an integer that can be represented.
+fn checked_pow(base: Int, exponent: Int) -> Option<Int> {
+    match (base, exponent) {
+        (1, _) => Some(1),
+        (-1, e) => Some(if e % 2 == 0 { 1 } else { -1 }),
+        (0, e) if e > 0 => Some(0),
+        (_, e) => base.checked_pow(u32::try_from(e).ok()?),
+    }
+}
+
 pub fn get(env: &mut Environment) -> Expression {
     (b_tree_map! {
         String::from("E")   => std::f64::consts::E.into(),
@@ -25,9 +39,12 @@ pub fn get(env: &mut Environment) -> Expression {
             };
 
             let a = a as u64;
-            let b = b as u64;
 
-            Ok(((a >> b) as Int).into())
+            // Shift by zero or a positive number of bits: every bit is gone after 64 of them.
+            if b < 0 {
+                return Err(Error::CustomError(format!("invalid l-rsh argument {}", b)));
+            }
+            Ok((a.checked_shr(b.min(64) as u32).unwrap_or(0) as Int).into())
         }, "logical right shift"), 2),
 
         String::from("a-rsh") => curry(Expression::builtin("a-rsh", |args, env| {
@@ -42,7 +59,10 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid a-rsh argument {}", e)))
             };
 
-            Ok((a >> b).into())
+            if b < 0 {
+                return Err(Error::CustomError(format!("invalid a-rsh argument {}", b)));
+            }
+            Ok((a >> b.min(63)).into())
         }, "arithmetic right shift"), 2),
 
         String::from("rsh") => curry(Expression::builtin("a-rsh", |args, env| {
@@ -57,7 +77,10 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid a-rsh argument {}", e)))
             };
 
-            Ok((a >> b).into())
+            if b < 0 {
+                return Err(Error::CustomError(format!("invalid a-rsh argument {}", b)));
+            }
+            Ok((a >> b.min(63)).into())
         }, "arithmetic right shift"), 2),
 
         String::from("lsh") => Expression::builtin("lsh", |args, env| {
@@ -72,7 +95,10 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid lsh argument {}", e)))
             };
 
-            Ok((a << b).into())
+            if b < 0 {
+                return Err(Error::CustomError(format!("invalid lsh argument {}", b)));
+            }
+            Ok(a.checked_shl(b.min(64) as u32).unwrap_or(0).into())
         }, "left shift"),
 
 
@@ -81,12 +107,12 @@ pub fn get(env: &mut Environment) -> Expression {
             let mut float_sum = 0.0;
             for arg in &args {
                 match arg.eval(env)? {
-                    Expression::Integer(i) => int_sum += i,
+                    Expression::Integer(i) => int_sum = Int::checked_add(int_sum, i).ok_or_else(|| overflow("sum"))?,
                     Expression::Float(f) => float_sum += f,
                     Expression::List(list) => {
                         for item in list {
                             match item.eval(env)? {
-                                Expression::Integer(i) => int_sum += i,
+                                Expression::Integer(i) => int_sum = Int::checked_add(int_sum, i).ok_or_else(|| overflow("sum"))?,
                                 Expression::Float(f) => float_sum += f,
                                 e => return Err(Error::CustomError(format!("invalid sum argument {:?}", e)))
                             }
@@ -109,12 +135,12 @@ pub fn get(env: &mut Environment) -> Expression {
 
             for arg in &args {
                 match arg.eval(env)? {
-                    Expression::Integer(i) => int_product *= i,
+                    Expression::Integer(i) => int_product = Int::checked_mul(int_product, i).ok_or_else(|| overflow("product"))?,
                     Expression::Float(f) => float_product *= f,
                     Expression::List(list) => {
                         for item in list {
                             match item.eval(env)? {
-                                Expression::Integer(i) => int_product *= i,
+                                Expression::Integer(i) => int_product = Int::checked_mul(int_product, i).ok_or_else(|| overflow("product"))?,
                                 Expression::Float(f) => float_product *= f,
                                 e => return Err(Error::CustomError(format!("invalid product argument {:?}", e)))
                             }
@@ -138,9 +164,9 @@ pub fn get(env: &mut Environment) -> Expression {
                     if i < 0 {
                         Err(Error::CustomError("cannot take the factorial of a negative number".to_string()))
                     } else {
-                        let mut result = 1;
+                        let mut result: Int = 1;
                         for n in 1..=i {
-                            result *= n;
+                            result = result.checked_mul(n).ok_or_else(|| overflow("fact"))?;
                         }
                         Ok(result.into())
                     }
@@ -148,8 +174,10 @@ pub fn get(env: &mut Environment) -> Expression {
                 Expression::Float(f) => {
                     if f < 0.0 {
                         Err(Error::CustomError("cannot take the factorial of a negative number".to_string()))
+                    } else if f == 0.0 {
+                        Ok(1.0.into())
                     } else {
-                        Ok(f64::round(f64::exp(f64::ln(f) * f64::ln(f)) * f64::sqrt(2.0 * std::f64::consts::PI * f) * (1.0 + 1.0 / (12.0 * f) + 1.0 / (288.0 * f * f) - 139.0 / (51840.0 * f * f * f) - 571.0 / (2488320.0 * f * f * f * f))).into())
+                        Ok(f64::round(f64::exp(f64::ln(f) * f - f) * f64::sqrt(2.0 * std::f64::consts::PI * f) * (1.0 + 1.0 / (12.0 * f) + 1.0 / (288.0 * f * f) - 139.0 / (51840.0 * f * f * f) - 571.0 / (2488320.0 * f * f * f * f))).into())
                     }
                 },
                 e => Err(Error::CustomError(format!("invalid fact argument {:?}", e)))
@@ -159,7 +187,7 @@ pub fn get(env: &mut Environment) -> Expression {
         String::from("abs") => Expression::builtin("abs", |args, env| {
             super::check_exact_args_len("abs", &args, 1)?;
             match args[0].eval(env)? {
-                Expression::Integer(i) => Ok(i.abs().into()),
+                Expression::Integer(i) => Ok(i.checked_abs().ok_or_else(|| overflow("abs"))?.into()),
                 Expression::Float(f) => Ok(f.abs().into()),
                 e => Err(Error::CustomError(format!("invalid abs argument {:?}", e)))
             }
@@ -285,8 +313,8 @@ pub fn get(env: &mut Environment) -> Expression {
         String::from("isodd") => Expression::builtin("isodd", |args, env| {
             super::check_exact_args_len("odd", &args, 1)?;
             Ok(match args[0].eval(env)? {
-                Expression::Integer(i) => i % 2 == 1,
-                Expression::Float(f) => (f as Int) % 2 == 1,
+                Expression::Integer(i) => i % 2 != 0,
+                Expression::Float(f) => (f as Int) % 2 != 0,
                 e => return Err(Error::CustomError(format!("invalid isodd argument {}", e)))
             }.into())
         }, "is a number odd?"),
@@ -306,7 +334,7 @@ pub fn get(env: &mut Environment) -> Expression {
                 (Expression::Float(base), Expression::Float(exponent)) => Ok(base.powf(exponent).into()),
                 (Expression::Float(base), Expression::Integer(exponent)) => Ok(base.powf(exponent as f64).into()),
                 (Expression::Integer(base), Expression::Float(exponent)) => Ok((base as f64).powf(exponent).into()),
-                (Expression::Integer(base), Expression::Integer(exponent)) => match base.checked_pow(exponent as u32) {
+                (Expression::Integer(base), Expression::Integer(exponent)) => match checked_pow(base, exponent) {
                     Some(n) => Ok(n.into()),
                     None => Err(Error::CustomError(format!("overflow when raising int {} to the power {}", base, exponent)))
                 },
-- 
2.43.0


From 60239c801f13188a0368df5e571bcc0e8c94f97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 15/52] fix: report permission, missing program and syntax
 errors under their own codes

---
 src/error.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 0445211..3d382f0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -55,9 +55,9 @@ impl Error {
             Self::ForNonList(..) => Self::ERROR_CODE_FOR_NON_LIST,
             Self::RecursionDepth(..) => Self::ERROR_CODE_RECURSION_DEPTH,
             Self::CustomError(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::PermissionDenied(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::ProgramNotFound(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::SyntaxError(..) => Self::ERROR_CODE_CUSTOM_ERROR,
+            Self::PermissionDenied(..) => Self::ERROR_CODE_PERMISSION_DENIED,
+            Self::ProgramNotFound(..) => Self::ERROR_CODE_PROGRAM_NOT_FOUND,
+            Self::SyntaxError(..) => Self::ERROR_CODE_SYNTAX_ERROR,
         }
     }
 }
-- 
2.43.0


From a354fbb0d65ede8f97dfe76e41d3cb42535eef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 16/52] fix: reset the style after fmt@dark@white text

---
 src/binary/init/fmt_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index 46d71dc..7c1262d 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -127,7 +127,7 @@ pub fn get() -> Expression {
 
             String::from("white") => Expression::builtin("white", |args, env| {
                 super::check_args_len("white", &args, 1..)?;
-                Ok(format!("\x1b[37m{}\x1b[m\x6b[0m", args[0].eval(env)?).into())
+                Ok(format!("\x1b[37m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to white on the console"),
         }.into()
     })
-- 
2.43.0


From d9991d5e402a62c9f09230b509d94b04c1584469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 17/52] fix: join empty widgets vertically without panicking

---
 src/binary/init/widget_module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/widget_module.rs b/src/binary/init/widget_module.rs
index 02ca2be..2099cbe 100644
--- a/src/binary/init/widget_module.rs
+++ b/src/binary/init/widget_module.rs
@@ -161,8 +161,8 @@ fn joiny(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
             Expression::String(s) => {
                 string_args.push(s.trim().to_string());
 
-                let width = string_args[0].lines().next().unwrap().chars().count();
-                let this_width = string_args[i].lines().next().unwrap().chars().count();
+                let width = string_args[0].lines().next().unwrap_or("").chars().count();
+                let this_width = string_args[i].lines().next().unwrap_or("").chars().count();
                 if width != this_width {
                     return Err(Error::CustomError(format!(
                         "Widths of vertically added widgets must be equal, \
-- 
2.43.0


From bbba5feddf23f41f2c47d604e6e97491c5d6d770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 18/52] fix: do not sleep forever for a negative number of
 milliseconds

---
 src/binary/init/time_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/time_module.rs b/src/binary/init/time_module.rs
index 6f23fc2..661fd48 100644
--- a/src/binary/init/time_module.rs
+++ b/src/binary/init/time_module.rs
@@ -19,7 +19,7 @@ fn sleep(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
 
     match args[0].eval(env)? {
         Expression::Float(n) => thread::sleep(Duration::from_millis(n as u64)),
-        Expression::Integer(n) => thread::sleep(Duration::from_millis(n as u64)),
+        Expression::Integer(n) => thread::sleep(Duration::from_millis(n.max(0) as u64)),
         otherwise => {
             return Err(Error::CustomError(format!(
                 "expected integer or float, but got {}",
-- 
2.43.0


From 5cd931a23188b0fe3b696771b796e7ec9dda3135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 19/52] fix: show maps with keys wider than the terminal
 instead of panicking

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 96dd757..8df778d 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -307,7 +307,7 @@ impl fmt::Display for Expression {
                             t.add_row(row!(key, format!("{:specified_width$}", val)));
                         }
                         Self::List(_) => {
-                            let w = specified_width - key.len() - 3;
+                            let w = specified_width.saturating_sub(key.len() + 3);
                             let formatted = format!("{:w$}", val);
                             t.add_row(row!(key, textwrap::fill(&formatted, w),));
                         }
-- 
2.43.0


From 472a1b7896dc12ff0555ac9db131e1cf3a4202f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 20/52] fix: run programs while a variable holds a NUL
 character

---
 src/binary/init/operator_module.rs | 3 ++-
 src/expr.rs                        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index 5e0780f..de5d853 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -483,7 +483,8 @@ fn expr_to_command<'a>(
         // This causes some strange bugs on Linux: mainly it becomes
         // impossible to execute any program because `the argument
         // list is too long`.
-        .filter(|(_, s)| s.len() <= 1024);
+        // A value with a NUL byte cannot be stored in the environment of a process.
+        .filter(|(_, s)| s.len() <= 1024 && !s.contains('\0'));
 
     Ok(match expr {
         // If the command is quoted or in parentheses, try to get the inner command.
diff --git a/src/expr.rs b/src/expr.rs
index 8df778d..1dcfc8b 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -549,7 +549,8 @@ impl Expression {
                             // This causes some strange bugs on Linux: mainly it becomes
                             // impossible to execute any program because `the argument
                             // list is too long`.
-                            .filter(|(_, s)| s.len() <= 1024)
+                            // A value with a NUL byte cannot be stored in the environment of a process.
+                            .filter(|(_, s)| s.len() <= 1024 && !s.contains('\0'))
                             .collect::<BTreeMap<String, String>>();
 
                         let mut cmd_args = vec![];
-- 
2.43.0


From ac316ba251be6ba095a6fff7c15e1e5b8191f567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 21/52] fix: feed programs in a pipe while reading their
 output, so that large data does not block

---
 src/binary/init/operator_module.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index de5d853..99a6336 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -1,7 +1,7 @@
 use super::{check_args_len, curry, reverse_curry};
 use dune::{Environment, Error, Expression};
 use std::{
-    io::Write,
+    io::{ErrorKind, Write},
     process::{Command, Stdio},
 };
 
@@ -362,25 +362,21 @@ fn pipe_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expressi
 
                 // Try to execute the command.
                 if let Ok(mut child_handler) = cmd.spawn() {
+                    // Feed the process from another thread, because it may fill up its
+                    // STDOUT before it has read all of its STDIN.
+                    let mut writer = None;
+
                     // If we need to pipe in STDIN:
                     if !is_first {
                         // Attempt to grab the STDIN of the process from the handler.
-                        if let Some(stdin) = child_handler.stdin.as_mut() {
+                        if let Some(mut stdin) = child_handler.stdin.take() {
                             // Write the contents of the previous command's STDOUT
                             // to the process's STDIN.
-                            if stdin.write_all(&buf).is_err() {
-                                return Err(Error::CustomError(format!(
-                                    "error when piping into process `{}`",
-                                    expr
-                                )));
-                            }
+                            let input = std::mem::take(&mut buf);
+                            writer = Some(std::thread::spawn(move || stdin.write_all(&input)));
 
                             // Zero out all of our information about the previous command.
-                            buf = vec![];
                             result_of_last_cmd = Expression::None;
-
-                            // Flush the STDIN buffer to force the process to read it.
-                            stdin.flush().unwrap();
                         } else {
                             return Err(Error::CustomError(format!(
                                 "error when piping into process `{}`",
@@ -426,6 +422,16 @@ fn pipe_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expressi
                             )));
                         }
                     }
+
+                    if let Some(Ok(Err(e))) = writer.map(|w| w.join()) {
+                        // A process is free to exit without reading all of its input.
+                        if e.kind() != ErrorKind::BrokenPipe {
+                            return Err(Error::CustomError(format!(
+                                "error when piping into process `{}`",
+                                expr
+                            )));
+                        }
+                    }
                 } else {
                     // We couldn't spawn the command.
                     return Err(Error::CustomError(format!(
-- 
2.43.0


From aa4abf34fc9757791c7f36693cfb30e15ee06fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 22/52] fix: report the result of -x as it is instead of
 evaluating it again

---
 src/bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin.rs b/src/bin.rs
index c74cdac..ee56c61 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -622,7 +622,7 @@ fn run() -> Result<(), Error> {
             Ok(result) => {
                 Expression::Apply(
                     Box::new(Expression::Symbol("report".to_string())),
-                    vec![result],
+                    vec![Expression::Quote(Box::new(result))],
                 )
                 .eval(&mut env)?;
             }
-- 
2.43.0


From 7d39dec1537cc6fe8a53a0867723663a98e53863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 23/52] fix: flush what was printed before running a program

---
 src/binary/init/operator_module.rs | 3 +++
 src/expr.rs                        | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index 99a6336..72fa45a 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -360,6 +360,9 @@ fn pipe_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expressi
                     cmd = cmd.stdout(Stdio::piped());
                 }
 
+                // Show what was printed so far before the program prints anything.
+                let _ = std::io::stdout().flush();
+
                 // Try to execute the command.
                 if let Ok(mut child_handler) = cmd.spawn() {
                     // Feed the process from another thread, because it may fill up its
diff --git a/src/expr.rs b/src/expr.rs
index 1dcfc8b..396ca5e 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -6,7 +6,7 @@ use std::{
     cmp::Ordering,
     collections::BTreeMap,
     fmt,
-    io::ErrorKind,
+    io::{ErrorKind, Write},
     ops::{Add, Div, Index, Mul, Neg, Rem, Sub},
     process::Command,
 };
@@ -569,6 +569,9 @@ impl Expression {
                             }
                         }
 
+                        // Show what was printed so far before the program prints anything.
+                        let _ = std::io::stdout().flush();
+
                         match Command::new(&name)
                             .current_dir(env.get_cwd())
                             .args(
-- 
2.43.0


From 4d403961d24a90c64281302ccda3784754fe05fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 24/52] fix: respect the maximum depth of fs@tree, and list the
 root directory

---
 src/binary/init/fs_module.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index ed0a3b7..31f7728 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -12,10 +12,18 @@ fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expressi
     let mut dir_tree = b_tree_map! {};
 
     dir_tree.insert(".".to_string(), Expression::from(cwd.to_str().unwrap()));
-    dir_tree.insert(
-        "..".to_string(),
-        Expression::from(cwd.parent().unwrap().to_str().unwrap()),
-    );
+    // The root directory has no parent.
+    if let Some(parent) = cwd.parent() {
+        dir_tree.insert(
+            "..".to_string(),
+            Expression::from(parent.to_str().unwrap()),
+        );
+    }
+
+    // List nothing below the maximum depth.
+    if max_depth.map_or(false, |d| d <= 0) {
+        return dir_tree;
+    }
 
     if let Ok(entries) = std::fs::read_dir(cwd) {
         for entry in entries.flatten() {
-- 
2.43.0


From 22d419984e9499befc9e32b46e5470b3b34b6796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 25/52] fix: keep the order of the lines in fs@tail

---
 src/binary/init/fs_module.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 31f7728..70575ef 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -155,15 +155,12 @@ pub fn get(env: &mut Environment) -> Expression {
             };
 
             if let Ok(contents) = std::fs::read_to_string(path) {
-                let mut lines = contents.lines().rev();
+                let lines = contents.lines().collect::<Vec<_>>();
+                let n = usize::try_from(n).unwrap_or(0);
                 let mut result = String::new();
-                for _ in 0..n {
-                    if let Some(line) = lines.next() {
-                        result.push_str(line);
-                        result.push('\n');
-                    } else {
-                        break;
-                    }
+                for line in &lines[lines.len().saturating_sub(n)..] {
+                    result.push_str(line);
+                    result.push('\n');
                 }
                 Ok(result.into())
             } else {
-- 
2.43.0


From e5efa6183593257fb858559e86785bb08b811273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 26/52] fix: glob in the current working directory, and report
 invalid patterns

---
 src/binary/init/fs_module.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 70575ef..6c69c5c 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -333,7 +333,13 @@ pub fn get(env: &mut Environment) -> Expression {
             let pattern = args[0].eval(env)?.to_string();
             let mut result = vec![];
 
-            for entry in glob::glob(&pattern).unwrap() {
+            // A relative pattern is relative to the current working directory.
+            let full_pattern = PathBuf::from(glob::Pattern::escape(&env.get_cwd())).join(&pattern);
+            let paths = glob::glob(&full_pattern.to_string_lossy()).map_err(|e| {
+                Error::CustomError(format!("could not glob pattern {}: {:?}", pattern, e))
+            })?;
+
+            for entry in paths {
                 match entry {
                     Ok(path) => {
                         // Strip prefix from path
-- 
2.43.0


From cd386eb45804911db0ab6f3a8dccc16b6deda992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 27/52] fix: do not copy a directory into itself without end

---
 src/binary/init/fs_module.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 6c69c5c..92c3a8c 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -377,6 +377,17 @@ fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
 
     // If the source is a directory, recursively copy the directory.
     if src.is_dir() {
+        // A copy of a directory inside of itself would never end.
+        let existing = dst.ancestors().find(|path| path.exists());
+        if let (Ok(src), Some(Ok(dst))) = (src.canonicalize(), existing.map(Path::canonicalize)) {
+            if dst.starts_with(src) {
+                return Err(Error::CustomError(format!(
+                    "cannot copy a directory into itself, {}",
+                    dst.display()
+                )));
+            }
+        }
+
         // Create the destination directory and all of its parents.
         if std::fs::create_dir_all(dst).is_err() {
             return Err(Error::CustomError(format!(
-- 
2.43.0


From a7823becca36cc047ec0bf940b13222df24f75f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 28/52] fix: do not let variables of the caller replace the
 arguments of curried functions

---
 src/binary/init/fn_module.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/binary/init/fn_module.rs b/src/binary/init/fn_module.rs
index c9d16b9..e76748a 100644
--- a/src/binary/init/fn_module.rs
+++ b/src/binary/init/fn_module.rs
@@ -17,10 +17,11 @@ pub(super) fn curry_env(
             format!("arg{}", i),
             Box::new(result),
             Environment::default(),
-        )
-        .eval(env)?;
+        );
     }
-    Ok(result)
+    // Evaluate the outermost function only: an inner one would capture
+    // variables of the caller in place of the parameters of the outer ones.
+    result.eval(env)
 }
 
 pub(super) fn reverse_curry_env(
@@ -40,10 +41,11 @@ pub(super) fn reverse_curry_env(
             format!("arg{}", i),
             Box::new(result),
             Environment::default(),
-        )
-        .eval(env)?;
+        );
     }
-    Ok(result)
+    // Evaluate the outermost function only: an inner one would capture
+    // variables of the caller in place of the parameters of the outer ones.
+    result.eval(env)
 }
 
 pub fn reverse_curry(f: Expression, args: usize) -> Expression {
@@ -64,7 +66,10 @@ fn curry_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Express
     }
     let f = args[0].eval(env)?;
     if let Expression::Integer(arg_count) = args[1].eval(env)? {
-        curry_env(f, arg_count as usize, env)
+        let arg_count = usize::try_from(arg_count).map_err(|_| {
+            Error::CustomError(format!("cannot curry {} arguments", arg_count))
+        })?;
+        curry_env(f, arg_count, env)
     } else {
         Ok(f)
     }
-- 
2.43.0


From af2447d6a1388beb0e319a517349e3531a2ff17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 29/52] fix: evaluate the elements given to list@list

---
 src/binary/init/list_module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index b134c23..64eb8c5 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -43,8 +43,8 @@ pub fn get() -> Expression {
     .into()
 }
 
-fn list(args: Vec<Expression>, _env: &mut Environment) -> Result<Expression, Error> {
-    Ok(Expression::List(args))
+fn list(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
+    Expression::List(args).eval(env)
 }
 
 fn tail(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
-- 
2.43.0


From 08da378061bb7b6a464811bbda2aa68661ff282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:10 +0000
Subject: [PATCH 30/52] fix: log messages of several lines ended without a
 newline and repeated the prefix within a line

---
 src/binary/init/log_module.rs | 45 +++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/binary/init/log_module.rs b/src/binary/init/log_module.rs
index b04fa28..9f0b139 100644
--- a/src/binary/init/log_module.rs
+++ b/src/binary/init/log_module.rs
@@ -77,11 +77,12 @@ pub fn get() -> Expression {
                 // Split into lines and print each line with a green `[INFO]` prefix.
                 let lines = x.split('\n').collect::<Vec<&str>>();
                 if lines.len() > 1 {
-                    for (i, line) in lines.iter().enumerate() {
-                        if i < lines.len() - 1 {
-                            println!("{}{}", prefix, line);
+                    for (n, line) in lines.iter().enumerate() {
+                        let start = if n > 0 || last_was_newline { prefix } else { "" };
+                        if n < lines.len() - 1 {
+                            println!("{}{}", start, line);
                         } else if !line.is_empty() {
-                            print!("{}{}", prefix, line);
+                            print!("{}{}{}", start, line, if i < args.len() - 1 { " " } else { "\n" });
                         }
                     }
                 } else {
@@ -114,11 +115,12 @@ pub fn get() -> Expression {
                 // Split into lines and print each line with a green `[INFO]` prefix.
                 let lines = x.split('\n').collect::<Vec<&str>>();
                 if lines.len() > 1 {
-                    for (i, line) in lines.iter().enumerate() {
-                        if i < lines.len() - 1 {
-                            println!("{}{}", prefix, line);
+                    for (n, line) in lines.iter().enumerate() {
+                        let start = if n > 0 || last_was_newline { prefix } else { "" };
+                        if n < lines.len() - 1 {
+                            println!("{}{}", start, line);
                         } else if !line.is_empty() {
-                            print!("{}{}", prefix, line);
+                            print!("{}{}{}", start, line, if i < args.len() - 1 { " " } else { "\n" });
                         }
                     }
                 } else {
@@ -152,11 +154,12 @@ pub fn get() -> Expression {
                 // Split into lines and print each line with a green `[INFO]` prefix.
                 let lines = x.split('\n').collect::<Vec<&str>>();
                 if lines.len() > 1 {
-                    for (i, line) in lines.iter().enumerate() {
-                        if i < lines.len() - 1 {
-                            println!("{}{}", prefix, line);
+                    for (n, line) in lines.iter().enumerate() {
+                        let start = if n > 0 || last_was_newline { prefix } else { "" };
+                        if n < lines.len() - 1 {
+                            println!("{}{}", start, line);
                         } else if !line.is_empty() {
-                            print!("{}{}", prefix, line);
+                            print!("{}{}{}", start, line, if i < args.len() - 1 { " " } else { "\n" });
                         }
                     }
                 } else {
@@ -189,11 +192,12 @@ pub fn get() -> Expression {
                 // Split into lines and print each line with a green `[INFO]` prefix.
                 let lines = x.split('\n').collect::<Vec<&str>>();
                 if lines.len() > 1 {
-                    for (i, line) in lines.iter().enumerate() {
-                        if i < lines.len() - 1 {
-                            println!("{}{}", prefix, line);
+                    for (n, line) in lines.iter().enumerate() {
+                        let start = if n > 0 || last_was_newline { prefix } else { "" };
+                        if n < lines.len() - 1 {
+                            println!("{}{}", start, line);
                         } else if !line.is_empty() {
-                            print!("{}{}", prefix, line);
+                            print!("{}{}{}", start, line, if i < args.len() - 1 { " " } else { "\n" });
                         }
                     }
                 } else {
@@ -225,11 +229,12 @@ pub fn get() -> Expression {
                 // Split into lines and print each line with a green `[INFO]` prefix.
                 let lines = x.split('\n').collect::<Vec<&str>>();
                 if lines.len() > 1 {
-                    for (i, line) in lines.iter().enumerate() {
-                        if i < lines.len() - 1 {
-                            println!("{}{}", prefix, line);
+                    for (n, line) in lines.iter().enumerate() {
+                        let start = if n > 0 || last_was_newline { prefix } else { "" };
+                        if n < lines.len() - 1 {
+                            println!("{}{}", start, line);
                         } else if !line.is_empty() {
-                            print!("{}{}", prefix, line);
+                            print!("{}{}{}", start, line, if i < args.len() - 1 { " " } else { "\n" });
                         }
                     }
                 } else {
-- 
2.43.0


From b3e223e2ab71b02bea501cf91255e53cac9caae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 31/52] fix: log@get-level and log@disable could not be called
 with ()

---
 src/binary/init/log_module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/log_module.rs b/src/binary/init/log_module.rs
index 9f0b139..aba23f5 100644
--- a/src/binary/init/log_module.rs
+++ b/src/binary/init/log_module.rs
@@ -44,12 +44,12 @@ pub fn get() -> Expression {
         }, "set the log level"),
 
         String::from("get-level") => Expression::builtin("get-level", |args, _env| {
-            super::check_exact_args_len("get-level", &args, 0)?;
+            super::check_exact_args_len("get-level", &args, args.len().min(1))?;
             return Ok(Expression::Integer(*LOG_LEVEL.read().unwrap()))
         }, "get the log level"),
 
         String::from("disable") => Expression::builtin("disable", |args, _env| {
-            super::check_exact_args_len("disable", &args, 0)?;
+            super::check_exact_args_len("disable", &args, args.len().min(1))?;
             *LOG_LEVEL.write().unwrap() = NONE;
             Ok(Expression::None)
         }, "disable logging"),
-- 
2.43.0


From 6f41771f71498dc35af28f3c43feec96c4dde4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:15 +0000
Subject: [PATCH 32/52] fix: console@write overflowed at the last row number

---
 src/binary/init/console_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/console_module.rs b/src/binary/init/console_module.rs
index 0634696..3452913 100644
--- a/src/binary/init/console_module.rs
+++ b/src/binary/init/console_module.rs
@@ -214,7 +214,7 @@ fn write(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
                 print!(
                     "\x1b[s\x1b[{row};{column}H\x1b[{row};{column}f{content}\x1b[u",
                     column = x,
-                    row = y + y_offset as Int,
+                    row = y.saturating_add(y_offset as Int),
                     content = line
                 );
             }
-- 
2.43.0


From c5d5f8a9244fd46ec8c00e099543ee131671639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:06 +0000
Subject: [PATCH 33/52] fix: fmt@wrap panicked for a very large number of
 columns

---
 src/binary/init/fmt_module.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index 7c1262d..0d8b638 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -138,7 +138,9 @@ fn wrap(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Erro
     super::check_exact_args_len("wrap", &args, 2)?;
     match args[1].eval(env)? {
         Expression::Integer(columns) => {
-            Ok(textwrap::fill(&args[0].eval(env)?.to_string(), columns as usize).into())
+            let text = args[0].eval(env)?.to_string();
+            // More columns than there is text make no difference, but overflow the layout's costs.
+            Ok(textwrap::fill(&text, (columns as usize).min(text.len().max(1))).into())
         }
         otherwise => Err(Error::CustomError(format!(
             "expected number of columns in wrap, but got {}",
-- 
2.43.0


From f7639b73fadfa2f121bd524e2b98b0a758c5d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:04 +0000
Subject: [PATCH 34/52] fix: an interrupt started a second loop that took lines
 from the first

The handler of the interrupt ran the interactive loop in its own thread. As soon
as it got the locks the two loops took the typed lines in turns, so that a
statement over several lines was torn apart.
---
 src/bin.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index ee56c61..dff829f 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -671,15 +671,12 @@ fn run() -> Result<(), Error> {
     }
 
     let editor_ref = Arc::new(Mutex::new(rl));
-    let editor_ref_copy = editor_ref.clone();
 
     let env_ref = Arc::new(Mutex::new(env));
-    let env_ref_copy = env_ref.clone();
 
-    ctrlc::set_handler(move || {
-        repl(editor_ref_copy.clone(), env_ref_copy.clone()).expect("Error in REPL");
-    })
-    .expect("Error setting Ctrl-C handler");
+    // An interrupt ends the running program, and the loop below goes on. The
+    // handler must not start another loop: the two would share the lines typed.
+    ctrlc::set_handler(|| {}).expect("Error setting Ctrl-C handler");
 
     repl(editor_ref, env_ref)?;
 
-- 
2.43.0


From a713c0632c462999e4fe1360ca6dadbe508a8169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:29 +0000
Subject: [PATCH 35/52] hooks: completions of the line editor

---
 src/bin.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bin.rs b/src/bin.rs
index dff829f..7bad805 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -710,4 +710,16 @@ pub mod verif_hooks {
         let ctx = Context::new(&history);
         editor.helper().and_then(|h| h.hint(line, line.len(), &ctx))
     }
+
+    /// The completions the line editor offers at a place in the line, in the given
+    /// directory: where what they replace begins, and each as (shown, inserted).
+    pub fn complete(line: &str, pos: usize, cwd: &str) -> Option<(usize, Vec<(String, String)>)> {
+        let mut env = Environment::new();
+        env.set_cwd(cwd);
+        let editor = new_editor(&env);
+        let history = rustyline::history::History::new();
+        let ctx = Context::new(&history);
+        let (start, pairs) = editor.helper()?.complete(line, pos, &ctx).ok()?;
+        Some((start, pairs.into_iter().map(|p| (p.display, p.replacement)).collect()))
+    }
 }
-- 
2.43.0


From 3cc02479fcad4604261b2db41e9db6ae73ac271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:14 +0000
Subject: [PATCH 36/52] fix: a completion repeated the rest of the line when
 the directory is gone

Where the current directory does not exist, the path to complete went on after
the cursor, and the replacement contained what follows the cursor, which then
stood there twice.
---
 src/bin.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index 7bad805..046747c 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -139,8 +139,10 @@ impl Completer for DuneHelper {
         } else {
             let mut segment = String::new();
 
+            // What is right of the cursor is not part of the path.
+            let line = &line[..pos];
             if !line.is_empty() {
-                for (i, ch) in line.chars().enumerate() {
+                for ch in line.chars() {
                     if ch.is_whitespace()
                         || ch == ';'
                         || ch == '\''
@@ -154,10 +156,6 @@ impl Completer for DuneHelper {
                     } else {
                         segment.push(ch);
                     }
-
-                    if i == pos {
-                        break;
-                    }
                 }
 
                 if !segment.is_empty() {
@@ -169,13 +167,14 @@ impl Completer for DuneHelper {
                 + if segment.is_empty() { "/" } else { "" })
             .replace("/./", "/")
             .replace("//", "/");
-            let (pos, mut pairs) =
-                self.completer
-                    .complete(path_str.as_str(), path_str.len(), ctx)?;
+            let (_, mut pairs) = self
+                .completer
+                .complete(path_str.as_str(), path_str.len(), ctx)?;
             for pair in &mut pairs {
                 pair.replacement = String::from(line) + &pair.replacement.replace(&path_str, "");
             }
-            Ok((pos, pairs))
+            // The replacements start with the line up to the cursor.
+            Ok((0, pairs))
         }
     }
 }
-- 
2.43.0


From e6a231994aefab811ce66c1810a9f24b872ab862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:44 +0000
Subject: [PATCH 37/52] fix: reading keys, lines or passwords without a
 terminal, or text that is not UTF-8, crashed

---
 src/binary/init/console_module.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/binary/init/console_module.rs b/src/binary/init/console_module.rs
index 3452913..c43c606 100644
--- a/src/binary/init/console_module.rs
+++ b/src/binary/init/console_module.rs
@@ -118,15 +118,21 @@ pub fn get() -> Expression {
         String::from("keyboard") => Expression::Map(b_tree_map! {
             String::from("read-line") => Expression::builtin("read-line", |_, _| {
                 let mut buffer = String::new();
-                std::io::stdin().read_line(&mut buffer).unwrap();
+                std::io::stdin().read_line(&mut buffer).map_err(|e| {
+                    Error::CustomError(format!("could not read a line: {}", e))
+                })?;
                 Ok(Expression::String(buffer))
             }, "read a line from the keyboard"),
             String::from("read-password") => Expression::builtin("read-password", |_, _| {
-                let password = rpassword::read_password().unwrap();
+                let password = rpassword::read_password().map_err(|e| {
+                    Error::CustomError(format!("could not read a password: {}", e))
+                })?;
                 Ok(Expression::String(password))
             }, "read a password from the keyboard"),
             String::from("read-key") => Expression::builtin("read-key", |_, _| {
-                let key = crossterm::event::read().unwrap();
+                let key = crossterm::event::read().map_err(|e| {
+                    Error::CustomError(format!("could not read a key: {}", e))
+                })?;
                 // Get the key as a string.
                 let key = match key {
                     crossterm::event::Event::Key(key) => key,
-- 
2.43.0


From 29fceff3cd7c899c94eb6936fad42bb1c9ba4790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:44 +0000
Subject: [PATCH 38/52] fix: read-key gave wrong codes for the function keys

---
 src/binary/init/console_module.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/console_module.rs b/src/binary/init/console_module.rs
index c43c606..7e558b5 100644
--- a/src/binary/init/console_module.rs
+++ b/src/binary/init/console_module.rs
@@ -156,7 +156,11 @@ pub fn get() -> Expression {
                     Tab => Expression::String("\t".to_string()),
                     Esc => Expression::String("\x1b".to_string()),
                     Insert => Expression::String("\x1b[2~".to_string()),
-                    F(i) => Expression::String(format!("\x1b[{}~", i)),
+                    F(i @ 1..=12) => {
+                        // The numbers of the function keys have gaps.
+                        let numbers = [11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 23, 24];
+                        Expression::String(format!("\x1b[{}~", numbers[i as usize - 1]))
+                    }
                     Null => Expression::String("\x00".to_string()),
                     BackTab => Expression::String("\x1b[Z".to_string()),
                     _ => Expression::None
-- 
2.43.0


From 80fa1c0fe524f1e4ffaf9682c377a98127500ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:44 +0000
Subject: [PATCH 39/52] fix: the shell tried to read for ever when its input
 cannot be read

---
 src/bin.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bin.rs b/src/bin.rs
index 046747c..66389f5 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -21,6 +21,7 @@ use os_info::Type;
 
 use std::{
     borrow::Cow::{self, Borrowed, Owned},
+    io::ErrorKind,
     path::PathBuf,
     process::exit,
     sync::{Arc, Mutex},
@@ -97,6 +98,15 @@ fn readline(prompt: impl ToString, rl: &mut Editor<DuneHelper>) -> String {
             Err(ReadlineError::Eof) => exit(0),
             Err(err) => {
                 eprintln!("Error: {:?}", err);
+                let kind = match &err {
+                    ReadlineError::Io(err) => err.kind(),
+                    ReadlineError::Errno(err) => std::io::Error::from(*err).kind(),
+                    _ => ErrorKind::InvalidData,
+                };
+                // Text that is not UTF-8 is skipped; other errors would come again for ever.
+                if !matches!(kind, ErrorKind::InvalidData | ErrorKind::Interrupted) {
+                    exit(1)
+                }
             }
         }
     }
-- 
2.43.0


From fcd7d1cadd099d3476b3ed8b443921ec1a8dd0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:44 +0000
Subject: [PATCH 40/52] fix: stripping escapes removed text after links and
 other sequences

---
 src/bin.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index 66389f5..2e635c7 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -65,17 +65,27 @@ fn strip_ansi_escapes(text: impl ToString) -> String {
     let text = text.to_string();
 
     let mut result = String::new();
-    let mut is_in_escape = false;
-    for ch in text.chars() {
-        // If this is the start of a new escape
-        if ch == '\x1b' {
-            is_in_escape = true;
-        // If this is the end of an escape
-        } else if is_in_escape && ch == 'm' {
-            is_in_escape = false;
-        // If this is any other sort of text
-        } else if !is_in_escape {
+    let mut chars = text.chars();
+    while let Some(ch) = chars.next() {
+        if ch != '\x1b' {
             result.push(ch);
+            continue;
+        }
+        match chars.next() {
+            // A control sequence, like a color, goes on to its final letter.
+            Some('[') => {
+                chars.find(|ch| ('@'..='~').contains(ch));
+            }
+            // A command to the terminal, like a link, goes on to its terminator.
+            Some(']') => {
+                let mut last = ']';
+                chars.find(|ch| {
+                    let end = *ch == '\x07' || last == '\x1b' && *ch == '\\';
+                    last = *ch;
+                    end
+                });
+            }
+            _ => {}
         }
     }
 
-- 
2.43.0


From 61204e44dd43ab719e3a94781630bf1e3bdc1315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:44 +0000
Subject: [PATCH 41/52] fix: directories whose names are not UTF-8 crashed the
 shell

---
 src/binary/init/fs_module.rs    | 25 +++++++++++++++----------
 src/binary/init/os_module.rs    |  9 ++++++++-
 src/binary/init/shell_module.rs | 14 ++++++--------
 src/binary/init/sys_module.rs   |  5 ++++-
 4 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 92c3a8c..7cdfc16 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -48,34 +48,36 @@ fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expressi
     dir_tree
 }
 
+/// Get the path as a string, if it is valid unicode.
+fn path_to_string(path: PathBuf) -> Option<String> {
+    path.into_os_string().into_string().ok()
+}
+
 pub fn get(env: &mut Environment) -> Expression {
     let mut dir_tree = b_tree_map! {};
 
-    if let Some(home_dir) = dirs::home_dir() {
-        let home_dir = home_dir.into_os_string().into_string().unwrap();
+    if let Some(home_dir) = dirs::home_dir().and_then(path_to_string) {
         env.set_cwd(&home_dir);
         dir_tree.insert("home".to_string(), Expression::from(home_dir.clone()));
         env.define("HOME", Expression::String(home_dir));
     }
 
     if let Ok(cwd) = current_dir() {
-        env.set_cwd(&cwd.into_os_string().into_string().unwrap());
+        // A directory whose name is not valid unicode is still reached as `.`.
+        env.set_cwd(path_to_string(cwd).unwrap_or_else(|| ".".to_string()));
     }
 
-    if let Some(desk_dir) = dirs::desktop_dir() {
-        let desk_dir = desk_dir.into_os_string().into_string().unwrap();
+    if let Some(desk_dir) = dirs::desktop_dir().and_then(path_to_string) {
         dir_tree.insert("desk".to_string(), desk_dir.clone().into());
         env.define("DESK", Expression::String(desk_dir));
     }
 
-    if let Some(docs_dir) = dirs::document_dir() {
-        let docs_dir = docs_dir.into_os_string().into_string().unwrap();
+    if let Some(docs_dir) = dirs::document_dir().and_then(path_to_string) {
         dir_tree.insert("docs".to_string(), docs_dir.clone().into());
         env.define("DOCS", Expression::String(docs_dir));
     }
 
-    if let Some(down_dir) = dirs::download_dir() {
-        let down_dir = down_dir.into_os_string().into_string().unwrap();
+    if let Some(down_dir) = dirs::download_dir().and_then(path_to_string) {
         dir_tree.insert("down".to_string(), down_dir.clone().into());
         env.define("DOWN", Expression::String(down_dir));
     }
@@ -173,7 +175,10 @@ pub fn get(env: &mut Environment) -> Expression {
             let path = cwd.join(args[0].eval(env)?.to_string());
 
             if let Ok(canon_path) = dunce::canonicalize(&path) {
-                Ok(canon_path.into_os_string().into_string().unwrap().into())
+                match path_to_string(canon_path) {
+                    Some(canon_path) => Ok(canon_path.into()),
+                    None => Err(Error::CustomError(format!("the path of {} is not valid unicode", path.display())))
+                }
             } else {
                 Err(Error::CustomError(format!("could not canonicalize path {}", path.display())))
             }
diff --git a/src/binary/init/os_module.rs b/src/binary/init/os_module.rs
index 01ae0c7..6f15dcd 100644
--- a/src/binary/init/os_module.rs
+++ b/src/binary/init/os_module.rs
@@ -53,6 +53,13 @@ fn cd(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, dune::
                 })
             })?;
 
+            let new_cwd_str = new_cwd.to_str().ok_or_else(|| {
+                dune::Error::CustomError(format!(
+                    "the path of directory {:?} is not valid unicode",
+                    new_cwd
+                ))
+            })?;
+
             std::env::set_current_dir(&new_cwd).map_err(|e| {
                 dune::Error::CustomError(match format!("{:?}", e.kind()).as_str() {
                     "PermissionDenied" => {
@@ -68,7 +75,7 @@ fn cd(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, dune::
                 })
             })?;
 
-            env.set_cwd(new_cwd.into_os_string().into_string().unwrap());
+            env.set_cwd(new_cwd_str);
             Ok(Expression::None)
         }
 
diff --git a/src/binary/init/shell_module.rs b/src/binary/init/shell_module.rs
index 3ebe7b8..5d7d459 100644
--- a/src/binary/init/shell_module.rs
+++ b/src/binary/init/shell_module.rs
@@ -11,10 +11,9 @@ pub fn get() -> Expression {
         String::from("homepage") => Expression::String("https://github.com/adam-mcdaniel/dune".to_string()),
         String::from("version") => Expression::String(VERSION.to_string()),
         String::from("path") => {
-            if let Ok(path) = current_exe() {
-                Expression::String(path.to_str().unwrap().to_string())
-            } else {
-                Expression::None
+            match current_exe().ok().and_then(|path| path.to_str().map(String::from)) {
+                Some(path) => Expression::String(path),
+                None => Expression::None
             }
         },
         String::from("suggestion") => {
@@ -29,10 +28,9 @@ pub fn get() -> Expression {
             // Home directory + .dune-prelude
             let prelude_path = if let Some(home_dir) = dirs::home_dir() {
                 let prelude_path = home_dir.join(".dune-prelude");
-                if prelude_path.exists() {
-                    Expression::String(prelude_path.to_str().unwrap().to_string())
-                } else {
-                    Expression::None
+                match prelude_path.to_str() {
+                    Some(path) if prelude_path.exists() => Expression::String(path.to_string()),
+                    _ => Expression::None
                 }
             } else {
                 Expression::None
diff --git a/src/binary/init/sys_module.rs b/src/binary/init/sys_module.rs
index 111fc17..ca02e7f 100644
--- a/src/binary/init/sys_module.rs
+++ b/src/binary/init/sys_module.rs
@@ -56,7 +56,10 @@ pub fn get() -> Expression {
             let path = cwd.join(args[0].eval(env)?.to_string());
 
             if let Ok(canon_path) = dunce::canonicalize(&path) {
-                env.set_cwd(canon_path.to_str().unwrap().to_string());
+                match canon_path.to_str() {
+                    Some(path) => env.set_cwd(path),
+                    None => return Err(Error::CustomError(format!("the path of {} is not valid unicode", path.display())))
+                }
                 Ok(Expression::None)
             } else {
                 Err(Error::CustomError(format!("could not canonicalize path {}", path.display())))
-- 
2.43.0


From 80c1fe0bbc070eb3193b6de4ad5a807f6be655bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:44 +0000
Subject: [PATCH 42/52] fix: fs@ls lost the directory of names that are not
 UTF-8

---
 src/binary/init/fs_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 7cdfc16..e683659 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -501,7 +501,7 @@ fn list_directory(dir: &Path, short: &Path) -> Result<Expression, Error> {
                         // If we cannot directly convert the filename to a string,
                         // it's probably an invalid UTF-8 string.
                         // In this case, we remove the invalid bytes and try again.
-                        Err(file_name) => file_name.to_string_lossy().to_string(),
+                        Err(file_name) => short.join(file_name).to_string_lossy().to_string(),
                     });
                 } else {
                     // If an entry is invalid, throw an error.
-- 
2.43.0


From a7eee56739475fc442029de2f38d6d5ca1bffcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:44 +0000
Subject: [PATCH 43/52] fix: Amazon Linux and Solus belong to the linux family

---
 src/bin.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index 2e635c7..91eb045 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -422,8 +422,9 @@ fn get_os_name(t: &Type) -> String {
 
 fn get_os_family(t: &Type) -> String {
     match t {
-        Type::Amazon | Type::Android => "android",
+        Type::Android => "android",
         Type::Alpine
+        | Type::Amazon
         | Type::Arch
         | Type::CentOS
         | Type::Debian
@@ -437,10 +438,11 @@ fn get_os_family(t: &Type) -> String {
         | Type::Pop
         | Type::Redhat
         | Type::RedHatEnterprise
+        | Type::Solus
         | Type::SUSE
         | Type::Ubuntu => "linux",
 
-        Type::Macos | Type::Solus | Type::Redox => "unix",
+        Type::Macos | Type::Redox => "unix",
 
         Type::Windows => "windows",
 
-- 
2.43.0


From a3e3f15e5cccdcb477b88b64f2969d47b38a364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:52 +0000
Subject: [PATCH 44/52] fix: the preludes failed where the width of the
 terminal is not known

---
 src/.default-dune-prelude | 14 ++++++++++++--
 src/.intro-dune-prelude   | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/.default-dune-prelude b/src/.default-dune-prelude
index 18bf3d2..505382c 100644
--- a/src/.default-dune-prelude
+++ b/src/.default-dune-prelude
@@ -463,7 +463,12 @@ let shrewsay = text -> {
     let title = "Wild Dune Shrew";
 
     let text = (std@string@to-string text);
-    let cols = math@min (math@max ((console@width ()) // 2) (string@get-width text)) (console@width ());
+    let width = console@width ();
+    # The output might not be a terminal
+    if width == None {
+        let width = 80
+    }
+    let cols = math@min (math@max (width // 2) (string@get-width text)) width;
     let text = fmt@wrap text cols;
     let text-lines = lines text;
     if (len text-lines) == 1 {
@@ -491,7 +496,12 @@ let turnedshrewsay = text -> {
     let text = (std@string@to-string text);
 
     let text = (std@string@to-string text);
-    let cols = math@min (math@max ((console@width ()) // 2) (string@get-width text)) (console@width ());
+    let width = console@width ();
+    # The output might not be a terminal
+    if width == None {
+        let width = 80
+    }
+    let cols = math@min (math@max (width // 2) (string@get-width text)) width;
     let text = fmt@wrap text cols;
     let text-lines = lines text;
     if (len text-lines) == 1 {
diff --git a/src/.intro-dune-prelude b/src/.intro-dune-prelude
index b244e0e..666fbf3 100644
--- a/src/.intro-dune-prelude
+++ b/src/.intro-dune-prelude
@@ -118,7 +118,12 @@ let shrewsay = text -> {
     let title = "Wild Dune Shrew";
 
     let text = (std@string@to-string text);
-    let cols = math@min (math@max ((console@width ()) // 2) (string@get-width text)) (console@width ());
+    let width = console@width ();
+    # The output might not be a terminal
+    if width == None {
+        let width = 80
+    }
+    let cols = math@min (math@max (width // 2) (string@get-width text)) width;
     let text = fmt@wrap text cols;
     let text-lines = lines text;
     if (len text-lines) == 1 {
@@ -146,7 +151,12 @@ let turnedshrewsay = text -> {
     let text = (std@string@to-string text);
 
     let text = (std@string@to-string text);
-    let cols = math@min (math@max ((console@width ()) // 2) (string@get-width text)) (console@width ());
+    let width = console@width ();
+    # The output might not be a terminal
+    if width == None {
+        let width = 80
+    }
+    let cols = math@min (math@max (width // 2) (string@get-width text)) width;
     let text = fmt@wrap text cols;
     let text-lines = lines text;
     if (len text-lines) == 1 {
-- 
2.43.0


From 94aab3ab03f9d783c2f65109cddb8669c59d66ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:52 +0000
Subject: [PATCH 45/52] fix: shrewsay lost text of wide characters

---
 src/.default-dune-prelude | 6 ++++--
 src/.intro-dune-prelude   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/.default-dune-prelude b/src/.default-dune-prelude
index 505382c..e802f7a 100644
--- a/src/.default-dune-prelude
+++ b/src/.default-dune-prelude
@@ -477,7 +477,8 @@ let shrewsay = text -> {
         }
     }
     let cols = math@max cols (len title);
-    let rows = len text-lines;
+    # Wide characters might need more lines than one
+    let rows = len (lines (fmt@wrap text cols));
     let spacing = 25;
 
     for line in (lines (widget@create title text cols + 2 rows + 2)) {
@@ -510,7 +511,8 @@ let turnedshrewsay = text -> {
         }
     }
     let cols = math@max cols (len title);
-    let rows = len text-lines;
+    # Wide characters might need more lines than one
+    let rows = len (lines (fmt@wrap text cols));
     let spacing = 20;
 
     for line in (lines (widget@create title text cols + 2 rows + 2)) {
diff --git a/src/.intro-dune-prelude b/src/.intro-dune-prelude
index 666fbf3..3a5e5ed 100644
--- a/src/.intro-dune-prelude
+++ b/src/.intro-dune-prelude
@@ -132,7 +132,8 @@ let shrewsay = text -> {
         }
     }
     let cols = math@max cols (len title);
-    let rows = len text-lines;
+    # Wide characters might need more lines than one
+    let rows = len (lines (fmt@wrap text cols));
     let spacing = 25;
 
     for line in (lines (widget@create title text cols + 2 rows + 2)) {
@@ -165,7 +166,8 @@ let turnedshrewsay = text -> {
         }
     }
     let cols = math@max cols (len title);
-    let rows = len text-lines;
+    # Wide characters might need more lines than one
+    let rows = len (lines (fmt@wrap text cols));
     let spacing = 20;
 
     for line in (lines (widget@create title text cols + 2 rows + 2)) {
-- 
2.43.0


From a16fb863251f0aca71f2feba4db1e4c9b4f313ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:52 +0000
Subject: [PATCH 46/52] fix: the city set in the secrets was overwritten by the
 prelude

---
 src/.default-dune-prelude | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/.default-dune-prelude b/src/.default-dune-prelude
index e802f7a..5464452 100644
--- a/src/.default-dune-prelude
+++ b/src/.default-dune-prelude
@@ -750,12 +750,14 @@ let welcome = _ ~> {
 
 let DUNE_SECRETS_FILE = HOME + "/.dune-secrets";
 
+# This city is used until another is set
+let CITY = Knoxville;
+
 clear ();
 if (fs@exists? DUNE_SECRETS_FILE) {
     include DUNE_SECRETS_FILE;
 }
 
-let CITY = Knoxville;
 welcome ();
 
 if (!(fs@exists? DUNE_SECRETS_FILE)) {
-- 
2.43.0


From fbfcdee82bef0bfe810e4bebbca0475888cd8454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:52 +0000
Subject: [PATCH 47/52] hooks: the start-up scripts

---
 src/bin.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bin.rs b/src/bin.rs
index 91eb045..883ccb6 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -714,6 +714,12 @@ pub mod verif_hooks {
         binary::init(env)
     }
 
+    /// The start-up scripts the shell comes with: the one it writes, and the one of the
+    /// first start.
+    pub fn preludes() -> (&'static str, &'static str) {
+        (DEFAULT_PRELUDE, INTRO_PRELUDE)
+    }
+
     /// Highlight a line like the line editor does.
     pub fn highlight(line: &str) -> String {
         syntax_highlight(line)
-- 
2.43.0


From fb860ab97c0fa64519bd29170cce4e90d9adea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:51 +0000
Subject: [PATCH 48/52] fix: fmt@wrap panicked for texts of more than about
 46000 characters

---
 src/binary/init/fmt_module.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index 0d8b638..686f60b 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -140,7 +140,14 @@ fn wrap(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Erro
         Expression::Integer(columns) => {
             let text = args[0].eval(env)?.to_string();
             // More columns than there is text make no difference, but overflow the layout's costs.
-            Ok(textwrap::fill(&text, (columns as usize).min(text.len().max(1))).into())
+            let columns = (columns as usize).min(text.len().max(1));
+            // The costs of the optimal layout of a long text overflow as well.
+            if text.len() > 16_384 {
+                let options = textwrap::Options::new(columns)
+                    .wrap_algorithm(textwrap::wrap_algorithms::FirstFit);
+                return Ok(textwrap::fill(&text, options).into());
+            }
+            Ok(textwrap::fill(&text, columns).into())
         }
         otherwise => Err(Error::CustomError(format!(
             "expected number of columns in wrap, but got {}",
-- 
2.43.0


From d16142cd04bfe4487a8b2259a3e4a7d4a038b3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:58 +0000
Subject: [PATCH 49/52] fix: defining functions took time and memory
 exponential in the number of functions they mention

---
 src/binary/init/mod.rs             |  2 +-
 src/binary/init/operator_module.rs | 11 +++++------
 src/env.rs                         | 12 +++++++-----
 src/expr.rs                        |  7 +++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/binary/init/mod.rs b/src/binary/init/mod.rs
index f5bc03e..70f733c 100644
--- a/src/binary/init/mod.rs
+++ b/src/binary/init/mod.rs
@@ -292,7 +292,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "vars",
-        |_, env| Ok(env.bindings.clone().into()),
+        |_, env| Ok(env.clone().into()),
         "get a table of the defined variables",
     );
 
diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index 72fa45a..40f480f 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -280,7 +280,7 @@ pub fn get(env: &mut Environment) -> Expression {
     );
 
     let mut new_tmp = env.clone();
-    for (name, val) in &tmp.bindings {
+    for (name, val) in tmp.bindings.iter() {
         new_tmp.define(name, val.clone());
     }
 
@@ -305,11 +305,11 @@ pub fn get(env: &mut Environment) -> Expression {
 
     let bindings = tmp.bindings.clone();
 
-    for (name, val) in &bindings {
+    for (name, val) in bindings.iter() {
         env.define(name, val.clone());
     }
 
-    Expression::Map(tmp.bindings)
+    tmp.into()
 }
 
 fn pipe_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
@@ -485,9 +485,8 @@ fn expr_to_command<'a>(
 ) -> Result<Option<&'a mut Command>, Error> {
     let bindings = env
         .bindings
-        .clone()
-        .into_iter()
-        .map(|(k, v)| (k, v.to_string()))
+        .iter()
+        .map(|(k, v)| (k.clone(), v.to_string()))
         // This is to prevent environment variables from getting too large.
         // This causes some strange bugs on Linux: mainly it becomes
         // impossible to execute any program because `the argument
diff --git a/src/env.rs b/src/env.rs
index 574716e..7f741f1 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -1,11 +1,13 @@
 use super::{Error, Expression};
-use std::collections::BTreeMap;
+use std::{collections::BTreeMap, sync::Arc};
 
 const CWD_ENV_VAR: &str = "CWD";
 
 #[derive(Debug, Clone, PartialEq, PartialOrd)]
 pub struct Environment {
-    pub bindings: BTreeMap<String, Expression>,
+    // Shared: every function keeps the variables it uses, so the bindings
+    // are copied only when they are changed.
+    pub bindings: Arc<BTreeMap<String, Expression>>,
     parent: Option<Box<Self>>,
 }
 
@@ -18,7 +20,7 @@ impl Default for Environment {
 impl Environment {
     pub fn new() -> Self {
         Self {
-            bindings: BTreeMap::new(),
+            bindings: Arc::new(BTreeMap::new()),
             parent: None,
         }
     }
@@ -66,11 +68,11 @@ impl Environment {
     }
 
     pub fn undefine(&mut self, name: &str) {
-        self.bindings.remove(name);
+        Arc::make_mut(&mut self.bindings).remove(name);
     }
 
     pub fn define(&mut self, name: &str, expr: Expression) {
-        self.bindings.insert(name.to_string(), expr);
+        Arc::make_mut(&mut self.bindings).insert(name.to_string(), expr);
     }
 
     pub fn define_builtin(
diff --git a/src/expr.rs b/src/expr.rs
index 396ca5e..fd17529 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -88,7 +88,7 @@ where
 
 impl From<Environment> for Expression {
     fn from(env: Environment) -> Self {
-        Self::Map(env.bindings.into_iter().collect::<BTreeMap<String, Self>>())
+        Self::Map((*env.bindings).clone())
     }
 }
 
@@ -542,9 +542,8 @@ impl Expression {
                     Self::Symbol(name) | Self::String(name) => {
                         let bindings = env
                             .bindings
-                            .clone()
-                            .into_iter()
-                            .map(|(k, v)| (k, v.to_string()))
+                            .iter()
+                            .map(|(k, v)| (k.clone(), v.to_string()))
                             // This is to prevent environment variables from getting too large.
                             // This causes some strange bugs on Linux: mainly it becomes
                             // impossible to execute any program because `the argument
-- 
2.43.0


From 7c4d8cc31282f589124e09983c7aa96dbee7919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:56 +0000
Subject: [PATCH 50/52] fix: the report of a syntax error over several lines
 did not mark it after a long beginning of its line

---
 src/error.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 3d382f0..1a6556e 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -221,11 +221,12 @@ fn print_error_lines(
 
         writeln!(f, "{:>5} | {}", first_line_number, line)?;
     } else {
+        // Cut the text, but not the codes that mark the error.
         let first_line = line_before
             .chars()
-            .chain(RED_START.chars())
-            .chain(lines[0].chars())
             .take(max_width)
+            .chain(RED_START.chars())
+            .chain(lines[0].chars().take(max_width))
             .chain(RESET.chars())
             .collect::<String>();
         write!(f, "{:>5} | {}", first_line_number, first_line)?;
-- 
2.43.0


From 18f19405e0fec27d163bfcdf54a85ab860a58fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:40 +0000
Subject: [PATCH 51/52] fix: math@isodd and math@iseven were wrong for floats
 beyond the integers

---
 src/binary/init/math_module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/math_module.rs b/src/binary/init/math_module.rs
index f4e28b2..f1ab529 100644
--- a/src/binary/init/math_module.rs
+++ b/src/binary/init/math_module.rs
@@ -314,7 +314,7 @@ pub fn get(env: &mut Environment) -> Expression {
             super::check_exact_args_len("odd", &args, 1)?;
             Ok(match args[0].eval(env)? {
                 Expression::Integer(i) => i % 2 != 0,
-                Expression::Float(f) => (f as Int) % 2 != 0,
+                Expression::Float(f) => (f.trunc() % 2.0).abs() == 1.0,
                 e => return Err(Error::CustomError(format!("invalid isodd argument {}", e)))
             }.into())
         }, "is a number odd?"),
@@ -323,7 +323,7 @@ pub fn get(env: &mut Environment) -> Expression {
             super::check_exact_args_len("even", &args, 1)?;
             Ok(match args[0].eval(env)? {
                 Expression::Integer(i) => i % 2 == 0,
-                Expression::Float(f) => (f as Int) % 2 == 0,
+                Expression::Float(f) => f.trunc() % 2.0 == 0.0,
                 e => return Err(Error::CustomError(format!("invalid iseven argument {}", e)))
             }.into())
         }, "is a number even?"),
-- 
2.43.0


From 562985a1d8700a95e59bc044bf8b60885e4d346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:40 +0000
Subject: [PATCH 52/52] fix: fs@tree and fs@cp of links that lead back to a
 directory they are in had no end

---
 src/binary/init/fs_module.rs | 39 ++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index e683659..7bf1a6f 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -8,7 +8,12 @@ use super::Int;
 use common_macros::b_tree_map;
 use dune::{Environment, Error, Expression};
 
-fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expression> {
+/// Get the nested map of a directory. `above` are the directories it was reached through.
+fn get_dir_tree(
+    cwd: &Path,
+    max_depth: Option<Int>,
+    above: &mut Vec<PathBuf>,
+) -> BTreeMap<String, Expression> {
     let mut dir_tree = b_tree_map! {};
 
     dir_tree.insert(".".to_string(), Expression::from(cwd.to_str().unwrap()));
@@ -25,15 +30,17 @@ fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expressi
         return dir_tree;
     }
 
+    let depth = above.len();
+    above.extend(cwd.canonicalize());
     if let Ok(entries) = std::fs::read_dir(cwd) {
         for entry in entries.flatten() {
             let path = entry.path();
             let file_name_osstring = entry.file_name();
             if let Ok(file_name) = file_name_osstring.into_string() {
-                if path.is_dir() {
+                if path.is_dir() && !leads_back(&path, above) {
                     dir_tree.insert(
                         file_name,
-                        Expression::from(get_dir_tree(&path, max_depth.map(|d| d - 1))),
+                        Expression::from(get_dir_tree(&path, max_depth.map(|d| d - 1), above)),
                     );
                 } else {
                     dir_tree.insert(
@@ -44,10 +51,16 @@ fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expressi
             }
         }
     }
+    above.truncate(depth);
 
     dir_tree
 }
 
+/// Do links lead from one of the directories a path was reached through back to it?
+fn leads_back(path: &Path, above: &[PathBuf]) -> bool {
+    path.canonicalize().map_or(false, |path| above.contains(&path))
+}
+
 /// Get the path as a string, if it is valid unicode.
 fn path_to_string(path: PathBuf) -> Option<String> {
     path.into_os_string().into_string().ok()
@@ -114,7 +127,7 @@ pub fn get(env: &mut Environment) -> Expression {
             }
 
             // Get the directory tree
-            let dir_tree = get_dir_tree(&cwd, max_depth);
+            let dir_tree = get_dir_tree(&cwd, max_depth, &mut vec![]);
             // Return the directory tree
             Ok(dir_tree.into())
         }, "get the directory tree as a nested map, with a max depth and a path"),
@@ -221,7 +234,7 @@ pub fn get(env: &mut Environment) -> Expression {
             let src = cwd.join(args[0].eval(env)?.to_string());
             let dst = cwd.join(args[1].eval(env)?.to_string());
 
-            copy_path(&src, &dst)?;
+            copy_path(&src, &dst, &mut vec![])?;
 
             Ok(Expression::None)
         }, "copy a source path to a destination path"),
@@ -366,8 +379,8 @@ pub fn get(env: &mut Environment) -> Expression {
     Expression::Map(fs_module)
 }
 
-/// Copy one path to another path.
-fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
+/// Copy one path to another path. `above` are the directories the source was reached through.
+fn copy_path(src: &Path, dst: &Path, above: &mut Vec<PathBuf>) -> Result<(), Error> {
     if src == dst {
         return Ok(());
     }
@@ -402,6 +415,8 @@ fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
         }
 
         // Get the entries of the source directory
+        let depth = above.len();
+        above.extend(src.canonicalize());
         if let Ok(entries) = std::fs::read_dir(src) {
             for entry in entries {
                 // For every valid entry, copy it to the destination recursively.
@@ -409,8 +424,15 @@ fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
                     // Get the source file's new path relative to the destination
                     let path = entry.path();
                     let dst_path = dst.join(entry.file_name());
+                    // A link back to a directory it is in has no end either.
+                    if leads_back(&path, above) {
+                        return Err(Error::CustomError(format!(
+                            "cannot copy {}, it leads back to a directory it is in",
+                            path.display()
+                        )));
+                    }
                     // Copy the path to its destination.
-                    copy_path(&path, &dst_path)?;
+                    copy_path(&path, &dst_path, above)?;
                 } else {
                     // If an entry is not valid, throw an error.
                     return Err(Error::CustomError(format!(
@@ -426,6 +448,7 @@ fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
                 dst.display()
             )));
         }
+        above.truncate(depth);
     // If the directory is a file, try to copy it.
     } else if std::fs::copy(src, dst).is_err() {
         // If copying the file fails, throw an error.
-- 
2.43.0

