From 2807f680925312ba3cd9fc52324f557048220de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 01/23] fix: reject a ! before any command of a pipeline even
 after whitespace

`! ! foo` ran a command called `!`, although `!!foo` and `! a |! b` were errors.
---
 src/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.rs b/src/parse.rs
index 3c565d4..e2f78b0 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -551,6 +551,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         loop {
             // We've already passed an apropriate spot for !, so it
             // is an error if it appears before the start of a command.
+            self.skip_whitespace();
             if let Some(&Bang) = self.iter.peek() {
                 return Err(self.make_unexpected_err());
             }
-- 
2.43.0


From 9a30da2018d26ed6b7fd6ddf5a2f8b9cb2a7e492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 02/23] fix: do not take a word with a sign for a file
 descriptor

`echo +5>out` redirected descriptor 5 and dropped the argument `+5`.
---
 src/parse.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index e2f78b0..9900791 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -721,8 +721,17 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         }
 
         fn as_num<C>(word: &ComplexWordKind<C>) -> Option<u16> {
+            // NB `from_str_radix` also accepts a leading sign
+            let parse = |s: &str| {
+                if s.chars().all(|c| c.is_digit(10)) {
+                    u16::from_str_radix(s, 10).ok()
+                } else {
+                    None
+                }
+            };
+
             match *word {
-                Single(Simple(SimpleWordKind::Literal(ref s))) => u16::from_str_radix(s, 10).ok(),
+                Single(Simple(SimpleWordKind::Literal(ref s))) => parse(s),
                 Single(_) => None,
                 Concat(ref fragments) => {
                     let mut buf = String::new();
@@ -734,7 +743,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         }
                     }
 
-                    u16::from_str_radix(&buf, 10).ok()
+                    parse(&buf)
                 }
             }
         }
-- 
2.43.0


From 0dc7d60cce75ffdd3a9fe704363cc4b9554b2d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 03/23] fix: strip only the leading tabs of a line in a <<-
 heredoc

Tabs between the words of a line were removed as well.
---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 9900791..1743f80 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1011,7 +1011,8 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             let mut line_start_pos = self.iter.pos();
             let mut line = Vec::new();
             'line: loop {
-                if strip_tabs {
+                // Only the tabs which lead a line are stripped
+                if strip_tabs && line.is_empty() {
                     let skip_next = if let Some(&Whitespace(ref w)) = self.iter.peek() {
                         let stripped = w.trim_start_matches('\t');
                         let num_tabs = w.len() - stripped.len();
-- 
2.43.0


From aa4c0e97368a94120a6099adc70e1c1e16997ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 04/23] fix: count the peeked character in the upper bound of
 Lexer::size_hint

After the first token of `a;` the hint was (1, Some(0)).
---
 src/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index af7b2eb..23c5afb 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -261,6 +261,7 @@ impl<I: Iterator<Item = char>> Iterator for Lexer<I> {
         // is better than no estimate.
         let (_, hi) = self.inner.size_hint();
         let low = if self.peeked.is_some() { 1 } else { 0 };
-        (low, hi)
+        // A peeked character is no longer part of the inner iterator
+        (low, hi.and_then(|hi| hi.checked_add(low)))
     }
 }
-- 
2.43.0


From 59386e1e1551b589061f7458538c6b711e6e6cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 05/23] fix: accept redirections after the body of `function
 name (subshell)`

Every other form of function body takes them.
---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 1743f80..4e2f93b 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2284,7 +2284,8 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     None
                 } else {
                     // Case like `function foo (subshell)`
-                    Some(self.builder.subshell(subshell, Vec::new())?)
+                    let io = self.redirect_list()?;
+                    Some(self.builder.subshell(subshell, io)?)
                 }
             } else {
                 None
-- 
2.43.0


From 2fc2fbc76c5f2d6e220dd32b826e86a7a0b4e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 06/23] fix: keep the comments before the ; of a for command
 without words

The comment on the second line of `for x\n#c\n; do` was lost.
---
 src/parse.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 4e2f93b..1c3032d 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1990,7 +1990,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         };
 
         let var_comment = self.newline();
-        let post_var_comments = self.linebreak();
+        let mut post_var_comments = self.linebreak();
 
         // A for command can take one of several different shapes (in pseudo regex syntax):
         // `for name [\n*] [in [word*]] [;\n* | \n+] do_group`
@@ -2024,7 +2024,8 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         } else if Some(&Semi) == self.iter.peek() {
             // `for name \n*;\n* do_group`
             eat!(self, { Semi => {} });
-            (None, self.linebreak())
+            post_var_comments.append(&mut self.linebreak());
+            (None, post_var_comments)
         } else if self.peek_reserved_word(&[DO]).is_none() {
             // If we didn't find an `in` keyword, and we havent hit the body
             // (a `do` keyword), then we can reasonably say the script has
-- 
2.43.0


From 494a8d877fda50da17aeb53ff20dc3861371a128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 07/23] fix: do not match parentheses which appear between
 double quotes

`echo "("` between backticks, or on the line of a heredoc, was an unmatched
parenthesis.
---
 src/parse/iter.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index e874b8d..070d423 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -449,6 +449,8 @@ pub struct Balanced<I> {
     stack: Vec<(Token, SourcePos)>,
     /// Indicates if we should yield the final, outermost delimeter.
     skip_last_delimeter: bool,
+    /// Indicates if the next token is the parenthesis of a `$(`.
+    paren_subst: bool,
     /// Makes the iterator *fused* by yielding None forever after we are done.
     done: bool,
     /// The current position of the iterator.
@@ -470,6 +472,7 @@ impl<I: PositionIterator> Balanced<I> {
             escaped: None,
             skip_last_delimeter: delim.is_some(),
             stack: delim.map_or(Vec::new(), |d| vec![d]),
+            paren_subst: false,
             done: false,
             pos: iter.pos(),
             iter,
@@ -555,7 +558,12 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
             }
 
             Some(ParenOpen) => {
-                self.stack.push((ParenClose, cur_pos));
+                // Parentheses between double quotes only need to be matched
+                // if they are part of a substitution
+                if self.paren_subst || self.stack.last().map(|t| &t.0) != Some(&DoubleQuote) {
+                    self.stack.push((ParenClose, cur_pos));
+                }
+                self.paren_subst = false;
                 Some(Ok(ParenOpen))
             }
 
@@ -563,7 +571,7 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
                 let cur_pos = self.iter.pos(); // Want the pos of curly or paren, not $ here
                 match self.iter.peek() {
                     Some(&CurlyOpen) => self.stack.push((CurlyClose, cur_pos)),
-                    Some(&ParenOpen) => {} // Already handled by paren case above
+                    Some(&ParenOpen) => self.paren_subst = true, // Handled by paren case above
 
                     // We have nothing further to match
                     _ => {
-- 
2.43.0


From 95aac065703fde0329dd49afabe25ff9e63d636f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 08/23] fix: report the end of a heredoc body where it is

Errors about a command cut short by the end of the body pointed to its start.
---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 1c3032d..cfe893d 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1006,9 +1006,11 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         }
 
         let heredoc_start_pos = self.iter.pos();
+        let mut heredoc_end_pos;
         let mut heredoc = Vec::new();
         'heredoc: loop {
             let mut line_start_pos = self.iter.pos();
+            heredoc_end_pos = line_start_pos;
             let mut line = Vec::new();
             'line: loop {
                 // Only the tabs which lead a line are stripped
@@ -1087,7 +1089,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             let body = heredoc.into_iter().flat_map(|(t, _)| t).collect::<Vec<_>>();
             Single(Simple(SimpleWordKind::Literal(concat_tokens(&body))))
         } else {
-            let mut tok_iter = TokenIter::with_position(empty_iter(), heredoc_start_pos);
+            let mut tok_iter = TokenIter::with_position(empty_iter(), heredoc_end_pos);
             while let Some((line, pos)) = heredoc.pop() {
                 tok_iter.buffer_tokens_to_yield_first(line, pos);
             }
-- 
2.43.0


From 477923dc272c25df55e1ec13e8aa087256255131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 09/23] fix: ignore quotes in a comment on the line of a
 heredoc

`cat <<EOF # it's` was an unmatched quote.
---
 src/parse.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index cfe893d..7b29084 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -993,16 +993,33 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         // we feed it).
         let saved_pos = self.iter.pos();
         let mut saved_tokens = Vec::new();
-        while self.iter.peek().is_some() {
+        // Quotes have no special meaning within a comment, which may only
+        // start after an unquoted blank or operator
+        let mut comment_can_start = true;
+        let mut in_comment = false;
+        while let Some(t) = self.iter.peek() {
             // Make sure we save all tokens until the next UNQUOTED newilne
-            if let Some(&Newline) = self.iter.peek() {
+            if t == &Newline {
                 saved_tokens.push(self.iter.next().unwrap());
                 break;
             }
 
+            in_comment |= comment_can_start && t == &Pound;
+            if in_comment {
+                saved_tokens.push(self.iter.next().unwrap());
+                continue;
+            }
+
+            let start = saved_tokens.len();
             for t in self.iter.balanced() {
                 saved_tokens.push(try_map!(t));
             }
+
+            comment_can_start = match &saved_tokens[start..] {
+                [t] => t.is_word_delimiter(),
+                [ParenOpen, ..] | [Backslash, Newline] => true,
+                _ => false,
+            };
         }
 
         let heredoc_start_pos = self.iter.pos();
-- 
2.43.0


From 7d181cb7b4137ce6a9c1e5b073e9e26b3724d764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 10/23] fix: do not panic on a heredoc body which ends in a
 backslash

---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 7b29084..911f405 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1351,7 +1351,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         _ => false,
                     };
 
-                    if special || self.iter.peek() == delim_close.as_ref() {
+                    if special
+                        || (delim_close.is_some() && self.iter.peek() == delim_close.as_ref())
+                    {
                         store!(SimpleWordKind::Escaped(
                             self.iter.next().unwrap().to_string()
                         ))
-- 
2.43.0


From 571d2d03dd395673cd294d7fc513f40ee6897d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 11/23] fix: parse +--x as + --x and -++x as - ++x

---
 src/parse.rs | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 911f405..441c105 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2825,12 +2825,6 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             Tilde => { ast::Arithmetic::BitwiseNot(Box::new(self.arith_unary_misc()?)) },
             Plus  => {
                 eat_maybe!(self, {
-                    // Although we can optimize this out, we'll let the AST builder handle
-                    // optimizations, in case it is interested in such redundant situations.
-                    Dash => {
-                        let next = self.arith_unary_misc()?;
-                        ast::Arithmetic::UnaryPlus(Box::new(ast::Arithmetic::UnaryMinus(Box::new(next))))
-                    },
                     Plus => { ast::Arithmetic::PreIncr(self.arith_var()?) };
                     _ => { ast::Arithmetic::UnaryPlus(Box::new(self.arith_unary_misc()?)) }
                 })
@@ -2838,12 +2832,6 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
             Dash  => {
                 eat_maybe!(self, {
-                    // Although we can optimize this out, we'll let the AST builder handle
-                    // optimizations, in case it is interested in such redundant situations.
-                    Plus => {
-                        let next = self.arith_unary_misc()?;
-                        ast::Arithmetic::UnaryMinus(Box::new(ast::Arithmetic::UnaryPlus(Box::new(next))))
-                    },
                     Dash => { ast::Arithmetic::PreDecr(self.arith_var()?) };
                     _ => { ast::Arithmetic::UnaryMinus(Box::new(self.arith_unary_misc()?)) }
                 })
-- 
2.43.0


From e8a7e49d71d472b27b91e5478ac7084a5d5dc6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 12/23] fix: reject ${x:} instead of dropping the colon

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 441c105..74f84e0 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1588,7 +1588,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         let op = match self.iter.next() {
             Some(tok @ Dash) | Some(tok @ Equals) | Some(tok @ Question) | Some(tok @ Plus) => tok,
 
-            Some(CurlyClose) => return Ok(SimpleWordKind::Param(param)),
+            Some(CurlyClose) if !has_colon => return Ok(SimpleWordKind::Param(param)),
 
             Some(t) => return Err(ParseError::BadSubst(t, op_pos)),
             None => return Err(ParseError::Unmatched(CurlyOpen, curly_open_pos)),
-- 
2.43.0


From e4fd89d698413ede06d57093cec0e137b3360650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 13/23] fix: parse $$1 as $$ followed by a literal digit

---
 src/parse.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 74f84e0..bdd1ade 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1436,6 +1436,16 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             Some(ParamPositional(p)) => Ok(SimpleWordKind::Param(Parameter::Positional(p as u32))),
 
             Some(Dollar) => match self.iter.peek() {
+                // The two $ in `$$1` belong together, and the digit is a literal
+                Some(&ParamPositional(p)) => {
+                    let mut pos = self.iter.pos();
+                    self.iter.next();
+                    pos.advance(&Dollar);
+                    let digit = Literal((p as u32).to_string());
+                    self.iter.buffer_tokens_to_yield_first(vec![digit], pos);
+                    Ok(SimpleWordKind::Param(Parameter::Dollar))
+                }
+
                 Some(&Star) | Some(&Pound) | Some(&Question) | Some(&Dollar) | Some(&Bang)
                 | Some(&Dash) | Some(&At) | Some(&Name(_)) => {
                     Ok(SimpleWordKind::Param(self.parameter_inner()?))
-- 
2.43.0


From cd55ce61432b4c75ff56926b552969b56a63afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 14/23] fix: keep an assigned value which starts with a #, and
 end it at an escaped newline

---
 src/parse.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index bdd1ade..6cbae3d 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -607,10 +607,11 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 if let Some(Name(var)) = self.iter.next() {
                     self.iter.next(); // Consume the =
 
-                    let value = if let Some(&Whitespace(_)) = self.iter.peek() {
-                        None
-                    } else {
-                        self.word()?
+                    // The value starts right here: blanks mean there is none,
+                    // and a # is in the middle of a word.
+                    let value = match self.word_continued_raw_with_delim(None)? {
+                        Some(w) => Some(self.builder.word(w)?),
+                        None => None,
                     };
                     vars.push(RedirectOrEnvVar::EnvVar(var, value));
 
@@ -1179,6 +1180,15 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             return Ok(None);
         }
 
+        self.word_continued_raw_with_delim(delim)
+    }
+
+    /// Identical to `Parser::word_preserve_trailing_whitespace_raw_with_delim()` but
+    /// does not skip any leading whitespace, nor treats a leading # as a comment.
+    fn word_continued_raw_with_delim(
+        &mut self,
+        delim: Option<Token>,
+    ) -> ParseResult<Option<ComplexWordKind<B::Command>>, B::Error> {
         let mut words = Vec::new();
         loop {
             if delim.is_some() && self.iter.peek() == delim.as_ref() {
-- 
2.43.0


From 05248bad47672e2d67b478dcbc174ab87abd5819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 15/23] fix: parse x<<-y in an arithmetic substitution as a
 shift by -y

---
 src/parse.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 6cbae3d..ec17b8d 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2785,13 +2785,34 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         Ok(expr)
     }
 
-    arith_parse!(
-        /// Parses expressions such as `expr << expr` or `expr >> expr`.
-        fn arith_shift,
-        arith_add,
-        DLess  => ast::Arithmetic::ShiftLeft,
-        DGreat => ast::Arithmetic::ShiftRight
-    );
+    /// Parses expressions such as `expr << expr` or `expr >> expr`.
+    #[inline]
+    fn arith_shift(&mut self) -> ParseResult<DefaultArithmetic, B::Error> {
+        let mut expr = self.arith_add()?;
+        loop {
+            self.skip_whitespace();
+
+            // There are no heredocs here: `x<<-y` is a shift by `-y`.
+            if let Some(&DLessDash) = self.iter.peek() {
+                let pos = self.iter.pos();
+                self.iter.next();
+                self.iter.buffer_tokens_to_yield_first(vec![DLess, Dash], pos);
+            }
+
+            eat_maybe!(self, {
+                DLess => {
+                    let next = self.arith_add()?;
+                    expr = ast::Arithmetic::ShiftLeft(Box::new(expr), Box::new(next));
+                },
+                DGreat => {
+                    let next = self.arith_add()?;
+                    expr = ast::Arithmetic::ShiftRight(Box::new(expr), Box::new(next));
+                };
+                _ => { break },
+            });
+        }
+        Ok(expr)
+    }
 
     arith_parse!(
         /// Parses expressions such as `expr + expr` or `expr - expr`.
-- 
2.43.0


From 4eff8de51d485074a287cf4a7612b8fbc089ae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 16/23] fix: recognize an arithmetic assignment after an
 escaped newline

---
 src/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index ec17b8d..c34abca 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2623,6 +2623,12 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     Some(&Name(_)) => loop {
                         match peeked.peek_next() {
                             Some(&Whitespace(_)) => continue, // Skip whitespace and peek next
+                            Some(&Backslash) => {
+                                // An escaped newline is whitespace as well
+                                if Some(&Newline) == peeked.peek_next() {
+                                    continue;
+                                }
+                            }
                             Some(&Star) | Some(&Slash) | Some(&Percent) | Some(&Plus)
                             | Some(&Dash) | Some(&DLess) | Some(&DGreat) | Some(&Amp)
                             | Some(&Pipe) | Some(&Caret) => {
-- 
2.43.0


From ca4c2b9d712f5be95397a6ca6c278e8f500b1ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 17/23] fix: recognize a function declaration with an escaped
 newline before its parentheses

---
 src/parse.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index c34abca..b297af9 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2243,7 +2243,18 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             let mut peeked = self.iter.multipeek();
             if let Some(&Name(_)) = peeked.peek_next() {
                 match peeked.peek_next() {
-                    Some(&Whitespace(_)) => Some(&ParenOpen) == peeked.peek_next(),
+                    Some(&Whitespace(_)) => loop {
+                        match peeked.peek_next() {
+                            Some(&Whitespace(_)) => {}
+                            // Escaped newlines are skipped like any other whitespace
+                            Some(&Backslash) => {
+                                if Some(&Newline) != peeked.peek_next() {
+                                    break false;
+                                }
+                            }
+                            tok => break Some(&ParenOpen) == tok,
+                        }
+                    },
                     Some(&ParenOpen) => true,
                     _ => false,
                 }
-- 
2.43.0


From cdbc0163fee07b238033c8e6763619050005aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 18/23] fix: count an escaped token which was peeked in
 Lexer::size_hint

After the first token of `a\\;` the hint was (1, Some(1)).
---
 src/lexer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 23c5afb..3724bd9 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -260,8 +260,12 @@ impl<I: Iterator<Item = char>> Iterator for Lexer<I> {
         // themselves for the worst possible case. A high estimate
         // is better than no estimate.
         let (_, hi) = self.inner.size_hint();
-        let low = if self.peeked.is_some() { 1 } else { 0 };
-        // A peeked character is no longer part of the inner iterator
+        // Peeked characters are no longer part of the inner iterator
+        let low = match self.peeked {
+            None => 0,
+            Some(Tok(_)) | Some(Lit(_)) | Some(Escaped(None)) => 1,
+            Some(Escaped(Some(_))) => 2,
+        };
         (low, hi.and_then(|hi| hi.checked_add(low)))
     }
 }
-- 
2.43.0


From cf6b70bcc0eb62bfd049bcd8be2509ca44852b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:04 +0000
Subject: [PATCH 19/23] fix: merge adjacent literals of double quotes within a
 concatenation

---
 src/ast/builder/default_builder.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ast/builder/default_builder.rs b/src/ast/builder/default_builder.rs
index a4244ba..36b9506 100644
--- a/src/ast/builder/default_builder.rs
+++ b/src/ast/builder/default_builder.rs
@@ -793,13 +793,19 @@ fn compress<C>(word: ComplexWordKind<C>) -> ComplexWordKind<C> {
         }
     }
 
-    match word {
-        Single(s) => Single(match s {
+    fn coalesce_quoted<C>(word: WordKind<C>) -> WordKind<C> {
+        match word {
             s @ Simple(_) | s @ SingleQuoted(_) => s,
             DoubleQuoted(v) => DoubleQuoted(Coalesce::new(v, coalesce_simple).collect()),
-        }),
+        }
+    }
+
+    match word {
+        Single(s) => Single(coalesce_quoted(s)),
         Concat(v) => {
-            let mut body: Vec<_> = Coalesce::new(v.into_iter(), coalesce_word).collect();
+            let mut body: Vec<_> = Coalesce::new(v, coalesce_word)
+                .map(coalesce_quoted)
+                .collect();
             if body.len() == 1 {
                 Single(body.pop().unwrap())
             } else {
-- 
2.43.0


From b46bfaf834bdb925edf286e67f76745d4573e1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 20/23] fix: name until in the error for an until loop without
 a do

---
 src/parse.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index b297af9..91d88dc 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1915,10 +1915,10 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         &mut self,
     ) -> ParseResult<(builder::LoopKind, builder::GuardBodyPairGroup<B::Command>), B::Error> {
         let start_pos = self.iter.pos();
-        let kind = match self
+        let keyword = self
             .reserved_word(&[WHILE, UNTIL])
-            .map_err(|_| self.make_unexpected_err())?
-        {
+            .map_err(|_| self.make_unexpected_err())?;
+        let kind = match keyword {
             WHILE => builder::LoopKind::While,
             UNTIL => builder::LoopKind::Until,
             _ => unreachable!(),
@@ -1936,7 +1936,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 },
             )),
             None => Err(ParseError::IncompleteCmd(
-                WHILE,
+                keyword,
                 start_pos,
                 DO,
                 self.iter.pos(),
-- 
2.43.0


From bd58779548a1fcd9a5654f43128178731ea23e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:15 +0000
Subject: [PATCH 21/23] fix: recognize the tokens uncovered by removing
 backslashes within backticks

---
 src/parse/iter.rs | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index 070d423..b1841ea 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -1,5 +1,6 @@
 //! An module for easily iterating over a `Token` stream.
 
+use crate::lexer::Lexer;
 use crate::parse::SourcePos;
 use crate::token::Token;
 use crate::token::Token::*;
@@ -678,6 +679,10 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
             all_chunks.push((chunk, chunk_start));
         }
 
+        if all_chunks.len() > 1 {
+            all_chunks = retokenize(&all_chunks);
+        }
+
         let mut tok_iter = TokenIter::with_position(std_iter::empty(), iter.pos());
         while let Some((chunk, chunk_end)) = all_chunks.pop() {
             tok_iter.buffer_tokens_to_yield_first(chunk, chunk_end);
@@ -686,6 +691,40 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
     }
 }
 
+/// Tokenizes the text of the given chunks anew, keeping each chunk's position.
+///
+/// Removing a backslash can bring characters together which were not recognized
+/// as a single token (e.g. `\$1`), or can uncover another backslash, which keeps
+/// the character after it from being recognized with those that follow (e.g. `\\&&`).
+fn retokenize(chunks: &[(Vec<Token>, SourcePos)]) -> Vec<(Vec<Token>, SourcePos)> {
+    let mut text = String::new();
+    let mut starts = Vec::new();
+    for (chunk, pos) in chunks {
+        starts.push((text.len(), *pos));
+        text.extend(chunk.iter().map(Token::as_str));
+    }
+
+    let mut starts = starts.into_iter().peekable();
+    let mut ret = Vec::new();
+    let mut chunk = Vec::new();
+    let mut chunk_start = SourcePos::new();
+    let mut offset = 0;
+    for tok in Lexer::new(text.chars()) {
+        while starts.peek().map_or(false, |&(start, _)| start <= offset) {
+            if !chunk.is_empty() {
+                ret.push((mem::replace(&mut chunk, Vec::new()), chunk_start));
+            }
+            chunk_start = starts.next().unwrap().1;
+        }
+
+        offset += tok.len();
+        chunk.push(tok);
+    }
+
+    ret.push((chunk, chunk_start));
+    ret
+}
+
 impl<I> std::iter::FusedIterator for BacktickBackslashRemover<I> where
     I: PeekablePositionIterator<Item = Token>
 {
-- 
2.43.0


From d19509019839902139635af4ce3275f84bbd0704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:49 +0000
Subject: [PATCH 22/23] fix: an error in a heredoc's body does not lose the
 source after it

The parser kept the iterator over the body when parsing the body failed,
and so reached its end early. The regular iterator is now restored before
the error is returned, like in command substitutions with backquotes.
---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 91d88dc..df77e72 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1114,9 +1114,10 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
             let mut tok_backup = TokenIterWrapper::Buffered(tok_iter);
             mem::swap(&mut self.iter, &mut tok_backup);
-            let mut body = self.word_interpolated_raw(None, heredoc_start_pos)?;
+            let body = self.word_interpolated_raw(None, heredoc_start_pos);
             let _ = mem::replace(&mut self.iter, tok_backup);
 
+            let mut body = body?;
             if body.len() > 1 {
                 Concat(body.into_iter().map(Simple).collect())
             } else {
-- 
2.43.0


From 02090f8b77edf2005e193033020e0701f28a40f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:40 +0000
Subject: [PATCH 23/23] fix: strip all leading tabs of a <<- heredoc's line, in
 however many tokens

---
 src/parse.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index df77e72..c4c7ae5 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1049,6 +1049,8 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
                     if skip_next {
                         self.iter.next();
+                        // Any further tabs may be in a token of their own
+                        continue 'line;
                     }
                 }
 
-- 
2.43.0

