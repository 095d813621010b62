From d2b9cdc6c36a187dbabff84e0f1a80c07ed190ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 01/94] fix: keep the line terminator that comes before a
 comment

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 803564b..36b053b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4159,8 +4159,12 @@ where
     /// and return the last token
     fn next_item(&mut self) -> Res<Item> {
         let mut look_ahead_span = self.look_ahead.span;
+        let mut has_line_term = false;
         loop {
-            self.context.has_line_term = self.scanner.pending_new_line;
+            // a new line on either side of a comment is still a new line
+            // between the two tokens around that comment
+            has_line_term = has_line_term || self.scanner.pending_new_line;
+            self.context.has_line_term = has_line_term;
             if let Some(look_ahead) = self.scanner.next() {
                 if cfg!(feature = "debug_look_ahead") {
                     self._look_ahead = format!("{:?}: {:?}", look_ahead.token, self.scanner.string_for(&look_ahead.span));
-- 
2.43.0


From 933e1c47c84e39c764ede2ce177b861c113f9c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 02/94] fix: end a line at a carriage return before a
 multi-byte character or the end of the text

---
 src/lib.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 36b053b..1cfe6a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -344,19 +344,15 @@ fn get_lines(text: &str) -> Vec<Line> {
                     // look ahead 1 char to see if it is a newline pair
                     // if so, don't include it, it will get included in the next
                     // iteration
-                    if let Some(next) = text.get(byte_position..byte_position + 2) {
-                        if next == "\r\n" {
-                            None
-                        } else {
-                            let ret = Line {
-                                start: line_start,
-                                end: byte_position,
-                            };
-                            line_start = byte_position + 1;
-                            Some(ret)
-                        }
-                    } else {
+                    if text[byte_position + 1..].starts_with('\n') {
                         None
+                    } else {
+                        let ret = Line {
+                            start: line_start,
+                            end: byte_position,
+                        };
+                        line_start = byte_position + 1;
+                        Some(ret)
                     }
                 }
                 '\n' => {
-- 
2.43.0


From aa831d528f58ac46636e9faa952ed00c723edc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 03/94] fix: take the current and look ahead positions from the
 line table

---
 src/lib.rs | 38 +++-----------------------------------
 1 file changed, 3 insertions(+), 35 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1cfe6a4..6e6cfbf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -922,7 +922,7 @@ where
         debug!("parse_with_stmt");
         if self.context.strict {
             self.tolerate_error(Error::NonStrictFeatureInStrictContext(
-                self.current_position,
+                self.look_ahead_position,
                 "with statements".to_string(),
             ))?;
         }
@@ -4154,7 +4154,6 @@ where
     /// swap the last look ahead with this new token
     /// and return the last token
     fn next_item(&mut self) -> Res<Item> {
-        let mut look_ahead_span = self.look_ahead.span;
         let mut has_line_term = false;
         loop {
             // a new line on either side of a comment is still a new line
@@ -4166,7 +4165,6 @@ where
                     self._look_ahead = format!("{:?}: {:?}", look_ahead.token, self.scanner.string_for(&look_ahead.span));
                     debug!("look_ahead: {:?}", self._look_ahead);
                 }
-                self.update_positions(look_ahead_span, look_ahead.span.start)?;
                 if let Token::Comment(ref kind) = &look_ahead.token {
                     let c = self.get_string(&look_ahead.span)?;
                     let kind = match kind {
@@ -4179,9 +4177,10 @@ where
                         span: look_ahead.span,
                         token: ress::tokens::Token::Comment(comment),
                     });
-                    look_ahead_span = look_ahead.span;
                     continue;
                 }
+                let position = self.get_item_position(&look_ahead);
+                self.current_position = replace(&mut self.look_ahead_position, position);
                 let ret = replace(&mut self.look_ahead, look_ahead);
                 return Ok(ret);
             } else {
@@ -4203,37 +4202,6 @@ where
         }
     }
 
-    fn update_positions(&mut self, look_ahead_span: Span, next_look_ahead_start: usize) -> Res<()> {
-        let prev_text = &self.scanner.stream[look_ahead_span.start..next_look_ahead_start];
-        let whitespace = &self.scanner.stream[look_ahead_span.end..next_look_ahead_start];
-        
-        let old_look_ahead_pos = self.look_ahead_position;
-        self.current_position = old_look_ahead_pos;
-        let line_counts = prev_text.chars().filter(|c| c == &'\n' || c == &'\r' || c == &'\u{2028}' || c == &'\u{2029}').count() - whitespace.matches("\r\n").count();
-        if line_counts == 0 {
-            self.look_ahead_position.column += prev_text.len();
-            return Ok(())
-        }
-        let last_line_len = if let Some(last_line) = prev_text.lines().last() {
-            // Lines doesn't include a final empty line if the string ends with a new line
-            // we need to make sure we reset the column to 0 if the string ends with a new line
-            if let Some(ref c) = prev_text.chars().last() {
-                if c == &'\n' || c == &'\r' || c == &'\u{2028}' || c == &'\u{2029}' {
-                    0
-                } else {
-                    last_line.len()
-                }
-
-            } else {
-                0
-            }
-        } else {
-            0
-        };
-        self.look_ahead_position.line += line_counts;
-        self.look_ahead_position.column = last_line_len;
-        Ok(())
-    }
     /// Get the next token and validate that it matches
     /// the punct provided, discarding the result
     /// if it does
-- 
2.43.0


From 761c3b431c59aaa377f7b99fb8e84f9919fba429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 04/94] fix: keep the super class of an anonymous class

---
 src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6e6cfbf..43ff2ac 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1792,15 +1792,13 @@ where
         } else {
             Some(self.parse_var_ident(false)?)
         };
-        super_class = if super_class.is_none() && self.at_contextual_keyword("extends") {
+        if super_class.is_none() && self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let super_class = self.parse_left_hand_side_expr()?;
+            let expr = self.parse_left_hand_side_expr()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-            Some(Box::new(super_class))
-        } else {
-            None
-        };
+            super_class = Some(Box::new(expr));
+        }
         let body = self.parse_class_body()?;
 
         self.context.strict = prev_strict;
-- 
2.43.0


From d459cf9d9d607f1b1a1cf43b6d13821c94b47086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 05/94] fix: give arrow function bodies their own await and
 yield context

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 43ff2ac..f4a2e94 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3080,6 +3080,10 @@ where
                 let is_async = Self::is_async(&current);
                 if let Some(params) = self.reinterpret_as_cover_formals_list(current.clone())? {
                     self.expect_punct(Punct::FatArrow)?;
+                    let prev_await = self.context.r#await;
+                    let prev_yield = self.context.allow_yield;
+                    self.context.r#await = is_async;
+                    self.context.allow_yield = true;
                     if self.at_punct(Punct::OpenBrace) {
                         let prev_in = self.context.allow_in;
                         self.context.allow_in = true;
@@ -3106,6 +3110,8 @@ where
                             body: ArrowFunctionBody::Expr(Box::new(a)),
                         });
                     };
+                    self.context.r#await = prev_await;
+                    self.context.allow_yield = prev_yield;
                 }
             } else {
                 if self.at_assign() {
-- 
2.43.0


From d2f895c4d868eb9622962f518750942ca65b6b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 06/94] fix: end a return statement at a new line before a
 string or template

---
 src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f4a2e94..c207699 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1129,10 +1129,8 @@ where
                 .unexpected_token_error(&self.look_ahead, "cannot return in the global context");
         }
         self.expect_keyword(Keyword::Return)?;
-        // if we are at a semi-colon,or close curly brace or eof
-        //the return doesn't have an arg. If we are at a line term
-        //we need to account for a string literal or template literal
-        //since they both can have new lines
+        // if we are at a semi-colon, a close curly brace, eof or
+        // on a new line the return doesn't have an arg
 
         let ret = if self.at_return_arg() {
             Some(self.parse_expression()?)
@@ -4229,7 +4227,7 @@ where
 
     fn at_return_arg(&self) -> bool {
         if self.context.has_line_term {
-            return self.look_ahead.is_string() || self.look_ahead.is_template();
+            return false;
         }
         !self.at_punct(Punct::SemiColon)
             && !self.at_punct(Punct::CloseBrace)
-- 
2.43.0


From 324ace89edff3cf7915dfcd18cf4613a81485f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 07/94] fix: recognise every token that can start or end the
 argument of yield

---
 src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c207699..0253120 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4390,7 +4390,7 @@ where
         if token.is_punct() {
             ret = token.matches_punct(&Punct::OpenBracket)
                 || token.matches_punct(&Punct::OpenParen)
-                || token.matches_punct(&Punct::OpenBracket)
+                || token.matches_punct(&Punct::OpenBrace)
                 || token.matches_punct(&Punct::Plus)
                 || token.matches_punct(&Punct::Minus)
                 || token.matches_punct(&Punct::Not)
@@ -4399,16 +4399,20 @@ where
                 || token.matches_punct(&Punct::Decrement)
         }
         if token.is_keyword() {
-            ret = token.matches_keyword(&Keyword::Class)
+            ret = token.matches_keyword(&Keyword::Await)
+                || token.matches_keyword(&Keyword::Class)
                 || token.matches_keyword(&Keyword::Delete)
                 || token.matches_keyword(&Keyword::Function)
-                || token.matches_keyword(&Keyword::Let)
+                || token.matches_keyword(&Keyword::Import)
                 || token.matches_keyword(&Keyword::New)
                 || token.matches_keyword(&Keyword::Super)
                 || token.matches_keyword(&Keyword::This)
                 || token.matches_keyword(&Keyword::TypeOf)
                 || token.matches_keyword(&Keyword::Void)
-                || token.matches_keyword(&Keyword::Yield)
+                || token.is_strict_reserved()
+        }
+        if self.look_ahead.is_template() {
+            ret = token.is_template_head();
         }
         if token.is_regex() {
             ret = true;
-- 
2.43.0


From c6e5eb9effd07e2bd374ec3e591893958d846933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 08/94] fix: end a new expression at the rest of the template
 around it

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0253120..1ce292a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3811,7 +3811,7 @@ where
                     computed: false,
                 };
                 expr = Expr::Member(member);
-            } else if self.look_ahead.is_template() {
+            } else if self.look_ahead.token.is_template_head() {
                 let quasi = self.parse_template_literal()?;
                 expr = Expr::TaggedTemplate(TaggedTemplateExpr {
                     tag: Box::new(expr),
-- 
2.43.0


From 8f2059eb264cf088743d111c20cdf124043e0a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 09/94] fix: allow async as the name of an object property or
 method

---
 src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1ce292a..f0afdfb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2526,11 +2526,11 @@ where
             let id = self.scanner.string_for(&start.span).unwrap_or(String::new());
             let _ = self.next_item()?;
             let computed = self.at_punct(Punct::OpenBracket);
-            let is_async = /*self.context.has_line_term
-                && */id == "async"/*
-                && !self.at_punct(Punct::Colon)
-                && !self.at_punct(Punct::Asterisk)
-                && !self.at_punct(Punct::Comma)*/;
+            // `async` is only a modifier if a property key follows it on
+            // the same line, otherwise it is the property key
+            let is_async = id == "async"
+                && !self.context.has_line_term
+                && self.at_qualified_prop_key();
             let key = if is_async {
                 self.parse_object_property_key()?
             } else {
@@ -2617,7 +2617,7 @@ where
                         method: true,
                         short_hand: false,
                     })
-                } else if start.token.is_ident() {
+                } else if start.token.is_ident() && !is_async {
                     if self.at_punct(Punct::Assign) {
                         self.context.first_covert_initialized_name_error =
                             Some(self.look_ahead.clone());
-- 
2.43.0


From 886922c6589c62207679c57a505388cea1039943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 10/94] fix: allow static async methods and methods named async
 in classes

---
 src/lib.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f0afdfb..5070900 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1834,10 +1834,6 @@ where
         let mut computed = false;
         let mut is_static = false;
         let mut is_async = false;
-        if self.at_contextual_keyword("async") {
-            let _async = self.next_item()?;
-            is_async = true;
-        }
         if self.at_punct(Punct::Asterisk) {
             debug!("found leading asterisk");
             let _ = self.next_item()?;
@@ -1861,16 +1857,21 @@ where
             } else {
                 key = Some(new_key);
             }
-            if token.is_ident()
+            // `async` is only a modifier if a property key follows it on
+            // the same line, otherwise it is the name of the method
+            let at_async = if let Some(ref k) = key {
+                token.is_ident() && Self::is_key(k, "async")
+            } else {
+                false
+            };
+            if at_async
                 && !self.context.has_line_term
-                && self.at_contextual_keyword("async")
+                && Self::qualified_prop_name(&self.look_ahead.token)
             {
-                if !self.look_ahead.token.matches_punct(&Punct::Colon)
-                    && !self.look_ahead.token.matches_punct(&Punct::OpenParen)
-                    && !self.look_ahead.token.matches_punct(&Punct::Asterisk)
-                {
-                    return self.expected_token_error(&self.look_ahead, &[":", "(", "*"]);
-                }
+                is_async = true;
+                token = self.look_ahead.token.clone();
+                computed = self.at_punct(Punct::OpenBracket);
+                key = Some(self.parse_object_property_key()?);
             }
         }
 
@@ -1878,7 +1879,7 @@ where
         let mut method = false;
 
         let look_ahead_prop_key = Self::qualified_prop_name(&self.look_ahead.token);
-        if token.is_ident() {
+        if token.is_ident() && !is_async {
             let (at_get, at_set) = if let Some(ref k) = key {
                 (
                     Self::is_key(&k, "get") && look_ahead_prop_key,
-- 
2.43.0


From 1a035da9fb4d7b6f3b6d23ed96b1323c8100b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 11/94] fix: parse async generator methods and declarations

---
 src/lib.rs | 55 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5070900..c65e441 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1682,15 +1682,10 @@ where
             false
         };
         self.expect_keyword(Keyword::Function)?;
-        let is_gen = if is_async {
-            false
-        } else {
-            let is_gen = self.at_punct(Punct::Asterisk);
-            if is_gen {
-                let _ = self.next_item()?;
-            }
-            is_gen
-        };
+        let is_gen = self.at_punct(Punct::Asterisk);
+        if is_gen {
+            let _ = self.next_item()?;
+        }
         let (id, first_restricted) = if !opt_ident || !self.at_punct(Punct::OpenParen) {
             let start = self.look_ahead.clone();
             let id = self.parse_var_ident(false)?;
@@ -1866,12 +1861,18 @@ where
             };
             if at_async
                 && !self.context.has_line_term
-                && Self::qualified_prop_name(&self.look_ahead.token)
+                && (Self::qualified_prop_name(&self.look_ahead.token)
+                    || self.at_punct(Punct::Asterisk))
             {
                 is_async = true;
                 token = self.look_ahead.token.clone();
-                computed = self.at_punct(Punct::OpenBracket);
-                key = Some(self.parse_object_property_key()?);
+                if self.at_punct(Punct::Asterisk) {
+                    let _ = self.next_item()?;
+                    key = None;
+                } else {
+                    computed = self.at_punct(Punct::OpenBracket);
+                    key = Some(self.parse_object_property_key()?);
+                }
             }
         }
 
@@ -1905,7 +1906,7 @@ where
             kind = Some(PropertyKind::Init);
             computed = self.at_punct(Punct::OpenBracket);
             key = Some(self.parse_object_property_key()?);
-            value = Some(self.parse_generator_method()?);
+            value = Some(self.parse_generator_method(is_async)?);
             method = true;
         }
 
@@ -2061,18 +2062,21 @@ where
         Ok(PropertyValue::Expr(Expr::Function(func)))
     }
 
-    fn parse_generator_method(&mut self) -> Res<PropertyValue> {
+    fn parse_generator_method(&mut self, is_async: bool) -> Res<PropertyValue> {
         debug!("pares_generator_method");
         let prev_yield = self.context.allow_yield;
+        let prev_await = self.context.r#await;
         self.context.allow_yield = true;
+        self.context.r#await = is_async;
         let params = self.parse_formal_params()?;
         self.context.allow_yield = false;
         let body = self.parse_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
+        self.context.r#await = prev_await;
         let func = Function {
             id: None,
             params: params.params,
-            is_async: false,
+            is_async,
             generator: true,
             body,
         };
@@ -2531,21 +2535,26 @@ where
             // the same line, otherwise it is the property key
             let is_async = id == "async"
                 && !self.context.has_line_term
-                && self.at_qualified_prop_key();
-            let key = if is_async {
-                self.parse_object_property_key()?
+                && (self.at_qualified_prop_key() || self.at_punct(Punct::Asterisk));
+            let key = if is_async && self.at_punct(Punct::Asterisk) {
+                None
+            } else if is_async {
+                Some(self.parse_object_property_key()?)
             } else {
-                PropertyKey::Expr(Expr::Ident(id))
+                Some(PropertyKey::Expr(Expr::Ident(id)))
             };
-            (Some(key), is_async, computed)
+            (key, is_async, computed)
         } else if self.at_punct(Punct::Asterisk) {
-            self.next_item()?;
             (None, false, false)
         } else {
             let computed = self.at_punct(Punct::OpenBracket);
             let key = self.parse_object_property_key()?;
             (Some(key), false, computed)
         };
+        let is_gen = key.is_none();
+        if is_gen {
+            self.expect_punct(Punct::Asterisk)?;
+        }
         let at_qualified = self.at_qualified_prop_key();
         let prop = if &self.scanner.stream[start.span.start..start.span.end] == "get"
             && at_qualified
@@ -2571,11 +2580,11 @@ where
                 method: false,
                 short_hand: false,
             })
-        } else if start.token.matches_punct(&Punct::Asterisk) && at_qualified {
+        } else if is_gen && at_qualified {
             ObjectProperty::Property(Property {
                 computed: self.at_punct(Punct::OpenBracket),
                 key: self.parse_object_property_key()?,
-                value: self.parse_generator_method()?,
+                value: self.parse_generator_method(is_async)?,
                 kind: PropertyKind::Init,
                 method: true,
                 short_hand: false,
-- 
2.43.0


From 79e1e97278d2507c393bf4adf0184e4242d56894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 12/94] fix: give methods and accessors their own yield and
 await context

---
 src/lib.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c65e441..1846f6d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1893,7 +1893,6 @@ where
             if at_get {
                 kind = Some(PropertyKind::Get);
                 computed = self.at_punct(Punct::OpenBracket);
-                self.context.allow_yield = false;
                 key = Some(self.parse_object_property_key()?);
                 value = Some(self.parse_getter_method()?);
             } else if at_set {
@@ -2029,7 +2028,7 @@ where
         debug!("parse_property_method_async_fn");
         let prev_yield = self.context.allow_yield;
         let prev_await = self.context.r#await;
-        self.context.allow_yield = false;
+        self.context.allow_yield = true;
         self.context.r#await = true;
         let params = self.parse_formal_params()?;
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
@@ -2048,10 +2047,13 @@ where
     fn parse_property_method(&mut self) -> Res<PropertyValue> {
         debug!("parse_property_method");
         let prev_yield = self.context.allow_yield;
-        self.context.allow_yield = false;
+        let prev_await = self.context.r#await;
+        self.context.allow_yield = true;
+        self.context.r#await = false;
         let params = self.parse_formal_params()?;
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
+        self.context.r#await = prev_await;
         let func = Function {
             id: None,
             params: params.params,
@@ -2087,6 +2089,9 @@ where
         debug!("parse_getter_method");
         let is_gen = false;
         let prev_yield = self.context.allow_yield;
+        let prev_await = self.context.r#await;
+        self.context.allow_yield = true;
+        self.context.r#await = false;
         let start_position = self.look_ahead_position;
         let formal_params = self.parse_formal_params()?;
         if formal_params.params.len() > 0 {
@@ -2094,6 +2099,7 @@ where
         }
         let body = self.parse_method_body(formal_params.simple, formal_params.found_restricted)?;
         self.context.allow_yield = prev_yield;
+        self.context.r#await = prev_await;
         Ok(PropertyValue::Expr(Expr::Function(Function {
             id: None,
             params: formal_params.params,
@@ -2124,11 +2130,12 @@ where
 
     fn parse_setter_method(&mut self) -> Res<PropertyValue> {
         debug!("parse_setter_method");
-        let prev_allow = self.context.allow_yield;
+        let prev_yield = self.context.allow_yield;
+        let prev_await = self.context.r#await;
         self.context.allow_yield = true;
+        self.context.r#await = false;
         let start_position = self.look_ahead_position;
         let params = self.parse_formal_params()?;
-        self.context.allow_yield = prev_allow;
         if params.params.len() != 1 {
             self.tolerate_error(Error::InvalidSetterParams(start_position))?;
         } else if let Some(ref param) = params.params.get(0) {
@@ -2137,6 +2144,8 @@ where
             }
         }
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
+        self.context.allow_yield = prev_yield;
+        self.context.r#await = prev_await;
         let func = Function {
             id: None,
             params: params.params,
-- 
2.43.0


From 76118d5a797d0d8a818c172d86cd9ace8fd8223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 13/94] fix: allow yield expressions in the default values of
 declared patterns

---
 src/lib.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1846f6d..487da85 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -106,6 +106,9 @@ struct Context {
     is_binding_element: bool,
     /// If we have entered a function body
     in_function_body: bool,
+    /// If we have entered the formal parameters of a function,
+    /// which can't contain a yield expression
+    in_formal_params: bool,
     /// If we have entered a loop block
     in_iteration: bool,
     /// If we have entered a switch block
@@ -146,6 +149,7 @@ impl Default for Context {
             is_assignment_target: false,
             is_binding_element: false,
             in_function_body: false,
+            in_formal_params: false,
             in_iteration: false,
             in_switch: false,
             label_set: HashSet::new(),
@@ -1748,10 +1752,12 @@ where
         let prev_iter = self.context.in_iteration;
         let prev_switch = self.context.in_switch;
         let prev_in_fn = self.context.in_function_body;
+        let prev_params = self.context.in_formal_params;
         self.context.label_set = HashSet::new();
         self.context.in_iteration = false;
         self.context.in_switch = false;
         self.context.in_function_body = true;
+        self.context.in_formal_params = false;
         while !self.look_ahead.token.is_eof() {
             if self.at_punct(Punct::CloseBrace) {
                 break;
@@ -1763,6 +1769,7 @@ where
         self.context.in_iteration = prev_iter;
         self.context.in_switch = prev_switch;
         self.context.in_function_body = prev_in_fn;
+        self.context.in_formal_params = prev_params;
         Ok(body)
     }
 
@@ -2852,6 +2859,8 @@ where
         let mut args = vec![];
         let mut simple: bool = true;
         let mut found_restricted = false;
+        let prev_params = self.context.in_formal_params;
+        self.context.in_formal_params = true;
         if !self.at_punct(Punct::CloseParen) {
             while !self.look_ahead.token.is_eof() {
                 let (s, r, arg) = self.parse_formal_param(simple)?;
@@ -2868,6 +2877,7 @@ where
             }
         }
         self.expect_punct(Punct::CloseParen)?;
+        self.context.in_formal_params = prev_params;
 
         Ok(FormalParams {
             params: args,
@@ -2916,12 +2926,9 @@ where
         let (is_restricted, ret) = self.parse_pattern(None, params)?;
         if self.at_punct(Punct::Assign) {
             let _assign = self.next_item()?;
-            let prev_yield = self.context.allow_yield;
-            self.context.allow_yield = true;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let right = self.parse_assignment_expr()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-            self.context.allow_yield = prev_yield;
             return Ok((
                 is_restricted,
                 Pat::Assignment(AssignmentPat {
@@ -3070,7 +3077,10 @@ where
 
     fn parse_assignment_expr(&mut self) -> Res<Expr> {
         debug!("parse_assignment_expr");
-        if !self.context.allow_yield && self.at_keyword(Keyword::Yield) {
+        if !self.context.allow_yield
+            && !self.context.in_formal_params
+            && self.at_keyword(Keyword::Yield)
+        {
             return self.parse_yield_expr();
         } else {
             let ress::Span { start, end } = self.look_ahead.span;
-- 
2.43.0


From 69db8cf99160a43dcf1db2e485cb07a8f50a0ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 14/94] fix: parse the whole expression and the semicolon of a
 default export

---
 src/lib.rs | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 487da85..3df2a6f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -743,29 +743,17 @@ where
             } else if self.at_keyword(Keyword::Class) {
                 let class = Decl::Class(self.parse_class_decl(true)?);
                 DefaultExportDecl::Decl(class)
-            } else if self.at_contextual_keyword("async") {
-                if self.at_async_function() {
-                    let func = self.parse_function_decl(true)?;
-                    let decl = Decl::Function(func);
-                    DefaultExportDecl::Decl(decl)
-                } else {
-                    let expr = self.parse_assignment_expr()?;
-                    DefaultExportDecl::Expr(expr)
-                }
+            } else if self.at_async_function() {
+                let func = self.parse_function_decl(true)?;
+                let decl = Decl::Function(func);
+                DefaultExportDecl::Decl(decl)
             } else {
                 if self.at_contextual_keyword("from") {
                     //error
                 }
-                if self.at_punct(Punct::OpenBrace) {
-                    let expr = self.parse_obj_init()?;
-                    DefaultExportDecl::Expr(expr)
-                } else if self.at_punct(Punct::OpenBracket) {
-                    let expr = self.parse_array_init()?;
-                    DefaultExportDecl::Expr(expr)
-                } else {
-                    let expr = self.parse_assignment_expr()?;
-                    DefaultExportDecl::Expr(expr)
-                }
+                let expr = self.parse_assignment_expr()?;
+                self.consume_semicolon()?;
+                DefaultExportDecl::Expr(expr)
             };
             Ok(ModExport::Default(decl))
         } else if self.at_punct(Punct::Asterisk) {
-- 
2.43.0


From f361511bd71353e8fec00cfb001848d10b694503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 15/94] fix: consume a single semicolon after an exported
 lexical declaration

---
 src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3df2a6f..f7ed3b3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -771,7 +771,6 @@ where
             {
                 let lex = self.parse_lexical_decl(false)?;
                 let decl = NamedExportDecl::Decl(lex);
-                self.consume_semicolon()?;
                 Ok(ModExport::Named(decl))
             } else if self.look_ahead.token.matches_keyword(&Keyword::Var) {
                 let _ = self.next_item()?;
-- 
2.43.0


From 8b0077fecb90be6e6197b4e659f19e903b1ede4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 16/94] fix: keep the rest element of an array pattern

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f7ed3b3..3d5e547 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2905,7 +2905,8 @@ where
     fn parse_binding_rest_el(&mut self, params: &mut Vec<Item>) -> Res<(bool, Pat)> {
         debug!("parse_binding_rest_el");
         self.expect_punct(Punct::Spread)?;
-        self.parse_pattern(None, params)
+        let (restricted, arg) = self.parse_pattern(None, params)?;
+        Ok((restricted, Pat::RestElement(Box::new(arg))))
     }
 
     fn parse_pattern_with_default(&mut self, params: &mut Vec<Item>) -> Res<(bool, Pat)> {
-- 
2.43.0


From ebc2574c8ae67e4b7e5ce1e8535f6da68a3df8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 17/94] fix: leave the scanner as it was after peeking past
 comments

---
 src/lib.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3d5e547..cd884f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4254,19 +4254,31 @@ where
     fn at_import_call(&mut self) -> bool {
         debug!("at_import_call");
         if self.at_keyword(Keyword::Import) {
-            let state = self.scanner.get_state();
-            self.scanner.skip_comments();
-            let ret = if let Some(next) = self.scanner.next() {
+            if let Some(next) = self.peek() {
                 next.token.matches_punct(&Punct::OpenParen)
             } else {
                 false
-            };
-            self.scanner.set_state(state);
-            ret
+            }
         } else {
             false
         }
     }
+    /// Get the token after the look ahead
+    /// (not including any comments) leaving the
+    /// scanner as it was
+    fn peek(&mut self) -> Option<Item> {
+        let state = self.scanner.get_state();
+        let eof = self.scanner.eof;
+        let pending_new_line = self.scanner.pending_new_line;
+        let mut next = self.scanner.next();
+        while let Some(Item { token: Token::Comment(_), .. }) = next {
+            next = self.scanner.next();
+        }
+        self.scanner.set_state(state);
+        self.scanner.eof = eof;
+        self.scanner.pending_new_line = pending_new_line;
+        next
+    }
 
     fn at_qualified_prop_key(&self) -> bool {
         match &self.look_ahead.token {
@@ -4286,9 +4298,7 @@ where
     /// must be an identifier, `let`, `yield`
     /// `{`, or `[`
     fn at_lexical_decl(&mut self) -> bool {
-        let state = self.scanner.get_state();
-        self.scanner.skip_comments();
-        let ret = if let Some(next) = self.scanner.next() {
+        if let Some(next) = self.peek() {
             next.token.is_ident()
                 || next.token.matches_punct(&Punct::OpenBracket)
                 || next.token.matches_punct(&Punct::OpenBrace)
@@ -4296,9 +4306,7 @@ where
                 || next.token.matches_keyword(&Keyword::Yield)
         } else {
             false
-        };
-        self.scanner.set_state(state);
-        ret
+        }
     }
     /// Test for if the next token is a specific punct
     fn at_punct(&self, p: Punct) -> bool {
@@ -4344,7 +4352,7 @@ where
     fn at_async_function(&mut self) -> bool {
         debug!("at_async_function");
         if self.at_contextual_keyword("async") {
-            if let Some(peek) = self.scanner.look_ahead() {
+            if let Some(peek) = self.peek() {
                 debug!("peeking ahead {:?}", peek);
                 let pos = self.look_ahead_position;
                 let next_pos = self.get_item_position(&peek);
-- 
2.43.0


From 7e447c07beeb43f4d2323e0a82960109f8d3d993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 18/94] fix: apply strict mode to modules and to scopes with a
 use strict directive

---
 src/lib.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cd884f2..53d853e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -429,6 +429,8 @@ where
         };
         let context = Context {
             is_module,
+            // module code is always strict
+            strict: is_module,
             ..Default::default()
         };
         Self::_new(scanner, lines, config, context, comment_handler)
@@ -527,8 +529,12 @@ where
         let expr = self.parse_expression()?;
         if let Expr::Literal(lit) = expr {
             if let Literal::String(s) = lit {
-                if !self.context.allow_strict_directive && s == "use strict" {
-                    return self.unexpected_token_error(&orig, "use strict in an invalid location");
+                if &s == "'use strict'" || &s == "\"use strict\"" {
+                    if !self.context.allow_strict_directive {
+                        return self
+                            .unexpected_token_error(&orig, "use strict in an invalid location");
+                    }
+                    self.context.strict = true;
                 }
                 self.consume_semicolon()?;
                 return Ok(ProgramPart::Dir(Dir {
@@ -2762,7 +2768,8 @@ where
         let formal_params = self.parse_formal_params()?;
         found_restricted = found_restricted || formal_params.found_restricted;
         let prev_strict = self.context.strict;
-        let prev_strict_dir = formal_params.simple;
+        let prev_allow_strict = self.context.allow_strict_directive;
+        self.context.allow_strict_directive = formal_params.simple;
         let start = self.look_ahead.clone();
         let body = self.parse_function_source_el()?;
         if self.context.strict && found_restricted {
@@ -2772,7 +2779,7 @@ where
             }
         }
         self.context.strict = prev_strict;
-        self.context.allow_strict_directive = prev_strict_dir;
+        self.context.allow_strict_directive = prev_allow_strict;
         self.context.allow_yield = prev_yield;
         self.context.r#await = prev_await;
         let func = Function {
@@ -3102,7 +3109,12 @@ where
                     if self.at_punct(Punct::OpenBrace) {
                         let prev_in = self.context.allow_in;
                         self.context.allow_in = true;
+                        let prev_strict = self.context.strict;
+                        let prev_allow_strict = self.context.allow_strict_directive;
+                        self.context.allow_strict_directive = params.iter().all(Self::is_simple);
                         let body = self.parse_function_source_el()?;
+                        self.context.strict = prev_strict;
+                        self.context.allow_strict_directive = prev_allow_strict;
                         self.context.allow_in = prev_in;
                         current = Expr::ArrowFunction(ArrowFunctionExpr {
                             id: None,
-- 
2.43.0


From a7ef2ca646adb56db436d1d2e6745983365b4b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 19/94] fix: end the directives of a function at its first
 statement

---
 src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 53d853e..14282ed 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -518,7 +518,16 @@ where
             if !self.look_ahead.token.is_string() {
                 break;
             }
-            ret.push(self.parse_directive()?);
+            let part = self.parse_directive()?;
+            let past_prolog = match &part {
+                ProgramPart::Dir(_) => false,
+                _ => true,
+            };
+            ret.push(part);
+            // a string after the first statement isn't a directive
+            if past_prolog {
+                break;
+            }
         }
         Ok(ret)
     }
@@ -1740,7 +1749,6 @@ where
     fn parse_function_source_el(&mut self) -> Res<FunctionBody> {
         debug!("parse_function_source_el");
         self.expect_punct(Punct::OpenBrace)?;
-        let mut body = self.parse_directive_prologues()?;
         let prev_label = self.context.label_set.clone();
         let prev_iter = self.context.in_iteration;
         let prev_switch = self.context.in_switch;
@@ -1751,6 +1759,7 @@ where
         self.context.in_switch = false;
         self.context.in_function_body = true;
         self.context.in_formal_params = false;
+        let mut body = self.parse_directive_prologues()?;
         while !self.look_ahead.token.is_eof() {
             if self.at_punct(Punct::CloseBrace) {
                 break;
-- 
2.43.0


From 46a15424330c3410739cbc4bc07f1ff21c4d6b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 20/94] fix: allow an assignment in an object property after
 another property

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 14282ed..24dba3d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2621,7 +2621,7 @@ where
                         has_proto = true;
                     }
                     let _ = self.next_item()?;
-                    let (prev_bind, prev_assign, prev_first) = self.get_cover_grammar_state();
+                    let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
                     let value = self.parse_assignment_expr()?;
                     self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
                     ObjectProperty::Property(Property {
-- 
2.43.0


From 5877fa2b47bb247884e7515ede2c0a70bc17e127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 21/94] fix: allow a call as a super class

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 24dba3d..a0762d3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1783,7 +1783,7 @@ where
         let mut super_class = if self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let super_class = self.parse_left_hand_side_expr()?;
+            let super_class = self.parse_left_hand_side_expr_allow_call()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             Some(Box::new(super_class))
         } else {
@@ -1797,7 +1797,7 @@ where
         if super_class.is_none() && self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let expr = self.parse_left_hand_side_expr()?;
+            let expr = self.parse_left_hand_side_expr_allow_call()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             super_class = Some(Box::new(expr));
         }
-- 
2.43.0


From fab9f08fe53d74361558a5660e902ed4c17ff099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:17 +0000
Subject: [PATCH 22/94] fix: end the iterator after an error

---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a0762d3..7bc0b6b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -308,6 +308,9 @@ where
     /// to make sure we don't miss the eof
     /// by using this flag
     found_eof: bool,
+    /// Since there is no way to pick up after an error
+    /// the iterator ends once it has returned one
+    failed: bool,
     /// a possible container for tokens, currently
     /// it is unused
     _tokens: Vec<Item>,
@@ -453,6 +456,7 @@ where
             look_ahead,
             lines,
             found_eof: false,
+            failed: false,
             config,
             context,
             _tokens: vec![],
@@ -4575,10 +4579,12 @@ where
 {
     type Item = Res<ProgramPart>;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.look_ahead.token.is_eof() {
+        if self.failed || self.look_ahead.token.is_eof() {
             None
         } else {
-            Some(self.next_part())
+            let part = self.next_part();
+            self.failed = part.is_err();
+            Some(part)
         }
     }
 }
-- 
2.43.0


From 9a8a43f0e9e3c0e8db14090a3d677e17606bd058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 23/94] fix: allow super and new.target in the parameters of a
 function

---
 src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7bc0b6b..ef2d66f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3814,7 +3814,7 @@ where
         if !self.context.allow_in {
             // error
         }
-        let mut expr = if self.at_keyword(Keyword::Super) && self.context.in_function_body {
+        let mut expr = if self.at_keyword(Keyword::Super) && self.in_function() {
             self.parse_super()?
         } else {
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
@@ -3881,7 +3881,7 @@ where
         let prev_in = self.context.allow_in;
         self.context.allow_in = true;
 
-        let mut expr = if self.at_keyword(Keyword::Super) && self.context.in_function_body {
+        let mut expr = if self.at_keyword(Keyword::Super) && self.in_function() {
             let _ = self.next_item()?;
             if !self.at_punct(Punct::OpenParen)
                 && !self.at_punct(Punct::Period)
@@ -4056,6 +4056,12 @@ where
         self.expect_punct(Punct::CloseParen)?;
         Ok(args)
     }
+    /// Tests if the parser is currently in the parameters or
+    /// the body of a function, where `super` and `new.target`
+    /// are available
+    fn in_function(&self) -> bool {
+        self.context.in_function_body || self.context.in_formal_params
+    }
     /// This will parse one of two expressions `new Thing()`
     /// or `new.target`. The later is only valid in a function
     /// body
@@ -4064,7 +4070,7 @@ where
         self.expect_keyword(Keyword::New)?;
         if self.at_punct(Punct::Period) {
             let _ = self.next_item()?;
-            if self.at_contextual_keyword("target") && self.context.in_function_body {
+            if self.at_contextual_keyword("target") && self.in_function() {
                 let property = self.parse_ident_name()?;
                 Ok(Expr::MetaProperty(MetaProperty {
                     meta: String::from("new"),
-- 
2.43.0


From 648418110358b83df70ee15650378664e60947c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 24/94] fix: parse null as a literal

---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ef2d66f..6814100 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2294,7 +2294,14 @@ where
                 self.parse_function_expr()
             } else {
                 let ident = self.next_item()?;
-                Ok(Expr::Ident(self.get_string(&ident.span)?))
+                let name = self.get_string(&ident.span)?;
+                // the scanner provides `null` as an identifier
+                if name == "null" {
+                    self.context.is_assignment_target = false;
+                    self.context.is_binding_element = false;
+                    return Ok(Expr::Literal(Literal::Null));
+                }
+                Ok(Expr::Ident(name))
             }
         } else if self.look_ahead.token.is_number() || self.look_ahead.token.is_string() {
             // if self.context.strict && self.look_ahead.token.is_oct_literal() {
-- 
2.43.0


From 225c1531e7bacbab1aa3c0882f8250c75e389fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 25/94] fix: allow words that are only reserved in some
 contexts as identifiers in the others

---
 src/lib.rs | 95 +++++++++++++++++++++++-------------------------------
 1 file changed, 40 insertions(+), 55 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6814100..ef447c5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -713,10 +713,10 @@ where
 
     fn parse_import_specifier(&mut self) -> Res<ImportSpecifier> {
         let (imported, local) = if self.look_ahead.token.is_ident() {
-            let imported = self.parse_var_ident(false)?;
+            let imported = self.parse_var_ident()?;
             let local = if self.at_contextual_keyword("as") {
                 let _ = self.next_item();
-                Some(self.parse_var_ident(false)?)
+                Some(self.parse_var_ident()?)
             } else {
                 None
             };
@@ -725,7 +725,7 @@ where
             let imported = self.parse_ident_name()?;
             let local = if self.at_contextual_keyword("as") {
                 let _ = self.next_item()?;
-                Some(self.parse_var_ident(false)?)
+                Some(self.parse_var_ident()?)
             } else {
                 None
             };
@@ -921,7 +921,7 @@ where
                 Keyword::Var => self.parse_var_stmt()?,
                 Keyword::While => Stmt::While(self.parse_while_stmt()?),
                 Keyword::With => Stmt::With(self.parse_with_stmt()?),
-                _ => Stmt::Expr(self.parse_expression_statement()?),
+                _ => self.parse_labelled_statement()?,
             },
             _ => return self.expected_token_error(&self.look_ahead, &[]),
         };
@@ -1248,7 +1248,9 @@ where
                 let stmt = self.parse_for_loop_cont(Some(init))?;
                 return Ok(Stmt::For(stmt));
             }
-        } else if self.at_keyword(Keyword::Const) || self.at_keyword(Keyword::Let) {
+        } else if self.at_keyword(Keyword::Const)
+            || (self.at_keyword(Keyword::Let) && self.at_lexical_decl())
+        {
             let kind = self.next_item()?;
             let kind = match &kind.token {
                 Token::Keyword(ref k) => match k {
@@ -1458,8 +1460,8 @@ where
     fn parse_optionally_labeled_statement(&mut self, k: Keyword) -> Res<Option<Identifier>> {
         debug!("parse_optionally_labeled_statement");
         self.expect_keyword(k)?;
-        let ret = if self.look_ahead.token.is_ident() && !self.context.has_line_term {
-            let id = self.parse_var_ident(false)?;
+        let ret = if self.at_ident() && !self.context.has_line_term {
+            let id = self.parse_var_ident()?;
             if !self.context.label_set.contains(&id) {
                 //error: unknown label
             }
@@ -1698,7 +1700,7 @@ where
         }
         let (id, first_restricted) = if !opt_ident || !self.at_punct(Punct::OpenParen) {
             let start = self.look_ahead.clone();
-            let id = self.parse_var_ident(false)?;
+            let id = self.parse_var_ident()?;
             if self.context.strict && start.token.is_restricted() {
                 return self.expected_token_error(&start, &[]);
             }
@@ -1796,7 +1798,7 @@ where
         let id = if opt_ident && !self.look_ahead.token.is_ident() {
             None
         } else {
-            Some(self.parse_var_ident(false)?)
+            Some(self.parse_var_ident()?)
         };
         if super_class.is_none() && self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
@@ -2363,13 +2365,7 @@ where
             };
             Ok(Expr::Literal(Literal::RegEx(lit)))
         } else if self.look_ahead.token.is_keyword() {
-            if !self.context.strict
-                && ((self.context.allow_yield && self.at_keyword(Keyword::Yield))
-                    || self.at_keyword(Keyword::Let))
-            {
-                let ident = self.parse_ident_name()?;
-                Ok(Expr::Ident(ident))
-            } else if !self.context.strict && self.look_ahead.token.is_strict_reserved() {
+            if self.at_ident() {
                 let ident = self.parse_ident_name()?;
                 Ok(Expr::Ident(ident))
             } else {
@@ -2555,6 +2551,7 @@ where
         debug!("parse_obj_prop");
         let start = self.look_ahead.clone();
         let start_pos = self.look_ahead_position;
+        let at_ident = self.at_ident();
         let mut has_proto = has_proto;
         let (key, is_async, computed) = if let Token::Ident = start.token {
             let id = self.scanner.string_for(&start.span).unwrap_or(String::new());
@@ -2656,7 +2653,7 @@ where
                         method: true,
                         short_hand: false,
                     })
-                } else if start.token.is_ident() && !is_async {
+                } else if at_ident && !is_async {
                     if self.at_punct(Punct::Assign) {
                         self.context.first_covert_initialized_name_error =
                             Some(self.look_ahead.clone());
@@ -2817,7 +2814,7 @@ where
         if self.context.strict && !is_gen && self.at_keyword(Keyword::Yield) {
             self.parse_ident_name()
         } else {
-            self.parse_var_ident(false)
+            self.parse_var_ident()
         }
     }
 
@@ -2840,31 +2837,24 @@ where
         // ret
     }
 
-    fn parse_var_ident(&mut self, is_var: bool) -> Res<Identifier> {
+    fn parse_var_ident(&mut self) -> Res<Identifier> {
         debug!("parse_var_ident");
-        let ident = self.next_item()?;
-        if ident.token.matches_keyword(&Keyword::Yield) {
-            if self.context.strict || !self.context.allow_yield {
-                return self.expected_token_error(&ident, &["variable identifier"]);
-            }
-        } else if !ident.token.is_ident() {
-            if self.context.strict && ident.token.is_strict_reserved() {
-                return self.expected_token_error(&ident, &["variable identifier"]);
-            }
-            if self.context.strict || ident.token.matches_keyword(&Keyword::Let) || !is_var {
-                return self.expected_token_error(&ident, &["variable identifier"]);
-            }
-        } else if (self.context.is_module || self.context.r#await)
-            && &self.scanner.stream[ident.span.start..ident.span.end] == "await"
-        {
-            return self.expected_token_error(&ident, &["variable identifier"]);
+        if !self.at_ident() {
+            return self.expected_token_error(&self.look_ahead, &["variable identifier"]);
+        }
+        self.parse_ident_name()
+    }
+
+    /// Test for if the next token is an identifier, this includes
+    /// the words that are only reserved in some contexts
+    fn at_ident(&self) -> bool {
+        match &self.look_ahead.token {
+            Token::Ident => !self.at_contextual_keyword("null"),
+            Token::Keyword(Keyword::Await) => !self.context.is_module && !self.context.r#await,
+            Token::Keyword(Keyword::Yield) => !self.context.strict && self.context.allow_yield,
+            Token::Keyword(ref k) => !self.context.strict && k.is_strict_reserved(),
+            _ => false,
         }
-        let i = match &ident.token {
-            &Token::Ident => self.scanner.string_for(&ident.span).unwrap_or(String::new()),
-            &Token::Keyword(ref k) => k.to_string(),
-            _ => self.expected_token_error(&ident, &["variable identifier"])?,
-        };
-        Ok(i)
     }
 
     fn parse_formal_params(&mut self) -> Res<FormalParams> {
@@ -2967,20 +2957,15 @@ where
         } else if self.at_punct(Punct::OpenBrace) {
             self.parse_object_pattern()
         } else {
-            let is_var = if let Some(kind) = kind {
-                match kind {
-                    VariableKind::Const | VariableKind::Let => {
-                        if self.at_keyword(Keyword::Let) {
-                            return self.expected_token_error(&self.look_ahead, &["identifier"]);
-                        }
-                        false
+            match kind {
+                Some(VariableKind::Const) | Some(VariableKind::Let) => {
+                    if self.at_keyword(Keyword::Let) {
+                        return self.expected_token_error(&self.look_ahead, &["identifier"]);
                     }
-                    VariableKind::Var => true,
                 }
-            } else {
-                true
-            };
-            let ident = self.parse_var_ident(is_var)?;
+                _ => (),
+            }
+            let ident = self.parse_var_ident()?;
             let restricted = &ident == "eval" || &ident == "arguments";
             params.push(self.look_ahead.clone());
             Ok((restricted, Pat::Identifier(ident)))
@@ -3056,8 +3041,8 @@ where
         let mut computed = false;
         let mut short_hand = false;
         let method = false;
-        let (key, value) = if self.look_ahead.token.is_ident() {
-            let key = PropertyKey::Expr(Expr::Ident(self.parse_var_ident(false)?));
+        let (key, value) = if self.at_ident() {
+            let key = PropertyKey::Expr(Expr::Ident(self.parse_var_ident()?));
             let value = if self.at_punct(Punct::Assign) {
                 self.expect_punct(Punct::Assign)?;
                 short_hand = true;
-- 
2.43.0


From d1bec5b2aceb8ce17f93bd64c65d88342ba4b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 26/94] fix: allow an assignment in the default value of a
 shorthand property pattern

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index ef447c5..bd5aa4f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3046,7 +3046,9 @@ where
             let value = if self.at_punct(Punct::Assign) {
                 self.expect_punct(Punct::Assign)?;
                 short_hand = true;
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let e = self.parse_assignment_expr()?;
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 PropertyValue::Expr(e)
             } else if !self.at_punct(Punct::Colon) {
                 short_hand = true;
-- 
2.43.0


From 5e87ae9b446c0af26b069fa0e02ecab9efbefbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 27/94] fix: allow the in operator inside of the patterns of a
 for statement

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index bd5aa4f..6e6abca 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2979,6 +2979,8 @@ where
     ) -> Res<(bool, Pat)> {
         debug!("parse_array_pattern");
         self.expect_punct(Punct::OpenBracket)?;
+        let prev_in = self.context.allow_in;
+        self.context.allow_in = true;
         let mut elements = vec![];
         while !self.at_punct(Punct::CloseBracket) {
             if self.at_punct(Punct::Comma) {
@@ -2998,6 +3000,7 @@ where
                 }
             }
         }
+        self.context.allow_in = prev_in;
         self.expect_punct(Punct::CloseBracket)?;
         Ok((false, Pat::Array(elements)))
     }
@@ -3005,6 +3008,8 @@ where
     fn parse_object_pattern(&mut self) -> Res<(bool, Pat)> {
         debug!("parse_object_pattern");
         self.expect_punct(Punct::OpenBrace)?;
+        let prev_in = self.context.allow_in;
+        self.context.allow_in = true;
         let mut body = vec![];
         while !self.at_punct(Punct::CloseBrace) {
             let el = if self.at_punct(Punct::Spread) {
@@ -3017,6 +3022,7 @@ where
                 self.expect_punct(Punct::Comma)?;
             }
         }
+        self.context.allow_in = prev_in;
         self.expect_punct(Punct::CloseBrace)?;
         Ok((false, Pat::Object(body)))
     }
-- 
2.43.0


From eaa35bba06ccf70cfb3f51868423964a9a2bc7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 28/94] fix: allow null as the name of an import

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6e6abca..f3b3409 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -712,7 +712,7 @@ where
     }
 
     fn parse_import_specifier(&mut self) -> Res<ImportSpecifier> {
-        let (imported, local) = if self.look_ahead.token.is_ident() {
+        let (imported, local) = if self.at_ident() {
             let imported = self.parse_var_ident()?;
             let local = if self.at_contextual_keyword("as") {
                 let _ = self.next_item();
-- 
2.43.0


From 6b3ffa6345e892747de668e751d2f439683920dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 29/94] fix: only accept names as identifier names

---
 src/lib.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f3b3409..8496cdd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2820,21 +2820,13 @@ where
 
     fn parse_ident_name(&mut self) -> Res<Identifier> {
         debug!("parse_ident_name");
-        let lh = self.get_string(&self.look_ahead.span);
-        debug!("lh: {:?}", lh);
-        let ident = self.next_item()?; 
+        if !self.at_possible_ident() {
+            return self.expected_token_error(&self.look_ahead, &["identifier name"]);
+        }
+        let ident = self.next_item()?;
         let ret = self.get_string(&ident.span)?;
         debug!("ident: {:?}", ret);
         Ok(ret)
-
-        // let ret = match ident.token {
-        //     Token::Ident => Ok(self.scanner.string_for(&ident.span).unwrap_or(String::new())),
-        //     Token::Keyword(k) => Ok(k.to_string()),
-        //     Token::Boolean(b) => Ok(b.to_string()),
-        //     Token::Null => Ok("null".to_string()),
-        //     _ => self.expected_token_error(&ident, &["identifier name"]),
-        // };
-        // ret
     }
 
     fn parse_var_ident(&mut self) -> Res<Identifier> {
-- 
2.43.0


From 103f1fe9fa2562c4f680362ad339c5da604a631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 30/94] fix: only allow extends after the name of a class

---
 src/lib.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8496cdd..fc652ac 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1786,7 +1786,12 @@ where
         let prev_strict = self.context.strict;
         self.context.strict = true;
         self.expect_keyword(Keyword::Class)?;
-        let mut super_class = if self.at_contextual_keyword("extends") {
+        let id = if opt_ident && !self.at_ident() {
+            None
+        } else {
+            Some(self.parse_var_ident()?)
+        };
+        let super_class = if self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let super_class = self.parse_left_hand_side_expr_allow_call()?;
@@ -1795,18 +1800,6 @@ where
         } else {
             None
         };
-        let id = if opt_ident && !self.look_ahead.token.is_ident() {
-            None
-        } else {
-            Some(self.parse_var_ident()?)
-        };
-        if super_class.is_none() && self.at_contextual_keyword("extends") {
-            let _ = self.next_item()?;
-            let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let expr = self.parse_left_hand_side_expr_allow_call()?;
-            self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-            super_class = Some(Box::new(expr));
-        }
         let body = self.parse_class_body()?;
 
         self.context.strict = prev_strict;
@@ -2294,6 +2287,8 @@ where
             }
             if self.at_async_function() {
                 self.parse_function_expr()
+            } else if self.at_contextual_keyword("extends") {
+                self.unexpected_token_error(&self.look_ahead, "'extends' is a reserved word")
             } else {
                 let ident = self.next_item()?;
                 let name = self.get_string(&ident.span)?;
@@ -2841,7 +2836,10 @@ where
     /// the words that are only reserved in some contexts
     fn at_ident(&self) -> bool {
         match &self.look_ahead.token {
-            Token::Ident => !self.at_contextual_keyword("null"),
+            // the scanner provides `null` and `extends` as identifiers
+            Token::Ident => {
+                !self.at_contextual_keyword("null") && !self.at_contextual_keyword("extends")
+            }
             Token::Keyword(Keyword::Await) => !self.context.is_module && !self.context.r#await,
             Token::Keyword(Keyword::Yield) => !self.context.strict && self.context.allow_yield,
             Token::Keyword(ref k) => !self.context.strict && k.is_strict_reserved(),
-- 
2.43.0


From 7cb0de468d02b786726f30f9d297030d8b6d8ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 31/94] fix: require the arrow after parameters with a trailing
 comma or a rest element

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index fc652ac..7b9ddc1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2438,6 +2438,9 @@ where
                         let _ = self.next_item()?;
                         if self.at_punct(Punct::CloseParen) {
                             let _ = self.next_item()?;
+                            if !self.at_punct(Punct::FatArrow) {
+                                self.expect_punct(Punct::FatArrow)?;
+                            }
                             return Ok(Expr::ArrowParamPlaceHolder(
                                 exprs.into_iter().map(|e| FunctionArg::Expr(e)).collect(),
                                 false,
@@ -2451,6 +2454,9 @@ where
                                 exprs.into_iter().map(|e| FunctionArg::Expr(e)).collect();
                             args.push(FunctionArg::Pat(rest));
                             self.expect_punct(Punct::CloseParen)?;
+                            if !self.at_punct(Punct::FatArrow) {
+                                self.expect_punct(Punct::FatArrow)?;
+                            }
                             return Ok(Expr::ArrowParamPlaceHolder(args, false));
                         } else {
                             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
-- 
2.43.0


From 668bc2d97cb2836c1254c8c52247bda12f70bacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 32/94] fix: only take async itself as the start of an async
 arrow function

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 7b9ddc1..603564e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3093,6 +3093,7 @@ where
             let curr_line = self.look_ahead_position.line;
             let start_line = start_pos.line;
             if &self.scanner.stream[start..end] == "async"
+                && Self::is_ident(&current)
                 && curr_line == start_line
                 && (self.look_ahead.token.is_ident() || self.at_keyword(Keyword::Yield))
             {
-- 
2.43.0


From 84df27a90e1de0b9cd31cb12e2d8720a65d35952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 33/94] fix: do not allow a new line before the arrow of a
 function

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 603564e..9d6eaad 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3111,6 +3111,12 @@ where
                 self.context.is_binding_element = false;
                 let is_async = Self::is_async(&current);
                 if let Some(params) = self.reinterpret_as_cover_formals_list(current.clone())? {
+                    if self.context.has_line_term {
+                        return self.unexpected_token_error(
+                            &self.look_ahead,
+                            "new line between the parameters and the arrow of a function",
+                        );
+                    }
                     self.expect_punct(Punct::FatArrow)?;
                     let prev_await = self.context.r#await;
                     let prev_yield = self.context.allow_yield;
-- 
2.43.0


From 5b1686ad2b75f778db4aefc9b24917e927dd397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 34/94] fix: do not allow a new line after throw

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9d6eaad..895deb0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1069,7 +1069,8 @@ where
         debug!("parse_throw_stmt");
         self.expect_keyword(Keyword::Throw)?;
         if self.context.has_line_term {
-            //error: no new line allowed after throw
+            return self
+                .unexpected_token_error(&self.look_ahead, "no new line allowed after throw");
         }
         let arg = self.parse_expression()?;
         self.consume_semicolon()?;
-- 
2.43.0


From a31123dcb451cfc2a772eece65b83c3feb6c30cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 35/94] fix: require a catch or finally clause after try

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 895deb0..fd0fa96 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1031,7 +1031,7 @@ where
             None
         };
         if handler.is_none() && finalizer.is_none() {
-            //error: one or the other must be declared
+            return self.expected_token_error(&self.look_ahead, &["catch", "finally"]);
         }
         Ok(TryStmt {
             block,
-- 
2.43.0


From 685bb487fec1bbba0aa0b672b55290cde3355e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 36/94] fix: do not allow a unary expression as the base of an
 exponentiation

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index fd0fa96..67494e8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3592,9 +3592,20 @@ where
     fn parse_exponentiation_expression(&mut self) -> Res<Expr> {
         debug!("parse_exponentiation_expression");
         let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
+        let at_operator = self.at_keyword(Keyword::Await)
+            || Self::unary_operator(&self.look_ahead.token).is_some();
         let expr = self.parse_unary_expression()?;
         self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
         if self.at_punct(Punct::Exponent) {
+            match &expr {
+                Expr::Unary(_) | Expr::Await(_) if at_operator => {
+                    return self.unexpected_token_error(
+                        &self.look_ahead,
+                        "unary operator before the exponentiation operator",
+                    );
+                }
+                _ => (),
+            }
             let _stars = self.next_item()?;
             self.context.is_assignment_target = false;
             self.context.is_binding_element = false;
-- 
2.43.0


From 63ce610336b77a00d770e6679ac921a5fe795671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 37/94] fix: start a let declaration at every word that can be
 an identifier

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 67494e8..4dafa65 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4350,6 +4350,8 @@ where
                 || next.token.matches_punct(&Punct::OpenBrace)
                 || next.token.matches_keyword(&Keyword::Let)
                 || next.token.matches_keyword(&Keyword::Yield)
+                || next.token.matches_keyword(&Keyword::Await)
+                || next.token.is_strict_reserved()
         } else {
             false
         }
-- 
2.43.0


From 94239f2e4167375f334ee423f950c965aa5cf75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 38/94] fix: recognise a constructor with a quoted name

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4dafa65..e5dffe4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1991,7 +1991,8 @@ where
     fn is_key(key: &PropertyKey, other: &str) -> bool {
         match key {
             PropertyKey::Literal(ref l) => match l {
-                Literal::String(ref s) => s == other,
+                // the value of a string includes its quotes
+                Literal::String(ref s) => s.get(1..s.len() - 1) == Some(other),
                 _ => false,
             },
             PropertyKey::Expr(ref e) => match e {
-- 
2.43.0


From 0b62c6f532374f96967734e51f29f3e405fe9a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 39/94] fix: do not take a computed key as the static modifier

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e5dffe4..03aefa1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1846,7 +1846,8 @@ where
 
             let new_key = self.parse_object_property_key()?;
 
-            if Self::is_static(&new_key)
+            if !computed
+                && Self::is_static(&new_key)
                 && (Self::qualified_prop_name(&self.look_ahead.token)
                     || self.at_punct(Punct::Asterisk))
             {
-- 
2.43.0


From 58f0aabf9b8a9476f7dfb34634bf18c4f05edf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 40/94] fix: only allow a rest property at the end of an object
 pattern

---
 src/lib.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 03aefa1..f63d70e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3030,11 +3030,8 @@ where
         debug!("parse_rest_prop");
         self.expect_punct(Punct::Spread)?;
         let (_, arg) = self.parse_pattern(None, &mut vec![])?;
-        if self.at_punct(Punct::Assign) {
-            //unexpected token
-        }
         if !self.at_punct(Punct::CloseBrace) {
-            //unable to parse props after rest
+            return self.expected_token_error(&self.look_ahead, &["}"]);
         }
         let rest = Pat::RestElement(Box::new(arg));
         let part = ObjectPatPart::Rest(Box::new(rest));
-- 
2.43.0


From c37ec94a7843ddcc81f70ca8d0d570b2f4e18dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 41/94] fix: only allow break and continue in a loop, a switch
 or a labelled statement

---
 src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f63d70e..50f7260 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -969,6 +969,7 @@ where
         } else {
             self.expect_punct(Punct::CloseParen)?;
             let prev_iter = self.context.in_iteration;
+            self.context.in_iteration = true;
             let body = self.parse_statement()?;
             self.context.in_iteration = prev_iter;
             body
@@ -1460,20 +1461,23 @@ where
 
     fn parse_optionally_labeled_statement(&mut self, k: Keyword) -> Res<Option<Identifier>> {
         debug!("parse_optionally_labeled_statement");
+        let keyword = self.look_ahead.clone();
         self.expect_keyword(k)?;
         let ret = if self.at_ident() && !self.context.has_line_term {
+            let label = self.look_ahead.clone();
             let id = self.parse_var_ident()?;
-            if !self.context.label_set.contains(&id) {
-                //error: unknown label
+            if !self.context.label_set.contains(&format!("${}", &id)) && !self.config.tolerant {
+                return self.unexpected_token_error(&label, "unknown label");
             }
             Some(id)
         } else {
             None
         };
-        self.consume_semicolon()?;
-        if ret.is_some() && !self.context.in_iteration && !self.context.in_switch {
-            //error: invalid break
+        let in_switch = self.context.in_switch && keyword.token.matches_keyword(&Keyword::Break);
+        if ret.is_none() && !self.context.in_iteration && !in_switch && !self.config.tolerant {
+            return self.unexpected_token_error(&keyword, "outside of a loop or switch");
         }
+        self.consume_semicolon()?;
         Ok(ret)
     }
 
-- 
2.43.0


From b74b4706cb711d4595d996386dd0326457fabefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 42/94] fix: require a target before in and of in the head of a
 for statement

---
 src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 50f7260..60631e4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1316,8 +1316,15 @@ where
             self.context.allow_in = false;
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
             let init = self.parse_assignment_expr()?;
+            let is_target = self.context.is_assignment_target && !Self::is_assignment_expr(&init);
             self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
             self.context.allow_in = prev_in;
+            if (self.at_keyword(Keyword::In) || self.at_contextual_keyword("of"))
+                && !is_target
+                && !self.config.tolerant
+            {
+                return self.unexpected_token_error(&self.look_ahead, "Not at assignment target");
+            }
             if self.at_keyword(Keyword::In) {
                 let _ = self.next_item()?;
                 let left = LoopLeft::Expr(init);
@@ -3821,6 +3828,13 @@ where
         }
     }
 
+    fn is_assignment_expr(expr: &Expr) -> bool {
+        match expr {
+            Expr::Assignment(_) => true,
+            _ => false,
+        }
+    }
+
     fn is_ident(expr: &Expr) -> bool {
         match expr {
             Expr::Ident(_) => true,
-- 
2.43.0


From 0d5be2cf2ac072c408c6aec8ce1feed9ece8fdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 43/94] fix: only allow for await in async functions and for of
 loops

---
 src/lib.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 60631e4..811b622 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1202,7 +1202,14 @@ where
         debug!("parse_for_stmt");
 
         self.expect_keyword(Keyword::For)?;
+        let start = self.look_ahead.clone();
         let is_await = if self.at_keyword(Keyword::Await) {
+            if !self.context.r#await {
+                return self.unexpected_token_error(
+                    &self.look_ahead,
+                    "for await is only allowed in an async function",
+                );
+            }
             let _ = self.next_item()?;
             true
         // for await ([lookahead ≠ let] LeftHandSideExpression [?Yield, ?Await] of AssignmentExpression [+In, ?Yield, ?Await]) Statement [?Yield, ?Await, ?Return]
@@ -1212,6 +1219,16 @@ where
             false
         };
         self.expect_punct(Punct::OpenParen)?;
+        match self.parse_for_rest(is_await)? {
+            Stmt::For(_) | Stmt::ForIn(_) if is_await => {
+                self.unexpected_token_error(&start, "only for of loops can use await")
+            }
+            stmt => Ok(stmt),
+        }
+    }
+    /// Parse the rest of a for loop, after the opening parenthesis
+    fn parse_for_rest(&mut self, is_await: bool) -> Res<Stmt> {
+        debug!("parse_for_rest");
         if self.at_punct(Punct::SemiColon) {
             // any semi-colon would mean standard C style for loop
             // for (;;) {}
-- 
2.43.0


From c5703848070fbdf40ad7893b4e123374be24b78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 44/94] fix: do not allow an async constructor

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 811b622..76ad5cb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1982,7 +1982,7 @@ where
                         .expected_token_error(&self.look_ahead, &["[constructor declaration]"]);
                 }
                 if let Some(ref v) = value {
-                    if Self::is_generator(&v) {
+                    if Self::is_generator(&v) || is_async {
                         return self.expected_token_error(
                             &self.look_ahead,
                             &["[non-generator function declaration]"],
-- 
2.43.0


From 5a451f685c5fd379d353b3818a449edf047ac3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 45/94] fix: only allow identifiers and members in parentheses
 as targets

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 76ad5cb..b357460 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2523,6 +2523,14 @@ where
                         ));
                     }
                 }
+                // only an identifier or a member can be a target in parentheses
+                self.context.is_binding_element = false;
+                match &ex {
+                    Expr::Sequence(_) | Expr::Assignment(_) | Expr::Array(_) | Expr::Object(_) => {
+                        self.context.is_assignment_target = false;
+                    }
+                    _ => (),
+                }
                 Ok(ex)
             }
         }
-- 
2.43.0


From 3099cea16c4f511cf192d79d8b01c82c4533c3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 46/94] fix: only allow a pattern as the target of a plain
 assignment

---
 src/lib.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b357460..4b39d23 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3194,7 +3194,9 @@ where
                 }
             } else {
                 if self.at_assign() {
-                    if !self.context.is_assignment_target {
+                    if !self.context.is_assignment_target
+                        || (!self.at_punct(Punct::Assign) && Self::is_array_or_object(&current))
+                    {
                         if !self.config.tolerant {
                             return self.unexpected_token_error(
                                 &self.look_ahead,
@@ -3796,7 +3798,9 @@ where
                     _ => (),
                 }
             }
-            if !self.context.is_assignment_target && !self.config.tolerant {
+            if (!self.context.is_assignment_target || Self::is_array_or_object(&ex))
+                && !self.config.tolerant
+            {
                 return self
                     .unexpected_token_error(&op, "Cannot increment when not at assignment target");
             }
@@ -3826,7 +3830,9 @@ where
                         }
                     }
                     let op = self.next_item()?;
-                    if !self.context.is_assignment_target && !self.config.tolerant {
+                    if (!self.context.is_assignment_target || Self::is_array_or_object(&expr))
+                        && !self.config.tolerant
+                    {
                         return self.unexpected_token_error(
                             &op,
                             "Cannot increment when not at assignment target",
@@ -3853,6 +3859,13 @@ where
         }
     }
 
+    fn is_array_or_object(expr: &Expr) -> bool {
+        match expr {
+            Expr::Array(_) | Expr::Object(_) => true,
+            _ => false,
+        }
+    }
+
     fn is_assignment_expr(expr: &Expr) -> bool {
         match expr {
             Expr::Assignment(_) => true,
-- 
2.43.0


From 815154f563bc86686111f62eb0b2b6d76cc22601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 47/94] fix: only allow patterns as the parameters of an arrow
 function

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4b39d23..1a64207 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2472,6 +2472,10 @@ where
                             if !self.at_punct(Punct::FatArrow) {
                                 self.expect_punct(Punct::FatArrow)?;
                             }
+                            if !self.context.is_binding_element {
+                                return self
+                                    .expected_token_error(&self.look_ahead, &["binding element"]);
+                            }
                             return Ok(Expr::ArrowParamPlaceHolder(
                                 exprs.into_iter().map(|e| FunctionArg::Expr(e)).collect(),
                                 false,
@@ -3994,6 +3998,9 @@ where
                 };
                 //TODO: check for bad import call
                 if async_arrow && self.at_punct(Punct::FatArrow) {
+                    for arg in args.iter() {
+                        let _ = self.reinterpret_expr_as_pat(arg.clone())?;
+                    }
                     let args = args.into_iter().map(|a| FunctionArg::Expr(a)).collect();
                     expr = Expr::ArrowParamPlaceHolder(args, true);
                 } else {
-- 
2.43.0


From 63ed35c071b079c8629dec6acf6835ff5d84fb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 48/94] fix: only allow a shorthand property with a value in a
 pattern

---
 src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1a64207..2970cb3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1334,6 +1334,14 @@ where
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
             let init = self.parse_assignment_expr()?;
             let is_target = self.context.is_assignment_target && !Self::is_assignment_expr(&init);
+            if let Some(assign) = self.context.first_covert_initialized_name_error.take() {
+                if !self.at_keyword(Keyword::In) && !self.at_contextual_keyword("of") {
+                    return self.unexpected_token_error(
+                        &assign,
+                        "a default value is only allowed in a pattern",
+                    );
+                }
+            }
             self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
             self.context.allow_in = prev_in;
             if (self.at_keyword(Keyword::In) || self.at_contextual_keyword("of"))
@@ -3151,6 +3159,7 @@ where
                 self.context.is_binding_element = false;
                 let is_async = Self::is_async(&current);
                 if let Some(params) = self.reinterpret_as_cover_formals_list(current.clone())? {
+                    self.context.first_covert_initialized_name_error = None;
                     if self.context.has_line_term {
                         return self.unexpected_token_error(
                             &self.look_ahead,
@@ -4226,9 +4235,11 @@ where
         prev_assign: bool,
         prev_first: Option<Item>,
     ) -> Res<()> {
-        if let Some(ref _e) = prev_first {
-            //FIXME this needs to do something
-            //like an error?
+        if let Some(ref assign) = self.context.first_covert_initialized_name_error {
+            return self.unexpected_token_error(
+                assign,
+                "a default value is only allowed in a pattern",
+            );
         }
         self.context.is_binding_element = prev_bind;
         self.context.is_assignment_target = prev_assign;
-- 
2.43.0


From bbd21b439c5250ea16ee0bdbc40dcfee9e313397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 49/94] fix: do not allow a yield expression as a target

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 2970cb3..d2307b4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3498,6 +3498,8 @@ where
             }
             self.context.allow_yield = prev_yield;
         }
+        self.context.is_assignment_target = false;
+        self.context.is_binding_element = false;
         let y = YieldExpr {
             argument: arg,
             delegate,
-- 
2.43.0


From 5e32718cf7ead9264034e2ab6a90725bb0efe078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 50/94] fix: require from after the asterisk of an export

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d2307b4..dcb26f9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -778,7 +778,7 @@ where
         } else if self.at_punct(Punct::Asterisk) {
             let _ = self.next_item()?;
             if !self.at_contextual_keyword("from") {
-                //error
+                return self.expected_token_error(&self.look_ahead, &["from"]);
             }
             let _ = self.next_item()?;
             let source = self.parse_module_specifier()?;
-- 
2.43.0


From bb58ef2cf87332a8d26ffba2e8d087b055ad31c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 51/94] fix: only allow identifiers as the local names of
 imports

---
 src/lib.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index dcb26f9..a27a586 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -723,12 +723,11 @@ where
             (imported, local)
         } else {
             let imported = self.parse_ident_name()?;
-            let local = if self.at_contextual_keyword("as") {
-                let _ = self.next_item()?;
-                Some(self.parse_var_ident()?)
-            } else {
-                None
-            };
+            if !self.at_contextual_keyword("as") {
+                return self.expected_token_error(&self.look_ahead, &["as"]);
+            }
+            let _ = self.next_item()?;
+            let local = Some(self.parse_var_ident()?);
             (imported, local)
         };
         Ok(ImportSpecifier::Normal(imported, local))
@@ -740,12 +739,12 @@ where
             return self.expected_token_error(&self.look_ahead, &["as"]);
         }
         let _ = self.next_item()?;
-        let ident = self.parse_ident_name()?;
+        let ident = self.parse_var_ident()?;
         Ok(ImportSpecifier::Namespace(ident))
     }
 
     fn parse_import_default_specifier(&mut self) -> Res<ImportSpecifier> {
-        let ident = self.parse_ident_name()?;
+        let ident = self.parse_var_ident()?;
         Ok(ImportSpecifier::Default(ident))
     }
 
-- 
2.43.0


From b6b62a75435f0934103694bb45839f1be9b40e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 52/94] fix: check the expression of a default export for
 pattern defaults

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a27a586..9f864a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -769,7 +769,9 @@ where
                 if self.at_contextual_keyword("from") {
                     //error
                 }
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let expr = self.parse_assignment_expr()?;
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 self.consume_semicolon()?;
                 DefaultExportDecl::Expr(expr)
             };
-- 
2.43.0


From 2af029a808e5af723590f4ed85d5b08f6a1bc6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 53/94] fix: require the name of an exported class or function

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9f864a8..c3e3656 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -799,12 +799,12 @@ where
                 self.consume_semicolon()?;
                 Ok(ModExport::Named(decl))
             } else if self.look_ahead.token.matches_keyword(&Keyword::Class) {
-                let class = self.parse_class_decl(true)?;
+                let class = self.parse_class_decl(false)?;
                 let decl = Decl::Class(class);
                 let decl = NamedExportDecl::Decl(decl);
                 Ok(ModExport::Named(decl))
             } else if self.look_ahead.token.matches_keyword(&Keyword::Function) {
-                let func = self.parse_function_decl(true)?;
+                let func = self.parse_function_decl(false)?;
                 let decl = Decl::Function(func);
                 let decl = NamedExportDecl::Decl(decl);
                 Ok(ModExport::Named(decl))
-- 
2.43.0


From ed7aaec445035fde04a7a97f90b7c56453b84ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 54/94] fix: only allow identifiers as the local names of
 exports

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c3e3656..73769dc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -822,10 +822,10 @@ where
         } else {
             self.expect_punct(Punct::OpenBrace)?;
             let mut specifiers = vec![];
-            let mut found_default = false;
+            let mut found_reserved = false;
             while !self.at_punct(Punct::CloseBrace) {
-                if self.at_keyword(Keyword::Default) {
-                    found_default = true;
+                if !self.at_ident() {
+                    found_reserved = true;
                 }
                 specifiers.push(self.parse_export_specifier()?);
                 if !self.at_punct(Punct::CloseBrace) {
@@ -839,7 +839,7 @@ where
                 self.consume_semicolon()?;
                 let decl = NamedExportDecl::Specifier(specifiers, Some(source));
                 Ok(ModExport::Named(decl))
-            } else if found_default {
+            } else if found_reserved {
                 self.expected_token_error(&self.look_ahead, &[""])
             } else {
                 self.consume_semicolon()?;
-- 
2.43.0


From 95a5badb987691b96b27daccd85595ab8f0e21d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 55/94] fix: only allow imports and exports in modules

---
 src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 73769dc..ceb6acf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -580,7 +580,10 @@ where
                         Ok(ProgramPart::Stmt(stmt))
                     } else {
                         if !self.context.is_module {
-                            //Error
+                            return self.unexpected_token_error(
+                                &self.look_ahead,
+                                "import is only allowed in a module",
+                            );
                         }
                         let import = self.parse_import_decl()?;
                         let decl = Decl::Import(Box::new(import));
@@ -588,6 +591,12 @@ where
                     }
                 }
                 &Keyword::Export => {
+                    if !self.context.is_module {
+                        return self.unexpected_token_error(
+                            &self.look_ahead,
+                            "export is only allowed in a module",
+                        );
+                    }
                     let export = self.parse_export_decl()?;
                     let decl = Decl::Export(Box::new(export));
                     Ok(ProgramPart::Decl(decl))
-- 
2.43.0


From 45e5b25a97bb27b08f209b690f7234c76c0cec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 56/94] fix: only remove the outer quotes of a directive

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ceb6acf..28eec95 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -551,7 +551,7 @@ where
                 }
                 self.consume_semicolon()?;
                 return Ok(ProgramPart::Dir(Dir {
-                    dir: s.trim_matches(|c| c == '\'' || c == '"').to_string(),
+                    dir: s[1..s.len() - 1].to_string(),
                     expr: Literal::String(s),
                 }));
             } else {
-- 
2.43.0


From 5cd0df7642e7c39b53986e2383f5a4558ca8712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 57/94] fix: only allow imports and exports at the top level of
 a module

---
 src/lib.rs | 52 +++++++++++++++++++++++-----------------------------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 28eec95..b890f0c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -563,9 +563,30 @@ where
             Ok(stmt)
         }
     }
+    /// Parse an item of the top level of a program, the only
+    /// place for the imports and exports of a module
+    fn parse_module_item(&mut self) -> Res<ProgramPart> {
+        debug!("parse_module_item");
+        let at_export = self.at_keyword(Keyword::Export);
+        if !at_export && (!self.at_keyword(Keyword::Import) || self.at_import_call()) {
+            return self.parse_statement_list_item();
+        }
+        if !self.context.is_module {
+            return self.unexpected_token_error(
+                &self.look_ahead,
+                "import and export are only allowed in a module",
+            );
+        }
+        let decl = if at_export {
+            Decl::Export(Box::new(self.parse_export_decl()?))
+        } else {
+            Decl::Import(Box::new(self.parse_import_decl()?))
+        };
+        Ok(ProgramPart::Decl(decl))
+    }
     /// This is where we will begin our recursive decent. First
     /// we check to see if we are at at token that is a known
-    /// statement or declaration (import/export/function/const/let/class)
+    /// statement or declaration (function/const/let/class)
     /// otherwise we move on to `Parser::parse_statement`
     fn parse_statement_list_item(&mut self) -> Res<ProgramPart> {
         debug!("parse_statement_list_item_script");
@@ -574,33 +595,6 @@ where
         let tok = self.look_ahead.token.clone();
         let ret = match &tok {
             Token::Keyword(ref k) => match k {
-                &Keyword::Import => {
-                    if self.at_import_call() {
-                        let stmt = self.parse_statement()?;
-                        Ok(ProgramPart::Stmt(stmt))
-                    } else {
-                        if !self.context.is_module {
-                            return self.unexpected_token_error(
-                                &self.look_ahead,
-                                "import is only allowed in a module",
-                            );
-                        }
-                        let import = self.parse_import_decl()?;
-                        let decl = Decl::Import(Box::new(import));
-                        Ok(ProgramPart::Decl(decl))
-                    }
-                }
-                &Keyword::Export => {
-                    if !self.context.is_module {
-                        return self.unexpected_token_error(
-                            &self.look_ahead,
-                            "export is only allowed in a module",
-                        );
-                    }
-                    let export = self.parse_export_decl()?;
-                    let decl = Decl::Export(Box::new(export));
-                    Ok(ProgramPart::Decl(decl))
-                }
                 &Keyword::Const => {
                     let decl = self.parse_lexical_decl(false)?;
                     Ok(ProgramPart::Decl(decl))
@@ -4675,7 +4669,7 @@ where
                 self.context.past_prolog = true;
             }
         }
-        let ret = self.parse_statement_list_item()?;
+        let ret = self.parse_module_item()?;
         trace!(target: "resp:trace", "{:?}", ret);
         Ok(ret)
     }
-- 
2.43.0


From cd485e3f9da6577e41376c95fc379ad2ef39a126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 58/94] fix: do not allow an await expression or an async
 function as a target

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index b890f0c..dbd8073 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2329,6 +2329,8 @@ where
                 }
             }
             if self.at_async_function() {
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
                 self.parse_function_expr()
             } else if self.at_contextual_keyword("extends") {
                 self.unexpected_token_error(&self.look_ahead, "'extends' is a reserved word")
@@ -3784,6 +3786,8 @@ where
         debug!("parse_await_expr");
         let _await = self.next_item()?;
         let arg = self.parse_unary_expression()?;
+        self.context.is_assignment_target = false;
+        self.context.is_binding_element = false;
         Ok(Expr::Await(Box::new(arg)))
     }
 
-- 
2.43.0


From 765b4a972e9e26743a14c07b8c5ac6ad75d5d485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 59/94] fix: every word that may name an identifier may be the
 parameter of an async arrow

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index dbd8073..6d7d9b5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3149,7 +3149,8 @@ where
             if &self.scanner.stream[start..end] == "async"
                 && Self::is_ident(&current)
                 && curr_line == start_line
-                && (self.look_ahead.token.is_ident() || self.at_keyword(Keyword::Yield))
+                && self.at_ident()
+                && !self.at_keyword(Keyword::Await)
             {
                 let arg = self.parse_primary_expression()?;
                 let arg = self.reinterpret_expr_as_pat(arg)?;
-- 
2.43.0


From 401cf7af63e805128c9ceb7b1765de7427c28b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 60/94] fix: check the value of a for of loop and the parts of
 a for sequence on their own

---
 src/lib.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6d7d9b5..5429a2b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1366,7 +1366,7 @@ where
             } else if self.at_contextual_keyword("of") {
                 let _ = self.next_item()?;
                 let left = LoopLeft::Expr(init);
-                let right = self.parse_assignment_expr()?;
+                let right = self.parse_for_of_right()?;
                 let body = self.parse_loop_body()?;
                 return Ok(Stmt::ForOf(ForOfStmt {
                     left,
@@ -1379,9 +1379,9 @@ where
                     let mut seq = vec![init];
                     while self.at_punct(Punct::Comma) {
                         let _comma = self.next_item()?;
-                        let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
+                        let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                         seq.push(self.parse_assignment_expr()?);
-                        self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
+                        self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                     }
                     LoopInit::Expr(Expr::Sequence(seq))
                 } else {
@@ -1443,7 +1443,7 @@ where
     fn parse_for_of_loop(&mut self, left: LoopLeft, is_await: bool) -> Res<ForOfStmt> {
         debug!("parse_for_of_loop");
         let _ = self.next_item()?;
-        let right = self.parse_assignment_expr()?;
+        let right = self.parse_for_of_right()?;
         let body = self.parse_loop_body()?;
         Ok(ForOfStmt {
             left,
@@ -1452,6 +1452,13 @@ where
             is_await,
         })
     }
+    /// Parse the value a for of loop iterates over
+    fn parse_for_of_right(&mut self) -> Res<Expr> {
+        let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
+        let right = self.parse_assignment_expr()?;
+        self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
+        Ok(right)
+    }
 
     fn parse_loop_body(&mut self) -> Res<Stmt> {
         debug!("parse_loop_body");
-- 
2.43.0


From 02e4c7f70886023b5d1010f31d3d26af2e2d7e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 61/94] fix: only allow a default value in the arguments of
 async as a parameter

---
 src/lib.rs | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5429a2b..c2f322a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4018,10 +4018,10 @@ where
                 let async_arrow = is_async && start_pos.line == current_pos.line;
                 self.context.is_binding_element = false;
                 self.context.is_assignment_target = false;
-                let args = if async_arrow {
+                let (args, default_value) = if async_arrow {
                     self.parse_async_args()?
                 } else {
-                    self.parse_args()?
+                    (self.parse_args()?, None)
                 };
                 //TODO: check for bad import call
                 if async_arrow && self.at_punct(Punct::FatArrow) {
@@ -4031,6 +4031,12 @@ where
                     let args = args.into_iter().map(|a| FunctionArg::Expr(a)).collect();
                     expr = Expr::ArrowParamPlaceHolder(args, true);
                 } else {
+                    if let Some(assign) = default_value {
+                        return self.unexpected_token_error(
+                            &assign,
+                            "a default value is only allowed in a pattern",
+                        );
+                    }
                     let inner = CallExpr {
                         callee: Box::new(expr),
                         arguments: args,
@@ -4066,21 +4072,25 @@ where
         self.context.allow_in = prev_in;
         Ok(expr)
     }
-    /// Parse the arguments of an async function
-    fn parse_async_args(&mut self) -> Res<Vec<Expr>> {
+    /// Parse the arguments of an async function, along with the
+    /// first default value that is only allowed if these are the
+    /// parameters of an arrow function
+    fn parse_async_args(&mut self) -> Res<(Vec<Expr>, Option<Item>)> {
         debug!("parse_async_args");
         self.expect_punct(Punct::OpenParen)?;
         let mut ret = vec![];
+        let mut default_value = None;
         if !self.at_punct(Punct::CloseParen) {
             loop {
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let arg = if self.at_punct(Punct::Spread) {
                     self.parse_spread_element()?
                 } else {
-                    let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-                    let arg = self.parse_async_arg()?;
-                    self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-                    arg
+                    self.parse_assignment_expr()?
                 };
+                let first = self.context.first_covert_initialized_name_error.take();
+                default_value = default_value.or(first);
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 ret.push(arg);
                 if self.at_punct(Punct::CloseParen) {
                     break;
@@ -4092,15 +4102,7 @@ where
             }
         }
         self.expect_punct(Punct::CloseParen)?;
-        Ok(ret)
-    }
-    /// Parse an argument of an async function
-    /// note: not sure this is needed
-    fn parse_async_arg(&mut self) -> Res<Expr> {
-        debug!("parse_async_arg");
-        let expr = self.parse_assignment_expr()?;
-        self.context.first_covert_initialized_name_error = None;
-        Ok(expr)
+        Ok((ret, default_value))
     }
     /// Expect a comma separator,
     /// if parsing with tolerance we can tolerate
-- 
2.43.0


From 2e4049d325d56b70f2a9d00c5943d9da86692640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 62/94] fix: only take the first arguments after async as the
 parameters of an arrow function

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c2f322a..c91467a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4015,7 +4015,9 @@ where
                 debug!(target: "look_ahead", "1 {:?}", expr);
             } else if self.at_punct(Punct::OpenParen) {
                 let current_pos = self.look_ahead_position;
-                let async_arrow = is_async && start_pos.line == current_pos.line;
+                let async_arrow = is_async
+                    && Self::is_ident(&expr)
+                    && start_pos.line == current_pos.line;
                 self.context.is_binding_element = false;
                 self.context.is_assignment_target = false;
                 let (args, default_value) = if async_arrow {
-- 
2.43.0


From 7f5c7ee8a491c84d25bdc5974f852c04a928312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 63/94] fix: a dynamic import takes exactly one argument

---
 src/lib.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c91467a..327eaa0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3408,6 +3408,13 @@ where
         Ok(Some(params))
     }
 
+    fn is_import(expr: &Expr) -> bool {
+        match expr {
+            Expr::Ident(ref i) => i == "import",
+            _ => false,
+        }
+    }
+
     fn is_await(arg: &FunctionArg) -> bool {
         match arg {
             FunctionArg::Expr(ref e) => match e {
@@ -4022,10 +4029,11 @@ where
                 self.context.is_assignment_target = false;
                 let (args, default_value) = if async_arrow {
                     self.parse_async_args()?
+                } else if Self::is_import(&expr) {
+                    (vec![self.parse_import_arg()?], None)
                 } else {
                     (self.parse_args()?, None)
                 };
-                //TODO: check for bad import call
                 if async_arrow && self.at_punct(Punct::FatArrow) {
                     for arg in args.iter() {
                         let _ = self.reinterpret_expr_as_pat(arg.clone())?;
@@ -4074,6 +4082,16 @@ where
         self.context.allow_in = prev_in;
         Ok(expr)
     }
+    /// Parse the single argument of a dynamic import
+    fn parse_import_arg(&mut self) -> Res<Expr> {
+        debug!("parse_import_arg");
+        self.expect_punct(Punct::OpenParen)?;
+        let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
+        let arg = self.parse_assignment_expr()?;
+        self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
+        self.expect_punct(Punct::CloseParen)?;
+        Ok(arg)
+    }
     /// Parse the arguments of an async function, along with the
     /// first default value that is only allowed if these are the
     /// parameters of an arrow function
-- 
2.43.0


From 078d7e522c5b64f5d54e213e9bb1dffa07edadca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 64/94] fix: reject a value for the variable of a for of loop,
 or of a for in loop in strict code

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 327eaa0..114a802 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1253,6 +1253,17 @@ where
                 } else {
                     return self.expected_token_error(&self.look_ahead, &["variable decl"]);
                 };
+                // a value is only allowed for a plain name in sloppy code
+                if decl.init.is_some()
+                    && (self.context.strict || !Self::is_pat_ident(&decl.id))
+                    && self.at_keyword(Keyword::In)
+                    || decl.init.is_some() && self.at_contextual_keyword("of")
+                {
+                    return self.unexpected_token_error(
+                        &self.look_ahead,
+                        "the variable of this loop can't have a value",
+                    );
+                }
                 if self.at_keyword(Keyword::In) {
                     let left = LoopLeft::Variable(kind, decl);
                     let stmt = self.parse_for_in_loop(left)?;
-- 
2.43.0


From 2cf2d324486ca2baa5f1b05dc800cd67058a4f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 65/94] fix: const is never the target of a for in loop

---
 src/lib.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 114a802..fae3449 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1294,15 +1294,13 @@ where
                 },
                 _ => return self.expected_token_error(&kind, &["const", "let"]),
             };
-            if !self.context.strict && self.look_ahead.token.matches_keyword(&Keyword::In) {
+            if !self.context.strict
+                && kind != VariableKind::Const
+                && self.look_ahead.token.matches_keyword(&Keyword::In)
+            {
                 let _in = self.next_item()?;
-                //const or let becomes an ident
-                let k = match kind {
-                    VariableKind::Var => String::from("var"),
-                    VariableKind::Let => String::from("let"),
-                    VariableKind::Const => String::from("const"),
-                };
-                let left = LoopLeft::Expr(Expr::Ident(k));
+                // let becomes an ident
+                let left = LoopLeft::Expr(Expr::Ident(String::from("let")));
                 let right = self.parse_expression()?;
                 Ok(Stmt::ForIn(ForInStmt {
                     left,
-- 
2.43.0


From 201feb38c1cc30b1db7999f9f3d0eedba37dd022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 66/94] fix: the rest of an object in a declaration is a name

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index fae3449..45fc4cf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3099,6 +3099,9 @@ where
     fn parse_rest_prop(&mut self) -> Res<ObjectPatPart> {
         debug!("parse_rest_prop");
         self.expect_punct(Punct::Spread)?;
+        if self.at_punct(Punct::OpenBrace) || self.at_punct(Punct::OpenBracket) {
+            return self.expected_token_error(&self.look_ahead, &["identifier"]);
+        }
         let (_, arg) = self.parse_pattern(None, &mut vec![])?;
         if !self.at_punct(Punct::CloseBrace) {
             return self.expected_token_error(&self.look_ahead, &["}"]);
-- 
2.43.0


From 92ba308a89bfc32a7dae066d3020216aa4246f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 67/94] fix: only allow a declaration where a list of
 statements is

---
 src/lib.rs | 53 +++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 45fc4cf..0c15898 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -113,6 +113,8 @@ struct Context {
     in_iteration: bool,
     /// If we have entered a switch block
     in_switch: bool,
+    /// If a label may be followed by a function
+    allow_labelled_fn: bool,
     /// The currently known labels, this applies
     /// to labels only, not all identifiers. Errors
     /// at that level would need to be handled by
@@ -152,6 +154,7 @@ impl Default for Context {
             in_formal_params: false,
             in_iteration: false,
             in_switch: false,
+            allow_labelled_fn: true,
             label_set: HashSet::new(),
             strict: false,
             has_line_term: false,
@@ -590,6 +593,7 @@ where
     /// otherwise we move on to `Parser::parse_statement`
     fn parse_statement_list_item(&mut self) -> Res<ProgramPart> {
         debug!("parse_statement_list_item_script");
+        self.context.allow_labelled_fn = true;
         self.context.is_assignment_target = true;
         self.context.is_binding_element = true;
         let tok = self.look_ahead.token.clone();
@@ -955,7 +959,7 @@ where
             self.expect_punct(Punct::CloseParen)?;
             WithStmt {
                 object: obj,
-                body: Box::new(self.parse_statement()?),
+                body: Box::new(self.parse_body_stmt()?),
             }
         })
     }
@@ -974,7 +978,7 @@ where
             self.expect_punct(Punct::CloseParen)?;
             let prev_iter = self.context.in_iteration;
             self.context.in_iteration = true;
-            let body = self.parse_statement()?;
+            let body = self.parse_body_stmt()?;
             self.context.in_iteration = prev_iter;
             body
         };
@@ -1193,8 +1197,44 @@ where
                 return self.unexpected_token_error(&self.look_ahead, "");
             }
         }
+        self.context.allow_labelled_fn = false;
+        if !self.at_keyword(Keyword::Function) || self.at_generator() {
+            self.reject_decl()?;
+        }
+        self.parse_statement()
+    }
+    /// Parse the body of a loop or a with statement
+    fn parse_body_stmt(&mut self) -> Res<Stmt> {
+        debug!("parse_body_stmt");
+        self.context.allow_labelled_fn = false;
+        self.reject_decl()?;
         self.parse_statement()
     }
+    /// Where a single statement is required, a
+    /// declaration is not allowed
+    fn reject_decl(&mut self) -> Res<()> {
+        let at_decl = self.at_keyword(Keyword::Function)
+            || self.at_keyword(Keyword::Class)
+            || self.at_async_function()
+            || self.at_keyword(Keyword::Let)
+                && self.peek().map_or(false, |next| {
+                    next.token.matches_punct(&Punct::OpenBracket)
+                });
+        if at_decl && !self.config.tolerant {
+            return self.unexpected_token_error(
+                &self.look_ahead,
+                "a declaration is not allowed here",
+            );
+        }
+        Ok(())
+    }
+    /// Test if the function at the look ahead is a generator
+    fn at_generator(&mut self) -> bool {
+        self.at_keyword(Keyword::Function)
+            && self
+                .peek()
+                .map_or(false, |next| next.token.matches_punct(&Punct::Asterisk))
+    }
 
     fn parse_fn_stmt(&mut self) -> Res<Expr> {
         debug!("parse_fn_stmt");
@@ -1475,7 +1515,7 @@ where
         let prev_iter = self.context.in_iteration;
         self.context.in_iteration = true;
         let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-        let ret = self.parse_statement()?;
+        let ret = self.parse_body_stmt()?;
         self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
         self.context.in_iteration = prev_iter;
         Ok(ret)
@@ -1486,7 +1526,7 @@ where
         self.expect_keyword(Keyword::Do)?;
         let prev_iter = self.context.in_iteration;
         self.context.in_iteration = true;
-        let body = self.parse_statement()?;
+        let body = self.parse_body_stmt()?;
         self.context.in_iteration = prev_iter;
         self.expect_keyword(Keyword::While)?;
         self.expect_punct(Punct::OpenParen)?;
@@ -1542,6 +1582,7 @@ where
 
     fn parse_labelled_statement(&mut self) -> Res<Stmt> {
         debug!("parse_labelled_statement, {:?}", self.look_ahead.token);
+        let allow_fn = self.context.allow_labelled_fn;
         let ret = self.parse_expression()?;
         if Self::is_ident(&ret) && self.at_punct(Punct::Colon) {
             let _colon = self.next_item()?;
@@ -1567,10 +1608,14 @@ where
                 let expr = Expr::Class(cls);
                 Stmt::Expr(expr)
             } else if self.at_keyword(Keyword::Function) {
+                if self.context.strict || !allow_fn || self.at_generator() {
+                    self.reject_decl()?;
+                }
                 let f = self.parse_function_decl(true)?;
                 let expr = Expr::Function(f);
                 Stmt::Expr(expr)
             } else {
+                self.reject_decl()?;
                 self.parse_statement()?
             };
             self.context.label_set.remove(&format!("${}", &id));
-- 
2.43.0


From 71dacba78b36ab1f2682055c92e6c155154fd8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 68/94] fix: a function or a class is never an assignment
 target, whatever it contains

---
 src/lib.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0c15898..becf9ab 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2390,9 +2390,10 @@ where
                 }
             }
             if self.at_async_function() {
+                let func = self.parse_function_expr()?;
                 self.context.is_assignment_target = false;
                 self.context.is_binding_element = false;
-                self.parse_function_expr()
+                Ok(func)
             } else if self.at_contextual_keyword("extends") {
                 self.unexpected_token_error(&self.look_ahead, "'extends' is a reserved word")
             } else {
@@ -2470,26 +2471,29 @@ where
                 let ident = self.parse_ident_name()?;
                 Ok(Expr::Ident(ident))
             } else {
-                self.context.is_assignment_target = false;
-                self.context.is_binding_element = false;
-                if self.at_keyword(Keyword::Function) {
-                    self.parse_function_expr()
+                let expr = if self.at_keyword(Keyword::Function) {
+                    self.parse_function_expr()?
                 } else if self.at_keyword(Keyword::This) {
                     let _ = self.next_item()?;
-                    Ok(Expr::This)
+                    Expr::This
                 } else if self.at_keyword(Keyword::Class) {
                     let cls = self.parse_class_decl(true)?;
-                    Ok(Expr::Class(cls))
+                    Expr::Class(cls)
                 } else if self.at_import_call() {
                     // TODO: Double check this
                     let ident = self.parse_ident_name()?;
-                    Ok(Expr::Ident(ident))
+                    Expr::Ident(ident)
                 } else {
-                    self.expected_token_error(
+                    return self.expected_token_error(
                         &self.look_ahead,
                         &["function", "this", "class", "import"],
-                    )
-                }
+                    );
+                };
+                // whatever is inside of a function or a class
+                // it can't be assigned to
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
+                Ok(expr)
             }
         } else {
             self.expected_token_error(
-- 
2.43.0


From 67120ef0312d9221703121f33387559aa59fc2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 69/94] fix: a template or an arrow function is never an
 assignment target

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index becf9ab..12d7405 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2846,6 +2846,8 @@ where
             breaking = quasi.tail;
             quasis.push(quasi);
         }
+        self.context.is_assignment_target = false;
+        self.context.is_binding_element = false;
         Ok(TemplateLiteral {
             expressions,
             quasis,
@@ -3279,6 +3281,8 @@ where
                     };
                     self.context.r#await = prev_await;
                     self.context.allow_yield = prev_yield;
+                    self.context.is_assignment_target = false;
+                    self.context.is_binding_element = false;
                 }
             } else {
                 if self.at_assign() {
-- 
2.43.0


From 567c2390b1d803fc7f1e85a1d2022bbf91903a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 70/94] fix: the rest of a pattern has no default value, and of
 an object pattern is the last, plain target

---
 src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 12d7405..547205d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2655,6 +2655,15 @@ where
         while !self.at_punct(Punct::CloseBrace) {
             let prop = if self.at_punct(Punct::Spread) {
                 let spread = self.parse_spread_element()?;
+                // the rest of an object pattern is last and has no parts
+                let has_parts = match &spread {
+                    Expr::Spread(arg) => Self::is_array_or_object(arg),
+                    _ => false,
+                };
+                if has_parts || !self.at_punct(Punct::CloseBrace) {
+                    self.context.is_assignment_target = false;
+                    self.context.is_binding_element = false;
+                }
                 ObjectProperty::Spread(Box::new(spread))
             } else {
                 let (found_proto, prop) = self.parse_obj_prop(has_proto)?;
@@ -4217,6 +4226,11 @@ where
         let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
         let arg = self.parse_assignment_expr()?;
         self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
+        if Self::is_assignment_expr(&arg) {
+            // the rest of a pattern can't have a default value
+            self.context.is_assignment_target = false;
+            self.context.is_binding_element = false;
+        }
         Ok(Expr::Spread(Box::new(arg)))
     }
     /// Parse function arguments, expecting to open with `(` and close with `)`
-- 
2.43.0


From ffd92f1ffc2d5b773e2c0c32e0b8642b46e576fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 71/94] fix: the parameters of an arrow function are not
 parenthesized one by one

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 547205d..dbff5af 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2586,7 +2586,7 @@ where
                 }
                 self.expect_punct(Punct::CloseParen)?;
                 if self.at_punct(Punct::FatArrow) {
-                    if Self::is_ident(&ex) {
+                    if Self::is_ident(&ex) && self.context.is_binding_element {
                         self.context.is_binding_element = false;
                         return Ok(Expr::ArrowParamPlaceHolder(
                             vec![FunctionArg::Expr(ex)],
-- 
2.43.0


From 2f9d6676d2069b5f8b07f3b972fa162199d770f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 72/94] fix: the parameters of an async arrow function are
 patterns without await

---
 src/lib.rs | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index dbff5af..9d643d3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -109,6 +109,9 @@ struct Context {
     /// If we have entered the formal parameters of a function,
     /// which can't contain a yield expression
     in_formal_params: bool,
+    /// If we have found `await` as an identifier, which the
+    /// parameters of an async function can't contain
+    found_await: bool,
     /// If we have entered a loop block
     in_iteration: bool,
     /// If we have entered a switch block
@@ -152,6 +155,7 @@ impl Default for Context {
             is_binding_element: false,
             in_function_body: false,
             in_formal_params: false,
+            found_await: false,
             in_iteration: false,
             in_switch: false,
             allow_labelled_fn: true,
@@ -1862,6 +1866,7 @@ where
         let prev_switch = self.context.in_switch;
         let prev_in_fn = self.context.in_function_body;
         let prev_params = self.context.in_formal_params;
+        let prev_found_await = self.context.found_await;
         self.context.label_set = HashSet::new();
         self.context.in_iteration = false;
         self.context.in_switch = false;
@@ -1880,6 +1885,7 @@ where
         self.context.in_switch = prev_switch;
         self.context.in_function_body = prev_in_fn;
         self.context.in_formal_params = prev_params;
+        self.context.found_await = prev_found_await;
         Ok(body)
     }
 
@@ -2380,6 +2386,9 @@ where
 
     fn parse_primary_expression(&mut self) -> Res<Expr> {
         debug!("parse_primary_expression");
+        if self.at_keyword(Keyword::Await) {
+            self.context.found_await = true;
+        }
         if self.look_ahead.token.is_ident() {
             if (self.context.is_module || self.context.r#await) && self.at_keyword(Keyword::Await) {
                 if !self.config.tolerant {
@@ -2786,6 +2795,9 @@ where
                         short_hand: false,
                     })
                 } else if at_ident && !is_async {
+                    if Self::is_key(&key, "await") {
+                        self.context.found_await = true;
+                    }
                     if self.at_punct(Punct::Assign) {
                         self.context.first_covert_initialized_name_error =
                             Some(self.look_ahead.clone());
@@ -2993,6 +3005,7 @@ where
         let mut simple: bool = true;
         let mut found_restricted = false;
         let prev_params = self.context.in_formal_params;
+        let prev_found_await = self.context.found_await;
         self.context.in_formal_params = true;
         if !self.at_punct(Punct::CloseParen) {
             while !self.look_ahead.token.is_eof() {
@@ -3011,6 +3024,7 @@ where
         }
         self.expect_punct(Punct::CloseParen)?;
         self.context.in_formal_params = prev_params;
+        self.context.found_await = prev_found_await;
 
         Ok(FormalParams {
             params: args,
@@ -3276,9 +3290,11 @@ where
                             body: ArrowFunctionBody::FunctionBody(body),
                         });
                     } else {
+                        let prev_found_await = self.context.found_await;
                         let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                         let a = self.parse_assignment_expr()?;
                         self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
+                        self.context.found_await = prev_found_await;
                         current = Expr::ArrowFunction(ArrowFunctionExpr {
                             id: None,
                             expression: true,
@@ -4101,14 +4117,17 @@ where
                     && start_pos.line == current_pos.line;
                 self.context.is_binding_element = false;
                 self.context.is_assignment_target = false;
-                let (args, default_value) = if async_arrow {
+                let (args, default_value, are_params) = if async_arrow {
                     self.parse_async_args()?
                 } else if Self::is_import(&expr) {
-                    (vec![self.parse_import_arg()?], None)
+                    (vec![self.parse_import_arg()?], None, false)
                 } else {
-                    (self.parse_args()?, None)
+                    (self.parse_args()?, None, false)
                 };
                 if async_arrow && self.at_punct(Punct::FatArrow) {
+                    if !are_params {
+                        return self.expected_token_error(&self.look_ahead, &["binding element"]);
+                    }
                     for arg in args.iter() {
                         let _ = self.reinterpret_expr_as_pat(arg.clone())?;
                     }
@@ -4168,20 +4187,27 @@ where
     }
     /// Parse the arguments of an async function, along with the
     /// first default value that is only allowed if these are the
-    /// parameters of an arrow function
-    fn parse_async_args(&mut self) -> Res<(Vec<Expr>, Option<Item>)> {
+    /// parameters of an arrow function and if they can be such
+    /// parameters
+    fn parse_async_args(&mut self) -> Res<(Vec<Expr>, Option<Item>, bool)> {
         debug!("parse_async_args");
         self.expect_punct(Punct::OpenParen)?;
         let mut ret = vec![];
         let mut default_value = None;
+        let mut are_params = true;
+        let prev_await = replace(&mut self.context.found_await, false);
         if !self.at_punct(Punct::CloseParen) {
             loop {
                 let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-                let arg = if self.at_punct(Punct::Spread) {
+                let is_rest = self.at_punct(Punct::Spread);
+                let arg = if is_rest {
                     self.parse_spread_element()?
                 } else {
                     self.parse_assignment_expr()?
                 };
+                are_params = are_params
+                    && self.context.is_binding_element
+                    && (!is_rest || self.at_punct(Punct::CloseParen));
                 let first = self.context.first_covert_initialized_name_error.take();
                 default_value = default_value.or(first);
                 self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
@@ -4196,7 +4222,9 @@ where
             }
         }
         self.expect_punct(Punct::CloseParen)?;
-        Ok((ret, default_value))
+        are_params = are_params && !self.context.found_await;
+        self.context.found_await = self.context.found_await || prev_await;
+        Ok((ret, default_value, are_params))
     }
     /// Expect a comma separator,
     /// if parsing with tolerance we can tolerate
-- 
2.43.0


From 1724ba55e1f24e43813d53984e2c9487f7f996c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 73/94] fix: a pattern in the head of a plain for loop needs a
 value

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9d643d3..ef052b1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1458,6 +1458,17 @@ where
 
     fn parse_for_loop_cont(&mut self, init: Option<LoopInit>) -> Res<ForStmt> {
         debug!("parse_for_loop_cont");
+        if let Some(LoopInit::Variable(_, ref decls)) = init {
+            if decls
+                .iter()
+                .any(|d| d.init.is_none() && !Self::is_pat_ident(&d.id))
+            {
+                return self.unexpected_token_error(
+                    &self.look_ahead,
+                    "a pattern in the head of this loop needs a value",
+                );
+            }
+        }
         self.expect_punct(Punct::SemiColon)?;
         let test = if self.at_punct(Punct::SemiColon) {
             None
-- 
2.43.0


From 40ca3a26fe5630e75106faf11c2ea353b73c8ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 74/94] fix: new.target is never an assignment target

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index ef052b1..37bf844 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4316,6 +4316,8 @@ where
             let _ = self.next_item()?;
             if self.at_contextual_keyword("target") && self.in_function() {
                 let property = self.parse_ident_name()?;
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
                 Ok(Expr::MetaProperty(MetaProperty {
                     meta: String::from("new"),
                     property,
-- 
2.43.0


From 0c3431ea71793ac8c61ab7f5ef14a7ba31665b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 75/94] fix: the parameters of a function contain no yield or
 await expression

---
 src/lib.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 37bf844..e586f11 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -112,6 +112,9 @@ struct Context {
     /// If we have found `await` as an identifier, which the
     /// parameters of an async function can't contain
     found_await: bool,
+    /// If a yield or an await expression was found since
+    /// the start of what may be the parameters of a function
+    found_yield_or_await: bool,
     /// If we have entered a loop block
     in_iteration: bool,
     /// If we have entered a switch block
@@ -156,6 +159,7 @@ impl Default for Context {
             in_function_body: false,
             in_formal_params: false,
             found_await: false,
+            found_yield_or_await: false,
             in_iteration: false,
             in_switch: false,
             allow_labelled_fn: true,
@@ -1878,6 +1882,7 @@ where
         let prev_in_fn = self.context.in_function_body;
         let prev_params = self.context.in_formal_params;
         let prev_found_await = self.context.found_await;
+        let prev_found = replace(&mut self.context.found_yield_or_await, false);
         self.context.label_set = HashSet::new();
         self.context.in_iteration = false;
         self.context.in_switch = false;
@@ -1897,6 +1902,7 @@ where
         self.context.in_function_body = prev_in_fn;
         self.context.in_formal_params = prev_params;
         self.context.found_await = prev_found_await;
+        self.context.found_yield_or_await = prev_found;
         Ok(body)
     }
 
@@ -2197,10 +2203,9 @@ where
         debug!("pares_generator_method");
         let prev_yield = self.context.allow_yield;
         let prev_await = self.context.r#await;
-        self.context.allow_yield = true;
+        self.context.allow_yield = false;
         self.context.r#await = is_async;
         let params = self.parse_formal_params()?;
-        self.context.allow_yield = false;
         let body = self.parse_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
         self.context.r#await = prev_await;
@@ -2537,6 +2542,20 @@ where
 
     fn parse_group_expr(&mut self) -> Res<Expr> {
         debug!("parse_group_expr");
+        let prev_found = replace(&mut self.context.found_yield_or_await, false);
+        let ex = self.parse_group_or_params()?;
+        if self.context.found_yield_or_await && Self::is_arrow_param_placeholder(&ex) {
+            return self.unexpected_token_error(
+                &self.look_ahead,
+                "the parameters of a function can't contain a yield or an await expression",
+            );
+        }
+        self.context.found_yield_or_await = self.context.found_yield_or_await || prev_found;
+        Ok(ex)
+    }
+
+    fn parse_group_or_params(&mut self) -> Res<Expr> {
+        debug!("parse_group_or_params");
         self.expect_punct(Punct::OpenParen)?;
         if self.at_punct(Punct::CloseParen) {
             let _ = self.next_item()?;
@@ -3017,6 +3036,7 @@ where
         let mut found_restricted = false;
         let prev_params = self.context.in_formal_params;
         let prev_found_await = self.context.found_await;
+        let prev_found = replace(&mut self.context.found_yield_or_await, false);
         self.context.in_formal_params = true;
         if !self.at_punct(Punct::CloseParen) {
             while !self.look_ahead.token.is_eof() {
@@ -3033,9 +3053,16 @@ where
                 }
             }
         }
+        if self.context.found_yield_or_await {
+            return self.unexpected_token_error(
+                &self.look_ahead,
+                "the parameters of a function can't contain a yield or an await expression",
+            );
+        }
         self.expect_punct(Punct::CloseParen)?;
         self.context.in_formal_params = prev_params;
         self.context.found_await = prev_found_await;
+        self.context.found_yield_or_await = prev_found;
 
         Ok(FormalParams {
             params: args,
@@ -3302,10 +3329,12 @@ where
                         });
                     } else {
                         let prev_found_await = self.context.found_await;
+                        let prev_found = replace(&mut self.context.found_yield_or_await, false);
                         let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                         let a = self.parse_assignment_expr()?;
                         self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                         self.context.found_await = prev_found_await;
+                        self.context.found_yield_or_await = prev_found;
                         current = Expr::ArrowFunction(ArrowFunctionExpr {
                             id: None,
                             expression: true,
@@ -3620,6 +3649,7 @@ where
             }
             self.context.allow_yield = prev_yield;
         }
+        self.context.found_yield_or_await = true;
         self.context.is_assignment_target = false;
         self.context.is_binding_element = false;
         let y = YieldExpr {
@@ -3902,6 +3932,7 @@ where
         debug!("parse_await_expr");
         let _await = self.next_item()?;
         let arg = self.parse_unary_expression()?;
+        self.context.found_yield_or_await = true;
         self.context.is_assignment_target = false;
         self.context.is_binding_element = false;
         Ok(Expr::Await(Box::new(arg)))
-- 
2.43.0


From 52ff59a6f12b64079245b595c33d1c1cf22b012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 76/94] fix: the target of a for of loop never starts with let

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e586f11..7eb8d97 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1393,6 +1393,7 @@ where
             let prev_in = self.context.allow_in;
             self.context.allow_in = false;
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
+            let starts_with_let = self.at_keyword(Keyword::Let);
             let init = self.parse_assignment_expr()?;
             let is_target = self.context.is_assignment_target && !Self::is_assignment_expr(&init);
             if let Some(assign) = self.context.first_covert_initialized_name_error.take() {
@@ -1411,6 +1412,12 @@ where
             {
                 return self.unexpected_token_error(&self.look_ahead, "Not at assignment target");
             }
+            if starts_with_let && self.at_contextual_keyword("of") {
+                return self.unexpected_token_error(
+                    &self.look_ahead,
+                    "the target of a for of loop can't start with let",
+                );
+            }
             if self.at_keyword(Keyword::In) {
                 let _ = self.next_item()?;
                 let left = LoopLeft::Expr(init);
-- 
2.43.0


From 1f170001dfa2ec69e7c29e9509de0849f44f943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 77/94] fix: a default value in braces is no base of a member,
 yield is no part of async arrow parameters

---
 src/lib.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7eb8d97..8fbf1c8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4070,6 +4070,7 @@ where
             } else {
                 self.parse_primary_expression()?
             };
+            self.reject_default_in_base()?;
             self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
             ret
         };
@@ -4113,6 +4114,24 @@ where
         Ok(expr)
     }
 
+    /// A shorthand property with a value is only allowed in a pattern,
+    /// which the base of a member, a call or a template never is
+    fn reject_default_in_base(&mut self) -> Res<()> {
+        if self.at_punct(Punct::Period)
+            || self.at_punct(Punct::OpenBracket)
+            || self.at_punct(Punct::OpenParen)
+            || self.look_ahead.token.is_template_head()
+        {
+            if let Some(ref assign) = self.context.first_covert_initialized_name_error {
+                return self.unexpected_token_error(
+                    assign,
+                    "a default value is only allowed in a pattern",
+                );
+            }
+        }
+        Ok(())
+    }
+
     fn parse_super(&mut self) -> Res<Expr> {
         self.expect_keyword(Keyword::Super)?;
         if !self.at_punct(Punct::OpenBracket) && !self.at_punct(Punct::Period) {
@@ -4144,6 +4163,7 @@ where
             } else {
                 self.parse_primary_expression()?
             };
+            self.reject_default_in_base()?;
             self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
             ret
         };
@@ -4245,6 +4265,7 @@ where
         let mut default_value = None;
         let mut are_params = true;
         let prev_await = replace(&mut self.context.found_await, false);
+        let prev_found = replace(&mut self.context.found_yield_or_await, false);
         if !self.at_punct(Punct::CloseParen) {
             loop {
                 let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
@@ -4271,8 +4292,10 @@ where
             }
         }
         self.expect_punct(Punct::CloseParen)?;
-        are_params = are_params && !self.context.found_await;
+        are_params =
+            are_params && !self.context.found_await && !self.context.found_yield_or_await;
         self.context.found_await = self.context.found_await || prev_await;
+        self.context.found_yield_or_await = self.context.found_yield_or_await || prev_found;
         Ok((ret, default_value, are_params))
     }
     /// Expect a comma separator,
-- 
2.43.0


From cc507060ba24f246dd653cbe70d960d5fb5960bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 78/94] fix: an error inside a template substitution is
 reported at the token that is wrong

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8fbf1c8..f3dca73 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2925,7 +2925,7 @@ where
             };
             Ok(TemplateElement { raw, cooked, tail })
         } else {
-            self.expected_token_error(&self.look_ahead, &["Template part"])
+            self.expected_token_error(&item, &["Template part"])
         }
     }
 
-- 
2.43.0


From c3c0b59c310c7d1816b6caf5425bbad04587024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 79/94] fix: a missing key or value in an object literal is
 reported at the token found instead

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f3dca73..ba3b0a1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2861,10 +2861,11 @@ where
                         })
                     }
                 } else {
-                    return self.expected_token_error(&start, &["object property value"]);
+                    return self
+                        .expected_token_error(&self.look_ahead, &["object property value"]);
                 }
             } else {
-                return self.expected_token_error(&start, &["object property key"]);
+                return self.expected_token_error(&self.look_ahead, &["object property key"]);
             }
         };
         Ok((has_proto, prop))
-- 
2.43.0


From 3822dd80737a4485c4ae6fa45cab77c913fed258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 80/94] fix: do not copy the parameters of async arrow
 functions at each level of nesting

---
 src/lib.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ba3b0a1..a981d7b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3640,6 +3640,28 @@ where
         }
     }
 
+    /// The error of `reinterpret_expr_as_pat`, without
+    /// a copy of the expression
+    fn check_expr_as_pat(&self, ex: &Expr) -> Res<()> {
+        match ex {
+            Expr::Array(_) | Expr::Ident(_) => Ok(()),
+            Expr::Spread(s) => self.check_expr_as_pat(s),
+            Expr::Object(o) => {
+                for prop in o {
+                    if let ObjectProperty::Spread(s) = prop {
+                        self.check_expr_as_pat(s)?;
+                    }
+                }
+                Ok(())
+            }
+            Expr::Assignment(a) => match &a.left {
+                AssignmentLeft::Pat(_) => Ok(()),
+                AssignmentLeft::Expr(e) => self.check_expr_as_pat(e),
+            },
+            _ => Err(self.reinterpret_error("expression", "pattern")),
+        }
+    }
+
     fn parse_yield_expr(&mut self) -> Res<Expr> {
         debug!("parse_yield_expr");
         self.expect_keyword(Keyword::Yield)?;
@@ -4199,7 +4221,7 @@ where
                         return self.expected_token_error(&self.look_ahead, &["binding element"]);
                     }
                     for arg in args.iter() {
-                        let _ = self.reinterpret_expr_as_pat(arg.clone())?;
+                        self.check_expr_as_pat(arg)?;
                     }
                     let args = args.into_iter().map(|a| FunctionArg::Expr(a)).collect();
                     expr = Expr::ArrowParamPlaceHolder(args, true);
-- 
2.43.0


From 61a3f5e7d6627472b4650f32cbc22f265ef8d340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 81/94] fix: do not copy the parameters of arrow functions at
 each level of nesting

---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a981d7b..dee322c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3304,7 +3304,14 @@ where
                 self.context.is_assignment_target = false;
                 self.context.is_binding_element = false;
                 let is_async = Self::is_async(&current);
-                if let Some(params) = self.reinterpret_as_cover_formals_list(current.clone())? {
+                let is_params =
+                    Self::is_arrow_param_placeholder(&current) || Self::is_ident(&current);
+                let params = if is_params {
+                    self.reinterpret_as_cover_formals_list(replace(&mut current, Expr::This))?
+                } else {
+                    None
+                };
+                if let Some(params) = params {
                     self.context.first_covert_initialized_name_error = None;
                     if self.context.has_line_term {
                         return self.unexpected_token_error(
-- 
2.43.0


From e37cb8e469298f806d4ee19a811c0f32d45a9238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 82/94] fix: do not copy the operands of binary expressions at
 each level of nesting

---
 src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index dee322c..3a0e9fb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3738,13 +3738,12 @@ where
             self.next_item()?;
             self.context.is_assignment_target = false;
             self.context.is_binding_element = false;
-            let mut left = current.clone();
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let mut right = self.parse_exponentiation_expression()?;
+            let right = self.parse_exponentiation_expression()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-            let mut stack = vec![left.clone(), right.clone()];
+            let mut stack = vec![current, right];
             let mut ops = vec![token.token.clone()];
             let mut precs = vec![prec];
             loop {
@@ -3760,7 +3759,7 @@ where
                     self.context.allow_yield
                 );
                 while stack.len() > 1 && ops.len() > 0 && prec <= precs[precs.len() - 1] {
-                    right = stack
+                    let right = stack
                         .pop()
                         .ok_or(self.op_error("invalid binary operation, no right expr in stack"))?;
                     debug!("right: {:#?} {}", right, self.context.allow_yield);
@@ -3768,7 +3767,7 @@ where
                         .pop()
                         .ok_or(self.op_error("invalid binary operation, too few operators"))?;
                     let _ = precs.pop();
-                    left = stack
+                    let left = stack
                         .pop()
                         .ok_or(self.op_error("invalid binary operation, no left expr in stack"))?;
                     debug!("left: {:#?} {}", left, self.context.allow_yield);
-- 
2.43.0


From 9b807e791562630af67ef26b18b39755b8adb36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 83/94] fix: do not format the test of each for loop into an
 unused string

---
 src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3a0e9fb..f48100d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1486,7 +1486,6 @@ where
         } else {
             Some(self.parse_expression()?)
         };
-        let _d = format!("{:?}", test);
         debug!("{:#?}", test);
         self.expect_punct(Punct::SemiColon)?;
         let update = if self.at_punct(Punct::CloseParen) {
-- 
2.43.0


From a2de3066f71d8f08056089005341b78109e24a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 84/94] fix: strict code can't bind or assign eval and
 arguments, in patterns, parameters, names of functions and classes

---
 src/lib.rs | 84 ++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 69 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f48100d..69d8834 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1828,11 +1828,9 @@ where
         let (id, first_restricted) = if !opt_ident || !self.at_punct(Punct::OpenParen) {
             let start = self.look_ahead.clone();
             let id = self.parse_var_ident()?;
-            if self.context.strict && start.token.is_restricted() {
-                return self.expected_token_error(&start, &[]);
-            }
+            self.reject_restricted(&start)?;
             let first_restricted = if !self.context.strict {
-                if start.token.is_restricted() {
+                if Self::is_restricted_word(&id) {
                     Some(start)
                 } else if start.token.is_strict_reserved() {
                     Some(start)
@@ -1853,11 +1851,16 @@ where
 
         let formal_params = self.parse_formal_params()?;
         let strict = formal_params.strict;
+        let found_restricted = formal_params.found_restricted;
         let params = formal_params.params;
         let prev_strict = self.context.strict;
         let prev_allow_strict = self.context.allow_strict_directive;
         self.context.allow_strict_directive = formal_params.simple;
+        let start = self.look_ahead.clone();
         let body = self.parse_function_source_el()?;
+        if self.context.strict && found_restricted && !self.config.tolerant {
+            return self.unexpected_token_error(&start, "restricted ident in strict context");
+        }
         if self.context.strict {
             if let Some(ref item) = first_restricted {
                 return self.expected_token_error(item, &[]);
@@ -1920,7 +1923,10 @@ where
         let id = if opt_ident && !self.at_ident() {
             None
         } else {
-            Some(self.parse_var_ident()?)
+            let start = self.look_ahead.clone();
+            let id = self.parse_var_ident()?;
+            self.reject_restricted(&start)?;
+            Some(id)
         };
         let super_class = if self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
@@ -2436,6 +2442,7 @@ where
                     self.context.is_binding_element = false;
                     return Ok(Expr::Literal(Literal::Null));
                 }
+                self.reject_restricted_target(&name);
                 Ok(Expr::Ident(name))
             }
         } else if self.look_ahead.token.is_number() || self.look_ahead.token.is_string() {
@@ -2834,6 +2841,9 @@ where
                     if Self::is_key(&key, "await") {
                         self.context.found_await = true;
                     }
+                    if let PropertyKey::Expr(Expr::Ident(ref name)) = key {
+                        self.reject_restricted_target(name);
+                    }
                     if self.at_punct(Punct::Assign) {
                         self.context.first_covert_initialized_name_error =
                             Some(self.look_ahead.clone());
@@ -2948,15 +2958,9 @@ where
         let id = if !self.at_punct(Punct::OpenParen) {
             let item = self.look_ahead.clone();
             let id = self.parse_fn_name(is_gen)?;
-            if item.token.is_restricted() {
-                if self.context.strict {
-                    if !self.config.tolerant {
-                        return self
-                            .unexpected_token_error(&item, "restricted ident in strict context");
-                    }
-                } else {
-                    found_restricted = true;
-                }
+            self.reject_restricted(&item)?;
+            if Self::is_restricted_word(&id) {
+                found_restricted = true;
             }
             if item.token.is_strict_reserved() {
                 found_restricted = true;
@@ -3153,8 +3157,10 @@ where
                 }
                 _ => (),
             }
+            let start = self.look_ahead.clone();
             let ident = self.parse_var_ident()?;
-            let restricted = &ident == "eval" || &ident == "arguments";
+            self.reject_restricted(&start)?;
+            let restricted = Self::is_restricted_in_strict(&ident);
             params.push(self.look_ahead.clone());
             Ok((restricted, Pat::Identifier(ident)))
         }
@@ -3235,8 +3241,12 @@ where
         let mut computed = false;
         let mut short_hand = false;
         let method = false;
+        let start = self.look_ahead.clone();
         let (key, value) = if self.at_ident() {
             let key = PropertyKey::Expr(Expr::Ident(self.parse_var_ident()?));
+            if !self.at_punct(Punct::Colon) {
+                self.reject_restricted(&start)?;
+            }
             let value = if self.at_punct(Punct::Assign) {
                 self.expect_punct(Punct::Assign)?;
                 short_hand = true;
@@ -3318,6 +3328,12 @@ where
                             "new line between the parameters and the arrow of a function",
                         );
                     }
+                    let arrow = self.look_ahead.clone();
+                    let restricted = params.iter().any(Self::is_restricted_arg);
+                    if self.context.strict && restricted && !self.config.tolerant {
+                        return self
+                            .unexpected_token_error(&arrow, "restricted ident in strict context");
+                    }
                     self.expect_punct(Punct::FatArrow)?;
                     let prev_await = self.context.r#await;
                     let prev_yield = self.context.allow_yield;
@@ -3330,6 +3346,12 @@ where
                         let prev_allow_strict = self.context.allow_strict_directive;
                         self.context.allow_strict_directive = params.iter().all(Self::is_simple);
                         let body = self.parse_function_source_el()?;
+                        if self.context.strict && restricted && !self.config.tolerant {
+                            return self.unexpected_token_error(
+                                &arrow,
+                                "restricted ident in strict context",
+                            );
+                        }
                         self.context.strict = prev_strict;
                         self.context.allow_strict_directive = prev_allow_strict;
                         self.context.allow_in = prev_in;
@@ -3598,6 +3620,16 @@ where
         }
     }
 
+    /// Test for a parameter that strict code can't have
+    fn is_restricted_arg(arg: &FunctionArg) -> bool {
+        match arg {
+            FunctionArg::Expr(Expr::Ident(ref i)) | FunctionArg::Pat(Pat::Identifier(ref i)) => {
+                Self::is_restricted_in_strict(i)
+            }
+            _ => false,
+        }
+    }
+
     fn reinterpret_expr_as_pat(&self, ex: Expr) -> Res<Pat> {
         debug!("reinterpret_expr_as_pat");
         match ex {
@@ -4763,6 +4795,28 @@ where
     fn is_restricted_word(word: &str) -> bool {
         word == "eval" || word == "arguments"
     }
+    /// Test for the names that can't be bound in strict code
+    fn is_restricted_in_strict(word: &str) -> bool {
+        Self::is_restricted_word(word) || Self::is_strict_reserved(word)
+    }
+    /// Strict code can't bind `eval` or `arguments`
+    fn reject_restricted(&self, item: &Item) -> Res<()> {
+        if self.context.strict && !self.config.tolerant {
+            let word = &self.scanner.stream[item.span.start..item.span.end];
+            if Self::is_restricted_word(word) {
+                return self.unexpected_token_error(item, "restricted ident in strict context");
+            }
+        }
+        Ok(())
+    }
+    /// Strict code can't assign to `eval` or `arguments`
+    /// nor use them as a parameter
+    fn reject_restricted_target(&mut self, name: &str) {
+        if self.context.strict && Self::is_restricted_word(name) && !self.config.tolerant {
+            self.context.is_assignment_target = false;
+            self.context.is_binding_element = false;
+        }
+    }
     /// Check if this &str is in the list of reserved
     /// words in the context of 'use strict'
     fn is_strict_reserved(word: &str) -> bool {
-- 
2.43.0


From 234f210ce3d0e7eb8c0659c9ed4c57e38f16eeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 85/94] fix: let can't be declared by let or const, inside of a
 pattern either

---
 src/lib.rs | 63 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 69d8834..2becc48 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3090,7 +3090,7 @@ where
             let (found_restricted, pat) = self.parse_rest_element(&mut params)?;
             (found_restricted, FunctionArg::Pat(pat))
         } else {
-            let (found_restricted, pat) = self.parse_pattern_with_default(&mut params)?;
+            let (found_restricted, pat) = self.parse_pattern_with_default(None, &mut params)?;
             (found_restricted, FunctionArg::Pat(pat))
         };
         let simple = simple && Self::is_simple(&param);
@@ -3111,16 +3111,24 @@ where
         Ok((restricted, ret))
     }
 
-    fn parse_binding_rest_el(&mut self, params: &mut Vec<Item>) -> Res<(bool, Pat)> {
+    fn parse_binding_rest_el(
+        &mut self,
+        kind: Option<VariableKind>,
+        params: &mut Vec<Item>,
+    ) -> Res<(bool, Pat)> {
         debug!("parse_binding_rest_el");
         self.expect_punct(Punct::Spread)?;
-        let (restricted, arg) = self.parse_pattern(None, params)?;
+        let (restricted, arg) = self.parse_pattern(kind, params)?;
         Ok((restricted, Pat::RestElement(Box::new(arg))))
     }
 
-    fn parse_pattern_with_default(&mut self, params: &mut Vec<Item>) -> Res<(bool, Pat)> {
+    fn parse_pattern_with_default(
+        &mut self,
+        kind: Option<VariableKind>,
+        params: &mut Vec<Item>,
+    ) -> Res<(bool, Pat)> {
         debug!("parse_pattern_with_default");
-        let (is_restricted, ret) = self.parse_pattern(None, params)?;
+        let (is_restricted, ret) = self.parse_pattern(kind, params)?;
         if self.at_punct(Punct::Assign) {
             let _assign = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
@@ -3144,18 +3152,12 @@ where
     ) -> Res<(bool, Pat)> {
         debug!("parse_pattern");
         if self.at_punct(Punct::OpenBracket) {
-            let kind = kind.unwrap_or(VariableKind::Var);
             self.parse_array_pattern(params, kind)
         } else if self.at_punct(Punct::OpenBrace) {
-            self.parse_object_pattern()
+            self.parse_object_pattern(kind)
         } else {
-            match kind {
-                Some(VariableKind::Const) | Some(VariableKind::Let) => {
-                    if self.at_keyword(Keyword::Let) {
-                        return self.expected_token_error(&self.look_ahead, &["identifier"]);
-                    }
-                }
-                _ => (),
+            if Self::is_lexical(kind) && self.at_keyword(Keyword::Let) {
+                return self.expected_token_error(&self.look_ahead, &["identifier"]);
             }
             let start = self.look_ahead.clone();
             let ident = self.parse_var_ident()?;
@@ -3166,10 +3168,18 @@ where
         }
     }
 
+    /// Names that are declared with `let` or `const`
+    fn is_lexical(kind: Option<VariableKind>) -> bool {
+        match kind {
+            Some(VariableKind::Const) | Some(VariableKind::Let) => true,
+            _ => false,
+        }
+    }
+
     fn parse_array_pattern(
         &mut self,
         params: &mut Vec<Item>,
-        _kind: VariableKind,
+        kind: Option<VariableKind>,
     ) -> Res<(bool, Pat)> {
         debug!("parse_array_pattern");
         self.expect_punct(Punct::OpenBracket)?;
@@ -3182,11 +3192,11 @@ where
                 elements.push(None);
             } else {
                 if self.at_punct(Punct::Spread) {
-                    let (_, el) = self.parse_binding_rest_el(params)?;
+                    let (_, el) = self.parse_binding_rest_el(kind, params)?;
                     elements.push(Some(ArrayPatPart::Pat(el)));
                     break;
                 } else {
-                    let (_, el) = self.parse_pattern_with_default(params)?;
+                    let (_, el) = self.parse_pattern_with_default(kind, params)?;
                     elements.push(Some(ArrayPatPart::Pat(el)));
                 }
                 if !self.at_punct(Punct::CloseBracket) {
@@ -3199,7 +3209,7 @@ where
         Ok((false, Pat::Array(elements)))
     }
 
-    fn parse_object_pattern(&mut self) -> Res<(bool, Pat)> {
+    fn parse_object_pattern(&mut self, kind: Option<VariableKind>) -> Res<(bool, Pat)> {
         debug!("parse_object_pattern");
         self.expect_punct(Punct::OpenBrace)?;
         let prev_in = self.context.allow_in;
@@ -3207,9 +3217,9 @@ where
         let mut body = vec![];
         while !self.at_punct(Punct::CloseBrace) {
             let el = if self.at_punct(Punct::Spread) {
-                self.parse_rest_prop()?
+                self.parse_rest_prop(kind)?
             } else {
-                self.parse_property_pattern()?
+                self.parse_property_pattern(kind)?
             };
             body.push(el);
             if !self.at_punct(Punct::CloseBrace) {
@@ -3221,13 +3231,13 @@ where
         Ok((false, Pat::Object(body)))
     }
 
-    fn parse_rest_prop(&mut self) -> Res<ObjectPatPart> {
+    fn parse_rest_prop(&mut self, kind: Option<VariableKind>) -> Res<ObjectPatPart> {
         debug!("parse_rest_prop");
         self.expect_punct(Punct::Spread)?;
         if self.at_punct(Punct::OpenBrace) || self.at_punct(Punct::OpenBracket) {
             return self.expected_token_error(&self.look_ahead, &["identifier"]);
         }
-        let (_, arg) = self.parse_pattern(None, &mut vec![])?;
+        let (_, arg) = self.parse_pattern(kind, &mut vec![])?;
         if !self.at_punct(Punct::CloseBrace) {
             return self.expected_token_error(&self.look_ahead, &["}"]);
         }
@@ -3236,7 +3246,7 @@ where
         Ok(part)
     }
 
-    fn parse_property_pattern(&mut self) -> Res<ObjectPatPart> {
+    fn parse_property_pattern(&mut self, kind: Option<VariableKind>) -> Res<ObjectPatPart> {
         debug!("parse_property_pattern");
         let mut computed = false;
         let mut short_hand = false;
@@ -3245,6 +3255,9 @@ where
         let (key, value) = if self.at_ident() {
             let key = PropertyKey::Expr(Expr::Ident(self.parse_var_ident()?));
             if !self.at_punct(Punct::Colon) {
+                if Self::is_lexical(kind) && start.token.matches_keyword(&Keyword::Let) {
+                    return self.expected_token_error(&start, &["identifier"]);
+                }
                 self.reject_restricted(&start)?;
             }
             let value = if self.at_punct(Punct::Assign) {
@@ -3259,7 +3272,7 @@ where
                 PropertyValue::None
             } else {
                 self.expect_punct(Punct::Colon)?;
-                let (_, p) = self.parse_pattern_with_default(&mut vec![])?;
+                let (_, p) = self.parse_pattern_with_default(kind, &mut vec![])?;
                 PropertyValue::Pat(p)
             };
             (key, value)
@@ -3267,7 +3280,7 @@ where
             computed = self.at_punct(Punct::OpenBracket);
             let key = self.parse_object_property_key()?;
             self.expect_punct(Punct::Colon)?;
-            let (_, v) = self.parse_pattern_with_default(&mut vec![])?;
+            let (_, v) = self.parse_pattern_with_default(kind, &mut vec![])?;
             let value = PropertyValue::Pat(v);
             (key, value)
         };
-- 
2.43.0


From 27fa12775639e52294d6ab4f858e256c3e21c554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 86/94] fix: new.target and super are only available where the
 function around them has them

---
 src/lib.rs | 92 +++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 74 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2becc48..2400903 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -109,6 +109,8 @@ struct Context {
     /// If we have entered the formal parameters of a function,
     /// which can't contain a yield expression
     in_formal_params: bool,
+    /// What the current function may refer to
+    home: Home,
     /// If we have found `await` as an identifier, which the
     /// parameters of an async function can't contain
     found_await: bool,
@@ -137,6 +139,41 @@ struct Context {
     past_prolog: bool,
 }
 
+/// What the code of a function may refer to, an
+/// arrow function has the same as the code around it
+#[derive(Clone, Copy, Default)]
+struct Home {
+    /// `new.target`
+    new_target: bool,
+    /// A property of `super`
+    super_member: bool,
+    /// A call of `super`
+    super_call: bool,
+}
+
+impl Home {
+    fn function() -> Self {
+        Self {
+            new_target: true,
+            ..Self::default()
+        }
+    }
+
+    fn method() -> Self {
+        Self {
+            super_member: true,
+            ..Self::function()
+        }
+    }
+    /// The constructor of a class with a super class
+    fn derived_ctor() -> Self {
+        Self {
+            super_call: true,
+            ..Self::method()
+        }
+    }
+}
+
 impl Default for Config {
     fn default() -> Self {
         trace!("default config");
@@ -158,6 +195,7 @@ impl Default for Context {
             is_binding_element: false,
             in_function_body: false,
             in_formal_params: false,
+            home: Home::default(),
             found_await: false,
             found_yield_or_await: false,
             in_iteration: false,
@@ -1624,7 +1662,7 @@ where
                 if !self.config.tolerant {
                     return self.unexpected_token_error(&class, "");
                 }
-                let body = self.parse_class_body()?;
+                let body = self.parse_class_body(false)?;
                 let cls = Class {
                     id: None,
                     super_class: None,
@@ -1848,6 +1886,7 @@ where
         let prev_yield = self.context.allow_yield;
         self.context.r#await = is_async;
         self.context.allow_yield = !is_gen;
+        let prev_home = replace(&mut self.context.home, Home::function());
 
         let formal_params = self.parse_formal_params()?;
         let strict = formal_params.strict;
@@ -1871,6 +1910,7 @@ where
         }
         self.context.strict = prev_strict;
         self.context.allow_strict_directive = prev_allow_strict;
+        self.context.home = prev_home;
         self.context.r#await = prev_await;
         self.context.allow_yield = prev_yield;
         Ok(Function {
@@ -1937,7 +1977,7 @@ where
         } else {
             None
         };
-        let body = self.parse_class_body()?;
+        let body = self.parse_class_body(super_class.is_some())?;
 
         self.context.strict = prev_strict;
         Ok(Class {
@@ -1947,7 +1987,7 @@ where
         })
     }
 
-    fn parse_class_body(&mut self) -> Res<Vec<Property>> {
+    fn parse_class_body(&mut self, derived: bool) -> Res<Vec<Property>> {
         debug!("parse_class_body");
         let mut ret = vec![];
         let mut has_ctor = false;
@@ -1956,7 +1996,7 @@ where
             if self.at_punct(Punct::SemiColon) {
                 let _ = self.next_item()?;
             } else {
-                let (ctor, el) = self.parse_class_el(has_ctor)?;
+                let (ctor, el) = self.parse_class_el(has_ctor, derived)?;
                 has_ctor = ctor;
                 ret.push(el)
             }
@@ -1965,7 +2005,7 @@ where
         Ok(ret)
     }
 
-    fn parse_class_el(&mut self, has_ctor: bool) -> Res<(bool, Property)> {
+    fn parse_class_el(&mut self, has_ctor: bool, derived: bool) -> Res<(bool, Property)> {
         debug!("parse_class_el");
         let mut token = self.look_ahead.token.clone();
         let mut has_ctor = has_ctor;
@@ -2061,7 +2101,17 @@ where
             value = Some(if is_async {
                 self.parse_async_property_method()?
             } else {
-                self.parse_property_method()?
+                let is_ctor = !computed
+                    && !is_static
+                    && match key {
+                        Some(ref k) => Self::is_key(k, "constructor"),
+                        None => false,
+                    };
+                self.parse_property_method(if is_ctor && derived {
+                    Home::derived_ctor()
+                } else {
+                    Home::method()
+                })?
             });
         }
 
@@ -2177,10 +2227,12 @@ where
         let prev_await = self.context.r#await;
         self.context.allow_yield = true;
         self.context.r#await = true;
+        let prev_home = replace(&mut self.context.home, Home::method());
         let params = self.parse_formal_params()?;
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
         self.context.r#await = prev_await;
+        self.context.home = prev_home;
         let func = Function {
             id: None,
             params: params.params,
@@ -2191,16 +2243,18 @@ where
         Ok(PropertyValue::Expr(Expr::Function(func)))
     }
 
-    fn parse_property_method(&mut self) -> Res<PropertyValue> {
+    fn parse_property_method(&mut self, home: Home) -> Res<PropertyValue> {
         debug!("parse_property_method");
         let prev_yield = self.context.allow_yield;
         let prev_await = self.context.r#await;
         self.context.allow_yield = true;
         self.context.r#await = false;
+        let prev_home = replace(&mut self.context.home, home);
         let params = self.parse_formal_params()?;
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
         self.context.r#await = prev_await;
+        self.context.home = prev_home;
         let func = Function {
             id: None,
             params: params.params,
@@ -2217,10 +2271,12 @@ where
         let prev_await = self.context.r#await;
         self.context.allow_yield = false;
         self.context.r#await = is_async;
+        let prev_home = replace(&mut self.context.home, Home::method());
         let params = self.parse_formal_params()?;
         let body = self.parse_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
         self.context.r#await = prev_await;
+        self.context.home = prev_home;
         let func = Function {
             id: None,
             params: params.params,
@@ -2238,6 +2294,7 @@ where
         let prev_await = self.context.r#await;
         self.context.allow_yield = true;
         self.context.r#await = false;
+        let prev_home = replace(&mut self.context.home, Home::method());
         let start_position = self.look_ahead_position;
         let formal_params = self.parse_formal_params()?;
         if formal_params.params.len() > 0 {
@@ -2246,6 +2303,7 @@ where
         let body = self.parse_method_body(formal_params.simple, formal_params.found_restricted)?;
         self.context.allow_yield = prev_yield;
         self.context.r#await = prev_await;
+        self.context.home = prev_home;
         Ok(PropertyValue::Expr(Expr::Function(Function {
             id: None,
             params: formal_params.params,
@@ -2280,6 +2338,7 @@ where
         let prev_await = self.context.r#await;
         self.context.allow_yield = true;
         self.context.r#await = false;
+        let prev_home = replace(&mut self.context.home, Home::method());
         let start_position = self.look_ahead_position;
         let params = self.parse_formal_params()?;
         if params.params.len() != 1 {
@@ -2292,6 +2351,7 @@ where
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
         self.context.r#await = prev_await;
+        self.context.home = prev_home;
         let func = Function {
             id: None,
             params: params.params,
@@ -2831,7 +2891,7 @@ where
                         value: if is_async {
                             self.parse_async_property_method()?
                         } else {
-                            self.parse_property_method()?
+                            self.parse_property_method(Home::method())?
                         },
                         kind,
                         method: true,
@@ -2969,6 +3029,7 @@ where
         } else {
             None
         };
+        let prev_home = replace(&mut self.context.home, Home::function());
         let formal_params = self.parse_formal_params()?;
         found_restricted = found_restricted || formal_params.found_restricted;
         let prev_strict = self.context.strict;
@@ -2984,6 +3045,7 @@ where
         }
         self.context.strict = prev_strict;
         self.context.allow_strict_directive = prev_allow_strict;
+        self.context.home = prev_home;
         self.context.allow_yield = prev_yield;
         self.context.r#await = prev_await;
         let func = Function {
@@ -4134,7 +4196,7 @@ where
         if !self.context.allow_in {
             // error
         }
-        let mut expr = if self.at_keyword(Keyword::Super) && self.in_function() {
+        let mut expr = if self.at_keyword(Keyword::Super) && self.context.home.super_member {
             self.parse_super()?
         } else {
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
@@ -4220,9 +4282,9 @@ where
         let prev_in = self.context.allow_in;
         self.context.allow_in = true;
 
-        let mut expr = if self.at_keyword(Keyword::Super) && self.in_function() {
+        let mut expr = if self.at_keyword(Keyword::Super) && self.context.home.super_member {
             let _ = self.next_item()?;
-            if !self.at_punct(Punct::OpenParen)
+            if !(self.at_punct(Punct::OpenParen) && self.context.home.super_call)
                 && !self.at_punct(Punct::Period)
                 && !self.at_punct(Punct::OpenBracket)
             {
@@ -4434,12 +4496,6 @@ where
         self.expect_punct(Punct::CloseParen)?;
         Ok(args)
     }
-    /// Tests if the parser is currently in the parameters or
-    /// the body of a function, where `super` and `new.target`
-    /// are available
-    fn in_function(&self) -> bool {
-        self.context.in_function_body || self.context.in_formal_params
-    }
     /// This will parse one of two expressions `new Thing()`
     /// or `new.target`. The later is only valid in a function
     /// body
@@ -4448,7 +4504,7 @@ where
         self.expect_keyword(Keyword::New)?;
         if self.at_punct(Punct::Period) {
             let _ = self.next_item()?;
-            if self.at_contextual_keyword("target") && self.in_function() {
+            if self.at_contextual_keyword("target") && self.context.home.new_target {
                 let property = self.parse_ident_name()?;
                 self.context.is_assignment_target = false;
                 self.context.is_binding_element = false;
-- 
2.43.0


From b191c573bfdff7c6e94b15a902860cbbfd420333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 87/94] fix: continue can't name the label of a statement that
 is no loop

---
 src/lib.rs | 45 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2400903..93d283a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,7 +60,7 @@ pub use crate::comment_handler::CommentHandler;
 use crate::comment_handler::DefaultCommentHandler;
 pub use crate::error::Error;
 use resast::prelude::*;
-use std::{collections::HashSet, mem::replace};
+use std::{collections::HashMap, mem::replace};
 #[derive(Debug, Clone, Copy, PartialEq)]
 pub struct Position {
     pub line: usize,
@@ -126,8 +126,11 @@ struct Context {
     /// The currently known labels, this applies
     /// to labels only, not all identifiers. Errors
     /// at that level would need to be handled by
-    /// the calling scope
-    label_set: HashSet<String>,
+    /// the calling scope. The value is `true` for the
+    /// label of a loop
+    label_set: HashMap<String, bool>,
+    /// The labels right before the current statement
+    pending_labels: Vec<String>,
     /// If the current scope has a `'use strict';` directive
     /// in the prelude
     strict: bool,
@@ -201,7 +204,8 @@ impl Default for Context {
             in_iteration: false,
             in_switch: false,
             allow_labelled_fn: true,
-            label_set: HashSet::new(),
+            label_set: HashMap::new(),
+            pending_labels: Vec::new(),
             strict: false,
             has_line_term: false,
             past_prolog: false,
@@ -924,6 +928,15 @@ where
     fn parse_statement(&mut self) -> Res<Stmt> {
         debug!("parse_statement");
         let lh = self.look_ahead.token.clone();
+        let labels = replace(&mut self.context.pending_labels, Vec::new());
+        if lh.matches_keyword(&Keyword::Do)
+            || lh.matches_keyword(&Keyword::For)
+            || lh.matches_keyword(&Keyword::While)
+        {
+            for label in &labels {
+                self.context.label_set.insert(label.clone(), true);
+            }
+        }
         let stmt = match lh {
             Token::Boolean(_)
             | Token::Null
@@ -957,7 +970,7 @@ where
                     let f = self.parse_function_decl(true)?;
                     Stmt::Expr(Expr::Function(f))
                 } else {
-                    self.parse_labelled_statement()?
+                    self.parse_labelled_statement(labels)?
                 }
             }
             Token::Keyword(ref k) => match k {
@@ -975,7 +988,7 @@ where
                 Keyword::Var => self.parse_var_stmt()?,
                 Keyword::While => Stmt::While(self.parse_while_stmt()?),
                 Keyword::With => Stmt::With(self.parse_with_stmt()?),
-                _ => self.parse_labelled_statement()?,
+                _ => self.parse_labelled_statement(labels)?,
             },
             _ => return self.expected_token_error(&self.look_ahead, &[]),
         };
@@ -1621,9 +1634,16 @@ where
         let ret = if self.at_ident() && !self.context.has_line_term {
             let label = self.look_ahead.clone();
             let id = self.parse_var_ident()?;
-            if !self.context.label_set.contains(&format!("${}", &id)) && !self.config.tolerant {
+            let of_loop = self.context.label_set.get(&format!("${}", &id));
+            if of_loop.is_none() && !self.config.tolerant {
                 return self.unexpected_token_error(&label, "unknown label");
             }
+            if of_loop == Some(&false)
+                && keyword.token.matches_keyword(&Keyword::Continue)
+                && !self.config.tolerant
+            {
+                return self.unexpected_token_error(&label, "not the label of a loop");
+            }
             Some(id)
         } else {
             None
@@ -1643,7 +1663,7 @@ where
         Ok(Stmt::Debugger)
     }
 
-    fn parse_labelled_statement(&mut self) -> Res<Stmt> {
+    fn parse_labelled_statement(&mut self, mut labels: Vec<String>) -> Res<Stmt> {
         debug!("parse_labelled_statement, {:?}", self.look_ahead.token);
         let allow_fn = self.context.allow_labelled_fn;
         let ret = self.parse_expression()?;
@@ -1654,7 +1674,8 @@ where
             } else {
                 return Err(self.reinterpret_error("expression", "ident"));
             };
-            if !self.context.label_set.insert(format!("${}", &id)) {
+            let label = format!("${}", &id);
+            if self.context.label_set.insert(label.clone(), false).is_some() {
                 return Err(self.redecl_error(&id));
             }
             let body = if self.at_keyword(Keyword::Class) {
@@ -1679,9 +1700,11 @@ where
                 Stmt::Expr(expr)
             } else {
                 self.reject_decl()?;
+                labels.push(label.clone());
+                self.context.pending_labels = labels;
                 self.parse_statement()?
             };
-            self.context.label_set.remove(&format!("${}", &id));
+            self.context.label_set.remove(&label);
             Ok(Stmt::Labeled(LabeledStmt {
                 label: id,
                 body: Box::new(body),
@@ -1932,7 +1955,7 @@ where
         let prev_params = self.context.in_formal_params;
         let prev_found_await = self.context.found_await;
         let prev_found = replace(&mut self.context.found_yield_or_await, false);
-        self.context.label_set = HashSet::new();
+        self.context.label_set = HashMap::new();
         self.context.in_iteration = false;
         self.context.in_switch = false;
         self.context.in_function_body = true;
-- 
2.43.0


From aec16ce478023cf328c0001a6396c6b775c0ebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 88/94] fix: async as the target of for await is no arrow
 function, and never that of for of

---
 src/lib.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 93d283a..cdf8304 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1445,7 +1445,13 @@ where
             self.context.allow_in = false;
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
             let starts_with_let = self.at_keyword(Keyword::Let);
-            let init = self.parse_assignment_expr()?;
+            let at_async = self.at_contextual_keyword("async");
+            let init = if is_await && at_async && self.is_next_of() {
+                self.context.is_assignment_target = true;
+                Expr::Ident(self.parse_var_ident()?)
+            } else {
+                self.parse_assignment_expr()?
+            };
             let is_target = self.context.is_assignment_target && !Self::is_assignment_expr(&init);
             if let Some(assign) = self.context.first_covert_initialized_name_error.take() {
                 if !self.at_keyword(Keyword::In) && !self.at_contextual_keyword("of") {
@@ -1463,6 +1469,16 @@ where
             {
                 return self.unexpected_token_error(&self.look_ahead, "Not at assignment target");
             }
+            if at_async
+                && !is_await
+                && Self::is_ident(&init)
+                && self.at_contextual_keyword("of")
+            {
+                return self.unexpected_token_error(
+                    &self.look_ahead,
+                    "the target of a for of loop can't be async",
+                );
+            }
             if starts_with_let && self.at_contextual_keyword("of") {
                 return self.unexpected_token_error(
                     &self.look_ahead,
@@ -4772,6 +4788,14 @@ where
         next
     }
 
+    /// Tests if the token after the look ahead is `of`
+    fn is_next_of(&mut self) -> bool {
+        match self.peek() {
+            Some(next) => &self.scanner.stream[next.span.start..next.span.end] == "of",
+            None => false,
+        }
+    }
+
     fn at_qualified_prop_key(&self) -> bool {
         match &self.look_ahead.token {
             Token::Ident
-- 
2.43.0


From 40a5e90b628395ade89d3cd798c50395a75f146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 89/94] fix: an object can have one __proto__ value, whatever
 quotes its name has

---
 src/lib.rs | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cdf8304..5b7c535 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1455,10 +1455,7 @@ where
             let is_target = self.context.is_assignment_target && !Self::is_assignment_expr(&init);
             if let Some(assign) = self.context.first_covert_initialized_name_error.take() {
                 if !self.at_keyword(Keyword::In) && !self.at_contextual_keyword("of") {
-                    return self.unexpected_token_error(
-                        &assign,
-                        "a default value is only allowed in a pattern",
-                    );
+                    return self.pattern_only_error(&assign);
                 }
             }
             self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
@@ -2833,7 +2830,6 @@ where
     fn parse_obj_prop(&mut self, has_proto: bool) -> Res<(bool, ObjectProperty)> {
         debug!("parse_obj_prop");
         let start = self.look_ahead.clone();
-        let start_pos = self.look_ahead_position;
         let at_ident = self.at_ident();
         let mut has_proto = has_proto;
         let (key, is_async, computed) = if let Token::Ident = start.token {
@@ -2903,11 +2899,12 @@ where
                 let kind = PropertyKind::Init;
                 if self.at_punct(Punct::Colon) && !is_async {
                     if !computed && Self::is_proto_(&key) {
-                        if has_proto {
-                            self.tolerate_error(Error::Redecl(
-                                start_pos,
-                                "prototype can only be declared once".to_string(),
-                            ))?;
+                        // a pattern may take it more than once
+                        if has_proto
+                            && !self.config.tolerant
+                            && self.context.first_covert_initialized_name_error.is_none()
+                        {
+                            self.context.first_covert_initialized_name_error = Some(start.clone());
                         }
                         has_proto = true;
                     }
@@ -2982,9 +2979,10 @@ where
     fn is_proto_(key: &PropertyKey) -> bool {
         match key {
             PropertyKey::Literal(ref l) => match l {
-                Literal::String(ref s) => s == "_proto_",
+                Literal::String(ref s) => s == "'__proto__'" || s == "\"__proto__\"",
                 _ => false,
             },
+            PropertyKey::Expr(Expr::Ident(ref id)) => id == "__proto__",
             _ => false,
         }
     }
@@ -4297,10 +4295,7 @@ where
             || self.look_ahead.token.is_template_head()
         {
             if let Some(ref assign) = self.context.first_covert_initialized_name_error {
-                return self.unexpected_token_error(
-                    assign,
-                    "a default value is only allowed in a pattern",
-                );
+                return self.pattern_only_error(assign);
             }
         }
         Ok(())
@@ -4378,10 +4373,7 @@ where
                     expr = Expr::ArrowParamPlaceHolder(args, true);
                 } else {
                     if let Some(assign) = default_value {
-                        return self.unexpected_token_error(
-                            &assign,
-                            "a default value is only allowed in a pattern",
-                        );
+                        return self.pattern_only_error(&assign);
                     }
                     let inner = CallExpr {
                         callee: Box::new(expr),
@@ -4625,10 +4617,7 @@ where
         prev_first: Option<Item>,
     ) -> Res<()> {
         if let Some(ref assign) = self.context.first_covert_initialized_name_error {
-            return self.unexpected_token_error(
-                assign,
-                "a default value is only allowed in a pattern",
-            );
+            return self.pattern_only_error(assign);
         }
         self.context.is_binding_element = prev_bind;
         self.context.is_assignment_target = prev_assign;
@@ -5050,6 +5039,17 @@ where
             format!("Found unexpected token: {}; {}", name, msg),
         ))
     }
+    /// Something that is only allowed in a pattern was
+    /// found in an expression
+    fn pattern_only_error<T>(&self, item: &Item) -> Res<T> {
+        let msg = if item.token.matches_punct(&Punct::Assign) {
+            "a default value is only allowed in a pattern"
+        } else {
+            "prototype can only be declared once"
+        };
+        self.unexpected_token_error(item, msg)
+    }
+
     fn tolerate_error(&self, err: Error) -> Result<(), Error> {
         if !self.config.tolerant {
             let bt = backtrace::Backtrace::new();
-- 
2.43.0


From 5bda436541f688f7ada760fbebf9ac4bf8f4f579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 90/94] fix: an import can't be bound to eval or arguments

---
 src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5b7c535..ee90dac 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -769,12 +769,14 @@ where
     }
 
     fn parse_import_specifier(&mut self) -> Res<ImportSpecifier> {
+        let start = self.look_ahead.clone();
         let (imported, local) = if self.at_ident() {
             let imported = self.parse_var_ident()?;
             let local = if self.at_contextual_keyword("as") {
                 let _ = self.next_item();
-                Some(self.parse_var_ident()?)
+                Some(self.parse_import_name()?)
             } else {
+                self.reject_restricted(&start)?;
                 None
             };
             (imported, local)
@@ -784,7 +786,7 @@ where
                 return self.expected_token_error(&self.look_ahead, &["as"]);
             }
             let _ = self.next_item()?;
-            let local = Some(self.parse_var_ident()?);
+            let local = Some(self.parse_import_name()?);
             (imported, local)
         };
         Ok(ImportSpecifier::Normal(imported, local))
@@ -796,14 +798,21 @@ where
             return self.expected_token_error(&self.look_ahead, &["as"]);
         }
         let _ = self.next_item()?;
-        let ident = self.parse_var_ident()?;
+        let ident = self.parse_import_name()?;
         Ok(ImportSpecifier::Namespace(ident))
     }
 
     fn parse_import_default_specifier(&mut self) -> Res<ImportSpecifier> {
-        let ident = self.parse_var_ident()?;
+        let ident = self.parse_import_name()?;
         Ok(ImportSpecifier::Default(ident))
     }
+    /// The name that an import is bound to
+    fn parse_import_name(&mut self) -> Res<Identifier> {
+        let start = self.look_ahead.clone();
+        let ident = self.parse_var_ident()?;
+        self.reject_restricted(&start)?;
+        Ok(ident)
+    }
 
     fn parse_export_decl(&mut self) -> Res<ModExport> {
         if self.context.in_function_body {
-- 
2.43.0


From 216006fe9fa002ee8261d78e47fde66fe3255a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 91/94] fix: await can't name a rest parameter or a class in
 the parameters of an async arrow function

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index ee90dac..7eb25a9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2011,6 +2011,9 @@ where
             let start = self.look_ahead.clone();
             let id = self.parse_var_ident()?;
             self.reject_restricted(&start)?;
+            if id == "await" {
+                self.context.found_await = true;
+            }
             Some(id)
         };
         let super_class = if self.at_contextual_keyword("extends") {
@@ -3270,6 +3273,9 @@ where
             let start = self.look_ahead.clone();
             let ident = self.parse_var_ident()?;
             self.reject_restricted(&start)?;
+            if ident == "await" {
+                self.context.found_await = true;
+            }
             let restricted = Self::is_restricted_in_strict(&ident);
             params.push(self.look_ahead.clone());
             Ok((restricted, Pat::Identifier(ident)))
-- 
2.43.0


From ca603a6b3e432fa5a1d9ed4aa92a262d9f24f687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 92/94] fix: forgive assignments to eval and arguments in
 tolerant mode

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7eb25a9..bcfdb96 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3526,7 +3526,7 @@ where
                     }
                     if self.context.strict && Self::is_ident(&current) {
                         if let Expr::Ident(ref i) = current {
-                            if Self::is_restricted_word(i) {
+                            if Self::is_restricted_word(i) && !self.config.tolerant {
                                 return self.expected_token_error(
                                     &self.look_ahead,
                                     &[&format!("not {}", i)],
@@ -4186,7 +4186,7 @@ where
                     if self.context.strict {
                         match &expr {
                             &Expr::Ident(ref i) => {
-                                if Self::is_restricted_word(i) {
+                                if Self::is_restricted_word(i) && !self.config.tolerant {
                                     return self.expected_token_error(&start, &[]);
                                 }
                             }
-- 
2.43.0


From 07a6b656655df403e2d0781470b309a927a4bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:08 +0000
Subject: [PATCH 93/94] fix: no in operator behind a comma in the head of a for
 loop

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index bcfdb96..0d741e9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1514,12 +1514,14 @@ where
             } else {
                 let init = if self.at_punct(Punct::Comma) {
                     let mut seq = vec![init];
+                    self.context.allow_in = false;
                     while self.at_punct(Punct::Comma) {
                         let _comma = self.next_item()?;
                         let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                         seq.push(self.parse_assignment_expr()?);
                         self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                     }
+                    self.context.allow_in = prev_in;
                     LoopInit::Expr(Expr::Sequence(seq))
                 } else {
                     LoopInit::Expr(init)
-- 
2.43.0


From ca1144a39083a81d79b6375147ece5e4190ab50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 94/94] fix: no copy of the labels in reach for each function
 body

---
 src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0d741e9..c43250f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1972,14 +1972,13 @@ where
     fn parse_function_source_el(&mut self) -> Res<FunctionBody> {
         debug!("parse_function_source_el");
         self.expect_punct(Punct::OpenBrace)?;
-        let prev_label = self.context.label_set.clone();
+        let prev_label = replace(&mut self.context.label_set, HashMap::new());
         let prev_iter = self.context.in_iteration;
         let prev_switch = self.context.in_switch;
         let prev_in_fn = self.context.in_function_body;
         let prev_params = self.context.in_formal_params;
         let prev_found_await = self.context.found_await;
         let prev_found = replace(&mut self.context.found_yield_or_await, false);
-        self.context.label_set = HashMap::new();
         self.context.in_iteration = false;
         self.context.in_switch = false;
         self.context.in_function_body = true;
-- 
2.43.0

