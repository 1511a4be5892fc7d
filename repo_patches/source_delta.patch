From 78e519270d0b1d12a42efef66ad3e38aacab3498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 01/29] fix: read a '+' sign in a decimal exponent as part of
 the numeral

---
 src/parser/lexer_util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index d0db6e5..378b5a7 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -74,9 +74,9 @@ pub fn get_float_end(chars: &mut TChars, start: usize) -> (usize, bool, String)
 
             let mut cur_ind = i;
             match chars.peek() {
-                Some(&(si, '-')) => {
+                Some(&(si, sign @ '-')) | Some(&(si, sign @ '+')) => {
                     chars.next();
-                    result.push('-');
+                    result.push(sign);
                     cur_ind = si;
                 }
                 Some(&(_, _)) => {}
-- 
2.43.0


From 3ebe068c78277c333e63e6d421cc84b5f95b9d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 02/29] fix: accept an upper-case hexadecimal prefix and binary
 exponents in numerals

---
 src/parser/lexer_util.rs | 30 ++++++++++++++++++++++++++++++
 src/parser/lua_lexer.rs  |  7 ++++---
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index 378b5a7..72c208b 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -63,6 +63,36 @@ pub fn get_hex_integer_end(chars: &mut TChars, start: usize) -> (usize, bool, St
     }
 }
 
+pub fn get_hex_number_end(chars: &mut TChars, start: usize) -> (usize, bool, String) {
+    // we already got "0x" symbols
+    let (end, succ, mut result) = get_hex_integer_end(chars, start);
+    if !succ {
+        return (end, false, result);
+    }
+
+    // binary exponent
+    match chars.peek() {
+        Some(&(i, ch @ 'p')) | Some(&(i, ch @ 'P')) => {
+            chars.next();
+            result.push(ch);
+
+            let mut cur_ind = i;
+            match chars.peek() {
+                Some(&(si, sign @ '-')) | Some(&(si, sign @ '+')) => {
+                    chars.next();
+                    result.push(sign);
+                    cur_ind = si;
+                }
+                _ => {}
+            };
+            let (exp_end, flag, exp) = get_integer_end(chars, cur_ind + 1);
+            result.push_str(&exp);
+            return (exp_end, flag, result);
+        }
+        _ => return (end, true, result),
+    }
+}
+
 pub fn get_float_end(chars: &mut TChars, start: usize) -> (usize, bool, String) {
     // we already got one float symbol
     let (end, _, mut result) = seek_end_by_predicate(chars, start, &|ch: char, _| !ch.is_ascii_digit() && ch != '.');
diff --git a/src/parser/lua_lexer.rs b/src/parser/lua_lexer.rs
index 4b85454..f4fd280 100644
--- a/src/parser/lua_lexer.rs
+++ b/src/parser/lua_lexer.rs
@@ -406,10 +406,11 @@ impl<'input> Iterator for Lexer<'input> {
                 Some(&(i, '0')) => {
                     self.chars.next();
                     match self.chars.peek() {
-                        Some(&(_, 'x')) => {
+                        Some(&(_, x @ 'x')) | Some(&(_, x @ 'X')) => {
                             self.chars.next();
-                            let (end, succ, mut val) = get_hex_integer_end(&mut self.chars, i + 2);
-                            val.insert_str(0, "0x");
+                            let (end, succ, mut val) = get_hex_number_end(&mut self.chars, i + 2);
+                            val.insert(0, x);
+                            val.insert(0, '0');
 
                             match succ {
                                 true => return ok(i, Numeral(val), end),
-- 
2.43.0


From 156a814bb565e4b62fec74d0eb229e004b78f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 03/29] fix: a backslash does not escape the closing bracket of
 a long string or comment

---
 src/parser/lexer_util.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index 72c208b..70fcd87 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -177,13 +177,12 @@ pub fn get_multiline_string_level(chars: &mut TChars, start: usize) -> usize {
 pub fn get_multiline_string_ends(chars: &mut TChars, level: usize, start: usize) -> (usize, usize, bool, String) {
     // we already got "[==[" symbols
     let mut end = start;
-    let mut escaped = false;
     let mut result = String::new();
 
     loop {
         match chars.next() {
             Some((text_end, ch)) => {
-                if !escaped && ch == ']' {
+                if ch == ']' {
                     let cur_level = get_multiline_string_level(chars, text_end + 1);
 
                     if level == cur_level {
@@ -204,7 +203,6 @@ pub fn get_multiline_string_ends(chars: &mut TChars, level: usize, start: usize)
                 }
 
                 end = text_end;
-                escaped = ch == '\\';
             }
             None => return (end + 1, end + 1, false, result),
         }
-- 
2.43.0


From d7223e56f5c3f90c293e9d249cb7222b35880df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 04/29] fix: keep the text of a comment that ends the file
 right after '--[' or '--[=='

---
 src/parser/lexer_util.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index 70fcd87..d6f0fd3 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -238,7 +238,12 @@ pub fn get_comment_start_ends_and_type(chars: &mut TChars, start: usize) -> (usi
 
                             return (text_start, text_end, token_end, None, succ, result);
                         }
-                        None => return (text_start, text_start + level + 1, text_start + level + 1, None, true, String::new()),
+                        None => {
+                            let text_end = text_start + level + 1;
+                            let level_str = (0..level).map(|_| "=").collect::<String>();
+
+                            return (text_start, text_end, text_end, None, true, format!("[{}", level_str));
+                        }
                     }
                 }
                 Some(&(square_2_index, '[')) => {
@@ -253,7 +258,7 @@ pub fn get_comment_start_ends_and_type(chars: &mut TChars, start: usize) -> (usi
                     result.insert(0, '[');
                     return (text_start, text_end, token_end, None, succ, result);
                 }
-                None => return (text_start, text_start + 1, text_start + 1, None, true, String::new()),
+                None => return (text_start, text_start + 1, text_start + 1, None, true, "[".to_string()),
             }
         }
         _ => {
-- 
2.43.0


From cc8ad298d4e81742ed7b738f05f4b635fb4ce0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 05/29] fix: treat vertical tab and form feed as whitespace

---
 src/parser/comment_lexer.rs | 2 +-
 src/parser/lua_lexer.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/comment_lexer.rs b/src/parser/comment_lexer.rs
index 509f0c4..3b4a197 100644
--- a/src/parser/comment_lexer.rs
+++ b/src/parser/comment_lexer.rs
@@ -80,7 +80,7 @@ impl<'input> Iterator for Lexer<'input> {
                     }
                     return None;
                 }
-                Some(&(_, ' ')) | Some(&(_, '\r')) | Some(&(_, '\t')) => {
+                Some(&(_, ' ')) | Some(&(_, '\r')) | Some(&(_, '\t')) | Some(&(_, '\x0b')) | Some(&(_, '\x0c')) => {
                     self.chars.next();
                 }
 
diff --git a/src/parser/lua_lexer.rs b/src/parser/lua_lexer.rs
index f4fd280..3a6d002 100644
--- a/src/parser/lua_lexer.rs
+++ b/src/parser/lua_lexer.rs
@@ -231,7 +231,7 @@ impl<'input> Iterator for Lexer<'input> {
                     return None;
                 }
 
-                Some(&(_, ' ')) | Some(&(_, '\n')) | Some(&(_, '\r')) | Some(&(_, '\t')) => {
+                Some(&(_, ' ')) | Some(&(_, '\n')) | Some(&(_, '\r')) | Some(&(_, '\t')) | Some(&(_, '\x0b')) | Some(&(_, '\x0c')) => {
                     self.chars.next();
                 }
 
-- 
2.43.0


From 4fad054fef2b8c567e4411db02e9ed9edea6f5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 06/29] fix: do not write hint_table_constructor twice before a
 non-empty table

---
 src/parser/lua_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 3577d98..b35e7aa 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -580,7 +580,7 @@ impl ConfiguredWrite for Node {
                 let bnl = cfg.fmt.write_newline_at_multiline_table == Some(true) && !opts.is_oneline.get();
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
-                cfg_write!(f, cfg, buf, state, IfNewLine(bnl, Hint(&Loc(0, 0), &hint)), "{{", IncFuncLevel())?;
+                cfg_write!(f, cfg, buf, state, IfNewLine(bnl, Hint(&Loc(0, 0), "")), "{{", IncFuncLevel())?;
 
                 let ind = match cfg.fmt.force_single_line_table == Some(true)
                     && opts.is_iv_table == Some(true)
-- 
2.43.0


From f1b3f57155f92bbdecf4338c06ab04454656ab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 07/29] fix: an empty table constructor gets a line break only
 when newline_format_table_constructor is set

---
 src/parser/lua_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index b35e7aa..d607fca 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -614,7 +614,7 @@ impl ConfiguredWrite for Node {
 
                 let mut test_str = String::new();
                 Hint(&locs[0], &hint).configured_write(&mut test_str, cfg, buf, state)?;
-                let nl = test_str.find('\n').is_some();
+                let nl = cfg.fmt.newline_format_table_constructor.is_some() && test_str.find('\n').is_some();
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, "{{", IfNewLine(nl, Hint(&locs[0], &hint)), "}}")
-- 
2.43.0


From 933600b4125eb9954d302d5a1bdadc898b8c9269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 08/29] fix: accept unary operators after unary operators and
 after '^'

---
 src/parser/lua_syntax.lalrpop | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/parser/lua_syntax.lalrpop b/src/parser/lua_syntax.lalrpop
index 5dee540..ad77800 100644
--- a/src/parser/lua_syntax.lalrpop
+++ b/src/parser/lua_syntax.lalrpop
@@ -529,24 +529,46 @@ Op9<T>: Node = {
 }
 
 Op10<T>: Node = {
+    <ls:@L> "-"   <l1:@R> <r1:@L> <e:Op10NoMinus<T>> <rs:@R>
+        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("-"), Box::new(e)),
+    Op10NoMinus<T>,
+}
+
+// minus cannot be repeated
+Op10NoMinus<T>: Node = {
     <ls:@L> "not" <l1:@R> <r1:@L> <e:Op10<T>> <rs:@R>
         => Node::UnaryNot(Loc(ls, rs), [Loc(l1, r1)], Box::new(e)),
-    <ls:@L> "#"   <l1:@R> <r1:@L> <e:Op11<T>> <rs:@R>
+    <ls:@L> "#"   <l1:@R> <r1:@L> <e:Op10<T>> <rs:@R>
         => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("#"), Box::new(e)),
-    <ls:@L> "-"   <l1:@R> <r1:@L> <e:Op11<T>> <rs:@R>
-        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("-"), Box::new(e)),
-    <ls:@L> "~"   <l1:@R> <r1:@L> <e:Op11<T>> <rs:@R>
+    <ls:@L> "~"   <l1:@R> <r1:@L> <e:Op10<T>> <rs:@R>
         => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("~"), Box::new(e)),
     Op11<T>,
 }
 
 // right-associative operation, but we make it left-associative
 Op11<T>: Node = {
-    <ls:@L> <e1:Op11<T>> <l1:@R> <r1:@L> "^" <l2:@R> <r2:@L> <e2:T> <rs:@R>
+    <ls:@L> <e1:Op11<T>> <l1:@R> <r1:@L> "^" <l2:@R> <r2:@L> <e2:PowOperand<T>> <rs:@R>
         => Node::BinaryOp(Loc(ls, rs), [Loc(l1, r1), Loc(l2, r2)], Str("^"), Box::new(e1), Box::new(e2)),
     T,
 }
 
+// the right operand of `^` can start with unary operators
+PowOperand<T>: Node = {
+    <ls:@L> "-"   <l1:@R> <r1:@L> <e:PowOperandNoMinus<T>> <rs:@R>
+        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("-"), Box::new(e)),
+    PowOperandNoMinus<T>,
+}
+
+PowOperandNoMinus<T>: Node = {
+    <ls:@L> "not" <l1:@R> <r1:@L> <e:PowOperand<T>> <rs:@R>
+        => Node::UnaryNot(Loc(ls, rs), [Loc(l1, r1)], Box::new(e)),
+    <ls:@L> "#"   <l1:@R> <r1:@L> <e:PowOperand<T>> <rs:@R>
+        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("#"), Box::new(e)),
+    <ls:@L> "~"   <l1:@R> <r1:@L> <e:PowOperand<T>> <rs:@R>
+        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("~"), Box::new(e)),
+    T,
+}
+
 Name: Node = {
     <ls:@L> <s:LexVariable> <rs:@R> => Node::Name(Loc(ls, rs), s),
 }
-- 
2.43.0


From a139ed252804a02f096c91334220f1ae56535270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 09/29] fix: keep a long string literal apart from the '['
 before it

---
 src/parser/lua_ast.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index d607fca..abb4c6f 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -554,6 +554,11 @@ impl ConfiguredWrite for Node {
             NormalStringLiteral(_, s) => write!(f, "\"{}\"", s),
             CharStringLiteral(_, s) => write!(f, "'{}'", s),
             MultiLineStringLiteral(_, level, s) => {
+                // `[` before a literal would be read as a part of its opening bracket
+                if f.chars().last() == Some('[') {
+                    write!(f, " ")?;
+                }
+
                 let level_str = (0..*level).map(|_| "=").collect::<String>();
                 write!(f, "[{}[{}]{}]", level_str, s, level_str)
             }
-- 
2.43.0


From 1a44ceb6b790525317f64a72fc20a57bf668a965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 10/29] fix: do not join a comment to the minus operator before
 it

---
 src/formatting/decoration.rs | 1 +
 src/formatting/loc_hint.rs   | 1 +
 src/formatting/util.rs       | 8 ++++++++
 3 files changed, 10 insertions(+)

diff --git a/src/formatting/decoration.rs b/src/formatting/decoration.rs
index 764da8a..77cec27 100644
--- a/src/formatting/decoration.rs
+++ b/src/formatting/decoration.rs
@@ -20,6 +20,7 @@ where
             Ok(..) => {
                 let trimmed = trim_end_spaces_and_tabs(&comment_block);
                 if !trimmed.is_empty() {
+                    write_comment_separator(f, trimmed)?;
                     write!(f, "{}", &trimmed)?;
 
                     if trimmed.chars().last() != Some('\n') {
diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 6ff98b8..6cb0736 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -51,6 +51,7 @@ impl CommentLocHint<'_, '_> {
             write!(f, "{}", cfg.fmt.hint_before_comment.as_ref().unwrap())?;
         }
 
+        util::write_comment_separator(f, comment_block)?;
         write!(f, "{}", comment_block)?;
 
         // hint after comment block, ending with ']'
diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index 835162a..ba4765d 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -117,6 +117,14 @@ pub fn charstring_to_normalstring(s: &str) -> String {
     result
 }
 
+// a comment right after `-` would start with this minus
+pub fn write_comment_separator(f: &mut String, comment_block: &str) -> std::fmt::Result {
+    match f.chars().last() == Some('-') && comment_block.chars().next() == Some('-') {
+        true => write!(f, " "),
+        false => Ok(()),
+    }
+}
+
 pub fn write_indent(f: &mut String, cfg: &Config, state: &State) -> std::fmt::Result {
     let indentation = match &cfg.fmt.indentation_string {
         Some(indent_str) => (0..state.indent_level).map(|_| &indent_str[..]).collect::<String>(),
-- 
2.43.0


From 54145a89a44f905098724f347721a7edf630dc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 11/29] fix: a shortened space does not turn a one-line comment
 into a multi-line one

---
 src/parser/comment_ast.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/comment_ast.rs b/src/parser/comment_ast.rs
index 9758393..9c08b24 100644
--- a/src/parser/comment_ast.rs
+++ b/src/parser/comment_ast.rs
@@ -82,6 +82,12 @@ impl<'a> list::AnyListItem<'a, Node> for Node {
     }
 }
 
+// "--" followed by such a text would start a multi-line comment
+fn starts_with_long_bracket(prefix: &str, text: &str) -> bool {
+    let text = format!("{}{}", prefix, text);
+    text.starts_with('[') && text[1..].trim_start_matches('=').starts_with('[')
+}
+
 impl ConfiguredWrite for Node {
     fn configured_write(&self, f: &mut String, cfg: &Config, buf: &str, state: &mut State) -> std::fmt::Result {
         use Node::*;
@@ -135,6 +141,8 @@ impl ConfiguredWrite for Node {
                             // do not print the `prefix` if trimmed `s` is empty
                             if strimmed.is_empty() {
                                 write!(f, "--\n")?;
+                            } else if starts_with_long_bracket(prefix, strimmed) {
+                                write!(f, "-- {}{}\n", prefix, strimmed)?;
                             } else {
                                 write!(f, "--{}{}\n", prefix, strimmed)?;
                             }
-- 
2.43.0


From d4012780bbb8d1a2e3eff2ae27c500d46ae2220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 12/29] fix: a shortened space does not close a multi-line
 comment early

---
 src/parser/comment_ast.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser/comment_ast.rs b/src/parser/comment_ast.rs
index 9c08b24..f801281 100644
--- a/src/parser/comment_ast.rs
+++ b/src/parser/comment_ast.rs
@@ -88,6 +88,14 @@ fn starts_with_long_bracket(prefix: &str, text: &str) -> bool {
     text.starts_with('[') && text[1..].trim_start_matches('=').starts_with('[')
 }
 
+// a text which ends with the beginning of the closing bracket must be kept apart from it
+fn long_bracket_suffix(text: &str, suffix: &str, level_str: &str) -> String {
+    match format!("{}{}", text, suffix).ends_with(&format!("]{}", level_str)) {
+        true => format!("{} ", suffix),
+        false => suffix.to_string(),
+    }
+}
+
 impl ConfiguredWrite for Node {
     fn configured_write(&self, f: &mut String, cfg: &Config, buf: &str, state: &mut State) -> std::fmt::Result {
         use Node::*;
@@ -165,12 +173,14 @@ impl ConfiguredWrite for Node {
                             cfg.fmt.hint_after_multiline_comment_text.as_ref(),
                         ) {
                             (Some(prefix), Some(suffix)) => {
+                                let suffix = long_bracket_suffix(s.trim(), suffix, &level_str);
                                 write!(f, "--[{}[{}{}{}]{}]", level_str, prefix, s.trim(), suffix, level_str)
                             }
                             (Some(prefix), None) => {
                                 write!(f, "--[{}[{}{}]{}]", level_str, prefix, s.trim_start(), level_str)
                             }
                             (None, Some(suffix)) => {
+                                let suffix = long_bracket_suffix(s.trim_end(), suffix, &level_str);
                                 write!(f, "--[{}[{}{}]{}]", level_str, s.trim_end(), suffix, level_str)
                             }
                             _ => write!(f, "--[{}[{}]{}]", level_str, s, level_str),
-- 
2.43.0


From 3dab8f8bfbba712cd2d60d8b70eed13cabe79add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 13/29] fix: report input which is not valid UTF-8 instead of
 panicking

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 3872269..2917275 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -79,7 +79,10 @@ fn main() {
 
     if rel_paths.is_empty() {
         let mut buffer = String::new();
-        io::stdin().read_to_string(&mut buffer).unwrap();
+        if let Err(err) = io::stdin().read_to_string(&mut buffer) {
+            eprintln!("{}", format!("An error occured while reading buffer: {}", err));
+            return;
+        }
 
         match formatter::process_buffer_with_config(&buffer, &config, program_opts.verbose) {
             Ok(output) => print!("{}", output),
-- 
2.43.0


From ff5a814793287582ef1ff1372f726684d978fa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 14/29] fix: report an unreadable config file instead of
 panicking

---
 src/config.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index bea1310..c4bb080 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -303,8 +303,12 @@ impl Config {
     }
 
     pub fn reload_format_from_file(&self, file_path: &PathBuf) -> Result<Self, String> {
-        let content = fs::read_to_string(file_path)
-            .expect(&format!("An error occured while reading config file `{}`", file_path.display()));
+        let content = match fs::read_to_string(file_path) {
+            Ok(content) => content,
+            Err(err) => {
+                return Err(format!("An error occured while reading config file `{}`: {}", file_path.display(), err))
+            }
+        };
 
         let mut cfg = self.clone();
 
-- 
2.43.0


From 3816d8578f77dbd7ff96458eefb0c8289e739de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 15/29] fix: a huge max_width does not overflow

---
 src/parser/lua_ast.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index abb4c6f..341ce21 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -343,7 +343,7 @@ impl Node {
             if cfg.fmt.max_width.is_some()
                 && cfg.fmt.newline_format_table_constructor.is_some()
                 && cfg.fmt.force_single_line_table == Some(true)
-                && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0)
+                && span.1 - span.0 < cfg.fmt.max_width.unwrap_or(0).saturating_mul(2)
             {
                 // disable IfNewLine within table constructor
                 // one-line tables are forced to have no trailing separator
@@ -366,7 +366,7 @@ impl Node {
             FieldNamedBracket(span, _, _, _) | FieldNamed(span, _, _, _) | FieldSequential(span, _)
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.newline_format_table_field.is_some()
-                    && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0) =>
+                    && span.1 - span.0 < cfg.fmt.max_width.unwrap_or(0).saturating_mul(2) =>
             {
                 return test_oneline_no_nl!(f, cfg, buf, state, self);
             }
@@ -392,7 +392,7 @@ impl Node {
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.force_single_line_if == Some(true)
                     && cfg.fmt.newline_format_if.is_some()
-                    && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0) =>
+                    && span.1 - span.0 < cfg.fmt.max_width.unwrap_or(0).saturating_mul(2) =>
             {
                 // disable IfNewLine within table constructor
                 let mut test_cfg = cfg.clone();
@@ -410,7 +410,7 @@ impl Node {
             FuncBody(span, _) | FuncPBody(span, _, _) | FuncBodyB(span, _, _) | FuncPBodyB(span, _, _, _)
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.newline_format_function.is_some()
-                    && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0)
+                    && span.1 - span.0 < cfg.fmt.max_width.unwrap_or(0).saturating_mul(2)
                     && ((state.function_nested_level == 0
                         && cfg.fmt.force_single_line_top_level_function == Some(true))
                         || (state.function_nested_level > 0
-- 
2.43.0


From 998fc95d72207164b76880abb32d1a321c4f451b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 16/29] fix: decode escape sequences of strings in config files

---
 src/config.rs | 52 ++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index c4bb080..11eb34e 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -167,6 +167,50 @@ impl FormatOpts {
     }
 }
 
+// decodes the escape sequences of a quoted lua string, unknown sequences are left as they are
+fn unescape(s: &str) -> String {
+    let mut result = String::new();
+    let mut rest = s;
+
+    while let Some(pos) = rest.find('\\') {
+        result.push_str(&rest[..pos]);
+        rest = &rest[pos + 1..];
+
+        let digits = |from: usize, radix: u32, max: usize| {
+            rest[from..].chars().take(max).take_while(|ch| ch.is_digit(radix)).count()
+        };
+        let code = |digits: &str, radix: u32| u32::from_str_radix(digits, radix).ok().and_then(std::char::from_u32);
+
+        let (decoded, len) = match rest.chars().next() {
+            Some('a') => (Some('\x07'), 1),
+            Some('b') => (Some('\x08'), 1),
+            Some('f') => (Some('\x0c'), 1),
+            Some('n') | Some('\n') => (Some('\n'), 1),
+            Some('r') => (Some('\r'), 1),
+            Some('t') => (Some('\t'), 1),
+            Some('v') => (Some('\x0b'), 1),
+            Some(ch @ '\\') | Some(ch @ '"') | Some(ch @ '\'') => (Some(ch), 1),
+            Some('x') if digits(1, 16, 2) == 2 => (code(&rest[1..3], 16), 3),
+            Some(ch) if ch.is_ascii_digit() => {
+                let count = digits(0, 10, 3);
+                (code(&rest[..count], 10), count)
+            }
+            _ => (None, 0),
+        };
+
+        match decoded {
+            Some(ch) => {
+                result.push(ch);
+                rest = &rest[len..];
+            }
+            None => result.push('\\'),
+        }
+    }
+
+    result.push_str(rest);
+    result
+}
+
 impl Config {
     pub const fn default() -> Self {
         Config { line_range: None, fmt: FormatOpts::default() }
@@ -281,9 +325,11 @@ impl Config {
             VarsExprs(_, _, varlist, exprlist) => match (&**varlist, &**exprlist) {
                 (VarList(_, vars), ExpList(_, exprs)) => match (vars.iter().next(), exprs.iter().next()) {
                     (Some((_, var, _, _)), Some((_, expr, _, _))) => match (var, expr) {
-                        (Name(_, str_name), Numeral(_, str_expr))
-                        | (Name(_, str_name), NormalStringLiteral(_, str_expr))
-                        | (Name(_, str_name), CharStringLiteral(_, str_expr)) => self.set(str_name, str_expr),
+                        (Name(_, str_name), Numeral(_, str_expr)) => self.set(str_name, str_expr),
+                        (Name(_, str_name), NormalStringLiteral(_, str_expr))
+                        | (Name(_, str_name), CharStringLiteral(_, str_expr)) => {
+                            self.set(str_name, &unescape(str_expr))
+                        }
 
                         (Name(_, str_name), True(..)) => self.set(str_name, "true"),
                         (Name(_, str_name), False(..)) => self.set(str_name, "false"),
-- 
2.43.0


From 1805ede8db5db61df067f97736c1c08ba0a14f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 17/29] fix: 'force_single_line' options without max_width do
 not panic

---
 src/formatting/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index ba4765d..67191f6 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -48,9 +48,9 @@ macro_rules! test_oneline {
                 let left_len = util::get_len_after_newline($wrt, $cfg);
                 let right_len = util::get_len_till_newline(&buffer, $cfg);
 
-                match left_len + right_len < $cfg.fmt.max_width.unwrap() {
-                    true => Some(buffer),
-                    false => None,
+                match $cfg.fmt.max_width {
+                    Some(max_width) if left_len + right_len < max_width => Some(buffer),
+                    _ => None,
                 }
             }
             true => None
-- 
2.43.0


From 432d975a816dc7851f17b4d714dec53d38021bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 18/29] fix: judge and copy the space between comments by its
 own position when line_range is set

---
 src/formatting/list.rs     |  4 ++--
 src/formatting/loc_hint.rs | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/formatting/list.rs b/src/formatting/list.rs
index ccad8a5..1a124f0 100644
--- a/src/formatting/list.rs
+++ b/src/formatting/list.rs
@@ -109,8 +109,8 @@ where
             for i in 1..items.len() {
                 let item = &items[i];
 
-                if util::test_out_of_range(&state.pos_range, &item.0) {
-                    cfg_write!(f, cfg, buf, state, item.0)?;
+                if Hint::new(&item.0, "").is_out_of_range(state) {
+                    cfg_write!(f, cfg, buf, state, Hint::new(&item.0, ""))?;
                 } else {
                     let prev_item_tp = &items[i - 1];
                     let hint = item.1.list_item_prefix_hint(cfg);
diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 6cb0736..66ace62 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -13,6 +13,7 @@ pub struct SpaceLocHint<'a, 'b>(pub &'a Loc, pub &'b str);
 pub trait LocHintConstructible<'a, 'b> {
     fn new(loc: &'a Loc, s: &'b str) -> Self;
     fn get_loc(&self) -> &'a Loc;
+    fn is_out_of_range(&self, state: &State) -> bool;
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
@@ -23,6 +24,10 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
     fn get_loc(&self) -> &'a Loc {
         self.0
     }
+
+    fn is_out_of_range(&self, state: &State) -> bool {
+        util::test_out_of_range(&state.pos_range, self.0)
+    }
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
@@ -33,6 +38,11 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
     fn get_loc(&self) -> &'a Loc {
         self.0
     }
+
+    // positions inside of a comment block are relative to its beginning
+    fn is_out_of_range(&self, state: &State) -> bool {
+        util::test_out_of_range(&state.comment_pos_range, self.0)
+    }
 }
 
 impl CommentLocHint<'_, '_> {
-- 
2.43.0


From 07ee70aa09ba3e7c02b5f73109fc18bc1b1373e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 19/29] fix: line_range covers whole statements also for
 'return' and for a statement which starts with '('

---
 src/formatting/reconstruction.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/formatting/reconstruction.rs b/src/formatting/reconstruction.rs
index d8ff175..4e0c1ab 100644
--- a/src/formatting/reconstruction.rs
+++ b/src/formatting/reconstruction.rs
@@ -45,8 +45,6 @@ pub fn reconstruct_node_tree(node: &mut Node, cfg: &Config, state: &mut State) {
         | GoTo(span, _, n)
         | WhileDo(span, _, n)
         | RepeatUntil(span, _, n)
-        | RetStatExpr(span, _, n)
-        | RetStatExprComma(span, _, n)
         | Chunk(span, n, _)
         | DoBEnd(span, _, n) => {
             update_pos_range(span, state);
@@ -128,8 +126,6 @@ pub fn reconstruct_node_tree(node: &mut Node, cfg: &Config, state: &mut State) {
         | TableConstructorEmpty(span, _)
         | DoEnd(span, _)
         | Name(span, _)
-        | RetStatNone(span)
-        | RetStatNoneComma(span, _)
         | Semicolon(span)
         | SheBang(span, _)
         | FuncBody(span, _) => {
@@ -153,10 +149,31 @@ pub fn reconstruct_node_tree(node: &mut Node, cfg: &Config, state: &mut State) {
         StatementList(_, v) => {
             state.block_nested_level += 1;
             for (_, node) in v {
-                reconstruct_node_tree(node, cfg, state);
+                match node {
+                    // a statement and the statement after it, which starts with '(', are on the same level
+                    StatementList(_, nested) => {
+                        for (_, nested_node) in nested {
+                            reconstruct_node_tree(nested_node, cfg, state);
+                        }
+                    }
+                    _ => reconstruct_node_tree(node, cfg, state),
+                }
             }
             state.block_nested_level -= 1;
         }
+        // `return` is a statement of its block, but not an item of StatementList
+        RetStatExpr(span, _, n) | RetStatExprComma(span, _, n) => {
+            state.block_nested_level += 1;
+            update_pos_range(span, state);
+
+            reconstruct_node_tree(&mut *n, cfg, state);
+            state.block_nested_level -= 1;
+        }
+        RetStatNone(span) | RetStatNoneComma(span, _) => {
+            state.block_nested_level += 1;
+            update_pos_range(span, state);
+            state.block_nested_level -= 1;
+        }
         FuncNameSelf(span, _, v, n) => {
             update_pos_range(span, state);
 
-- 
2.43.0


From fb7a39d38f746df5f1f99617f7738d29ab3c10ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 20/29] fix: a comment after a multi-byte character does not
 panic

---
 src/formatting/loc_hint.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 66ace62..9396ef5 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -87,10 +87,14 @@ impl ConfiguredWrite for CommentLocHint<'_, '_> {
         match parse_comment(&comment_buffer) {
             Ok(node_tree) => {
                 let mut formatted_comment_block = String::new();
-                formatted_comment_block.push(f.chars().last().unwrap_or(' '));
+                let prev_char = f.chars().last().unwrap_or(' ');
+                formatted_comment_block.push(prev_char);
 
                 match node_tree.configured_write(&mut formatted_comment_block, cfg, &comment_buffer, state) {
-                    Ok(_) => self.write_formatted_comment_block(f, cfg, buf, &formatted_comment_block[1..]),
+                    Ok(_) => {
+                        let comment_block = &formatted_comment_block[prev_char.len_utf8()..];
+                        self.write_formatted_comment_block(f, cfg, buf, comment_block)
+                    }
                     Err(err) => Err(err),
                 }
             }
-- 
2.43.0


From 0e2992711bd351b8e72f8b3501dcc78c937a60d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:57 +0000
Subject: [PATCH 21/29] fix: a line break removes all the spaces before it, not
 only one

---
 src/formatting/decoration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatting/decoration.rs b/src/formatting/decoration.rs
index 77cec27..f6250a9 100644
--- a/src/formatting/decoration.rs
+++ b/src/formatting/decoration.rs
@@ -30,7 +30,7 @@ where
                     // if there was trailing spaces in the line, we need remove them.
                     // But if at this point we are in the CommentLocHint, we have a pseudo-string, and we cannot
                     // remove the first letter.
-                    if f.len() > 1 && (f.chars().last() == Some(' ') || f.chars().last() == Some('\t')) {
+                    while f.len() > 1 && (f.chars().last() == Some(' ') || f.chars().last() == Some('\t')) {
                         f.pop();
                     }
 
-- 
2.43.0


From 94fa70c3107281a132d4f996eb0118bb3dfcf721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 22/29] fix: the indentation of suffixes after round brackets
 depends on the space before them, not inside of the brackets

---
 src/parser/lua_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 341ce21..3e69bbe 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -705,7 +705,7 @@ impl ConfiguredWrite for Node {
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, "(", Hint(&locs[0], ""), n1, Hint(&locs[1], ""), ")")?;
 
-                let ind = n2.test_indent(f, cfg, buf, state, Hint(&locs[0], "")) == Ok(true);
+                let ind = n2.test_indent(f, cfg, buf, state, Hint(&locs[2], "")) == Ok(true);
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, If(ind, &IncIndent(None)), Hint(&locs[2], ""), n2, If(ind, &DecIndent()))
-- 
2.43.0


From c8a70f4e3edf01f93861829588021134fa779e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 23/29] fix: read the options of a config file which ends with
 'return'

---
 src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.rs b/src/config.rs
index 11eb34e..22281b4 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -339,6 +339,7 @@ impl Config {
                 },
                 _ => {}
             },
+            StatsRetStat(_, _, stts, _) => self.load_options_from_config(stts),
             StatementList(_, stts) => {
                 for (_, node) in stts {
                     self.load_options_from_config(node);
-- 
2.43.0


From 37d7d6ac5a838691322e12a9518d08800ca9a555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 24/29] fix: do not copy the index of characters for each
 attempt to write on one line

---
 src/config.rs                    | 5 +++--
 src/formatting/reconstruction.rs | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 22281b4..d7ddf69 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -4,6 +4,7 @@ use std::fmt::Debug;
 use std::fs;
 use std::path::PathBuf;
 use std::collections::HashMap;
+use std::rc::Rc;
 
 use crate::parser;
 
@@ -465,7 +466,7 @@ pub struct State {
     pub pos_range: Option<(usize, usize)>,
     pub comment_pos_range: Option<(usize, usize)>,
     pub comment_offset: usize,
-    pub chars_to_bytes: HashMap::<usize, usize>,
+    pub chars_to_bytes: Rc<HashMap<usize, usize>>,
 }
 
 impl State {
@@ -478,7 +479,7 @@ impl State {
             pos_range: None,
             comment_pos_range: None,
             comment_offset: 0,
-            chars_to_bytes: HashMap::new(),
+            chars_to_bytes: Rc::new(HashMap::new()),
         }
     }
 }
diff --git a/src/formatting/reconstruction.rs b/src/formatting/reconstruction.rs
index 4e0c1ab..1d6701a 100644
--- a/src/formatting/reconstruction.rs
+++ b/src/formatting/reconstruction.rs
@@ -1,3 +1,5 @@
+use std::rc::Rc;
+
 use crate::config::*;
 use crate::formatting::util;
 use crate::parser::common::Loc;
@@ -17,11 +19,12 @@ fn update_pos_range(span: &Loc, state: &mut State) {
 }
 
 pub fn update_indexes(buf: &str, state: &mut State) {
+    let chars_to_bytes = Rc::make_mut(&mut state.chars_to_bytes);
     let mut index = 0;
-    buf.char_indices().enumerate().for_each(|(c, (b, _))| { state.chars_to_bytes.entry(c).or_insert(b); index = c; });
+    buf.char_indices().enumerate().for_each(|(c, (b, _))| { chars_to_bytes.entry(c).or_insert(b); index = c; });
 
     // insert EOF index
-    state.chars_to_bytes.entry(index + 1).or_insert(buf.len());
+    chars_to_bytes.entry(index + 1).or_insert(buf.len());
 }
 
 pub fn reconstruct_node_tree(node: &mut Node, cfg: &Config, state: &mut State) {
-- 
2.43.0


From 06bd8e968021b9a15ecad112562a03b0252dfc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 25/29] fix: do not insert the elements of a list one by one at
 its beginning

---
 src/parser/lua_syntax.lalrpop | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/parser/lua_syntax.lalrpop b/src/parser/lua_syntax.lalrpop
index ad77800..d9b9585 100644
--- a/src/parser/lua_syntax.lalrpop
+++ b/src/parser/lua_syntax.lalrpop
@@ -21,23 +21,39 @@ TList<T>: Vec<(Loc, T)> = {
 
 // cannot be empty, no separator at the end
 TSepList<T, C>: Vec<(Loc, T, Loc, String)> = {
+    <v:TSepListReversed<T, C>> => {
+        let mut v = v;
+        v.reverse();
+        v
+    },
+};
+
+TSepListReversed<T, C>: Vec<(Loc, T, Loc, String)> = {
     <ls:@L> <e:T> <rs:@R> => {
         let mut v = Vec::new();
         v.push((Loc(ls, ls), e, Loc(rs, rs), String::new()));
         v
     },
-    <ls:@L> <e:T> <l1:@R> <r1:@L> <sep:C> <l2:@R> <r2:@L> <v:TSepList<T, C>> => {
+    <ls:@L> <e:T> <l1:@R> <r1:@L> <sep:C> <l2:@R> <r2:@L> <v:TSepListReversed<T, C>> => {
         let mut v = v;
-        if !v.is_empty() {
-            v[0].0 = Loc(l2, r2);
+        if let Some(next) = v.last_mut() {
+            next.0 = Loc(l2, r2);
         }
-        v.insert(0, (Loc(ls, ls), e, Loc(l1, r1), sep.to_string()));
+        v.push((Loc(ls, ls), e, Loc(l1, r1), sep.to_string()));
         v
     }
 };
 
 // cannot be empty, may have a separator at the end
 TSepEndList<T, C>: Vec<(Loc, T, Loc, String)> = {
+    <v:TSepEndListReversed<T, C>> => {
+        let mut v = v;
+        v.reverse();
+        v
+    },
+};
+
+TSepEndListReversed<T, C>: Vec<(Loc, T, Loc, String)> = {
     <ls:@L> <e:T> <l2:@R> <r2:@L> <sep:C?> <r3:@R> => {
         let mut v = Vec::new();
         let s = match sep {
@@ -47,13 +63,12 @@ TSepEndList<T, C>: Vec<(Loc, T, Loc, String)> = {
         v.push((Loc(ls, ls), e, Loc(l2, r2), s));
         v
     },
-    <ls:@L> <e:T> <l1:@R> <r1:@L> <sep:C> <l2:@R> <r2:@L> <v:TSepEndList<T, C>> => {
+    <ls:@L> <e:T> <l1:@R> <r1:@L> <sep:C> <l2:@R> <r2:@L> <v:TSepEndListReversed<T, C>> => {
         let mut v = v;
-        if !v.is_empty() {
-            v[0].0 = Loc(l2, r2);
+        if let Some(next) = v.last_mut() {
+            next.0 = Loc(l2, r2);
         }
-        let s = sep.to_string();
-        v.insert(0, (Loc(ls, ls), e, Loc(l1, r1), s));
+        v.push((Loc(ls, ls), e, Loc(l1, r1), sep.to_string()));
         v
     },
 };
-- 
2.43.0


From deffe885d5a851ee8f447ba27a50ef30a8b26d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 26/29] fix: do not copy the whole output to find the
 indentation of a list

---
 src/formatting/util.rs | 5 +++++
 src/parser/lua_ast.rs  | 8 +++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index 67191f6..51c98ea 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -96,6 +96,11 @@ pub fn get_len_till_newline(s: &str, _cfg: &Config) -> usize {
     return s.chars().take_while(|&c| c != '\n').count();
 }
 
+// the current line with the newline before it
+pub fn last_line(s: &str) -> &str {
+    &s[s.rfind('\n').unwrap_or(0)..]
+}
+
 pub fn has_newlines(s: &str) -> bool {
     return s.find('\n').is_some();
 }
diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 3e69bbe..6e5ea07 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -435,8 +435,9 @@ impl Node {
         let ind = match self {
             Node::VarSuffixList(_, suffs) => match suffs.len() {
                 0 => false,
+                _ if cfg.fmt.indent_var_suffix != Some(true) => false,
                 _ => {
-                    let mut test_f = f.clone();
+                    let mut test_f = util::last_line(f).to_string();
                     let mut test_state = state.clone();
                     cfg_write!(&mut test_f, cfg, buf, &mut test_state, hint)?;
                     cfg.fmt.indent_var_suffix == Some(true)
@@ -446,12 +447,13 @@ impl Node {
             },
             Node::ExpList(_, exprs) => match exprs.len() {
                 0 => false,
+                _ if cfg.fmt.indent_exp_list != Some(true) => false,
                 // ExpList cannot indent it's first item without this flag
                 1 if cfg.fmt.newline_format_exp_list_first.is_none() => {
                     cfg.fmt.indent_exp_list == Some(true) && cfg.fmt.indent_one_line_exp_list == Some(true)
                 }
                 _ => {
-                    let mut test_f = f.clone();
+                    let mut test_f = util::last_line(f).to_string();
                     let mut test_state = state.clone();
                     cfg_write!(&mut test_f, cfg, buf, &mut test_state, hint)?;
                     cfg.fmt.indent_exp_list == Some(true)
@@ -462,7 +464,7 @@ impl Node {
             Node::Fields(_, fields, _) => match fields.len() {
                 0 => false,
                 _ => {
-                    let mut test_f = f.clone();
+                    let mut test_f = util::last_line(f).to_string();
                     let mut test_state = state.clone();
                     cfg_write!(&mut test_f, cfg, buf, &mut test_state, hint)?;
 
-- 
2.43.0


From 58d18c80d8bb9fa55cd556304e98df35c446f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 27/29] fix: long operator chains and deep nesting no longer
 overflow the stack of the program

---
 src/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 2917275..0bb7399 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -68,7 +68,7 @@ fn process_file_path(file_path: &PathBuf, config: &Config, program_opts: &Progra
     }
 }
 
-fn main() {
+fn run() {
     let (options, rel_paths) = get_options_and_filenames();
     let (config, program_opts) = parse_options(&options);
 
@@ -104,6 +104,15 @@ fn main() {
     }
 }
 
+fn main() {
+    // programs are parsed and formatted recursively: deep nesting and long chains of operators need a large stack
+    let thread = std::thread::Builder::new().stack_size(256 << 20).spawn(run);
+
+    if thread.expect("cannot create a thread").join().is_err() {
+        std::process::exit(101);
+    }
+}
+
 #[test]
 fn test_parse_options() {
     use luafmt::config::FormatOpts;
-- 
2.43.0


From 4c9b4ce0eb4b5038d1880e79c8ff5c9f8c98f32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:10 +0000
Subject: [PATCH 28/29] fix: format the selected gap between the last statement
 and return in a partly selected block

---
 src/parser/lua_ast.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 6e5ea07..5ce8df7 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -1206,10 +1206,16 @@ impl ConfiguredWrite for Node {
                 )
             }
             StatsRetStat(span, locs, n1, n2) => {
-                out_of_range_write!(f, cfg, buf, state, span, n1, locs[0], n2);
+                out_of_range_only_write!(f, cfg, buf, state, span);
+
+                // as in a statement list, a partly selected block keeps only the gaps that are out of the range
+                let hint = Hint(&locs[0], " ");
+                if hint.is_out_of_range(state) {
+                    return cfg_write!(f, cfg, buf, state, n1, hint, n2);
+                }
 
                 let nl = cfg.fmt.newline_format_statement.is_some();
-                cfg_write!(f, cfg, buf, state, n1, IfNewLine(nl, Hint(&locs[0], " ")), n2)
+                cfg_write!(f, cfg, buf, state, n1, IfNewLine(nl, hint), n2)
             }
             Chunk(locl, n, locr) => {
                 let nl = cfg.fmt.write_newline_at_eof == Some(true);
-- 
2.43.0


From f84567e33830e1a93c4c3cef7da4d53b79f0fcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:12 +0000
Subject: [PATCH 29/29] fix: accept line breaks in the values of command-line
 options

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 0bb7399..169a424 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -34,7 +34,7 @@ fn parse_options(options: &Vec<String>) -> (Config, ProgramOpts) {
     let mut program_opts = ProgramOpts::default();
 
     for option in options.iter() {
-        let re_config_opt = Regex::new(r"^--([a-zA-Z_0-9]+)=(.*)$").unwrap();
+        let re_config_opt = Regex::new(r"(?s)^--([a-zA-Z_0-9]+)=(.*)$").unwrap();
         let re_program_opt = Regex::new(r"^[-]{1,2}([a-z]+)$").unwrap();
 
         match re_config_opt.captures_iter(option).next() {
-- 
2.43.0

