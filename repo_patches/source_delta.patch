From 5282cd5c0893bd75fe3d999ce1ac45aba72805ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 01/62] fix: do not underflow the wrap width of footnotes with
 long names

---
 src/serializer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 52613ab..375025c 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -427,8 +427,8 @@ impl<'a> Serializer<'a> {
 
         // Wrap content at line_width, accounting for prefix on first line
         let line_width = self.options.line_width.get();
-        let first_line_width = line_width - prefix.width();
-        let continuation_width = line_width - continuation_indent.len();
+        let first_line_width = line_width.saturating_sub(prefix.width());
+        let continuation_width = line_width.saturating_sub(continuation_indent.len());
 
         // Replace SoftBreak marker (\x00) with space before processing
         let content = footnote.content.replace('\x00', " ");
-- 
2.43.0


From c76c93f84bde219b2a6da954ae7e18562613e6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 02/62] fix: reject thematic break styles mixing markers and
 trim surrounding whitespace

---
 src/config.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index d060f9b..0ce7e1c 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -731,14 +731,19 @@ impl ThematicBreakStyle {
             ));
         }
 
-        if valid_markers.len() > 1 {
+        // A marker of another type makes the line something other than a thematic break
+        if valid_markers.len() > 1
+            || valid_markers[0].0 != asterisk_count + hyphen_count + underscore_count
+        {
             return Err(format!(
                 "thematic_break style must use only one type of marker (*, -, or _), got {:?}.",
                 style
             ));
         }
 
-        Ok(Self(style))
+        // Surrounding whitespace is not part of the pattern: leading spaces are configured
+        // separately, and more than three of them would make an indented code block.
+        Ok(Self(trimmed.to_string()))
     }
 
     /// Get the inner value.
-- 
2.43.0


From eccf66e18546857550ad321af6820eced217302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 03/62] fix: make the fence of code blocks in description
 details longer than any fence in the code

---
 src/serializer/code.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index bbf81e6..51b21e5 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -78,9 +78,7 @@ impl<'a> Serializer<'a> {
     /// Serialize a code block with indent for description list details.
     pub(super) fn serialize_code_block_with_indent(&mut self, code: &NodeCodeBlock, indent: &str) {
         let fence_char = self.options.fence_char.as_char();
-        let min_len = self.options.min_fence_length.get();
-        let base_fence: String = std::iter::repeat_n(fence_char, min_len).collect();
-        let long_fence: String = std::iter::repeat_n(fence_char, min_len + 1).collect();
+        let min_fence_length = self.options.min_fence_length.get();
 
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(&code.info);
@@ -107,12 +105,24 @@ impl<'a> Serializer<'a> {
         };
         let literal = formatted_literal.as_deref().unwrap_or(&code.literal);
 
-        let fence = if literal.contains(&base_fence) {
-            &long_fence
-        } else {
-            &base_fence
-        };
-        self.output.push_str(fence);
+        // Find the longest sequence of fence characters in the content
+        let max_fence_in_content = literal
+            .lines()
+            .filter_map(|line| {
+                let trimmed = line.trim_start();
+                if trimmed.starts_with(fence_char) {
+                    Some(trimmed.chars().take_while(|&c| c == fence_char).count())
+                } else {
+                    None
+                }
+            })
+            .max()
+            .unwrap_or(0);
+
+        // Fence length must be greater than any fence sequence in content
+        let fence_length = std::cmp::max(min_fence_length, max_fence_in_content + 1);
+        let fence: String = std::iter::repeat_n(fence_char, fence_length).collect();
+        self.output.push_str(&fence);
         if !output_info.is_empty() {
             if self.options.space_after_fence {
                 self.output.push(' ');
@@ -133,7 +143,7 @@ impl<'a> Serializer<'a> {
             self.output.push('\n');
         }
         self.output.push_str(indent);
-        self.output.push_str(fence);
+        self.output.push_str(&fence);
         self.output.push('\n');
     }
 
-- 
2.43.0


From 5aeb241222d8778ef573b02bad8207a7ce8cf640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 04/62] fix: do not append a blank line to unterminated code in
 description details

---
 src/serializer/code.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index 51b21e5..656d575 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -138,10 +138,6 @@ impl<'a> Serializer<'a> {
             }
             self.output.push('\n');
         }
-        // Handle trailing newline in literal
-        if !literal.ends_with('\n') && !literal.is_empty() {
-            self.output.push('\n');
-        }
         self.output.push_str(indent);
         self.output.push_str(&fence);
         self.output.push('\n');
-- 
2.43.0


From 1eccd7ebb27a9e78a77397082c74f5f4cd3385d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 05/62] fix: pad code spans whose content starts and ends with
 a space

---
 src/serializer/escape.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 44b29e4..396ef44 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -98,14 +98,17 @@ pub fn format_code_span(content: &str) -> String {
     // Determine if we need space padding.
     // Per CommonMark: space padding is needed when content begins or ends with
     // a backtick character. This is because backticks adjacent to the delimiter
-    // would be ambiguous. Spaces at the start/end do NOT require padding -
+    // would be ambiguous. It is also needed when content both begins and ends
+    // with a space (and is not all spaces), because one space is then stripped
+    // from each end. Other spaces at the start/end do NOT require padding -
     // they are preserved as-is.
     let needs_space = if content.is_empty() {
         false
     } else {
         let first = content.chars().next().unwrap();
         let last = content.chars().last().unwrap();
-        first == '`' || last == '`'
+        let stripped_when_read = first == ' ' && last == ' ' && content.chars().any(|c| c != ' ');
+        first == '`' || last == '`' || stripped_when_read
     };
 
     if needs_space {
-- 
2.43.0


From 2624fa65bb84d63c478d1e795e9514ee628d2ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 06/62] fix: keep backslash escapes of all ASCII punctuation
 from the source

---
 src/serializer/inline.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 42b5a99..15246db 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -326,20 +326,13 @@ impl<'a> Serializer<'a> {
                     let escaped_char = source_chars[source_idx + 1];
                     if escaped_char == text_char {
                         // The escape in source corresponds to this character in text
-                        // Check if this character actually needs escaping in Markdown
-                        let escaped_form = escape::escape_text(&text_char.to_string());
-                        let needs_escaping =
-                            escaped_form.len() > 1 && escaped_form.starts_with('\\');
-
-                        if needs_escaping {
+                        if escaped_char.is_ascii_punctuation() {
                             // Preserve the escape from source (e.g., \_ → \_)
                             result.push('\\');
                             result.push(escaped_char);
                         } else {
-                            // Character doesn't need escaping, so backslash should be literal
-                            // Output escaped backslash + character (e.g., \U → \\U)
-                            result.push_str("\\\\");
-                            result.push(text_char);
+                            // Not an escape sequence in Markdown - use normal escaping
+                            result.push_str(&escape::escape_text(&text_char.to_string()));
                         }
                         text_idx += 1;
                         source_idx += 2;
-- 
2.43.0


From 00e36b4795fc19b1d352b2b5f00c93dff22823ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 07/62] fix: keep entities and escapes aligned with the source
 after transformed punctuation

---
 src/serializer/inline.rs | 71 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 67 insertions(+), 4 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 15246db..f244ed9 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -5,6 +5,7 @@ use comrak::nodes::{AstNode, NodeValue};
 use super::Serializer;
 use super::escape;
 use super::punctuation;
+use crate::{DashSetting, Options};
 
 impl<'a> Serializer<'a> {
     pub(super) fn collect_text<'b>(&mut self, node: &'b AstNode<'b>) -> String {
@@ -44,7 +45,11 @@ impl<'a> Serializer<'a> {
 
                 // Try to preserve escapes from the original source
                 if let Some(source) = self.extract_source(node) {
-                    text.push_str(&Self::escape_text_preserving_source(&transformed, &source));
+                    text.push_str(&Self::escape_text_preserving_source(
+                        &transformed,
+                        &source,
+                        self.options,
+                    ));
                 } else {
                     text.push_str(&escape::escape_text(&transformed));
                 }
@@ -137,7 +142,11 @@ impl<'a> Serializer<'a> {
 
                 // Try to preserve escapes from the original source
                 if let Some(source) = self.extract_source(node) {
-                    content.push_str(&Self::escape_text_preserving_source(&transformed, &source));
+                    content.push_str(&Self::escape_text_preserving_source(
+                        &transformed,
+                        &source,
+                        self.options,
+                    ));
                 } else {
                     content.push_str(&escape::escape_text(&transformed));
                 }
@@ -293,7 +302,10 @@ impl<'a> Serializer<'a> {
     /// characters were escaped, and preserves those escapes in the output.
     ///
     /// Also preserves HTML entities (e.g., `&lt;`, `&amp;`, `&#60;`) from the source.
-    fn escape_text_preserving_source(text: &str, source: &str) -> String {
+    ///
+    /// The text has already gone through the punctuation transformations, so a character
+    /// they produced is matched with the characters it replaced in the source.
+    fn escape_text_preserving_source(text: &str, source: &str, options: &Options) -> String {
         let mut result = String::with_capacity(source.len());
         let text_chars: Vec<char> = text.chars().collect();
         let source_chars: Vec<char> = source.chars().collect();
@@ -305,7 +317,14 @@ impl<'a> Serializer<'a> {
             let text_char = text_chars[text_idx];
             let source_char = source_chars[source_idx];
 
-            if source_char == '\\' && source_idx + 1 < source_chars.len() {
+            if let Some(replaced) =
+                Self::transformed_source_len(text_char, &source_chars, source_idx, options)
+            {
+                // Transformed punctuation - skip what it replaced in the source
+                result.push(text_char);
+                text_idx += 1;
+                source_idx += replaced;
+            } else if source_char == '\\' && source_idx + 1 < source_chars.len() {
                 if text_char == '\\' {
                     // Both source and text have a backslash
                     // Check if source has an escaped backslash (\\)
@@ -387,6 +406,50 @@ impl<'a> Serializer<'a> {
         result
     }
 
+    /// If `text_char` is transformed punctuation, and the source has the punctuation it
+    /// replaced at `start`, returns the length of the latter in the source.
+    fn transformed_source_len(
+        text_char: char,
+        source: &[char],
+        start: usize,
+        options: &Options,
+    ) -> Option<usize> {
+        let pattern_len = |pattern| Self::match_source_pattern(source, start, pattern);
+        match text_char {
+            punctuation::LEFT_DOUBLE_QUOTE | punctuation::RIGHT_DOUBLE_QUOTE => pattern_len("\""),
+            punctuation::LEFT_SINGLE_QUOTE | punctuation::RIGHT_SINGLE_QUOTE => pattern_len("'"),
+            punctuation::ELLIPSIS => pattern_len("..."),
+            punctuation::EM_DASH => match &options.em_dash {
+                DashSetting::Pattern(pattern) => pattern_len(pattern.as_str()),
+                DashSetting::Disabled => None,
+            },
+            punctuation::EN_DASH => match &options.en_dash {
+                DashSetting::Pattern(pattern) => pattern_len(pattern.as_str()),
+                DashSetting::Disabled => None,
+            },
+            _ => None,
+        }
+    }
+
+    /// If the source at `start` reads as `pattern`, in which characters can be written as
+    /// backslash escapes or HTML entities, returns its length in the source.
+    fn match_source_pattern(source: &[char], start: usize, pattern: &str) -> Option<usize> {
+        let mut pos = start;
+        for ch in pattern.chars() {
+            if source.get(pos) == Some(&'\\') && source.get(pos + 1) == Some(&ch) {
+                pos += 2;
+            } else if source.get(pos) == Some(&ch) {
+                pos += 1;
+            } else {
+                match Self::try_parse_html_entity(source, pos) {
+                    Some((entity, decoded)) if decoded == ch => pos += entity.len(),
+                    _ => return None,
+                }
+            }
+        }
+        Some(pos - start)
+    }
+
     /// Try to parse an HTML entity starting at the given position.
     /// Returns the entity string and the decoded character if successful.
     fn try_parse_html_entity(chars: &[char], start: usize) -> Option<(String, char)> {
-- 
2.43.0


From bbeeede097c34599a65b04e9ebb52d81519732df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 08/62] fix: escape quotes and backslashes in link titles

---
 src/serializer/inline.rs |  6 +-----
 src/serializer/link.rs   | 33 ++++++++++++++++++---------------
 src/serializer/mod.rs    |  6 +-----
 3 files changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index f244ed9..b216971 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -233,11 +233,7 @@ impl<'a> Serializer<'a> {
                     }
                     content.push_str("](");
                     content.push_str(&link.url);
-                    if !link.title.is_empty() {
-                        content.push_str(" \"");
-                        content.push_str(&link.title);
-                        content.push('"');
-                    }
+                    Self::push_link_title(content, &link.title);
                     content.push(')');
                 } else if is_autolink {
                     Self::format_autolink(content, &link.url);
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 316cf17..b2407e1 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -47,14 +47,25 @@ impl<'a> Serializer<'a> {
         output.push_str(text);
         output.push_str("](");
         output.push_str(url);
-        if !title.is_empty() {
-            output.push_str(" \"");
-            output.push_str(title);
-            output.push('"');
-        }
+        Self::push_link_title(output, title);
         output.push(')');
     }
 
+    /// Write a link title (if any) in double quotes, escaping what would end it early.
+    pub(super) fn push_link_title(output: &mut String, title: &str) {
+        if title.is_empty() {
+            return;
+        }
+        output.push_str(" \"");
+        for ch in title.chars() {
+            if ch == '"' || ch == '\\' {
+                output.push('\\');
+            }
+            output.push(ch);
+        }
+        output.push('"');
+    }
+
     /// Format an autolink and write to output buffer.
     pub(super) fn format_autolink(output: &mut String, url: &str) {
         output.push('<');
@@ -143,11 +154,7 @@ impl<'a> Serializer<'a> {
         output.push_str(alt_text);
         output.push_str("](");
         output.push_str(url);
-        if !title.is_empty() {
-            output.push_str(" \"");
-            output.push_str(title);
-            output.push('"');
-        }
+        Self::push_link_title(output, title);
         output.push(')');
     }
 
@@ -189,11 +196,7 @@ impl<'a> Serializer<'a> {
             }
             self.output.push_str("](");
             self.output.push_str(url);
-            if !title.is_empty() {
-                self.output.push_str(" \"");
-                self.output.push_str(title);
-                self.output.push('"');
-            }
+            Self::push_link_title(&mut self.output, title);
             self.output.push(')');
         } else if is_autolink {
             Self::format_autolink(&mut self.output, url);
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 375025c..7402d19 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -253,11 +253,7 @@ impl<'a> Serializer<'a> {
         output.push_str(&reference.label.replace('\x00', " "));
         output.push_str("]: ");
         output.push_str(&reference.url);
-        if !reference.title.is_empty() {
-            output.push_str(" \"");
-            output.push_str(&reference.title);
-            output.push('"');
-        }
+        Self::push_link_title(output, &reference.title);
         output.push('\n');
     }
 
-- 
2.43.0


From c8b45b21320ae490732122709243f4f82c11b1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 09/62] fix: keep link destinations with spaces, angle brackets
 or unbalanced parentheses intact

---
 src/serializer/inline.rs |  6 ++--
 src/serializer/link.rs   | 61 +++++++++++++++++++++++++++++++++-------
 src/serializer/mod.rs    |  2 +-
 3 files changed, 54 insertions(+), 15 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index b216971..6f8e81d 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -231,10 +231,8 @@ impl<'a> Serializer<'a> {
                     for child in node.children() {
                         self.collect_inline_node(child, content);
                     }
-                    content.push_str("](");
-                    content.push_str(&link.url);
-                    Self::push_link_title(content, &link.title);
-                    content.push(')');
+                    content.push(']');
+                    Self::push_link_target(content, &link.url, &link.title);
                 } else if is_autolink {
                     Self::format_autolink(content, &link.url);
                 } else if Self::is_external_url(&link.url) {
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index b2407e1..ddaf6ec 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -45,12 +45,57 @@ impl<'a> Serializer<'a> {
     pub(super) fn format_inline_link(output: &mut String, text: &str, url: &str, title: &str) {
         output.push('[');
         output.push_str(text);
-        output.push_str("](");
-        output.push_str(url);
+        output.push(']');
+        Self::push_link_target(output, url, title);
+    }
+
+    /// Write the destination and title of an inline link or image: `(url "title")`.
+    pub(super) fn push_link_target(output: &mut String, url: &str, title: &str) {
+        output.push('(');
+        if !url.is_empty() || !title.is_empty() {
+            Self::push_link_destination(output, url);
+        }
         Self::push_link_title(output, title);
         output.push(')');
     }
 
+    /// Write a link destination, encoding or escaping what would end it early.
+    pub(super) fn push_link_destination(output: &mut String, url: &str) {
+        if url.is_empty() {
+            output.push_str("<>");
+            return;
+        }
+        let balanced = Self::has_balanced_parentheses(url);
+        for ch in url.chars() {
+            match ch {
+                ' ' => output.push_str("%20"),
+                '<' => output.push_str("%3C"),
+                '>' => output.push_str("%3E"),
+                '(' | ')' if !balanced => {
+                    output.push('\\');
+                    output.push(ch);
+                }
+                _ => output.push(ch),
+            }
+        }
+    }
+
+    /// Check if every parenthesis in a URL has its counterpart.
+    fn has_balanced_parentheses(url: &str) -> bool {
+        let mut depth: usize = 0;
+        for ch in url.chars() {
+            if ch == '(' {
+                depth += 1;
+            } else if ch == ')' {
+                if depth == 0 {
+                    return false;
+                }
+                depth -= 1;
+            }
+        }
+        depth == 0
+    }
+
     /// Write a link title (if any) in double quotes, escaping what would end it early.
     pub(super) fn push_link_title(output: &mut String, title: &str) {
         if title.is_empty() {
@@ -152,10 +197,8 @@ impl<'a> Serializer<'a> {
     pub(super) fn format_inline_image(output: &mut String, alt_text: &str, url: &str, title: &str) {
         output.push_str("![");
         output.push_str(alt_text);
-        output.push_str("](");
-        output.push_str(url);
-        Self::push_link_title(output, title);
-        output.push(')');
+        output.push(']');
+        Self::push_link_target(output, url, title);
     }
 
     pub(super) fn serialize_link<'b>(&mut self, node: &'b AstNode<'b>, url: &str, title: &str) {
@@ -194,10 +237,8 @@ impl<'a> Serializer<'a> {
             for child in node.children() {
                 self.serialize_node(child);
             }
-            self.output.push_str("](");
-            self.output.push_str(url);
-            Self::push_link_title(&mut self.output, title);
-            self.output.push(')');
+            self.output.push(']');
+            Self::push_link_target(&mut self.output, url, title);
         } else if is_autolink {
             Self::format_autolink(&mut self.output, url);
         } else if Self::is_external_url(url) {
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 7402d19..742a88d 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -252,7 +252,7 @@ impl<'a> Serializer<'a> {
         // (comrak normalizes whitespace in labels, so this ensures idempotency)
         output.push_str(&reference.label.replace('\x00', " "));
         output.push_str("]: ");
-        output.push_str(&reference.url);
+        Self::push_link_destination(output, &reference.url);
         Self::push_link_title(output, &reference.title);
         output.push('\n');
     }
-- 
2.43.0


From 4dc20b854e301d2f204caa55598bfa627cf90cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 10/62] fix: keep inline HTML, footnote references and line
 breaks in headings

---
 src/serializer/inline.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 6f8e81d..3f7b240 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -116,6 +116,18 @@ impl<'a> Serializer<'a> {
                 let alt_text = self.collect_raw_text(node);
                 Self::format_inline_image(text, &alt_text, &image.url, &image.title);
             }
+            NodeValue::LineBreak => {
+                text.push(' ');
+            }
+            NodeValue::HtmlInline(html) => {
+                // Preserve inline HTML as-is, but on a single line
+                text.push_str(&html.replace('\n', " "));
+            }
+            NodeValue::FootnoteReference(footnote_ref) => {
+                text.push_str("[^");
+                text.push_str(&footnote_ref.name);
+                text.push(']');
+            }
             _ => {
                 for child in node.children() {
                     self.collect_text_recursive(child, text);
-- 
2.43.0


From a9f85dad876f2c961d35ee649345602e3acd615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 11/62] fix: keep code spans, link targets and HTML tags
 verbatim in sentence-case headings

---
 src/serializer/heading.rs | 117 +++++++++++++++++++++++++++++++++-----
 1 file changed, 104 insertions(+), 13 deletions(-)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 0f68ab1..dd2f2ee 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -38,6 +38,7 @@ pub fn to_sentence_case(
                 result.push_str(&content);
                 is_first_word = false;
             }
+            Token::Verbatim(content) => result.push_str(&content),
             Token::Quote(content, is_double) => {
                 let processed =
                     process_quoted_text(&content, is_double, user_proper_nouns, common_nouns);
@@ -63,6 +64,8 @@ pub fn to_sentence_case(
 enum Token {
     /// Code span with backticks (preserved as-is)
     CodeSpan(String),
+    /// Link destination, inline HTML tag, or autolink (preserved as-is)
+    Verbatim(String),
     /// Quoted text (content, is_double_quote)
     Quote(String, bool),
     /// Regular text
@@ -186,14 +189,102 @@ fn normalize_quotes(text: &str) -> String {
     result
 }
 
-/// Tokenize text: first extract code spans, then normalize quotes and parse quotes in remaining text.
+/// Find the end of the code span starting at `start`: a run of as many backticks as it starts
+/// with. Without such a run, the code span extends to the end.
+fn code_span_end(chars: &[char], start: usize) -> usize {
+    let mut ticks = 0;
+    while start + ticks < chars.len() && chars[start + ticks] == '`' {
+        ticks += 1;
+    }
+
+    let mut run = 0;
+    let mut i = start + ticks;
+    while i < chars.len() {
+        if chars[i] == '`' {
+            run += 1;
+            if run == ticks && (i + 1 == chars.len() || chars[i + 1] != '`') {
+                return i + 1;
+            }
+        } else {
+            run = 0;
+        }
+        i += 1;
+    }
+    chars.len()
+}
+
+/// Find the end of the link target (destination and title) starting at `start` with an
+/// opening parenthesis. Returns `None` if it is not closed.
+fn link_target_end(chars: &[char], start: usize) -> Option<usize> {
+    let mut depth: usize = 0;
+    let mut in_title = false;
+    let mut i = start;
+    while i < chars.len() {
+        match chars[i] {
+            '\\' => i += 1,
+            '"' => in_title = !in_title,
+            '(' if !in_title => depth += 1,
+            ')' if !in_title => {
+                depth = depth.saturating_sub(1);
+                if depth == 0 {
+                    return Some(i + 1);
+                }
+            }
+            _ => {}
+        }
+        i += 1;
+    }
+    None
+}
+
+/// Find the end of the inline HTML tag or autolink starting at `start` with `<`.
+/// Returns `None` if there is none.
+fn html_tag_end(chars: &[char], start: usize) -> Option<usize> {
+    if start + 1 >= chars.len()
+        || !(chars[start + 1].is_ascii_alphabetic() || chars[start + 1] == '/')
+    {
+        return None;
+    }
+    let mut i = start + 1;
+    while i < chars.len() {
+        if chars[i] == '>' {
+            return Some(i + 1);
+        }
+        i += 1;
+    }
+    None
+}
+
+/// Tokenize text: first extract code spans, link destinations, and HTML tags, then normalize
+/// quotes and parse quotes in remaining text.
 fn tokenize_with_code_spans(text: &str) -> Vec<Token> {
     let mut tokens = Vec::new();
     let mut current = String::new();
-    let mut chars = text.chars().peekable();
+    let chars: Vec<char> = text.chars().collect();
+    let mut after_bracket = false;
+    let mut i = 0;
 
-    while let Some(ch) = chars.next() {
-        if ch == '`' {
+    while i < chars.len() {
+        let ch = chars[i];
+
+        if ch == '\\' && i + 1 < chars.len() {
+            // Escaped characters do not start anything
+            current.push(ch);
+            current.push(chars[i + 1]);
+            after_bracket = false;
+            i += 2;
+            continue;
+        }
+
+        let verbatim_end = match ch {
+            '`' => Some(code_span_end(&chars, i)),
+            '(' if after_bracket => link_target_end(&chars, i),
+            '<' => html_tag_end(&chars, i),
+            _ => None,
+        };
+        after_bracket = ch == ']';
+
+        if let Some(end) = verbatim_end {
             // Save any accumulated text (normalize quotes in it)
             if !current.is_empty() {
                 let normalized = normalize_quotes(&current);
@@ -201,17 +292,17 @@ fn tokenize_with_code_spans(text: &str) -> Vec<Token> {
                 current.clear();
             }
 
-            // Collect code span (preserve as-is, no quote normalization)
-            let mut code_span = String::from('`');
-            for ch in chars.by_ref() {
-                code_span.push(ch);
-                if ch == '`' {
-                    break;
-                }
+            // Preserve as-is, no quote normalization
+            let span: String = chars[i..end].iter().collect();
+            if ch == '`' {
+                tokens.push(Token::CodeSpan(span));
+            } else {
+                tokens.push(Token::Verbatim(span));
             }
-            tokens.push(Token::CodeSpan(code_span));
+            i = end;
         } else {
             current.push(ch);
+            i += 1;
         }
     }
 
@@ -325,7 +416,7 @@ fn process_quoted_text(
 
             for token in tokens {
                 match token {
-                    Token::CodeSpan(c) => result.push_str(&c),
+                    Token::CodeSpan(c) | Token::Verbatim(c) => result.push_str(&c),
                     Token::Quote(c, is_dbl) => {
                         let processed =
                             process_quoted_text(&c, is_dbl, user_proper_nouns, common_nouns);
-- 
2.43.0


From 15cd28c5ff160822a04fcd7ca0a146987305f84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 12/62] fix: keep links inline when their text already stands
 for another target

---
 src/serializer/link.rs  |  5 +++++
 src/serializer/mod.rs   | 19 ++++++++++++++++++-
 src/serializer/state.rs | 21 +++++++++++++++++++++
 3 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index ddaf6ec..2a87400 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -133,6 +133,11 @@ impl<'a> Serializer<'a> {
     ) {
         // Normalize: replace SoftBreak markers with spaces for shortcut refs
         let normalized_text = text.replace('\x00', " ");
+        if self.has_other_target(&normalized_text, url, title) {
+            // The text already stands for another target: keep the link inline
+            Self::format_inline_link(output, text, url, title);
+            return;
+        }
         output.push('[');
         output.push_str(&normalized_text);
         output.push(']');
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 742a88d..d981e91 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -84,9 +84,26 @@ pub fn serialize_with_code_formatter<'a>(
 
 impl<'a> Serializer<'a> {
     /// Check if a link/image was originally in reference style by examining the source.
-    /// Returns Some((text, label)) if reference style, None if inline style.
+    /// Returns Some((text, label)) if reference style, None if inline style, or if its label
+    /// already stands for another target.
     /// The returned text has newlines normalized to spaces for consistent output.
     fn get_reference_style_info<'b>(&self, node: &'b AstNode<'b>) -> Option<(String, String)> {
+        let (text, label) = self.find_reference_style_info(node)?;
+        let conflicts = match &node.data.borrow().value {
+            NodeValue::Link(target) | NodeValue::Image(target) => self.has_other_target(
+                label.strip_prefix('\x01').unwrap_or(&label),
+                &target.url,
+                &target.title,
+            ),
+            _ => false,
+        };
+        if conflicts {
+            return None;
+        }
+        Some((text, label))
+    }
+
+    fn find_reference_style_info<'b>(&self, node: &'b AstNode<'b>) -> Option<(String, String)> {
         let source = self.extract_source(node)?;
 
         // Reference style patterns:
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 65b2bc7..63fa1f0 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -252,6 +252,9 @@ pub struct Serializer<'a> {
     pub pending_references: IndexMap<String, ReferenceLink>,
     /// Reference labels that have already been emitted (to avoid duplicates)
     pub emitted_references: std::collections::HashSet<String>,
+    /// Target (URL and title) of every reference label used so far.
+    /// Key: normalized label (labels match case-insensitively)
+    pub reference_targets: std::collections::HashMap<String, (String, String)>,
     /// Footnote definitions and their reference tracking
     pub footnotes: FootnoteSet,
     /// Current list nesting depth (0 = not in list, 1 = top-level, 2+ = nested)
@@ -304,6 +307,7 @@ impl<'a> Serializer<'a> {
             blockquote_prefix: String::new(),
             pending_references: IndexMap::new(),
             emitted_references: std::collections::HashSet::new(),
+            reference_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
             skip_mode: FormatSkipMode::None,
@@ -341,6 +345,7 @@ impl<'a> Serializer<'a> {
             blockquote_prefix: String::new(),
             pending_references: IndexMap::new(),
             emitted_references: std::collections::HashSet::new(),
+            reference_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
             skip_mode: FormatSkipMode::None,
@@ -446,6 +451,9 @@ impl<'a> Serializer<'a> {
     /// If collecting_footnote_content is true, adds to pending_footnote_references instead,
     /// along with the current footnote's reference line for proper flush timing.
     pub fn add_reference(&mut self, label: String, url: String, title: String) {
+        self.reference_targets
+            .entry(Self::normalize_label(&label))
+            .or_insert_with(|| (url.clone(), title.clone()));
         let reference = ReferenceLink {
             label: label.clone(),
             url,
@@ -458,6 +466,19 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Check if a reference label already stands for a different URL or title.
+    pub fn has_other_target(&self, label: &str, url: &str, title: &str) -> bool {
+        match self.reference_targets.get(&Self::normalize_label(label)) {
+            Some((known_url, known_title)) => known_url != url || known_title != title,
+            None => false,
+        }
+    }
+
+    /// Normalize a reference label the way labels are matched: collapse whitespace and ignore case.
+    fn normalize_label(label: &str) -> String {
+        super::escape::normalize_whitespace(&label.replace('\x00', " ")).to_lowercase()
+    }
+
     /// Check if a URL is external (starts with http:// or https://).
     pub fn is_external_url(url: &str) -> bool {
         url.starts_with("http://") || url.starts_with("https://")
-- 
2.43.0


From d0692553a746567386f9afd29b5755b5e575b085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 13/62] fix: keep links whose text cannot be a shortcut
 reference, or changes meaning before the following text

---
 src/serializer/inline.rs |  4 ++--
 src/serializer/link.rs   | 39 +++++++++++++++++++++++++++++++--------
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 3f7b240..12cd1c7 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -98,13 +98,13 @@ impl<'a> Serializer<'a> {
                     // In headings, we typically want reference style for external links
                     let link_text = self.collect_raw_text(node);
                     if Self::is_external_url(&link.url) {
-                        // Headings don't have footnote references as siblings, so no need for collapsed style
+                        let use_collapsed = Self::next_sibling_starts_with_bracket(node);
                         self.format_external_link_as_reference(
                             text,
                             &link_text,
                             &link.url,
                             &link.title,
-                            false,
+                            use_collapsed,
                         );
                     } else {
                         Self::format_inline_link(text, &link_text, &link.url, &link.title);
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 2a87400..6264dc1 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -133,8 +133,10 @@ impl<'a> Serializer<'a> {
     ) {
         // Normalize: replace SoftBreak markers with spaces for shortcut refs
         let normalized_text = text.replace('\x00', " ");
-        if self.has_other_target(&normalized_text, url, title) {
-            // The text already stands for another target: keep the link inline
+        if !Self::is_valid_label(&normalized_text)
+            || self.has_other_target(&normalized_text, url, title)
+        {
+            // The text cannot be a label, or already stands for another target: keep it inline
             Self::format_inline_link(output, text, url, title);
             return;
         }
@@ -148,15 +150,36 @@ impl<'a> Serializer<'a> {
         self.add_reference(normalized_text, url.to_string(), title.to_string());
     }
 
-    /// Check if the next sibling of a node starts with `[`.
-    /// This includes footnote references, link references, and images.
+    /// Check if a text can be the label of a reference: it is not blank, has no unescaped
+    /// brackets, is not that of a footnote reference, and is at most 999 characters long.
+    fn is_valid_label(text: &str) -> bool {
+        let mut escaped = false;
+        let mut blank = true;
+        for ch in text.chars() {
+            if !escaped && (ch == '[' || ch == ']') {
+                return false;
+            }
+            escaped = !escaped && ch == '\\';
+            blank = blank && ch.is_whitespace();
+        }
+        !blank && !text.starts_with('^') && text.chars().count() <= 999
+    }
+
+    /// Check if the next sibling of a node starts with `[`, or with text that a shortcut
+    /// reference cannot be followed by: `(` would make it an inline link, and `:` a reference
+    /// definition (if the link starts its block).
+    /// The former includes footnote references, link references, and images.
     pub(super) fn next_sibling_starts_with_bracket<'b>(node: &'b AstNode<'b>) -> bool {
         if let Some(next) = node.next_sibling() {
             let value = &next.data.borrow().value;
-            matches!(
-                value,
-                NodeValue::FootnoteReference(_) | NodeValue::Link(_) | NodeValue::Image(_)
-            )
+            match value {
+                NodeValue::FootnoteReference(_) | NodeValue::Link(_) | NodeValue::Image(_) => true,
+                NodeValue::Text(text) => {
+                    text.starts_with(['[', '('])
+                        || (text.starts_with(':') && node.previous_sibling().is_none())
+                }
+                _ => false,
+            }
         } else {
             false
         }
-- 
2.43.0


From 8dffcd8058eb60f4a4e46f0e6b05c20f82eb58c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 14/62] fix: ignore escaped brackets and code spans when
 looking for the end of link text

---
 src/serializer/mod.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index d981e91..7215afc 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -121,14 +121,18 @@ impl<'a> Serializer<'a> {
         let source = source.strip_prefix('!').unwrap_or(&source);
 
         // Find the position of the first '[' and track brackets to find the matching ']'
-        let first_bracket = source.find('[')?;
         let chars: Vec<char> = source.chars().collect();
 
         // Find the closing bracket at depth 0 (the one that closes the text/content part)
+        // Brackets that are escaped or inside code spans do not count
         let mut depth = 0;
         let mut text_end_pos = None;
-        for (i, &ch) in chars.iter().enumerate().skip(first_bracket) {
-            match ch {
+        let mut i = chars.iter().take_while(|&&ch| ch != '[').count();
+        let first_bracket = i;
+        while i < chars.len() {
+            match chars[i] {
+                '\\' => i += 1,
+                '`' => i = Self::skip_code_span(&chars, i) - 1,
                 '[' => depth += 1,
                 ']' => {
                     depth -= 1;
@@ -139,6 +143,7 @@ impl<'a> Serializer<'a> {
                 }
                 _ => {}
             }
+            i += 1;
         }
 
         let text_end_pos = text_end_pos?;
@@ -180,6 +185,31 @@ impl<'a> Serializer<'a> {
         Some((text.clone(), text))
     }
 
+    /// Find the end of the code span starting at `start`, or of its backticks if it is not closed.
+    fn skip_code_span(chars: &[char], start: usize) -> usize {
+        let run_end = |from: usize| {
+            let mut end = from;
+            while end < chars.len() && chars[end] == '`' {
+                end += 1;
+            }
+            end
+        };
+        let opening_end = run_end(start);
+        let mut i = opening_end;
+        while i < chars.len() {
+            if chars[i] == '`' {
+                let end = run_end(i);
+                if end - i == opening_end - start {
+                    return end;
+                }
+                i = end;
+            } else {
+                i += 1;
+            }
+        }
+        opening_end
+    }
+
     /// Ensure output ends with a blank line (two newlines).
     /// Used before emitting reference definitions and footnotes.
     fn ensure_blank_line(&mut self) {
-- 
2.43.0


From 01eab6d1bf02dc68a236b9d2239892689768f025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 15/62] fix: keep the backslash of escaped characters at the
 start of a text

---
 src/serializer/inline.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 12cd1c7..180f301 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -44,7 +44,7 @@ impl<'a> Serializer<'a> {
                 let transformed = punctuation::transform_punctuation(t, self.options);
 
                 // Try to preserve escapes from the original source
-                if let Some(source) = self.extract_source(node) {
+                if let Some(source) = self.extract_text_source(node) {
                     text.push_str(&Self::escape_text_preserving_source(
                         &transformed,
                         &source,
@@ -153,7 +153,7 @@ impl<'a> Serializer<'a> {
                 let transformed = punctuation::transform_punctuation(text, self.options);
 
                 // Try to preserve escapes from the original source
-                if let Some(source) = self.extract_source(node) {
+                if let Some(source) = self.extract_text_source(node) {
                     content.push_str(&Self::escape_text_preserving_source(
                         &transformed,
                         &source,
@@ -301,6 +301,23 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Extract the original source of a text node.
+    ///
+    /// When a text node starts with an escaped character, comrak makes it start after the
+    /// backslash, so the backslash is added back.
+    fn extract_text_source<'b>(&self, node: &'b AstNode<'b>) -> Option<String> {
+        let source = self.extract_source(node)?;
+        let start = node.data.borrow().sourcepos.start;
+        let line = self.source_lines.get(start.line.checked_sub(1)?)?;
+        let before = line.get(..start.column.saturating_sub(1)).unwrap_or("");
+        let backslashes = before.chars().rev().take_while(|&ch| ch == '\\').count();
+        if backslashes % 2 == 1 {
+            Some(format!("\\{}", source))
+        } else {
+            Some(source)
+        }
+    }
+
     /// Escape text while preserving escapes from the original source.
     ///
     /// When comrak parses text like `node\_modules`, it stores `node_modules` in the AST.
-- 
2.43.0


From e0e079a3ecda20c4a18a48bbc0883007770b0d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 16/62] fix: do not wrap text in front of words that would
 start a new block

---
 src/serializer/mod.rs  |   4 +-
 src/serializer/wrap.rs | 122 ++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 123 insertions(+), 3 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 7215afc..0dd5ca2 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -495,7 +495,9 @@ impl<'a> Serializer<'a> {
 
             if current_line.is_empty() {
                 current_line.push_str(word);
-            } else if current_line.width() + 1 + word.width() <= max_width {
+            } else if current_line.width() + 1 + word.width() <= max_width
+                || wrap::starts_block(word)
+            {
                 current_line.push(' ');
                 current_line.push_str(word);
             } else {
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 34be4c1..3f0f7ee 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -351,8 +351,8 @@ fn add_token_to_line_with_prefix(
         // First word on this line (prefix already added)
         current_line.push_str(token);
         current_line.push_str(trailing_spaces);
-    } else if current_line.width() + token_width + spaces_len <= line_width {
-        // Token fits on current line
+    } else if current_line.width() + token_width + spaces_len <= line_width || starts_block(token) {
+        // Token fits on current line, or would become a block marker on a new one
         current_line.push_str(token);
         current_line.push_str(trailing_spaces);
     } else {
@@ -366,3 +366,121 @@ fn add_token_to_line_with_prefix(
         *is_first_line = false;
     }
 }
+
+/// HTML tag names that start an HTML block, even in the middle of a paragraph.
+const HTML_BLOCK_TAGS: &[&str] = &[
+    "address",
+    "article",
+    "aside",
+    "base",
+    "basefont",
+    "blockquote",
+    "body",
+    "caption",
+    "center",
+    "col",
+    "colgroup",
+    "dd",
+    "details",
+    "dialog",
+    "dir",
+    "div",
+    "dl",
+    "dt",
+    "fieldset",
+    "figcaption",
+    "figure",
+    "footer",
+    "form",
+    "frame",
+    "frameset",
+    "h1",
+    "h2",
+    "h3",
+    "h4",
+    "h5",
+    "h6",
+    "head",
+    "header",
+    "hr",
+    "html",
+    "iframe",
+    "legend",
+    "li",
+    "link",
+    "main",
+    "menu",
+    "menuitem",
+    "nav",
+    "noframes",
+    "ol",
+    "optgroup",
+    "option",
+    "p",
+    "param",
+    "pre",
+    "script",
+    "search",
+    "section",
+    "style",
+    "summary",
+    "table",
+    "tbody",
+    "td",
+    "textarea",
+    "tfoot",
+    "th",
+    "thead",
+    "title",
+    "tr",
+    "track",
+    "ul",
+];
+
+/// Check if a word at the start of a line would start a new block instead of continuing the
+/// paragraph, e.g., `-` (list item), `#` (heading), or `>` (block quote).
+pub(super) fn starts_block(word: &str) -> bool {
+    if word.starts_with('>') || word.starts_with("~~~") {
+        return true;
+    }
+
+    // List markers, setext heading underlines, table delimiter rows, description details
+    if word
+        .chars()
+        .all(|c| c == '-' || c == '+' || c == '=' || c == '|' || c == ':' || c == '~')
+    {
+        return true;
+    }
+
+    // ATX headings
+    if word.chars().count() <= 6 && word.chars().all(|c| c == '#') {
+        return true;
+    }
+
+    // Ordered list markers (a list in the middle of a paragraph has to start with 1)
+    if let Some(number) = word.strip_suffix('.').or(word.strip_suffix(')'))
+        && number.trim_start_matches('0') == "1"
+    {
+        return true;
+    }
+
+    // Footnote definitions
+    if word.starts_with("[^") && word.contains("]:") {
+        return true;
+    }
+
+    // HTML blocks
+    match word.strip_prefix('<') {
+        Some(tag) => {
+            let name = tag.strip_prefix('/').unwrap_or(tag);
+            let name: String = name
+                .chars()
+                .take_while(|c| c.is_ascii_alphanumeric())
+                .collect();
+            tag.starts_with('!')
+                || tag.starts_with('?')
+                || HTML_BLOCK_TAGS.contains(&name.to_ascii_lowercase().as_str())
+        }
+        None => false,
+    }
+}
-- 
2.43.0


From 33a2320961f6df2048e4c986677ed96755334554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 17/62] Add verification hooks, off unless cfg(hongdown_verif)
 is set

---
 src/lib.rs                    | 8 ++++++++
 src/serializer/block.rs       | 6 ++++++
 src/serializer/code.rs        | 6 ++++++
 src/serializer/document.rs    | 6 ++++++
 src/serializer/heading.rs     | 6 ++++++
 src/serializer/inline.rs      | 6 ++++++
 src/serializer/link.rs        | 6 ++++++
 src/serializer/list.rs        | 6 ++++++
 src/serializer/mod.rs         | 6 ++++++
 src/serializer/punctuation.rs | 6 ++++++
 src/serializer/state.rs       | 6 ++++++
 src/serializer/table.rs       | 6 ++++++
 src/serializer/wrap.rs        | 6 ++++++
 13 files changed, 80 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index db6ec38..aa7218f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,6 +11,8 @@
 //! let output = format(input, &options).unwrap();
 //! ```
 
+#![allow(unexpected_cfgs)]
+
 use std::collections::HashMap;
 
 pub mod config;
@@ -289,6 +291,12 @@ impl std::fmt::Display for FormatError {
 
 impl std::error::Error for FormatError {}
 
+// Verification hook: gives the checks in the verification harness access to private items.
+#[cfg(hongdown_verif)]
+pub mod verif {
+    include!(concat!(env!("HONGDOWN_VERIF_DIR"), "/lib.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index 66f8471..fce45b0 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -122,3 +122,9 @@ impl<'a> Serializer<'a> {
         self.exit_blockquote_context(state);
     }
 }
+
+// Verification hook: gives the checks in the verification harness access to private items.
+#[cfg(hongdown_verif)]
+pub mod verif {
+    include!(concat!(env!("HONGDOWN_VERIF_DIR"), "/block.rs"));
+}
diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index 656d575..093228b 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -311,3 +311,9 @@ impl<'a> Serializer<'a> {
         self.output.push('\n');
     }
 }
+
+// Verification hook: gives the checks in the verification harness access to private items.
+#[cfg(hongdown_verif)]
+pub mod verif {
+    include!(concat!(env!("HONGDOWN_VERIF_DIR"), "/code.rs"));
+}
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index fe9398d..389f939 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -877,3 +877,9 @@ impl<'a> Serializer<'a> {
         self.output.push('\n');
     }
 }
+
+// Verification hook: gives the checks in the verification harness access to private items.
+#[cfg(hongdown_verif)]
+pub mod verif {
+    include!(concat!(env!("HONGDOWN_VERIF_DIR"), "/document.rs"));
+}
diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index dd2f2ee..0e5fbd0 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -972,6 +972,12 @@ fn capitalize_first(word: &str) -> String {
     }
 }
 
+// Verification hook: gives the checks in the verification harness access to private items.
+#[cfg(hongdown_verif)]
+pub mod verif {
+    include!(concat!(env!("HONGDOWN_VERIF_DIR"), "/heading.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 180f301..31998bb 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -539,3 +539,9 @@ impl<'a> Serializer<'a> {
         }
     }
 }
+
+// Verification hook: gives the checks in the verification harness access to private items.
+#[cfg(hongdown_verif)]
+pub mod verif {
+    include!(concat!(env!("HONGDOWN_VERIF_DIR"), "/inline.rs"));
+}
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 6264dc1..47ebe07 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -305,3 +305,9 @@ impl<'a> Serializer<'a> {
         Self::format_inline_image(&mut self.output, &alt_text, url, title);
     }
 }
+
+// Verification hook: gives the checks in the verification harness access to private items.
+#[cfg(hongdown_verif)]
+pub mod verif {
+    include!(concat!(env!("HONGDOWN_VERIF_DIR"), "/link.rs"));
+}
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 33c63d9..83f453d 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -309,3 +309,9 @@ impl<'a> Serializer<'a> {
         }
     }
 }
+
+// Verification hook: gives the checks in the verification harness access to private items.
+#[cfg(hongdown_verif)]
+pub mod verif {
+    include!(concat!(env!("HONGDOWN_VERIF_DIR"), "/list.rs"));
+}
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 0dd5ca2..a0e59ce 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -748,5 +748,11 @@ impl<'a> Serializer<'a> {
     }
 }
 
+// Verification hook: gives the checks in the verification harness access to private items.
+#[cfg(hongdown_verif)]
+pub mod verif {
+    include!(concat!(env!("HONGDOWN_VERIF_DIR"), "/serializer.rs"));
+}
+
 #[cfg(test)]
 mod tests;
diff --git a/src/serializer/punctuation.rs b/src/serializer/punctuation.rs
index 1be6265..263ce3b 100644
--- a/src/serializer/punctuation.rs
+++ b/src/serializer/punctuation.rs
@@ -486,6 +486,12 @@ fn should_be_opening_quote(chars: &[char], i: usize, expecting_open: bool) -> bo
     }
 }
 
+// Verification hook: gives the checks in the verification harness access to private items.
+#[cfg(hongdown_verif)]
+pub mod verif {
+    include!(concat!(env!("HONGDOWN_VERIF_DIR"), "/punctuation.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 63fa1f0..5501325 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -533,6 +533,12 @@ impl<'a> Serializer<'a> {
     }
 }
 
+// Verification hook: gives the checks in the verification harness access to private items.
+#[cfg(hongdown_verif)]
+pub mod verif {
+    include!(concat!(env!("HONGDOWN_VERIF_DIR"), "/state.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::safe_str_slice;
diff --git a/src/serializer/table.rs b/src/serializer/table.rs
index 1ed87d9..e2e57f5 100644
--- a/src/serializer/table.rs
+++ b/src/serializer/table.rs
@@ -226,3 +226,9 @@ fn count_unescaped_pipes(line: &str) -> usize {
 
     count
 }
+
+// Verification hook: gives the checks in the verification harness access to private items.
+#[cfg(hongdown_verif)]
+pub mod verif {
+    include!(concat!(env!("HONGDOWN_VERIF_DIR"), "/table.rs"));
+}
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 3f0f7ee..e1bf1ad 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -484,3 +484,9 @@ pub(super) fn starts_block(word: &str) -> bool {
         None => false,
     }
 }
+
+// Verification hook: gives the checks in the verification harness access to private items.
+#[cfg(hongdown_verif)]
+pub mod verif {
+    include!(concat!(env!("HONGDOWN_VERIF_DIR"), "/wrap.rs"));
+}
-- 
2.43.0


From 9b8f4e3049ee41bf93a88f6c2799317cd63ab135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 18/62] fix: keep code spans with longer delimiters on one line
 when wrapping

---
 src/serializer/wrap.rs | 83 +++++++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 29 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index e1bf1ad..715d464 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -221,41 +221,35 @@ pub fn wrap_single_segment(
     // - Content inside backticks (treated as a single unbreakable unit)
     // - Content inside brackets (treated as a single unbreakable unit for links)
     // We preserve double spaces after periods.
-    let chars = text.chars();
+    let chars: Vec<char> = text.chars().collect();
     let mut current_token = String::new();
     let mut trailing_spaces = String::new();
-    let mut in_backticks = false;
+    let mut code_span_end = 0;
     let mut bracket_depth = 0;
 
-    for ch in chars {
-        if ch == '`' && bracket_depth == 0 {
-            if in_backticks {
-                // End of backtick region
-                current_token.push(ch);
-                in_backticks = false;
-            } else {
-                // Start of backtick region - include any accumulated content first
-                if !current_token.is_empty() && !trailing_spaces.is_empty() {
-                    // We have a previous word, output it
-                    add_token_to_line_with_prefix(
-                        &mut result,
-                        &mut current_line,
-                        &current_token,
-                        &trailing_spaces,
-                        first_prefix_width,
-                        prefix,
-                        line_width,
-                        &mut is_first_line,
-                    );
-                    current_token.clear();
-                    trailing_spaces.clear();
-                }
-                current_token.push(ch);
-                in_backticks = true;
+    for (i, &ch) in chars.iter().enumerate() {
+        if i < code_span_end {
+            // Inside a code span, everything is part of the token
+            current_token.push(ch);
+        } else if ch == '`' {
+            // Start of a run of backticks - include any accumulated content first
+            if bracket_depth == 0 && !current_token.is_empty() && !trailing_spaces.is_empty() {
+                // We have a previous word, output it
+                add_token_to_line_with_prefix(
+                    &mut result,
+                    &mut current_line,
+                    &current_token,
+                    &trailing_spaces,
+                    first_prefix_width,
+                    prefix,
+                    line_width,
+                    &mut is_first_line,
+                );
+                current_token.clear();
+                trailing_spaces.clear();
             }
-        } else if in_backticks {
-            // Inside backticks, everything is part of the token
             current_token.push(ch);
+            code_span_end = find_code_span_end(&chars, i);
         } else if ch == '[' {
             // Start of bracket region
             if bracket_depth == 0 && !current_token.is_empty() && !trailing_spaces.is_empty() {
@@ -328,6 +322,37 @@ pub fn wrap_single_segment(
     result
 }
 
+/// Find where the code span (or literal run of backticks) that starts at an index ends.
+fn find_code_span_end(chars: &[char], start: usize) -> usize {
+    // An escaped backtick does not start a code span
+    let mut backslashes = 0;
+    while backslashes < start && chars[start - backslashes - 1] == '\\' {
+        backslashes += 1;
+    }
+    if backslashes % 2 == 1 {
+        return start + 1;
+    }
+
+    let mut opening = start;
+    while opening < chars.len() && chars[opening] == '`' {
+        opening += 1;
+    }
+
+    // The closing run of backticks is as long as the opening one
+    let mut i = opening;
+    while i < chars.len() {
+        let mut closing = i;
+        while closing < chars.len() && chars[closing] == '`' {
+            closing += 1;
+        }
+        if closing - i == opening - start {
+            return closing;
+        }
+        i = closing.max(i + 1);
+    }
+    opening
+}
+
 #[allow(clippy::too_many_arguments)]
 fn add_token_to_line_with_prefix(
     result: &mut String,
-- 
2.43.0


From 281c30e049b8b82482f58b812142edbf9145e10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 19/62] fix: keep code, emphasis and images in the links of
 headings

---
 src/serializer/inline.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 31998bb..0b1c127 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -96,7 +96,10 @@ impl<'a> Serializer<'a> {
                 } else {
                     // For inline links, just output plain text (or format as inline?)
                     // In headings, we typically want reference style for external links
-                    let link_text = self.collect_raw_text(node);
+                    let mut link_text = String::new();
+                    for child in node.children() {
+                        self.collect_text_recursive(child, &mut link_text);
+                    }
                     if Self::is_external_url(&link.url) {
                         let use_collapsed = Self::next_sibling_starts_with_bracket(node);
                         self.format_external_link_as_reference(
@@ -113,7 +116,10 @@ impl<'a> Serializer<'a> {
             }
             NodeValue::Image(image) => {
                 // Preserve images in headings using inline syntax
-                let alt_text = self.collect_raw_text(node);
+                let mut alt_text = String::new();
+                for child in node.children() {
+                    self.collect_text_recursive(child, &mut alt_text);
+                }
                 Self::format_inline_image(text, &alt_text, &image.url, &image.title);
             }
             NodeValue::LineBreak => {
-- 
2.43.0


From 58e1497bcbdd9cc492f9b3d311811178ac9a7f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 20/62] fix: keep code spans and hard line breaks when wrapping
 footnotes

---
 src/serializer/mod.rs | 59 ++++++++-----------------------------------
 1 file changed, 10 insertions(+), 49 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index a0e59ce..8a9951f 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -20,7 +20,6 @@ pub use state::CodeFormatterCallback;
 pub use state::{ReferenceLink, Serializer, Warning};
 
 use comrak::nodes::{AstNode, NodeValue};
-use unicode_width::UnicodeWidthStr;
 
 use crate::Options;
 
@@ -468,61 +467,23 @@ impl<'a> Serializer<'a> {
             return;
         }
 
-        // Wrap content at line_width, accounting for prefix on first line
-        let line_width = self.options.line_width.get();
-        let first_line_width = line_width.saturating_sub(prefix.width());
-        let continuation_width = line_width.saturating_sub(continuation_indent.len());
-
         // Replace SoftBreak marker (\x00) with space before processing
         let content = footnote.content.replace('\x00', " ");
-        let words: Vec<&str> = content.split_whitespace().collect();
-        if words.is_empty() {
+        if content.trim().is_empty() {
             self.output.push_str(&prefix);
             self.output.push('\n');
             return;
         }
 
-        let mut lines: Vec<String> = Vec::new();
-        let mut current_line = String::new();
-        let mut is_first_line = true;
-
-        for word in words {
-            let max_width = if is_first_line {
-                first_line_width
-            } else {
-                continuation_width
-            };
-
-            if current_line.is_empty() {
-                current_line.push_str(word);
-            } else if current_line.width() + 1 + word.width() <= max_width
-                || wrap::starts_block(word)
-            {
-                current_line.push(' ');
-                current_line.push_str(word);
-            } else {
-                // Line is full, start a new one
-                lines.push(current_line);
-                current_line = word.to_string();
-                is_first_line = false;
-            }
-        }
-
-        if !current_line.is_empty() {
-            lines.push(current_line);
-        }
-
-        // Output lines
-        for (i, line) in lines.iter().enumerate() {
-            if i == 0 {
-                self.output.push_str(&prefix);
-                self.output.push_str(line);
-            } else {
-                self.output.push_str(&continuation_indent);
-                self.output.push_str(line);
-            }
-            self.output.push('\n');
-        }
+        // Wrap content at line_width, accounting for prefix on first line
+        let wrapped = wrap::wrap_text_first_line(
+            &content,
+            &prefix,
+            &continuation_indent,
+            self.options.line_width.get(),
+        );
+        self.output.push_str(&wrapped);
+        self.output.push('\n');
     }
 
     /// Serialize footnote content that contains block elements.
-- 
2.43.0


From 148c9420e56323f10f8e2224f2fa110287508239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 21/62] fix: do not leave a word that would become a block
 alone on a wrapped line

---
 src/serializer/wrap.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 715d464..5364246 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -376,8 +376,12 @@ fn add_token_to_line_with_prefix(
         // First word on this line (prefix already added)
         current_line.push_str(token);
         current_line.push_str(trailing_spaces);
-    } else if current_line.width() + token_width + spaces_len <= line_width || starts_block(token) {
-        // Token fits on current line, or would become a block marker on a new one
+    } else if current_line.width() + token_width + spaces_len <= line_width
+        || starts_block(token)
+        || is_only_block_marker(current_line, current_prefix_width)
+    {
+        // Token fits on current line, or would become a block marker on a new one, or the
+        // current line would become a block without it
         current_line.push_str(token);
         current_line.push_str(trailing_spaces);
     } else {
@@ -392,6 +396,14 @@ fn add_token_to_line_with_prefix(
     }
 }
 
+/// Check if a line has nothing but a word that would start a new block after its prefix, e.g., a
+/// line with only `--` would be a setext heading underline.
+fn is_only_block_marker(line: &str, prefix_width: usize) -> bool {
+    let line = line.trim_end();
+    let word = line.rsplit(' ').next().unwrap_or("");
+    !word.is_empty() && line.width() == prefix_width + word.width() && starts_block(word)
+}
+
 /// HTML tag names that start an HTML block, even in the middle of a paragraph.
 const HTML_BLOCK_TAGS: &[&str] = &[
     "address",
-- 
2.43.0


From 3b17b97e0220e782de31fe238da49ef618520b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 22/62] fix: escape a leading bracket of paragraphs that
 wrapping would turn into a reference definition

---
 src/serializer/document.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 389f939..a0fea61 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -316,7 +316,7 @@ impl<'a> Serializer<'a> {
                         self.output.push_str(&blockquote_prefix);
                         self.output.push_str(":   ");
                         let mut content = String::new();
-                        self.collect_inline_content(child, &mut content);
+                        self.collect_paragraph_content(child, &mut content);
                         let continuation = format!("{}    ", blockquote_prefix);
                         let wrapped = wrap::wrap_text_first_line(
                             content.trim(),
@@ -374,7 +374,7 @@ impl<'a> Serializer<'a> {
                         self.output.push_str(&blockquote_prefix);
                         self.output.push_str("    ");
                         let mut content = String::new();
-                        self.collect_inline_content(child, &mut content);
+                        self.collect_paragraph_content(child, &mut content);
                         let continuation = format!("{}    ", blockquote_prefix);
                         let wrapped = wrap::wrap_text_first_line(
                             content.trim(),
@@ -471,7 +471,7 @@ impl<'a> Serializer<'a> {
 
         // Collect all inline content first
         let mut inline_content = String::new();
-        self.collect_inline_content(node, &mut inline_content);
+        self.collect_paragraph_content(node, &mut inline_content);
 
         if self.list_type.is_some() {
             // Inside a list item, wrap with proper continuation indent
@@ -531,6 +531,18 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Collect the inline content of a paragraph, escaping a leading bracket that would turn the
+    /// paragraph into a reference definition once it is wrapped.
+    fn collect_paragraph_content<'b>(&mut self, node: &'b AstNode<'b>, content: &mut String) {
+        self.collect_inline_content(node, content);
+        let starts_with_bracket = node.first_child().is_some_and(|child| {
+            matches!(&child.data.borrow().value, NodeValue::Text(text) if text.starts_with('['))
+        });
+        if starts_with_bracket && content.starts_with('[') && content.contains("]:") {
+            content.insert(0, '\\');
+        }
+    }
+
     pub(super) fn serialize_front_matter(&mut self, content: &str) {
         // Front matter content from comrak includes the delimiters,
         // so we preserve it verbatim and add a trailing blank line
-- 
2.43.0


From 83513f22ce5a4ba8dd3d10bd4c26f146db19163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 23/62] fix: do not let source lines or text after hard breaks
 start a new block

---
 src/serializer/wrap.rs | 55 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 5364246..2d7f643 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -29,7 +29,12 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
         }
         // First segment uses the normal prefix, subsequent segments also need prefix
         // (wrap_text_segment handles adding the prefix to the first line)
-        let wrapped = wrap_text_segment(segment, prefix, line_width);
+        let segment = if idx > 0 {
+            escape_block_start(segment)
+        } else {
+            segment.to_string()
+        };
+        let wrapped = wrap_text_segment(&segment, prefix, line_width);
         result.push_str(&wrapped);
     }
 
@@ -58,10 +63,15 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
 
         if line_with_prefix_len <= line_width {
             // Line fits within limit, keep it as-is
-            if !result.is_empty() {
-                result.push('\n');
+            // (or at the end of the previous line, if it would start a new block)
+            if !result.is_empty() && line.split_whitespace().next().is_some_and(starts_block) {
+                result.push(' ');
+            } else {
+                if !result.is_empty() {
+                    result.push('\n');
+                }
+                result.push_str(prefix);
             }
-            result.push_str(prefix);
             result.push_str(line);
             i += 1;
         } else {
@@ -124,8 +134,13 @@ pub fn wrap_text_first_line(
         } else {
             ("", continuation_prefix)
         };
+        let segment = if is_first_segment {
+            segment.to_string()
+        } else {
+            escape_block_start(segment)
+        };
         let wrapped =
-            wrap_text_first_line_segment(segment, current_first, current_cont, line_width);
+            wrap_text_first_line_segment(&segment, current_first, current_cont, line_width);
         result.push_str(&wrapped);
         is_first_segment = false;
     }
@@ -165,10 +180,15 @@ fn wrap_text_first_line_segment(
 
         if line_with_prefix_len <= line_width {
             // Line fits within limit, keep it as-is
-            if !result.is_empty() {
-                result.push('\n');
+            // (or at the end of the previous line, if it would start a new block)
+            if !result.is_empty() && line.split_whitespace().next().is_some_and(starts_block) {
+                result.push(' ');
+            } else {
+                if !result.is_empty() {
+                    result.push('\n');
+                }
+                result.push_str(current_prefix);
             }
-            result.push_str(current_prefix);
             result.push_str(line);
             is_first_line = false;
             i += 1;
@@ -404,6 +424,25 @@ fn is_only_block_marker(line: &str, prefix_width: usize) -> bool {
     !word.is_empty() && line.width() == prefix_width + word.width() && starts_block(word)
 }
 
+/// Escape the first word of the text after a hard line break if it would start a new block.
+fn escape_block_start(text: &str) -> String {
+    let text = text.trim_start();
+    let word = text.split([' ', '\x00']).next().unwrap_or("");
+    if !starts_block(word) {
+        return text.to_string();
+    }
+    // The delimiter of an ordered list marker comes after its number
+    let position = if word.starts_with(|c: char| c.is_ascii_digit()) {
+        word.len() - 1
+    } else {
+        0
+    };
+    if word[position..].starts_with(['<', '[']) {
+        return text.to_string();
+    }
+    format!("{}\\{}", &text[..position], &text[position..])
+}
+
 /// HTML tag names that start an HTML block, even in the middle of a paragraph.
 const HTML_BLOCK_TAGS: &[&str] = &[
     "address",
-- 
2.43.0


From 2cebb49d7fafce0defaf481cc65c14499bc3018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 24/62] fix: keep all blocks inside their quotes, list items
 and definitions, and fences readable

---
 src/serializer/block.rs    | 106 +++++++++++++++++++++++---------
 src/serializer/code.rs     |  65 +++++++++++---------
 src/serializer/document.rs |  26 +++++---
 src/serializer/list.rs     | 121 +++++++++++++++++--------------------
 src/serializer/table.rs    |  12 +---
 5 files changed, 189 insertions(+), 141 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index fce45b0..518ef69 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -1,6 +1,6 @@
 //! Block quote and alert serialization logic.
 
-use comrak::nodes::{AlertType, AstNode};
+use comrak::nodes::{AlertType, AstNode, NodeValue};
 
 use super::Serializer;
 
@@ -13,8 +13,8 @@ struct BlockquoteState {
     old_list_item_indent: String,
     old_list_type: Option<comrak::nodes::ListType>,
     old_list_depth: usize,
-    /// The list item indent before entering blockquote context (for separator lines).
-    indent: String,
+    was_in_description_details: bool,
+    was_on_colon_line: bool,
 }
 
 impl<'a> Serializer<'a> {
@@ -24,21 +24,23 @@ impl<'a> Serializer<'a> {
         self.in_block_quote = true;
 
         let old_blockquote_prefix = self.blockquote_prefix.clone();
+        let old_blockquote_outer_indent = self.blockquote_outer_indent.clone();
+        if was_in_block_quote {
+            // Inside another block quote, the list item indent goes between the markers
+            self.blockquote_prefix.push_str(&self.list_item_indent);
+        } else {
+            self.blockquote_outer_indent = self.list_item_indent.clone();
+        }
         self.blockquote_prefix.push_str("> ");
 
-        let old_blockquote_outer_indent = std::mem::replace(
-            &mut self.blockquote_outer_indent,
-            self.list_item_indent.clone(),
-        );
-
         let old_blockquote_entry_list_depth =
-            std::mem::replace(&mut self.blockquote_entry_list_depth, self.list_depth);
-
-        let indent = self.list_item_indent.clone();
+            std::mem::replace(&mut self.blockquote_entry_list_depth, 0);
 
         let old_list_item_indent = std::mem::take(&mut self.list_item_indent);
         let old_list_type = self.list_type.take();
         let old_list_depth = std::mem::replace(&mut self.list_depth, 0);
+        let was_in_description_details = std::mem::take(&mut self.in_description_details);
+        let was_on_colon_line = std::mem::take(&mut self.description_details_first_list);
 
         BlockquoteState {
             was_in_block_quote,
@@ -48,12 +50,33 @@ impl<'a> Serializer<'a> {
             old_list_item_indent,
             old_list_type,
             old_list_depth,
-            indent,
+            was_in_description_details,
+            was_on_colon_line,
+        }
+    }
+
+    /// Write the prefix of a line in the current block quotes, if any.
+    pub(super) fn push_block_quote_prefix(&mut self) {
+        if self.in_block_quote {
+            self.output.push_str(&self.blockquote_outer_indent);
+            self.output.push_str(&self.blockquote_prefix);
+        }
+    }
+
+    /// Write an empty line inside the current block quotes, if any.
+    pub(super) fn push_blank_block_quote_line(&mut self) {
+        if self.in_block_quote {
+            self.push_block_quote_prefix();
+            self.output
+                .truncate(self.output.trim_end_matches(' ').len());
         }
+        self.output.push('\n');
     }
 
     /// Exit blockquote context: restore the saved state.
     fn exit_blockquote_context(&mut self, state: BlockquoteState) {
+        self.description_details_first_list = state.was_on_colon_line;
+        self.in_description_details = state.was_in_description_details;
         self.list_depth = state.old_list_depth;
         self.list_type = state.old_list_type;
         self.list_item_indent = state.old_list_item_indent;
@@ -64,25 +87,51 @@ impl<'a> Serializer<'a> {
     }
 
     /// Serialize children within blockquote context, adding blank quote lines between them.
-    fn serialize_blockquote_children<'b>(
-        &mut self,
-        children: &[&'b AstNode<'b>],
-        state: &BlockquoteState,
-    ) {
+    fn serialize_blockquote_children<'b>(&mut self, children: &[&'b AstNode<'b>]) {
         for (i, child) in children.iter().enumerate() {
             if i > 0 {
-                self.output.push_str(&state.indent);
-                self.output.push_str(&state.old_blockquote_prefix);
-                self.output.push_str(">\n");
+                self.push_blank_block_quote_line();
+            }
+            match &child.data.borrow().value {
+                NodeValue::Heading(_) | NodeValue::HtmlBlock(_) => {
+                    self.push_block_quote_prefix();
+                    self.serialize_indented(child, "");
+                }
+                _ => self.serialize_node(child),
+            }
+        }
+    }
+
+    /// Serialize a block on its own and write its lines, each but the first with the prefix of
+    /// the current block quotes and the indent.
+    pub(super) fn serialize_indented<'b>(&mut self, node: &'b AstNode<'b>, indent: &str) {
+        let output = std::mem::take(&mut self.output);
+        let state = self.enter_blockquote_context();
+        self.in_block_quote = false;
+        self.blockquote_prefix.clear();
+        self.blockquote_outer_indent.clear();
+        self.serialize_node(node);
+        self.exit_blockquote_context(state);
+
+        let block = std::mem::replace(&mut self.output, output);
+        for (i, line) in block.lines().enumerate() {
+            if i > 0 && line.is_empty() {
+                self.push_blank_block_quote_line();
+                continue;
+            }
+            if i > 0 {
+                self.push_block_quote_prefix();
+                self.output.push_str(indent);
             }
-            self.serialize_node(child);
+            self.output.push_str(line);
+            self.output.push('\n');
         }
     }
 
     pub(super) fn serialize_block_quote<'b>(&mut self, node: &'b AstNode<'b>) {
         let state = self.enter_blockquote_context();
         let children: Vec<_> = node.children().collect();
-        self.serialize_blockquote_children(&children, &state);
+        self.serialize_blockquote_children(&children);
         self.exit_blockquote_context(state);
     }
 
@@ -95,9 +144,9 @@ impl<'a> Serializer<'a> {
             AlertType::Warning => "WARNING",
             AlertType::Caution => "CAUTION",
         };
-        self.output.push_str(&self.list_item_indent);
-        self.output.push_str(&self.blockquote_prefix);
-        self.output.push_str("> [!");
+        let state = self.enter_blockquote_context();
+        self.push_block_quote_prefix();
+        self.output.push_str("[!");
         self.output.push_str(type_str);
         self.output.push_str("]\n");
 
@@ -112,13 +161,10 @@ impl<'a> Serializer<'a> {
         };
 
         if has_blank_after_header {
-            self.output.push_str(&self.list_item_indent);
-            self.output.push_str(&self.blockquote_prefix);
-            self.output.push_str(">\n");
+            self.push_blank_block_quote_line();
         }
 
-        let state = self.enter_blockquote_context();
-        self.serialize_blockquote_children(&children, &state);
+        self.serialize_blockquote_children(&children);
         self.exit_blockquote_context(state);
     }
 }
diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index 093228b..16a251f 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -75,9 +75,18 @@ impl<'a> Serializer<'a> {
         None
     }
 
+    /// The fence character for a code block with the given info string: the info string of a
+    /// backtick fence cannot contain backticks.
+    fn fence_char_for(&self, info: &str) -> char {
+        if info.contains('`') {
+            '~'
+        } else {
+            self.options.fence_char.as_char()
+        }
+    }
+
     /// Serialize a code block with indent for description list details.
     pub(super) fn serialize_code_block_with_indent(&mut self, code: &NodeCodeBlock, indent: &str) {
-        let fence_char = self.options.fence_char.as_char();
         let min_fence_length = self.options.min_fence_length.get();
 
         // Parse info to get language and check for no-format flag
@@ -105,6 +114,8 @@ impl<'a> Serializer<'a> {
         };
         let literal = formatted_literal.as_deref().unwrap_or(&code.literal);
 
+        let fence_char = self.fence_char_for(output_info);
+
         // Find the longest sequence of fence characters in the content
         let max_fence_in_content = literal
             .lines()
@@ -124,15 +135,17 @@ impl<'a> Serializer<'a> {
         let fence: String = std::iter::repeat_n(fence_char, fence_length).collect();
         self.output.push_str(&fence);
         if !output_info.is_empty() {
-            if self.options.space_after_fence {
+            if self.options.space_after_fence || output_info.starts_with(fence_char) {
                 self.output.push(' ');
             }
             self.output.push_str(output_info);
         }
         self.output.push('\n');
-        // Add indent to each line of code (skip indent for empty lines)
+        // Add indent to each line of code (without trailing spaces for empty lines)
         for line in literal.lines() {
-            if !line.is_empty() {
+            if line.is_empty() {
+                self.output.push_str(indent.trim_end());
+            } else {
                 self.output.push_str(indent);
                 self.output.push_str(line);
             }
@@ -146,7 +159,6 @@ impl<'a> Serializer<'a> {
     pub(super) fn serialize_code_block(&mut self, info: &str, literal: &str) {
         // Determine the minimum fence length from options
         let min_fence_length = self.options.min_fence_length.get();
-        let fence_char = self.options.fence_char.as_char();
 
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(info);
@@ -173,6 +185,8 @@ impl<'a> Serializer<'a> {
         };
         let content = formatted_literal.as_deref().unwrap_or(literal);
 
+        let fence_char = self.fence_char_for(output_info);
+
         // Find the longest sequence of fence characters in the content
         let max_fence_in_content = content
             .lines()
@@ -192,12 +206,10 @@ impl<'a> Serializer<'a> {
         let fence: String = std::iter::repeat_n(fence_char, fence_length).collect();
 
         // Opening fence
-        if self.in_block_quote {
-            self.output.push_str("> ");
-        }
+        self.push_block_quote_prefix();
         self.output.push_str(&fence);
         if !output_info.is_empty() {
-            if self.options.space_after_fence {
+            if self.options.space_after_fence || output_info.starts_with(fence_char) {
                 self.output.push(' ');
             }
             self.output.push_str(output_info);
@@ -206,21 +218,17 @@ impl<'a> Serializer<'a> {
 
         // Content lines
         for line in content.lines() {
-            if self.in_block_quote {
-                if line.is_empty() {
-                    self.output.push('>');
-                } else {
-                    self.output.push_str("> ");
-                }
+            if line.is_empty() {
+                self.push_blank_block_quote_line();
+                continue;
             }
+            self.push_block_quote_prefix();
             self.output.push_str(line);
             self.output.push('\n');
         }
 
         // Closing fence
-        if self.in_block_quote {
-            self.output.push_str("> ");
-        }
+        self.push_block_quote_prefix();
         self.output.push_str(&fence);
         self.output.push('\n');
     }
@@ -235,7 +243,6 @@ impl<'a> Serializer<'a> {
     ) {
         // Determine the minimum fence length from options
         let min_fence_length = self.options.min_fence_length.get();
-        let fence_char = self.options.fence_char.as_char();
 
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(info);
@@ -262,6 +269,8 @@ impl<'a> Serializer<'a> {
         };
         let content = formatted_literal.as_deref().unwrap_or(literal);
 
+        let fence_char = self.fence_char_for(output_info);
+
         // Find the longest sequence of fence characters in the content
         let max_fence_in_content = content
             .lines()
@@ -283,7 +292,7 @@ impl<'a> Serializer<'a> {
         // Output opening fence with optional language
         self.output.push_str(&fence);
         if !output_info.is_empty() {
-            if self.options.space_after_fence {
+            if self.options.space_after_fence || output_info.starts_with(fence_char) {
                 self.output.push(' ');
             }
             self.output.push_str(output_info);
@@ -292,20 +301,18 @@ impl<'a> Serializer<'a> {
 
         // Output content with indentation (skip indent for empty lines)
         for line in content.lines() {
-            if self.in_block_quote {
-                self.output.push_str("> ");
-            }
-            if !line.is_empty() {
-                self.output.push_str(indent);
-                self.output.push_str(line);
+            if line.is_empty() {
+                self.push_blank_block_quote_line();
+                continue;
             }
+            self.push_block_quote_prefix();
+            self.output.push_str(indent);
+            self.output.push_str(line);
             self.output.push('\n');
         }
 
         // Output closing fence with indentation
-        if self.in_block_quote {
-            self.output.push_str("> ");
-        }
+        self.push_block_quote_prefix();
         self.output.push_str(indent);
         self.output.push_str(&fence);
         self.output.push('\n');
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index a0fea61..ae15f05 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -359,16 +359,26 @@ impl<'a> Serializer<'a> {
                         self.serialize_node(child);
                         self.list_item_indent = old_list_item_indent;
                     }
+                    NodeValue::ThematicBreak => {
+                        self.output.push_str(&blockquote_prefix);
+                        self.output.push_str(":\n");
+                        self.output.push_str(&blockquote_prefix);
+                        self.output.push_str("    ");
+                        self.serialize_indented(child, "    ");
+                    }
                     _ => {
                         // Other block types: serialize normally with indent
                         self.output.push_str(&blockquote_prefix);
                         self.output.push_str(":   ");
-                        self.serialize_node(child);
+                        self.serialize_indented(child, "    ");
                     }
                 }
             } else {
                 // Subsequent children: need blank line and 4-space indent
-                self.output.push('\n');
+                if !self.output.ends_with('\n') {
+                    self.output.push('\n');
+                }
+                self.push_blank_block_quote_line();
                 match child_value {
                     NodeValue::Paragraph => {
                         self.output.push_str(&blockquote_prefix);
@@ -409,7 +419,7 @@ impl<'a> Serializer<'a> {
                         // Other block types
                         self.output.push_str(&blockquote_prefix);
                         self.output.push_str("    ");
-                        self.serialize_node(child);
+                        self.serialize_indented(child, "    ");
                     }
                 }
             }
@@ -463,6 +473,9 @@ impl<'a> Serializer<'a> {
         if let Some(source) = self.extract_source(node) {
             let trimmed = source.trim();
             if trimmed.starts_with("*[") && trimmed.contains("]:") {
+                if self.list_type.is_none() {
+                    self.push_block_quote_prefix();
+                }
                 self.output.push_str(trimmed);
                 self.output.push('\n');
                 return;
@@ -874,11 +887,8 @@ impl<'a> Serializer<'a> {
         let style = self.options.thematic_break_style.as_str();
         let leading_spaces = self.options.thematic_break_leading_spaces.get();
 
-        // Determine the prefix based on blockquote context
-        if self.in_block_quote {
-            let prefix = format!("{}> ", self.blockquote_outer_indent);
-            self.output.push_str(&prefix);
-        }
+        // Add the prefix of the block quotes
+        self.push_block_quote_prefix();
 
         // Add leading spaces
         for _ in 0..leading_spaces {
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 83f453d..7159455 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -59,6 +59,18 @@ impl<'a> Serializer<'a> {
         self.ordered_list_max_items = old_max_items;
     }
 
+    /// Serialize the first block of a list item on the line of its marker: a marker on a line of
+    /// its own does not start a list in the middle of a paragraph.
+    fn serialize_on_marker_line<'b>(&mut self, node: &'b AstNode<'b>) {
+        let output = std::mem::take(&mut self.output);
+        self.push_block_quote_prefix();
+        let prefix = std::mem::take(&mut self.output);
+        self.serialize_node(node);
+        let block = std::mem::replace(&mut self.output, output);
+        let block = block.strip_prefix(&prefix).unwrap_or(&block);
+        self.output.push_str(block.trim_start_matches(' '));
+    }
+
     /// Serialize a list item, optionally with a task list checkbox.
     ///
     /// # Arguments
@@ -75,12 +87,7 @@ impl<'a> Serializer<'a> {
 
         // For loose lists, add a blank line before items (except the first)
         if !self.list_tight && self.list_item_index > 1 {
-            self.output.push('\n');
-        }
-
-        // Add block quote prefix if we're inside a block quote
-        if self.in_block_quote {
-            self.output.push_str("> ");
+            self.push_blank_block_quote_line();
         }
 
         // Check if this is the first item of a list that starts on the same line as `:` in
@@ -98,6 +105,11 @@ impl<'a> Serializer<'a> {
             ""
         };
 
+        // Add block quote prefix if we're inside a block quote
+        if !is_first_item_on_colon_line {
+            self.push_block_quote_prefix();
+        }
+
         // Calculate indentation for nested lists
         // Level 1: " -  " (leading space + hyphen + trailing spaces)
         // Level 2+: indent_width spaces per nesting level, then " -  " prefix
@@ -213,57 +225,42 @@ impl<'a> Serializer<'a> {
 
         for (i, child) in children.iter().enumerate() {
             let is_first = i == 0;
+            let is_list = matches!(&child.data.borrow().value, NodeValue::List(_));
+            if !is_first {
+                // End the line of the previous child (code blocks, nested lists, and other blocks
+                // already end theirs)
+                if !self.output.ends_with('\n') {
+                    self.output.push('\n');
+                }
+                // Separate the children with a blank line. A nested list only gets one if there
+                // is a blank line before it in the original
+                let prev_end_line = children[i - 1].data.borrow().sourcepos.end.line;
+                let curr_start_line = child.data.borrow().sourcepos.start.line;
+                if !is_list || curr_start_line > prev_end_line + 1 {
+                    self.push_blank_block_quote_line();
+                }
+            }
             match &child.data.borrow().value {
                 NodeValue::List(_) => {
-                    // Check if there's a blank line before this nested list in the original
-                    let has_blank_line_before = if i > 0 {
-                        let prev_child = children[i - 1];
-                        let prev_end_line = prev_child.data.borrow().sourcepos.end.line;
-                        let curr_start_line = child.data.borrow().sourcepos.start.line;
-                        // More than one line difference means there's a blank line
-                        curr_start_line > prev_end_line + 1
-                    } else {
-                        false
-                    };
-
-                    if has_blank_line_before {
-                        // Blank line to separate from preceding paragraph
-                        self.output.push_str("\n\n");
+                    // The nested list writes the indentation of its items itself
+                    if is_first {
+                        self.serialize_on_marker_line(child);
                     } else {
-                        self.output.push('\n');
+                        self.serialize_node(child);
                     }
-                    self.serialize_node(child);
                 }
                 NodeValue::Paragraph => {
-                    // For paragraphs after the first, add blank line with proper indentation
                     if !is_first {
-                        // Check if previous child ends with a newline (code blocks, nested lists)
-                        let prev_ends_with_newline = i > 0
-                            && matches!(
-                                &children[i - 1].data.borrow().value,
-                                NodeValue::CodeBlock(_) | NodeValue::List(_)
-                            );
-                        if prev_ends_with_newline {
-                            // Previous element already ends with \n, so just add one more \n
-                            self.output.push('\n');
-                        } else {
-                            // First \n ends the previous paragraph, second \n creates blank line
-                            self.output.push_str("\n\n");
-                        }
-                        if self.in_block_quote {
-                            self.output.push_str("> ");
-                        }
+                        self.push_block_quote_prefix();
                         self.output.push_str(&base_indent);
                     }
                     self.serialize_node(child);
                 }
                 NodeValue::CodeBlock(code_block) => {
-                    // Code blocks in list items need blank line and indentation
-                    self.output.push_str("\n\n");
-                    if self.in_block_quote {
-                        self.output.push_str("> ");
+                    if !is_first {
+                        self.push_block_quote_prefix();
+                        self.output.push_str(&base_indent);
                     }
-                    self.output.push_str(&base_indent);
                     self.serialize_code_block_indented(
                         &code_block.info,
                         &code_block.literal,
@@ -271,20 +268,25 @@ impl<'a> Serializer<'a> {
                     );
                 }
                 NodeValue::BlockQuote | NodeValue::Alert(_) => {
-                    // Block quotes and alerts in list items need blank line
                     // The indentation is handled by the blockquote/alert serialization itself
-                    if !is_first {
-                        self.output.push_str("\n\n");
+                    if is_first {
+                        self.serialize_on_marker_line(child);
                     } else {
+                        self.serialize_node(child);
+                    }
+                }
+                child_value => {
+                    // A thematic break on the line of the marker could be read as part of it
+                    if is_first && matches!(child_value, NodeValue::ThematicBreak) {
                         self.output.push('\n');
+                        self.push_block_quote_prefix();
+                        self.output.push_str(&base_indent);
                     }
-                    if self.in_block_quote {
-                        self.output.push_str("> ");
+                    if !is_first {
+                        self.push_block_quote_prefix();
+                        self.output.push_str(&base_indent);
                     }
-                    self.serialize_node(child);
-                }
-                _ => {
-                    self.serialize_node(child);
+                    self.serialize_indented(child, &base_indent);
                 }
             }
         }
@@ -293,18 +295,7 @@ impl<'a> Serializer<'a> {
         self.list_item_indent = old_list_item_indent;
 
         // Only add newline if the last child doesn't already end with one
-        // (nested lists, code blocks, and blockquotes add their own newlines)
-        let last_child = node.children().last();
-        let last_child_ends_with_newline = last_child.is_some_and(|child| {
-            matches!(
-                &child.data.borrow().value,
-                NodeValue::List(_)
-                    | NodeValue::CodeBlock(_)
-                    | NodeValue::BlockQuote
-                    | NodeValue::Alert(_)
-            )
-        });
-        if !last_child_ends_with_newline {
+        if !self.output.ends_with('\n') {
             self.output.push('\n');
         }
     }
diff --git a/src/serializer/table.rs b/src/serializer/table.rs
index e2e57f5..923450c 100644
--- a/src/serializer/table.rs
+++ b/src/serializer/table.rs
@@ -52,9 +52,7 @@ impl<'a> Serializer<'a> {
 
         // Output header row
         if let Some(header_cells) = all_cells.first() {
-            if self.in_block_quote {
-                self.output.push_str("> ");
-            }
+            self.push_block_quote_prefix();
             self.output.push('|');
             for (i, cell) in header_cells.iter().enumerate() {
                 self.output.push(' ');
@@ -68,9 +66,7 @@ impl<'a> Serializer<'a> {
         }
 
         // Output separator row with alignment
-        if self.in_block_quote {
-            self.output.push_str("> ");
-        }
+        self.push_block_quote_prefix();
         self.output.push('|');
         for (i, alignment) in alignments.iter().enumerate() {
             self.output.push(' ');
@@ -99,9 +95,7 @@ impl<'a> Serializer<'a> {
 
         // Output data rows (skip header)
         for row_cells in all_cells.iter().skip(1) {
-            if self.in_block_quote {
-                self.output.push_str("> ");
-            }
+            self.push_block_quote_prefix();
             self.output.push('|');
             for (i, cell) in row_cells.iter().enumerate() {
                 self.output.push(' ');
-- 
2.43.0


From 698aa7192a1444358154a9c5a112cf18af84930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 25/62] fix: indent footnote blocks by the four columns
 footnote content has

---
 src/serializer/mod.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 8a9951f..0b3cee4 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -447,8 +447,10 @@ impl<'a> Serializer<'a> {
         // Continuation indent matches prefix length for alignment
         let continuation_indent = " ".repeat(prefix.len());
 
-        // If footnote has block elements, output pre-serialized content with indentation
+        // If footnote has block elements, output pre-serialized content with the indentation of
+        // footnote content
         if footnote.has_blocks {
+            let continuation_indent = "    ";
             let lines: Vec<&str> = footnote.content.lines().collect();
             for (i, line) in lines.iter().enumerate() {
                 if i == 0 {
@@ -459,7 +461,7 @@ impl<'a> Serializer<'a> {
                     self.output.push_str("");
                 } else {
                     // Add continuation indent
-                    self.output.push_str(&continuation_indent);
+                    self.output.push_str(continuation_indent);
                     self.output.push_str(line);
                 }
                 self.output.push('\n');
@@ -558,16 +560,7 @@ impl<'a> Serializer<'a> {
                 for (i, child) in children.iter().enumerate() {
                     if i > 0 {
                         // Add blank line between description items
-                        // If inside a blockquote, we need to add the > prefix on the blank line
-                        // to keep items within the same blockquote
-                        if self.in_block_quote {
-                            self.output.push_str(&self.list_item_indent);
-                            // Use blockquote_prefix without trailing space for blank lines
-                            self.output.push_str(self.blockquote_prefix.trim_end());
-                            self.output.push('\n');
-                        } else {
-                            self.output.push('\n');
-                        }
+                        self.push_blank_block_quote_line();
                     }
                     self.serialize_node(child);
                 }
-- 
2.43.0


From 7950d33abd4a9e2ef9ccfc681f573259cbf5ebe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 26/62] fix: write headings ATX when they cannot be setext, and
 keep empty quotes and leading breaks

---
 src/serializer/block.rs    |  3 +++
 src/serializer/document.rs | 25 +++++++++++++++++++++----
 src/serializer/list.rs     |  2 ++
 src/serializer/wrap.rs     | 12 ++++++++++++
 4 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index 518ef69..462234d 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -88,6 +88,9 @@ impl<'a> Serializer<'a> {
 
     /// Serialize children within blockquote context, adding blank quote lines between them.
     fn serialize_blockquote_children<'b>(&mut self, children: &[&'b AstNode<'b>]) {
+        if children.is_empty() {
+            self.push_blank_block_quote_line();
+        }
         for (i, child) in children.iter().enumerate() {
             if i > 0 {
                 self.push_blank_block_quote_line();
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index ae15f05..4540cb2 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -446,13 +446,20 @@ impl<'a> Serializer<'a> {
                 super::heading::to_sentence_case(&heading_text, &proper_nouns, &common_nouns);
         }
 
-        if level == 1 && self.options.setext_h1 {
+        // The text of a setext heading must read as a paragraph
+        let can_be_setext = !heading_text.is_empty()
+            && !heading_text
+                .split_whitespace()
+                .next()
+                .is_some_and(wrap::starts_block_at_paragraph_start);
+
+        if level == 1 && self.options.setext_h1 && can_be_setext {
             // Setext-style with '='
             self.output.push_str(&heading_text);
             self.output.push('\n');
             self.output.push_str(&"=".repeat(heading_text.width()));
             self.output.push('\n');
-        } else if level == 2 && self.options.setext_h2 {
+        } else if level == 2 && self.options.setext_h2 && can_be_setext {
             // Setext-style with '-'
             self.output.push_str(&heading_text);
             self.output.push('\n');
@@ -461,8 +468,18 @@ impl<'a> Serializer<'a> {
         } else {
             // ATX-style for level 3+ or when setext is disabled
             self.output.push_str(&"#".repeat(level as usize));
-            self.output.push(' ');
-            self.output.push_str(&heading_text);
+            if !heading_text.is_empty() {
+                self.output.push(' ');
+                // A run of `#` at the end would be read as the closing sequence
+                let text = heading_text.trim_end_matches('#');
+                if text.len() < heading_text.len() && (text.is_empty() || text.ends_with(' ')) {
+                    self.output.push_str(text);
+                    self.output.push('\\');
+                    self.output.push_str(&heading_text[text.len()..]);
+                } else {
+                    self.output.push_str(&heading_text);
+                }
+            }
             self.output.push('\n');
         }
     }
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 7159455..137febc 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -281,6 +281,8 @@ impl<'a> Serializer<'a> {
                         self.output.push('\n');
                         self.push_block_quote_prefix();
                         self.output.push_str(&base_indent);
+                        self.output.push_str(self.options.thematic_break_style.as_str());
+                        continue;
                     }
                     if !is_first {
                         self.push_block_quote_prefix();
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 2d7f643..f0a0f71 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -561,6 +561,18 @@ pub(super) fn starts_block(word: &str) -> bool {
     }
 }
 
+/// Check if a word at the start of a paragraph would start another block. There, a list can start
+/// with any number.
+pub(super) fn starts_block_at_paragraph_start(word: &str) -> bool {
+    starts_block(word)
+        || word
+            .strip_suffix('.')
+            .or(word.strip_suffix(')'))
+            .is_some_and(|number| {
+                !number.is_empty() && number.chars().all(|c| c.is_ascii_digit())
+            })
+}
+
 // Verification hook: gives the checks in the verification harness access to private items.
 #[cfg(hongdown_verif)]
 pub mod verif {
-- 
2.43.0


From 4d99c105a5134d99f90bca7d215244369b1be822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 27/62] fix: keep trailing HTML blocks apart, and breaks and
 empty lists on the line of a marker

---
 src/serializer/document.rs |  7 +++++++
 src/serializer/inline.rs   | 19 +++++++++++++++++--
 src/serializer/list.rs     | 31 +++++++++++++++++++++----------
 3 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 4540cb2..3fdee8f 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -286,6 +286,13 @@ impl<'a> Serializer<'a> {
                         }
                     }
                     is_first = false;
+                } else {
+                    // Keep HTML blocks apart that are separated by blank lines
+                    let prev_end_line = children[i - 1].data.borrow().sourcepos.end.line;
+                    let start_line = child.data.borrow().sourcepos.start.line;
+                    if start_line > prev_end_line + 1 {
+                        self.output.push('\n');
+                    }
                 }
                 self.output.push_str(&html_block.literal);
             }
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 0b1c127..6e71a47 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -61,7 +61,10 @@ impl<'a> Serializer<'a> {
                 // Also, multiline code spans in source need to be normalized (CommonMark
                 // converts newlines in code spans to spaces).
                 if let Some(source) = self.extract_source(node) {
-                    if escape::is_valid_code_span(&source) && !source.contains('\n') {
+                    if escape::is_valid_code_span(&source)
+                        && !source.contains('\n')
+                        && is_source_of_code(&source, &code.literal)
+                    {
                         text.push_str(&source);
                     } else {
                         text.push_str(&escape::format_code_span(&code.literal));
@@ -200,7 +203,10 @@ impl<'a> Serializer<'a> {
                 // Also, multiline code spans in source need to be normalized (CommonMark
                 // converts newlines in code spans to spaces).
                 if let Some(source) = self.extract_source(node) {
-                    if escape::is_valid_code_span(&source) && !source.contains('\n') {
+                    if escape::is_valid_code_span(&source)
+                        && !source.contains('\n')
+                        && is_source_of_code(&source, &code.literal)
+                    {
                         content.push_str(&source);
                     } else {
                         content.push_str(&escape::format_code_span(&code.literal));
@@ -546,6 +552,15 @@ impl<'a> Serializer<'a> {
     }
 }
 
+/// Check if a code span in the source has the given content. (Incorrect source positions can lead
+/// to another code span.)
+fn is_source_of_code(source: &str, literal: &str) -> bool {
+    let content = source.trim_matches('`').replace("\\|", "|");
+    let literal = literal.replace("\\|", "|");
+    let padded = content.strip_prefix(' ').and_then(|c| c.strip_suffix(' '));
+    content == literal || padded == Some(literal.as_str())
+}
+
 // Verification hook: gives the checks in the verification harness access to private items.
 #[cfg(hongdown_verif)]
 pub mod verif {
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 137febc..a68fe94 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -67,8 +67,17 @@ impl<'a> Serializer<'a> {
         let prefix = std::mem::take(&mut self.output);
         self.serialize_node(node);
         let block = std::mem::replace(&mut self.output, output);
-        let block = block.strip_prefix(&prefix).unwrap_or(&block);
-        self.output.push_str(block.trim_start_matches(' '));
+        let text = block.strip_prefix(&prefix).unwrap_or(&block);
+        let text = text.trim_start_matches(' ');
+
+        // With nothing but bullets on it, the line could be read as a thematic break
+        let line = text.lines().next().unwrap_or("");
+        if line.chars().all(|c| matches!(c, '-' | '*' | ' ')) {
+            self.output.push('\n');
+            self.output.push_str(&block);
+        } else {
+            self.output.push_str(text);
+        }
     }
 
     /// Serialize a list item, optionally with a task list checkbox.
@@ -276,18 +285,20 @@ impl<'a> Serializer<'a> {
                     }
                 }
                 child_value => {
-                    // A thematic break on the line of the marker could be read as part of it
-                    if is_first && matches!(child_value, NodeValue::ThematicBreak) {
-                        self.output.push('\n');
-                        self.push_block_quote_prefix();
-                        self.output.push_str(&base_indent);
-                        self.output.push_str(self.options.thematic_break_style.as_str());
-                        continue;
-                    }
                     if !is_first {
                         self.push_block_quote_prefix();
                         self.output.push_str(&base_indent);
                     }
+                    if matches!(child_value, NodeValue::ThematicBreak) {
+                        let style = self.options.thematic_break_style.as_str().trim_start();
+                        if is_first && !style.starts_with('_') {
+                            // The line would be read as a thematic break including the marker
+                            self.output.push_str("___");
+                        } else {
+                            self.output.push_str(style);
+                        }
+                        continue;
+                    }
                     self.serialize_indented(child, &base_indent);
                 }
             }
-- 
2.43.0


From 923c44510180c93376c5198eb94d0d73670e7299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:59 +0000
Subject: [PATCH 28/62] fix: keep source lines that would start a block with
 the line before, however lines are wrapped

---
 src/serializer/list.rs |  6 +++--
 src/serializer/wrap.rs | 55 ++++++++++++++++++++++++------------------
 2 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index a68fe94..30b746a 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -70,9 +70,11 @@ impl<'a> Serializer<'a> {
         let text = block.strip_prefix(&prefix).unwrap_or(&block);
         let text = text.trim_start_matches(' ');
 
-        // With nothing but bullets on it, the line could be read as a thematic break
+        // With three bullets on it, the line would be read as a thematic break
         let line = text.lines().next().unwrap_or("");
-        if line.chars().all(|c| matches!(c, '-' | '*' | ' ')) {
+        if line.chars().all(|c| matches!(c, '-' | '*' | ' '))
+            && line.split_whitespace().count() >= 2
+        {
             self.output.push('\n');
             self.output.push_str(&block);
         } else {
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index f0a0f71..e453d7c 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -41,15 +41,31 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
     result
 }
 
+/// Split text at the soft break markers, except before words that would start a new block at the
+/// start of a line.
+fn split_original_lines(text: &str) -> Vec<String> {
+    let mut lines: Vec<String> = Vec::new();
+    for line in text.split('\x00') {
+        match lines.last_mut() {
+            Some(last) if line.split_whitespace().next().is_some_and(starts_block) => {
+                last.push(' ');
+                last.push_str(line.trim_start());
+            }
+            _ => lines.push(line.to_string()),
+        }
+    }
+    lines
+}
+
 /// Wrap a single segment of text (between hard line breaks).
 fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
     // Split by soft break markers (original line breaks)
     // \x00 represents where the original document had line breaks
-    let original_lines: Vec<&str> = text.split('\x00').collect();
+    let original_lines = split_original_lines(text);
 
     if original_lines.len() == 1 {
         // No original line breaks, just wrap normally
-        return wrap_single_segment(text, prefix, prefix, line_width);
+        return wrap_single_segment(&original_lines[0], prefix, prefix, line_width);
     }
 
     // Process lines: keep short lines as-is until we hit a long line,
@@ -63,15 +79,10 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
 
         if line_with_prefix_len <= line_width {
             // Line fits within limit, keep it as-is
-            // (or at the end of the previous line, if it would start a new block)
-            if !result.is_empty() && line.split_whitespace().next().is_some_and(starts_block) {
-                result.push(' ');
-            } else {
-                if !result.is_empty() {
-                    result.push('\n');
-                }
-                result.push_str(prefix);
+            if !result.is_empty() {
+                result.push('\n');
             }
+            result.push_str(prefix);
             result.push_str(line);
             i += 1;
         } else {
@@ -156,11 +167,16 @@ fn wrap_text_first_line_segment(
     line_width: usize,
 ) -> String {
     // Split by soft break markers (original line breaks)
-    let original_lines: Vec<&str> = text.split('\x00').collect();
+    let original_lines = split_original_lines(text);
 
     if original_lines.len() == 1 {
         // No original line breaks, just wrap normally
-        return wrap_single_segment(text, first_prefix, continuation_prefix, line_width);
+        return wrap_single_segment(
+            &original_lines[0],
+            first_prefix,
+            continuation_prefix,
+            line_width,
+        );
     }
 
     // Process lines: keep short lines as-is until we hit a long line,
@@ -180,15 +196,10 @@ fn wrap_text_first_line_segment(
 
         if line_with_prefix_len <= line_width {
             // Line fits within limit, keep it as-is
-            // (or at the end of the previous line, if it would start a new block)
-            if !result.is_empty() && line.split_whitespace().next().is_some_and(starts_block) {
-                result.push(' ');
-            } else {
-                if !result.is_empty() {
-                    result.push('\n');
-                }
-                result.push_str(current_prefix);
+            if !result.is_empty() {
+                result.push('\n');
             }
+            result.push_str(current_prefix);
             result.push_str(line);
             is_first_line = false;
             i += 1;
@@ -568,9 +579,7 @@ pub(super) fn starts_block_at_paragraph_start(word: &str) -> bool {
         || word
             .strip_suffix('.')
             .or(word.strip_suffix(')'))
-            .is_some_and(|number| {
-                !number.is_empty() && number.chars().all(|c| c.is_ascii_digit())
-            })
+            .is_some_and(|number| !number.is_empty() && number.chars().all(|c| c.is_ascii_digit()))
 }
 
 // Verification hook: gives the checks in the verification harness access to private items.
-- 
2.43.0


From 315a8abf72b48283e3bcf01d8634858d15757637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 29/62] fix: output disabled blocks with their whole lines,
 blank lines and reference definitions

---
 src/serializer/document.rs | 50 +++++++++++++++++++++++++++++++++++---
 src/serializer/state.rs    | 13 ++++++++++
 2 files changed, 60 insertions(+), 3 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 3fdee8f..4420f06 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -158,7 +158,14 @@ impl<'a> Serializer<'a> {
             let is_h2 = heading_level == Some(2);
             let is_h2_or_h3 = matches!(heading_level, Some(2) | Some(3));
 
-            if is_h2_or_h3 && i > 0 {
+            // Check if this block belongs to a region that is output as-is
+            let is_in_skipped_region = match self.skip_mode {
+                FormatSkipMode::Disabled => true,
+                FormatSkipMode::UntilSection => !matches!(heading_level, Some(1) | Some(2)),
+                FormatSkipMode::NextBlock | FormatSkipMode::None => false,
+            };
+
+            if is_h2_or_h3 && i > 0 && !is_in_skipped_region {
                 // Get the source line of the heading to flush only earlier footnotes
                 let heading_line = child.data.borrow().sourcepos.start.line;
                 // Footnotes come before link reference definitions
@@ -173,7 +180,11 @@ impl<'a> Serializer<'a> {
                     &children[i - 1].data.borrow().value,
                     NodeValue::FrontMatter(_)
                 );
-                if prev_is_front_matter {
+                if is_in_skipped_region {
+                    // Keep the blank lines of the source
+                    let count = self.count_blank_lines_before(child);
+                    self.output.push_str(&"\n".repeat(count));
+                } else if prev_is_front_matter {
                     // No extra blank line needed after front matter
                 } else if is_h2 {
                     // Check if previous element was a heading (empty section)
@@ -211,9 +222,10 @@ impl<'a> Serializer<'a> {
                 }
 
                 // Output the original source
-                if let Some(source) = self.extract_source(child) {
+                if let Some(source) = self.extract_source_lines(child) {
                     self.output.push_str(&source);
                     self.output.push('\n');
+                    self.collect_references(child);
                 } else {
                     self.serialize_node(child);
                 }
@@ -232,6 +244,38 @@ impl<'a> Serializer<'a> {
         self.output_trailing_html_blocks(&children, trailing_html_start);
     }
 
+    /// Count the blank lines directly before a block in the source. There is one where a link
+    /// reference definition is taken out.
+    fn count_blank_lines_before<'b>(&self, node: &'b AstNode<'b>) -> usize {
+        let before = node.data.borrow().sourcepos.start.line.saturating_sub(1);
+        let lines = &self.source_lines[..before.min(self.source_lines.len())];
+        let count = lines
+            .iter()
+            .rev()
+            .take_while(|line| line.trim().is_empty())
+            .count();
+        let prev_end_line = node
+            .previous_sibling()
+            .map_or(0, |prev| prev.data.borrow().sourcepos.end.line);
+        if count == 0 && before > prev_end_line {
+            1
+        } else {
+            count
+        }
+    }
+
+    /// Collect the references of a block that is output as-is, so that their definitions are kept.
+    fn collect_references<'b>(&mut self, node: &'b AstNode<'b>) {
+        for descendant in node.descendants() {
+            if let NodeValue::Link(link) | NodeValue::Image(link) = &descendant.data.borrow().value
+                && let Some((_, label)) = self.get_reference_style_info(descendant)
+            {
+                let label = label.strip_prefix('\x01').unwrap_or(&label).to_string();
+                self.add_reference(label, link.url.clone(), link.title.clone());
+            }
+        }
+    }
+
     /// Find the index where trailing HTML blocks start.
     /// Returns `children.len()` if there are no trailing HTML blocks.
     fn find_trailing_html_blocks<'b>(&self, children: &[&'b AstNode<'b>]) -> usize {
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 5501325..3cd5154 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -418,6 +418,19 @@ impl<'a> Serializer<'a> {
         Some(result)
     }
 
+    /// Extract all original source lines of a top-level block.
+    pub fn extract_source_lines<'b>(&self, node: &'b AstNode<'b>) -> Option<String> {
+        let sourcepos = node.data.borrow().sourcepos;
+        let start_idx = sourcepos.start.line.checked_sub(1)?;
+        let lines = self.source_lines.get(start_idx..sourcepos.end.line)?;
+        let blank_count = lines
+            .iter()
+            .rev()
+            .take_while(|line| line.trim().is_empty())
+            .count();
+        Some(lines[..lines.len() - blank_count].join("\n"))
+    }
+
     /// Extract original source text from a given line to the end of the file.
     /// Line numbers are 1-indexed.
     pub fn extract_source_from_line(&self, start_line: usize) -> Option<String> {
-- 
2.43.0


From 653b3001b379a53b4cecf8673ae14eccff92413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 30/62] fix: keep a break apart from the list before it, and
 the disable-file directive from the text before it

---
 src/serializer/document.rs | 20 ++++++++++++++++++--
 src/serializer/inline.rs   |  4 +++-
 src/serializer/link.rs     | 15 ++++++++++++++-
 src/serializer/mod.rs      |  5 ++++-
 4 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 4420f06..bcec2bf 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -57,6 +57,14 @@ impl<'a> Serializer<'a> {
                         self.flush_footnote_references_before(Some(directive_line));
 
                         // Output the directive comment, then output remaining content as-is
+                        if i > 0
+                            && !matches!(
+                                &children[i - 1].data.borrow().value,
+                                NodeValue::FrontMatter(_)
+                            )
+                        {
+                            self.output.push('\n');
+                        }
                         self.output.push_str(html_block.literal.trim_end());
                         // Get the line after the directive block ends
                         let directive_end_line = child.data.borrow().sourcepos.end.line;
@@ -951,9 +959,17 @@ impl<'a> Serializer<'a> {
         false
     }
 
-    pub(super) fn serialize_thematic_break(&mut self) {
+    pub(super) fn serialize_thematic_break(&mut self, is_after_list: bool) {
         let style = self.options.thematic_break_style.as_str();
-        let leading_spaces = self.options.thematic_break_leading_spaces.get();
+        let mut leading_spaces = self.options.thematic_break_leading_spaces.get();
+
+        // A thematic break that is indented like the content of a list item belongs to the item
+        if is_after_list {
+            let bullet_width =
+                self.options.leading_spaces.get() + 1 + self.options.trailing_spaces.get();
+            let ordered_width = self.options.ordered_list_indent_width.get();
+            leading_spaces = leading_spaces.min(bullet_width.min(ordered_width).saturating_sub(1));
+        }
 
         // Add the prefix of the block quotes
         self.push_block_quote_prefix();
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 6e71a47..5e0820f 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -223,7 +223,9 @@ impl<'a> Serializer<'a> {
 
                 // Check if this is an autolink (link text equals URL)
                 let raw_text = self.collect_raw_text(node);
-                let is_autolink = link.title.is_empty() && raw_text == link.url;
+                let is_autolink = link.title.is_empty()
+                    && raw_text == link.url
+                    && Self::can_be_autolink(&link.url);
 
                 // Check if original was reference style
                 if let Some((text, label)) = self.get_reference_style_info(node) {
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 47ebe07..6e2a25b 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -229,6 +229,19 @@ impl<'a> Serializer<'a> {
         Self::push_link_target(output, url, title);
     }
 
+    /// Check if a URL is an absolute URI that can be written as an autolink (`<URL>`).
+    pub(super) fn can_be_autolink(url: &str) -> bool {
+        let Some((scheme, rest)) = url.split_once(':') else {
+            return false;
+        };
+        (2..=32).contains(&scheme.len())
+            && scheme.starts_with(|c: char| c.is_ascii_alphabetic())
+            && scheme
+                .chars()
+                .all(|c| c.is_ascii_alphanumeric() || matches!(c, '+' | '.' | '-'))
+            && !rest.contains(|c: char| c.is_ascii_control() || matches!(c, ' ' | '<' | '>'))
+    }
+
     pub(super) fn serialize_link<'b>(&mut self, node: &'b AstNode<'b>, url: &str, title: &str) {
         // Check if link contains an image (badge-style link)
         let contains_image = node
@@ -237,7 +250,7 @@ impl<'a> Serializer<'a> {
 
         // Check if this is an autolink (link text equals URL)
         let raw_text = self.collect_raw_text(node);
-        let is_autolink = title.is_empty() && raw_text == url;
+        let is_autolink = title.is_empty() && raw_text == url && Self::can_be_autolink(url);
 
         // Check if original was reference style
         if let Some((text, label)) = self.get_reference_style_info(node) {
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 0b3cee4..789e39f 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -589,7 +589,10 @@ impl<'a> Serializer<'a> {
                 self.serialize_paragraph(node);
             }
             NodeValue::ThematicBreak => {
-                self.serialize_thematic_break();
+                let is_after_list = node.previous_sibling().is_some_and(|previous| {
+                    matches!(previous.data.borrow().value, NodeValue::List(_))
+                });
+                self.serialize_thematic_break(is_after_list);
             }
             NodeValue::Text(text) => {
                 self.output.push_str(&escape::escape_text(text));
-- 
2.43.0


From 7e456dca6cf61b56fb8ce090ee871f72b91463a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 31/62] fix: indent nested lists and content by the width of
 long numbers, and not too far

---
 src/serializer/list.rs | 47 +++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 30b746a..0b07671 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -22,8 +22,12 @@ impl<'a> Serializer<'a> {
             }
             Some(ListType::Ordered) => {
                 // Fixed width based on ordered_list_indent_width (default 4)
-                // e.g., "1.  " (4), "10. " (4), "100." (4, min 1 trailing space)
-                self.options.ordered_list_indent_width.get()
+                // e.g., "1.  " (4), "10. " (4), "100. " (5, min 1 trailing space)
+                let minimum_width = self.list_item_index.to_string().len() + 2;
+                self.options
+                    .ordered_list_indent_width
+                    .get()
+                    .max(minimum_width)
             }
             None => 0,
         }
@@ -129,12 +133,31 @@ impl<'a> Serializer<'a> {
             Some(ListType::Ordered) => self.options.ordered_list_indent_width.get(),
             _ => self.options.indent_width.get(),
         };
+        let mut nested_indent = indent_width * (self.list_depth - 1);
         if self.list_depth > 1 {
-            let indent = format!(
-                "{}{}",
-                desc_base_indent,
-                " ".repeat(indent_width * (self.list_depth - 1))
-            );
+            // A nested list starts at most three columns after the content of the outer item, and
+            // not before the content of a numbered item
+            let outer_indent = if self.in_description_details {
+                self.list_item_indent.len().saturating_sub(5)
+            } else {
+                self.list_item_indent.len()
+            };
+            let leading_width = match self.list_type {
+                Some(ListType::Ordered) => 0,
+                _ => self.options.leading_spaces.get(),
+            };
+            nested_indent = nested_indent.min(outer_indent + 3_usize.saturating_sub(leading_width));
+            let outer_list = node.ancestors().nth(3);
+            let is_in_numbered_item = outer_list.is_some_and(|outer| {
+                matches!(&outer.data.borrow().value, NodeValue::List(list)
+                    if list.list_type == ListType::Ordered)
+            });
+            if is_in_numbered_item {
+                nested_indent = nested_indent.max(outer_indent);
+            }
+        }
+        if self.list_depth > 1 {
+            let indent = format!("{}{}", desc_base_indent, " ".repeat(nested_indent));
             self.output.push_str(&indent);
         } else {
             self.output.push_str(desc_base_indent);
@@ -204,7 +227,7 @@ impl<'a> Serializer<'a> {
                 }
                 Some(ListType::Ordered) => {
                     // For ordered lists in description details, still use full width
-                    self.options.ordered_list_indent_width.get()
+                    marker_width
                 }
                 None => 0,
             }
@@ -215,16 +238,12 @@ impl<'a> Serializer<'a> {
             // Inside description details, add extra 5-space indent
             format!(
                 "{}{}",
-                " ".repeat(5 + indent_width * (self.list_depth - 1)),
+                " ".repeat(5 + nested_indent),
                 " ".repeat(marker_width_for_indent)
             )
         } else if self.list_depth > 1 {
             // Nested list: outer indent + marker width
-            format!(
-                "{}{}",
-                " ".repeat(indent_width * (self.list_depth - 1)),
-                " ".repeat(marker_width)
-            )
+            format!("{}{}", " ".repeat(nested_indent), " ".repeat(marker_width))
         } else {
             // Top-level list: just marker width
             " ".repeat(marker_width)
-- 
2.43.0


From 5c63f8d395b10a26638b6a4b8c516fc80ace321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 32/62] fix: never indent nested lists less than the content of
 their item when widths allow it

---
 src/serializer/list.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 0b07671..9b69d62 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -136,7 +136,7 @@ impl<'a> Serializer<'a> {
         let mut nested_indent = indent_width * (self.list_depth - 1);
         if self.list_depth > 1 {
             // A nested list starts at most three columns after the content of the outer item, and
-            // not before the content of a numbered item
+            // not before it (unless items are indented less than their markers are wide)
             let outer_indent = if self.in_description_details {
                 self.list_item_indent.len().saturating_sub(5)
             } else {
@@ -147,12 +147,7 @@ impl<'a> Serializer<'a> {
                 _ => self.options.leading_spaces.get(),
             };
             nested_indent = nested_indent.min(outer_indent + 3_usize.saturating_sub(leading_width));
-            let outer_list = node.ancestors().nth(3);
-            let is_in_numbered_item = outer_list.is_some_and(|outer| {
-                matches!(&outer.data.borrow().value, NodeValue::List(list)
-                    if list.list_type == ListType::Ordered)
-            });
-            if is_in_numbered_item {
+            if indent_width >= self.calculate_marker_width() {
                 nested_indent = nested_indent.max(outer_indent);
             }
         }
-- 
2.43.0


From d209f32da7953357ae323e5e4747233384c6f48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:27 +0000
Subject: [PATCH 33/62] fix: take the source of text after an escaped pipe in a
 table cell from the right place

---
 src/serializer/inline.rs |  3 ++-
 src/serializer/state.rs  | 26 +++++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 5e0820f..c9a5937 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -5,6 +5,7 @@ use comrak::nodes::{AstNode, NodeValue};
 use super::Serializer;
 use super::escape;
 use super::punctuation;
+use super::state::line_as_parsed;
 use crate::{DashSetting, Options};
 
 impl<'a> Serializer<'a> {
@@ -322,7 +323,7 @@ impl<'a> Serializer<'a> {
     fn extract_text_source<'b>(&self, node: &'b AstNode<'b>) -> Option<String> {
         let source = self.extract_source(node)?;
         let start = node.data.borrow().sourcepos.start;
-        let line = self.source_lines.get(start.line.checked_sub(1)?)?;
+        let line = line_as_parsed(node, self.source_lines.get(start.line.checked_sub(1)?)?);
         let before = line.get(..start.column.saturating_sub(1)).unwrap_or("");
         let backslashes = before.chars().rev().take_while(|&ch| ch == '\\').count();
         if backslashes % 2 == 1 {
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 3cd5154..91a46bd 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -1,5 +1,7 @@
 //! Serializer state and common types.
 
+use std::borrow::Cow;
+
 use indexmap::IndexMap;
 
 use comrak::nodes::{AstNode, ListType, NodeValue};
@@ -195,6 +197,27 @@ pub struct Warning {
     pub message: String,
 }
 
+/// The source line of an inline node, with the columns of the node's source position.
+///
+/// comrak removes the backslashes of the escaped pipes in a table cell before it parses the
+/// cell, so the columns of the nodes in the cell do not count those backslashes.
+pub fn line_as_parsed<'b, 's>(node: &'b AstNode<'b>, line: &'s str) -> Cow<'s, str> {
+    let cell = node
+        .ancestors()
+        .skip(1)
+        .find(|ancestor| matches!(ancestor.data.borrow().value, NodeValue::TableCell));
+    let Some(cell) = cell else {
+        return Cow::Borrowed(line);
+    };
+    let cell_start = cell.data.borrow().sourcepos.start.column.saturating_sub(1);
+    match (line.get(..cell_start), line.get(cell_start..)) {
+        (Some(before), Some(rest)) if rest.contains("\\|") => {
+            Cow::Owned(format!("{}{}", before, rest.replace("\\|", "|")))
+        }
+        _ => Cow::Borrowed(line),
+    }
+}
+
 /// Safely slice a string, ensuring the indices are valid UTF-8 boundaries.
 /// If the indices are not valid boundaries, adjusts to the nearest valid boundary.
 fn safe_str_slice(s: &str, start: usize, end: usize) -> &str {
@@ -399,9 +422,10 @@ impl<'a> Serializer<'a> {
             let line = self.source_lines[i];
             if start_idx == end_idx {
                 // Single line: extract from start_col to end_col
+                let line = line_as_parsed(node, line);
                 let start_byte = start_col.saturating_sub(1);
                 let end_byte = end_col;
-                result.push_str(safe_str_slice(line, start_byte, end_byte));
+                result.push_str(safe_str_slice(&line, start_byte, end_byte));
             } else if i == start_idx {
                 // First line: from start_col to end
                 let start_byte = start_col.saturating_sub(1);
-- 
2.43.0


From 91816a4f80392190cf028144344d290bbe9e3880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 34/62] fix: replace the longer dash pattern first

---
 src/serializer/punctuation.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/serializer/punctuation.rs b/src/serializer/punctuation.rs
index 263ce3b..ac4a759 100644
--- a/src/serializer/punctuation.rs
+++ b/src/serializer/punctuation.rs
@@ -81,14 +81,16 @@ pub fn transform_punctuation(text: &str, options: &Options) -> String {
 
     // Apply transformations in order (longer patterns first to avoid conflicts)
 
-    // 1. Em-dash (process longer pattern first if applicable)
-    if let DashSetting::Pattern(pattern) = &options.em_dash {
-        result = transform_dashes(&result, pattern.as_str(), EM_DASH);
-    }
-
-    // 2. En-dash
-    if let DashSetting::Pattern(pattern) = &options.en_dash {
-        result = transform_dashes(&result, pattern.as_str(), EN_DASH);
+    // 1. The dash with the longer pattern
+    // 2. The other dash
+    let em_dash = dash_pattern(&options.em_dash);
+    let en_dash = dash_pattern(&options.en_dash);
+    if en_dash.chars().count() > em_dash.chars().count() {
+        result = transform_dashes(&result, en_dash, EN_DASH);
+        result = transform_dashes(&result, em_dash, EM_DASH);
+    } else {
+        result = transform_dashes(&result, em_dash, EM_DASH);
+        result = transform_dashes(&result, en_dash, EN_DASH);
     }
 
     // 3. Ellipsis
@@ -114,6 +116,14 @@ pub fn transform_punctuation(text: &str, options: &Options) -> String {
     result
 }
 
+/// The pattern of a dash setting, or an empty string if the setting is disabled.
+fn dash_pattern(setting: &DashSetting) -> &str {
+    match setting {
+        DashSetting::Pattern(pattern) => pattern.as_str(),
+        DashSetting::Disabled => "",
+    }
+}
+
 /// Transform three consecutive dots to ellipsis character.
 fn transform_ellipsis(text: &str) -> String {
     // Replace ... with ellipsis, but handle .... (4 dots) as ellipsis + period
-- 
2.43.0


From a3ebf2a5402658465402624f8203a297c90408d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 35/62] fix: write headings that would read as HTML or
 definitions in ATX style

---
 src/serializer/document.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index bcec2bf..936ad7e 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -506,7 +506,14 @@ impl<'a> Serializer<'a> {
         }
 
         // The text of a setext heading must read as a paragraph
+        let is_html_tag = node.first_child().is_some_and(|child| {
+            matches!(child.data.borrow().value, NodeValue::HtmlInline(_))
+                && child.next_sibling().is_none()
+        });
+        let is_definition = heading_text.starts_with('[') && heading_text.contains("]:");
         let can_be_setext = !heading_text.is_empty()
+            && !is_html_tag
+            && !is_definition
             && !heading_text
                 .split_whitespace()
                 .next()
-- 
2.43.0


From 71b563cd858df4b7cbd449a7d9acfccd05c9ffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 36/62] fix: keep autolinks in headings as they are

---
 src/serializer/inline.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index c9a5937..25d63a1 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -104,7 +104,13 @@ impl<'a> Serializer<'a> {
                     for child in node.children() {
                         self.collect_text_recursive(child, &mut link_text);
                     }
-                    if Self::is_external_url(&link.url) {
+                    let is_autolink = link.title.is_empty()
+                        && self.collect_raw_text(node) == link.url
+                        && Self::can_be_autolink(&link.url);
+                    if is_autolink {
+                        // The text of an autolink is its target, so it has to stay as it is
+                        Self::format_autolink(text, &link.url);
+                    } else if Self::is_external_url(&link.url) {
                         let use_collapsed = Self::next_sibling_starts_with_bracket(node);
                         self.format_external_link_as_reference(
                             text,
-- 
2.43.0


From 419ffc45bc0e660ace8f530dfa0f99c82a8e3013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:13 +0000
Subject: [PATCH 37/62] fix: keep headings, rules, HTML and definition lists
 inside footnotes apart

---
 src/serializer/mod.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 789e39f..660fa7d 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -648,21 +648,12 @@ impl<'a> Serializer<'a> {
                 let has_blocks = {
                     let children: Vec<_> = node.children().collect();
                     // Has blocks if:
-                    // 1. Contains any explicit block elements (code, blockquote, list, table)
+                    // 1. Contains any block element other than a paragraph
                     // 2. Contains multiple paragraphs (need blank line separation)
-                    children.iter().any(|child| {
-                        matches!(
-                            &child.data.borrow().value,
-                            NodeValue::CodeBlock(_)
-                                | NodeValue::BlockQuote
-                                | NodeValue::List(_)
-                                | NodeValue::Table(_)
-                        )
-                    }) || children
+                    children
                         .iter()
-                        .filter(|child| matches!(&child.data.borrow().value, NodeValue::Paragraph))
-                        .count()
-                        > 1
+                        .any(|child| !matches!(&child.data.borrow().value, NodeValue::Paragraph))
+                        || children.len() > 1
                 };
 
                 // Collect content from children
-- 
2.43.0


From dfe26bc9e551e0075de148174c5334d90a0078cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:14 +0000
Subject: [PATCH 38/62] fix: start definitions with a quote or rule on the line
 of the marker

---
 src/serializer/document.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 936ad7e..dd39785 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -408,8 +408,8 @@ impl<'a> Serializer<'a> {
                         self.serialize_node(child);
                         self.description_details_first_list = false;
                     }
-                    NodeValue::BlockQuote | NodeValue::Alert(_) => {
-                        // Block quotes and alerts as first child: output marker, newline,
+                    NodeValue::Alert(_) => {
+                        // Alerts as first child: output marker, newline,
                         // then serialize with proper list_item_indent for continuation lines
                         self.output.push_str(&blockquote_prefix);
                         self.output.push_str(":\n");
@@ -419,11 +419,12 @@ impl<'a> Serializer<'a> {
                         self.list_item_indent = old_list_item_indent;
                     }
                     NodeValue::ThematicBreak => {
+                        // All spaces after the marker would count as its width
                         self.output.push_str(&blockquote_prefix);
-                        self.output.push_str(":\n");
-                        self.output.push_str(&blockquote_prefix);
-                        self.output.push_str("    ");
-                        self.serialize_indented(child, "    ");
+                        self.output.push_str(":   ");
+                        self.output
+                            .push_str(self.options.thematic_break_style.as_str());
+                        self.output.push('\n');
                     }
                     _ => {
                         // Other block types: serialize normally with indent
-- 
2.43.0


From 16392c516b545169df719aaed6a074760cbf6ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 39/62] fix: escape a first line that would become the marker
 of a definition

---
 src/serializer/document.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index dd39785..0d36cca 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -629,7 +629,8 @@ impl<'a> Serializer<'a> {
     }
 
     /// Collect the inline content of a paragraph, escaping a leading bracket that would turn the
-    /// paragraph into a reference definition once it is wrapped.
+    /// paragraph into a reference definition once it is wrapped, and a first line that would turn
+    /// into the marker of a definition.
     fn collect_paragraph_content<'b>(&mut self, node: &'b AstNode<'b>, content: &mut String) {
         self.collect_inline_content(node, content);
         let starts_with_bracket = node.first_child().is_some_and(|child| {
@@ -638,6 +639,9 @@ impl<'a> Serializer<'a> {
         if starts_with_bracket && content.starts_with('[') && content.contains("]:") {
             content.insert(0, '\\');
         }
+        if content.starts_with(":\x00") || content.starts_with("~\x00") {
+            content.insert(0, '\\');
+        }
     }
 
     pub(super) fn serialize_front_matter(&mut self, content: &str) {
-- 
2.43.0


From 8d7e91d268aa7c8c11b3657e562afcbc508f3ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:51 +0000
Subject: [PATCH 40/62] fix: emphasise parts of words with asterisks

---
 src/serializer/state.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 91a46bd..3538881 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -526,7 +526,7 @@ impl<'a> Serializer<'a> {
     /// Otherwise, preserves the original delimiter from source, defaulting to '*'.
     pub fn get_emphasis_delimiter<'b>(&self, node: &'b AstNode<'b>) -> char {
         // If content contains '*', use '_' to avoid escaping
-        if self.node_text_contains_char(node, '*') {
+        if self.node_text_contains_char(node, '*') && Self::can_use_underscores(node) {
             return '_';
         }
         // Otherwise, preserve original delimiter or default to '*'
@@ -543,7 +543,7 @@ impl<'a> Serializer<'a> {
     /// Otherwise, preserves the original delimiter from source, defaulting to "**".
     pub fn get_strong_delimiter<'b>(&self, node: &'b AstNode<'b>) -> &'static str {
         // If content contains '*', use '__' to avoid escaping
-        if self.node_text_contains_char(node, '*') {
+        if self.node_text_contains_char(node, '*') && Self::can_use_underscores(node) {
             return "__";
         }
         // Otherwise, preserve original delimiter or default to '**'
@@ -555,6 +555,32 @@ impl<'a> Serializer<'a> {
         "**"
     }
 
+    /// Check if emphasis can be written with underscores instead of asterisks: underscores are not
+    /// delimiters inside a word, and next to other emphasis they could pair up differently.
+    fn can_use_underscores<'b>(node: &'b AstNode<'b>) -> bool {
+        let is_emphasis = |node: Option<&'b AstNode<'b>>| {
+            node.is_some_and(|n| {
+                matches!(n.data.borrow().value, NodeValue::Emph | NodeValue::Strong)
+            })
+        };
+        let text = |sibling: Option<&'b AstNode<'b>>| match &sibling?.data.borrow().value {
+            NodeValue::Text(text) => Some(text.to_string()),
+            _ => None,
+        };
+        let (previous, next) = (node.previous_sibling(), node.next_sibling());
+        !text(previous).is_some_and(|t| t.ends_with(char::is_alphanumeric))
+            && !text(next).is_some_and(|t| t.starts_with(char::is_alphanumeric))
+            && ![
+                previous,
+                next,
+                node.parent(),
+                node.first_child(),
+                node.last_child(),
+            ]
+            .into_iter()
+            .any(is_emphasis)
+    }
+
     /// Check if any text node within the given node contains the specified character.
     fn node_text_contains_char<'b>(&self, node: &'b AstNode<'b>, ch: char) -> bool {
         self.node_text_contains_char_recursive(node, ch)
-- 
2.43.0


From c688182a1ab4b53e42f0f497083c9d7d24428c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 41/62] fix: write link targets and titles with entities,
 backslashes and line breaks so that they read back

---
 src/serializer/inline.rs | 29 ++++++++++++++++++++++++++---
 src/serializer/link.rs   | 37 ++++++++++++++++++++++++++++++++-----
 2 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 25d63a1..7a5a4f8 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -442,14 +442,37 @@ impl<'a> Serializer<'a> {
             }
         }
 
-        // Handle any remaining text characters that weren't matched
-        for ch in text_chars.iter().skip(text_idx) {
-            result.push_str(&escape::escape_text(&ch.to_string()));
+        // The source of all of the text was not found (comrak's positions are off in lines after
+        // a line break in a link title), so the text has to be escaped without it
+        if text_idx < text_chars.len() {
+            return Self::escape_text_without_source(text);
         }
 
         result
     }
 
+    /// Escape text whose source is not known, including brackets and ampersands that
+    /// `escape::escape_text` leaves alone.
+    fn escape_text_without_source(text: &str) -> String {
+        let chars: Vec<char> = text.chars().collect();
+        let mut result = String::with_capacity(text.len());
+        for (i, &ch) in chars.iter().enumerate() {
+            let is_special = match ch {
+                '[' | ']' | '<' => true,
+                '&' => Self::try_parse_html_entity(&chars, i).is_some(),
+                _ => false,
+            };
+            if is_special {
+                result.push('\\');
+                result.push(ch);
+            } else {
+                result.push_str(&escape::escape_text(&ch.to_string()));
+            }
+        }
+        result
+    }
+
+
     /// If `text_char` is transformed punctuation, and the source has the punctuation it
     /// replaced at `start`, returns the length of the latter in the source.
     fn transformed_source_len(
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 6e2a25b..a3a111d 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -66,20 +66,37 @@ impl<'a> Serializer<'a> {
             return;
         }
         let balanced = Self::has_balanced_parentheses(url);
-        for ch in url.chars() {
+        let mut rest = url.chars();
+        while let Some(ch) = rest.next() {
             match ch {
                 ' ' => output.push_str("%20"),
                 '<' => output.push_str("%3C"),
                 '>' => output.push_str("%3E"),
+                _ if ch.is_ascii_control() => output.push_str(&format!("%{:02X}", ch as u32)),
                 '(' | ')' if !balanced => {
                     output.push('\\');
                     output.push(ch);
                 }
+                // A backslash that would escape the next character
+                '\\' if !rest.as_str().starts_with(char::is_alphanumeric) => {
+                    output.push_str("\\\\");
+                }
+                '&' if Self::continues_entity(rest.as_str()) => output.push_str("&amp;"),
                 _ => output.push(ch),
             }
         }
     }
 
+    /// Check if the text after an ampersand makes the ampersand the start of an entity.
+    fn continues_entity(rest: &str) -> bool {
+        match rest.split_once(';') {
+            Some((name, _)) => {
+                !name.is_empty() && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '#')
+            }
+            None => false,
+        }
+    }
+
     /// Check if every parenthesis in a URL has its counterpart.
     fn has_balanced_parentheses(url: &str) -> bool {
         let mut depth: usize = 0;
@@ -102,11 +119,18 @@ impl<'a> Serializer<'a> {
             return;
         }
         output.push_str(" \"");
-        for ch in title.chars() {
-            if ch == '"' || ch == '\\' {
-                output.push('\\');
+        let mut rest = title.chars();
+        while let Some(ch) = rest.next() {
+            match ch {
+                '"' | '\\' => {
+                    output.push('\\');
+                    output.push(ch);
+                }
+                '&' if Self::continues_entity(rest.as_str()) => output.push_str("&amp;"),
+                // A line break could read as the end of the paragraph or as a new block
+                '\n' => output.push_str("&#10;"),
+                _ => output.push(ch),
             }
-            output.push(ch);
         }
         output.push('"');
     }
@@ -240,6 +264,9 @@ impl<'a> Serializer<'a> {
                 .chars()
                 .all(|c| c.is_ascii_alphanumeric() || matches!(c, '+' | '.' | '-'))
             && !rest.contains(|c: char| c.is_ascii_control() || matches!(c, ' ' | '<' | '>'))
+            && !rest
+                .match_indices('&')
+                .any(|(i, _)| Self::continues_entity(&rest[i + 1..]))
     }
 
     pub(super) fn serialize_link<'b>(&mut self, node: &'b AstNode<'b>, url: &str, title: &str) {
-- 
2.43.0


From 6e8be97dbaab43824f099d786aad838281cc6db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 42/62] fix: do not rely on source positions after links with
 line breaks, nor on underscores next to other emphasis

---
 src/serializer/inline.rs | 33 ++++++++++-----------------
 src/serializer/state.rs  | 48 ++++++++++++++++++++++++++++++++--------
 2 files changed, 51 insertions(+), 30 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 7a5a4f8..6dca931 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -45,15 +45,7 @@ impl<'a> Serializer<'a> {
                 let transformed = punctuation::transform_punctuation(t, self.options);
 
                 // Try to preserve escapes from the original source
-                if let Some(source) = self.extract_text_source(node) {
-                    text.push_str(&Self::escape_text_preserving_source(
-                        &transformed,
-                        &source,
-                        self.options,
-                    ));
-                } else {
-                    text.push_str(&escape::escape_text(&transformed));
-                }
+                text.push_str(&self.escape_text_node(node, &transformed));
             }
             NodeValue::Code(code) => {
                 // Try to use original source to preserve spacing, but validate it first.
@@ -169,15 +161,7 @@ impl<'a> Serializer<'a> {
                 let transformed = punctuation::transform_punctuation(text, self.options);
 
                 // Try to preserve escapes from the original source
-                if let Some(source) = self.extract_text_source(node) {
-                    content.push_str(&Self::escape_text_preserving_source(
-                        &transformed,
-                        &source,
-                        self.options,
-                    ));
-                } else {
-                    content.push_str(&escape::escape_text(&transformed));
-                }
+                content.push_str(&self.escape_text_node(node, &transformed));
             }
             NodeValue::SoftBreak => {
                 // Use a special marker to preserve original line breaks
@@ -322,6 +306,15 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Escape the text of a text node, keeping the escapes of its source if that is known.
+    fn escape_text_node<'b>(&self, node: &'b AstNode<'b>, text: &str) -> String {
+        match self.extract_text_source(node) {
+            Some(source) => Self::escape_text_preserving_source(text, &source, self.options),
+            None if self.source_lines.is_empty() => escape::escape_text(text),
+            None => Self::escape_text_without_source(text),
+        }
+    }
+
     /// Extract the original source of a text node.
     ///
     /// When a text node starts with an escaped character, comrak makes it start after the
@@ -442,8 +435,7 @@ impl<'a> Serializer<'a> {
             }
         }
 
-        // The source of all of the text was not found (comrak's positions are off in lines after
-        // a line break in a link title), so the text has to be escaped without it
+        // The source of all of the text was not found, so the text has to be escaped without it
         if text_idx < text_chars.len() {
             return Self::escape_text_without_source(text);
         }
@@ -472,7 +464,6 @@ impl<'a> Serializer<'a> {
         result
     }
 
-
     /// If `text_char` is transformed punctuation, and the source has the punctuation it
     /// replaced at `start`, returns the length of the latter in the source.
     fn transformed_source_len(
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 3538881..e787281 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -393,6 +393,38 @@ impl<'a> Serializer<'a> {
 
     /// Extract original source text for a node using its sourcepos.
     pub fn extract_source<'b>(&self, node: &'b AstNode<'b>) -> Option<String> {
+        if self.is_after_broken_link(node) {
+            return None;
+        }
+        self.source_at_position(node)
+    }
+
+    /// Check if an inline node comes after a link with a line break outside of its text. comrak
+    /// does not count that line break, so the source positions of the nodes after it are wrong.
+    fn is_after_broken_link<'b>(&self, node: &'b AstNode<'b>) -> bool {
+        node.ancestors()
+            .take_while(|ancestor| !ancestor.data.borrow().value.block())
+            .any(|ancestor| {
+                ancestor
+                    .preceding_siblings()
+                    .skip(1)
+                    .flat_map(|sibling| sibling.descendants())
+                    .any(|previous| self.is_broken_link(previous))
+            })
+    }
+
+    /// Check if a node is a link or image with a line break outside of its text.
+    fn is_broken_link<'b>(&self, node: &'b AstNode<'b>) -> bool {
+        matches!(
+            node.data.borrow().value,
+            NodeValue::Link(_) | NodeValue::Image(_)
+        ) && self
+            .source_at_position(node)
+            .is_some_and(|source| !source.ends_with([')', ']']) && !source.starts_with('<'))
+    }
+
+    /// The source text at the position comrak gives for a node.
+    fn source_at_position<'b>(&self, node: &'b AstNode<'b>) -> Option<String> {
         if self.source_lines.is_empty() {
             return None;
         }
@@ -532,6 +564,7 @@ impl<'a> Serializer<'a> {
         // Otherwise, preserve original delimiter or default to '*'
         if let Some(source) = self.extract_source(node)
             && source.starts_with('_')
+            && source.ends_with('_')
         {
             return '_';
         }
@@ -549,6 +582,7 @@ impl<'a> Serializer<'a> {
         // Otherwise, preserve original delimiter or default to '**'
         if let Some(source) = self.extract_source(node)
             && source.starts_with("__")
+            && source.ends_with("__")
         {
             return "__";
         }
@@ -570,15 +604,11 @@ impl<'a> Serializer<'a> {
         let (previous, next) = (node.previous_sibling(), node.next_sibling());
         !text(previous).is_some_and(|t| t.ends_with(char::is_alphanumeric))
             && !text(next).is_some_and(|t| t.starts_with(char::is_alphanumeric))
-            && ![
-                previous,
-                next,
-                node.parent(),
-                node.first_child(),
-                node.last_child(),
-            ]
-            .into_iter()
-            .any(is_emphasis)
+            && ![previous, next, node.parent()].into_iter().any(is_emphasis)
+            && !node
+                .descendants()
+                .skip(1)
+                .any(|child| is_emphasis(Some(child)))
     }
 
     /// Check if any text node within the given node contains the specified character.
-- 
2.43.0


From b0447b20d96632a5747207fcde218f721e897554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 43/62] fix: unmatched and escaped brackets stopped wrapping

A bracket without a match, or an escaped one, counted as the start of a
link and kept the rest of the paragraph on one line.  Only matching
brackets outside of code spans are unbreakable now.  A space before the
first word no longer breaks that word.
---
 src/serializer/wrap.rs | 89 ++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 51 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index e453d7c..fee619b 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -255,62 +255,18 @@ pub fn wrap_single_segment(
     let chars: Vec<char> = text.chars().collect();
     let mut current_token = String::new();
     let mut trailing_spaces = String::new();
-    let mut code_span_end = 0;
-    let mut bracket_depth = 0;
+    let mut unbreakable_end = 0;
+    let bracket_ends = find_bracket_ends(&chars);
 
     for (i, &ch) in chars.iter().enumerate() {
-        if i < code_span_end {
-            // Inside a code span, everything is part of the token
-            current_token.push(ch);
-        } else if ch == '`' {
-            // Start of a run of backticks - include any accumulated content first
-            if bracket_depth == 0 && !current_token.is_empty() && !trailing_spaces.is_empty() {
-                // We have a previous word, output it
-                add_token_to_line_with_prefix(
-                    &mut result,
-                    &mut current_line,
-                    &current_token,
-                    &trailing_spaces,
-                    first_prefix_width,
-                    prefix,
-                    line_width,
-                    &mut is_first_line,
-                );
-                current_token.clear();
-                trailing_spaces.clear();
-            }
-            current_token.push(ch);
-            code_span_end = find_code_span_end(&chars, i);
-        } else if ch == '[' {
-            // Start of bracket region
-            if bracket_depth == 0 && !current_token.is_empty() && !trailing_spaces.is_empty() {
-                // Output previous token before starting bracket
-                add_token_to_line_with_prefix(
-                    &mut result,
-                    &mut current_line,
-                    &current_token,
-                    &trailing_spaces,
-                    first_prefix_width,
-                    prefix,
-                    line_width,
-                    &mut is_first_line,
-                );
-                current_token.clear();
-                trailing_spaces.clear();
-            }
-            current_token.push(ch);
-            bracket_depth += 1;
-        } else if ch == ']' && bracket_depth > 0 {
-            // End of bracket region (or nested bracket)
-            current_token.push(ch);
-            bracket_depth -= 1;
-        } else if bracket_depth > 0 {
-            // Inside brackets, everything is part of the token
+        if i < unbreakable_end {
+            // Inside a code span or brackets, everything is part of the token
             current_token.push(ch);
         } else if ch == ' ' {
-            trailing_spaces.push(ch);
+            if !current_token.is_empty() {
+                trailing_spaces.push(ch);
+            }
         } else {
-            // Regular character outside backticks and brackets
             if !current_token.is_empty() && !trailing_spaces.is_empty() {
                 // We have a previous word with trailing spaces, output it
                 add_token_to_line_with_prefix(
@@ -327,6 +283,11 @@ pub fn wrap_single_segment(
                 trailing_spaces.clear();
             }
             current_token.push(ch);
+            if ch == '`' {
+                unbreakable_end = find_code_span_end(&chars, i);
+            } else if ch == '[' {
+                unbreakable_end = bracket_ends[i];
+            }
         }
     }
 
@@ -353,6 +314,32 @@ pub fn wrap_single_segment(
     result
 }
 
+/// For each opening bracket, find where the matching brackets end (for an unmatched one, and for any
+/// other character, this is the index after it). Escaped brackets and those in code spans are text.
+fn find_bracket_ends(chars: &[char]) -> Vec<usize> {
+    let mut ends: Vec<usize> = (1..=chars.len()).collect();
+    let mut open: Vec<usize> = Vec::new();
+    let mut i = 0;
+    while i < chars.len() {
+        match chars[i] {
+            '\\' => i += 2,
+            '`' => i = find_code_span_end(chars, i),
+            '[' => {
+                open.push(i);
+                i += 1;
+            }
+            ']' => {
+                i += 1;
+                if let Some(start) = open.pop() {
+                    ends[start] = i;
+                }
+            }
+            _ => i += 1,
+        }
+    }
+    ends
+}
+
 /// Find where the code span (or literal run of backticks) that starts at an index ends.
 fn find_code_span_end(chars: &[char], start: usize) -> usize {
     // An escaped backtick does not start a code span
-- 
2.43.0


From 4ed91ea4710ec3e225953b3223c78aebfbfac6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 44/62] fix: paragraphs of footnotes with several blocks were
 wrapped too wide

They are indented by four columns when the footnote is written, which
the wrapping did not take into account.
---
 src/serializer/document.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 0d36cca..0a34aa4 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -381,7 +381,7 @@ impl<'a> Serializer<'a> {
                             content.trim(),
                             "",
                             &continuation,
-                            self.options.line_width.get(),
+                            self.wrap_width(),
                         );
                         self.output.push_str(&wrapped);
                         self.output.push('\n');
@@ -450,7 +450,7 @@ impl<'a> Serializer<'a> {
                             content.trim(),
                             "",
                             &continuation,
-                            self.options.line_width.get(),
+                            self.wrap_width(),
                         );
                         self.output.push_str(&wrapped);
                         self.output.push('\n');
@@ -551,6 +551,17 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// The line width that is left for paragraphs: those of footnotes with several blocks are
+    /// indented when the footnote is written.
+    fn wrap_width(&self) -> usize {
+        let line_width = self.options.line_width.get();
+        if self.footnotes.collecting_content {
+            line_width.saturating_sub(4)
+        } else {
+            line_width
+        }
+    }
+
     pub(super) fn serialize_paragraph<'b>(&mut self, node: &'b AstNode<'b>) {
         // Check if this is a PHP Markdown Extra abbreviation definition (*[abbr]: ...)
         // These are not parsed by comrak, so we preserve them as-is
@@ -612,7 +623,7 @@ impl<'a> Serializer<'a> {
                 inline_content.trim(),
                 "",
                 &continuation,
-                self.options.line_width.get(),
+                self.wrap_width(),
             );
             self.output.push_str(&wrapped);
         } else {
@@ -622,7 +633,7 @@ impl<'a> Serializer<'a> {
             } else {
                 String::new()
             };
-            let wrapped = wrap::wrap_text(&inline_content, &prefix, self.options.line_width.get());
+            let wrapped = wrap::wrap_text(&inline_content, &prefix, self.wrap_width());
             self.output.push_str(&wrapped);
             self.output.push('\n');
         }
-- 
2.43.0


From af188e7e8026670f4c8931fcfe6d86f4e5f62e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 45/62] fix: hard line breaks at the start of a text were lost,
 dashes became a rule

A hard line break on a line without text is written as a backslash, since
two spaces would be a blank line.  A wrapped line never has only words
that would make it another block.
---
 src/serializer/wrap.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index fee619b..51e6992 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -24,8 +24,7 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
     let mut result = String::new();
     for (idx, segment) in hard_break_segments.iter().enumerate() {
         if idx > 0 {
-            // Add two trailing spaces for hard line break, then newline and prefix
-            result.push_str("  \n");
+            push_hard_break(&mut result, hard_break_segments[idx - 1]);
         }
         // First segment uses the normal prefix, subsequent segments also need prefix
         // (wrap_text_segment handles adding the prefix to the first line)
@@ -41,6 +40,17 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
     result
 }
 
+/// Write a hard line break after a segment: two trailing spaces, or a backslash where the line has
+/// nothing else, since it would be a blank line.
+fn push_hard_break(result: &mut String, segment: &str) {
+    if segment.trim_matches([' ', '\0']).is_empty() {
+        result.push('\\');
+    } else {
+        result.push_str("  ");
+    }
+    result.push('\n');
+}
+
 /// Split text at the soft break markers, except before words that would start a new block at the
 /// start of a line.
 fn split_original_lines(text: &str) -> Vec<String> {
@@ -134,10 +144,9 @@ pub fn wrap_text_first_line(
     // Process each segment separated by hard line breaks
     let mut result = String::new();
     let mut is_first_segment = true;
-    for segment in hard_break_segments {
+    for (idx, segment) in hard_break_segments.iter().enumerate() {
         if !is_first_segment {
-            // Add two trailing spaces for hard line break, then newline
-            result.push_str("  \n");
+            push_hard_break(&mut result, hard_break_segments[idx - 1]);
             result.push_str(continuation_prefix);
         }
         let (current_first, current_cont) = if is_first_segment {
@@ -414,12 +423,18 @@ fn add_token_to_line_with_prefix(
     }
 }
 
-/// Check if a line has nothing but a word that would start a new block after its prefix, e.g., a
+/// Check if a line has nothing but words that would start a new block after its prefix, e.g., a
 /// line with only `--` would be a setext heading underline.
 fn is_only_block_marker(line: &str, prefix_width: usize) -> bool {
-    let line = line.trim_end();
-    let word = line.rsplit(' ').next().unwrap_or("");
-    !word.is_empty() && line.width() == prefix_width + word.width() && starts_block(word)
+    let mut line = line.trim_end_matches(' ');
+    while line.width() > prefix_width {
+        let word = line.rsplit(' ').next().unwrap_or("");
+        if !starts_block(word) {
+            return false;
+        }
+        line = line[..line.len() - word.len()].trim_end_matches(' ');
+    }
+    true
 }
 
 /// Escape the first word of the text after a hard line break if it would start a new block.
-- 
2.43.0


From da8b34f0961d28619346808577d5b2827eb7a87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 46/62] fix: no-break spaces at the start and end of a line
 were lost

Only spaces and tabs are insignificant there, other white space is text.
---
 src/serializer/document.rs |  6 +++---
 src/serializer/mod.rs      |  2 +-
 src/serializer/wrap.rs     | 27 ++++++++++++++++++---------
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 0a34aa4..0aa9c28 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -378,7 +378,7 @@ impl<'a> Serializer<'a> {
                         self.collect_paragraph_content(child, &mut content);
                         let continuation = format!("{}    ", blockquote_prefix);
                         let wrapped = wrap::wrap_text_first_line(
-                            content.trim(),
+                            content.trim_matches(wrap::LINE_SPACE),
                             "",
                             &continuation,
                             self.wrap_width(),
@@ -447,7 +447,7 @@ impl<'a> Serializer<'a> {
                         self.collect_paragraph_content(child, &mut content);
                         let continuation = format!("{}    ", blockquote_prefix);
                         let wrapped = wrap::wrap_text_first_line(
-                            content.trim(),
+                            content.trim_matches(wrap::LINE_SPACE),
                             "",
                             &continuation,
                             self.wrap_width(),
@@ -620,7 +620,7 @@ impl<'a> Serializer<'a> {
                 base_indent
             };
             let wrapped = wrap::wrap_text_first_line(
-                inline_content.trim(),
+                inline_content.trim_matches(wrap::LINE_SPACE),
                 "",
                 &continuation,
                 self.wrap_width(),
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 660fa7d..0a97e2c 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -670,7 +670,7 @@ impl<'a> Serializer<'a> {
                     for child in node.children() {
                         self.collect_inline_node(child, &mut content);
                     }
-                    content.trim().to_string()
+                    content.trim_matches(wrap::LINE_SPACE).to_string()
                 };
 
                 self.footnotes.stop_collecting();
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 51e6992..d37e461 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -2,6 +2,10 @@
 
 use unicode_width::UnicodeWidthStr;
 
+/// The white space that Markdown ignores at the start and end of a line. Any other white space, e.g.,
+/// a no-break space, is text.
+pub(super) const LINE_SPACE: [char; 2] = [' ', '\t'];
+
 /// Wrap text at the specified line width.
 ///
 /// This function handles soft break markers (`\x00`) which represent where
@@ -57,9 +61,14 @@ fn split_original_lines(text: &str) -> Vec<String> {
     let mut lines: Vec<String> = Vec::new();
     for line in text.split('\x00') {
         match lines.last_mut() {
-            Some(last) if line.split_whitespace().next().is_some_and(starts_block) => {
+            Some(last)
+                if line
+                    .split(LINE_SPACE)
+                    .find(|word| !word.is_empty())
+                    .is_some_and(starts_block) =>
+            {
                 last.push(' ');
-                last.push_str(line.trim_start());
+                last.push_str(line.trim_start_matches(LINE_SPACE));
             }
             _ => lines.push(line.to_string()),
         }
@@ -84,7 +93,7 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
     let mut i = 0;
 
     while i < original_lines.len() {
-        let line = original_lines[i].trim();
+        let line = original_lines[i].trim_matches(LINE_SPACE);
         let line_with_prefix_len = prefix.width() + line.width();
 
         if line_with_prefix_len <= line_width {
@@ -100,7 +109,7 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
             let mut merged = String::from(line);
             i += 1;
             while i < original_lines.len() {
-                let next_line = original_lines[i].trim();
+                let next_line = original_lines[i].trim_matches(LINE_SPACE);
                 merged.push(' ');
                 merged.push_str(next_line);
                 i += 1;
@@ -195,7 +204,7 @@ fn wrap_text_first_line_segment(
     let mut is_first_line = true;
 
     while i < original_lines.len() {
-        let line = original_lines[i].trim();
+        let line = original_lines[i].trim_matches(LINE_SPACE);
         let current_prefix = if is_first_line {
             first_prefix
         } else {
@@ -217,7 +226,7 @@ fn wrap_text_first_line_segment(
             let mut merged = String::from(line);
             i += 1;
             while i < original_lines.len() {
-                let next_line = original_lines[i].trim();
+                let next_line = original_lines[i].trim_matches(LINE_SPACE);
                 merged.push(' ');
                 merged.push_str(next_line);
                 i += 1;
@@ -315,7 +324,7 @@ pub fn wrap_single_segment(
     }
 
     // Add the last line (trim trailing spaces)
-    let final_line = current_line.trim_end();
+    let final_line = current_line.trim_end_matches(LINE_SPACE);
     if !final_line.is_empty() {
         result.push_str(final_line);
     }
@@ -413,7 +422,7 @@ fn add_token_to_line_with_prefix(
         current_line.push_str(trailing_spaces);
     } else {
         // Start a new line - trim trailing spaces from previous line
-        let trimmed = current_line.trim_end();
+        let trimmed = current_line.trim_end_matches(LINE_SPACE);
         result.push_str(trimmed);
         result.push('\n');
         *current_line = String::from(prefix);
@@ -439,7 +448,7 @@ fn is_only_block_marker(line: &str, prefix_width: usize) -> bool {
 
 /// Escape the first word of the text after a hard line break if it would start a new block.
 fn escape_block_start(text: &str) -> String {
-    let text = text.trim_start();
+    let text = text.trim_start_matches(LINE_SPACE);
     let word = text.split([' ', '\x00']).next().unwrap_or("");
     if !starts_block(word) {
         return text.to_string();
-- 
2.43.0


From 462104fb69a517d3c313da92f3c2def0217a0634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 47/62] fix: a list item with nothing but dashes became a
 thematic break

---
 src/serializer/document.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 0aa9c28..48078cb 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -582,6 +582,12 @@ impl<'a> Serializer<'a> {
         self.collect_paragraph_content(node, &mut inline_content);
 
         if self.list_type.is_some() {
+            // After a list marker, a line of dashes would be read as a thematic break
+            let first_line = inline_content.split(['\x00', '\n']).next().unwrap_or("");
+            if first_line.starts_with('-') && first_line.chars().all(|c| matches!(c, '-' | ' ')) {
+                inline_content.insert(0, '\\');
+            }
+
             // Inside a list item, wrap with proper continuation indent
             // First line has no prefix (marker already output)
             // Continuation lines need appropriate indent
-- 
2.43.0


From d8ffb1097d3b854a76ea3a6bc98722fff12a9050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 48/62] fix: text after a hard break and later paragraphs of an
 item were too wide

The indentation of these lines did not count as part of the line width.
A line without text between two hard breaks got a second backslash.
---
 src/serializer/document.rs | 45 ++++++++++++++++++++------------------
 src/serializer/wrap.rs     | 31 ++++++++++++++++++--------
 2 files changed, 46 insertions(+), 30 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 48078cb..147b8c3 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -377,13 +377,7 @@ impl<'a> Serializer<'a> {
                         let mut content = String::new();
                         self.collect_paragraph_content(child, &mut content);
                         let continuation = format!("{}    ", blockquote_prefix);
-                        let wrapped = wrap::wrap_text_first_line(
-                            content.trim_matches(wrap::LINE_SPACE),
-                            "",
-                            &continuation,
-                            self.wrap_width(),
-                        );
-                        self.output.push_str(&wrapped);
+                        self.push_wrapped(&content, &continuation);
                         self.output.push('\n');
                     }
                     NodeValue::CodeBlock(code) => {
@@ -446,13 +440,7 @@ impl<'a> Serializer<'a> {
                         let mut content = String::new();
                         self.collect_paragraph_content(child, &mut content);
                         let continuation = format!("{}    ", blockquote_prefix);
-                        let wrapped = wrap::wrap_text_first_line(
-                            content.trim_matches(wrap::LINE_SPACE),
-                            "",
-                            &continuation,
-                            self.wrap_width(),
-                        );
-                        self.output.push_str(&wrapped);
+                        self.push_wrapped(&content, &continuation);
                         self.output.push('\n');
                     }
                     NodeValue::CodeBlock(code) => {
@@ -625,13 +613,7 @@ impl<'a> Serializer<'a> {
             } else {
                 base_indent
             };
-            let wrapped = wrap::wrap_text_first_line(
-                inline_content.trim_matches(wrap::LINE_SPACE),
-                "",
-                &continuation,
-                self.wrap_width(),
-            );
-            self.output.push_str(&wrapped);
+            self.push_wrapped(&inline_content, &continuation);
         } else {
             // Not in a list - wrap the paragraph at line_width
             let prefix = if self.in_block_quote {
@@ -645,6 +627,27 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Write wrapped text after what is already on the current line. An indentation there is part
+    /// of the line width, a marker is not.
+    fn push_wrapped(&mut self, text: &str, continuation: &str) {
+        let text = text.trim_matches(wrap::LINE_SPACE);
+        if text.is_empty() {
+            return;
+        }
+        let line_start = self.output.rfind('\n').map_or(0, |position| position + 1);
+        let is_indentation = self.output[line_start..]
+            .chars()
+            .all(|c| matches!(c, ' ' | '>'));
+        let first_prefix = if is_indentation {
+            self.output.split_off(line_start)
+        } else {
+            String::new()
+        };
+        let wrapped =
+            wrap::wrap_text_first_line(text, &first_prefix, continuation, self.wrap_width());
+        self.output.push_str(&wrapped);
+    }
+
     /// Collect the inline content of a paragraph, escaping a leading bracket that would turn the
     /// paragraph into a reference definition once it is wrapped, and a first line that would turn
     /// into the marker of a definition.
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index d37e461..88fea77 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -37,7 +37,11 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
         } else {
             segment.to_string()
         };
-        let wrapped = wrap_text_segment(&segment, prefix, line_width);
+        let wrapped = if is_blank(&segment) {
+            prefix.to_string()
+        } else {
+            wrap_text_segment(&segment, prefix, line_width)
+        };
         result.push_str(&wrapped);
     }
 
@@ -47,7 +51,7 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
 /// Write a hard line break after a segment: two trailing spaces, or a backslash where the line has
 /// nothing else, since it would be a blank line.
 fn push_hard_break(result: &mut String, segment: &str) {
-    if segment.trim_matches([' ', '\0']).is_empty() {
+    if is_blank(segment) {
         result.push('\\');
     } else {
         result.push_str("  ");
@@ -55,6 +59,13 @@ fn push_hard_break(result: &mut String, segment: &str) {
     result.push('\n');
 }
 
+/// Check if a segment has nothing but spaces and soft break markers.
+fn is_blank(segment: &str) -> bool {
+    segment
+        .chars()
+        .all(|c| c == '\0' || LINE_SPACE.contains(&c))
+}
+
 /// Split text at the soft break markers, except before words that would start a new block at the
 /// start of a line.
 fn split_original_lines(text: &str) -> Vec<String> {
@@ -156,20 +167,22 @@ pub fn wrap_text_first_line(
     for (idx, segment) in hard_break_segments.iter().enumerate() {
         if !is_first_segment {
             push_hard_break(&mut result, hard_break_segments[idx - 1]);
-            result.push_str(continuation_prefix);
         }
-        let (current_first, current_cont) = if is_first_segment {
-            (first_prefix, continuation_prefix)
+        let current_first = if is_first_segment {
+            first_prefix
         } else {
-            ("", continuation_prefix)
+            continuation_prefix
         };
         let segment = if is_first_segment {
             segment.to_string()
         } else {
             escape_block_start(segment)
         };
-        let wrapped =
-            wrap_text_first_line_segment(&segment, current_first, current_cont, line_width);
+        let wrapped = if is_blank(&segment) {
+            current_first.to_string()
+        } else {
+            wrap_text_first_line_segment(&segment, current_first, continuation_prefix, line_width)
+        };
         result.push_str(&wrapped);
         is_first_segment = false;
     }
@@ -450,7 +463,7 @@ fn is_only_block_marker(line: &str, prefix_width: usize) -> bool {
 fn escape_block_start(text: &str) -> String {
     let text = text.trim_start_matches(LINE_SPACE);
     let word = text.split([' ', '\x00']).next().unwrap_or("");
-    if !starts_block(word) {
+    if word.is_empty() || !starts_block(word) {
         return text.to_string();
     }
     // The delimiter of an ordered list marker comes after its number
-- 
2.43.0


From e9ea2012470ba8caf441f707a485c413e9415b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 49/62] fix: an HTML tag alone on the first wrapped line became
 an HTML block

---
 src/serializer/wrap.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 88fea77..7ec07d1 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -428,6 +428,7 @@ fn add_token_to_line_with_prefix(
     } else if current_line.width() + token_width + spaces_len <= line_width
         || starts_block(token)
         || is_only_block_marker(current_line, current_prefix_width)
+        || (*is_first_line && is_only_html_tag(current_line, current_prefix_width))
     {
         // Token fits on current line, or would become a block marker on a new one, or the
         // current line would become a block without it
@@ -459,6 +460,24 @@ fn is_only_block_marker(line: &str, prefix_width: usize) -> bool {
     true
 }
 
+/// Check if a line has nothing but an HTML tag after its prefix, which starts an HTML block at the
+/// start of a paragraph.
+fn is_only_html_tag(line: &str, prefix_width: usize) -> bool {
+    let line = line.trim_end_matches(' ');
+    let Some(position) = line.find('<') else {
+        return false;
+    };
+    let Some(tag) = line[position + 1..].strip_suffix('>') else {
+        return false;
+    };
+    let tag = tag.strip_prefix('/').unwrap_or(tag);
+    let attributes = tag.trim_start_matches(|c: char| c.is_ascii_alphanumeric() || c == '-');
+    line[..position].width() == prefix_width
+        && tag.starts_with(|c: char| c.is_ascii_alphabetic())
+        && (attributes.is_empty() || attributes.starts_with([' ', '/']))
+        && (attributes.contains(['"', '\'']) || !attributes.contains(['<', '>']))
+}
+
 /// Escape the first word of the text after a hard line break if it would start a new block.
 fn escape_block_start(text: &str) -> String {
     let text = text.trim_start_matches(LINE_SPACE);
-- 
2.43.0


From 46a36989e2b58a4566c6e0a203ce106019b010b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 50/62] fix: dashes and task marks at the start of a paragraph
 were read as markup

---
 src/serializer/document.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 147b8c3..48c0518 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -570,12 +570,6 @@ impl<'a> Serializer<'a> {
         self.collect_paragraph_content(node, &mut inline_content);
 
         if self.list_type.is_some() {
-            // After a list marker, a line of dashes would be read as a thematic break
-            let first_line = inline_content.split(['\x00', '\n']).next().unwrap_or("");
-            if first_line.starts_with('-') && first_line.chars().all(|c| matches!(c, '-' | ' ')) {
-                inline_content.insert(0, '\\');
-            }
-
             // Inside a list item, wrap with proper continuation indent
             // First line has no prefix (marker already output)
             // Continuation lines need appropriate indent
@@ -630,7 +624,7 @@ impl<'a> Serializer<'a> {
     /// Write wrapped text after what is already on the current line. An indentation there is part
     /// of the line width, a marker is not.
     fn push_wrapped(&mut self, text: &str, continuation: &str) {
-        let text = text.trim_matches(wrap::LINE_SPACE);
+        let text = text.trim_matches([' ', '\t', '\x00']);
         if text.is_empty() {
             return;
         }
@@ -659,6 +653,21 @@ impl<'a> Serializer<'a> {
         if starts_with_bracket && content.starts_with('[') && content.contains("]:") {
             content.insert(0, '\\');
         }
+        // A line of dashes would be read as a thematic break (after a list marker, even a single word)
+        let first_line = content.split('\n').next().unwrap_or("");
+        if first_line.starts_with('-')
+            && first_line.chars().all(|c| matches!(c, '-' | ' ' | '\x00'))
+            && (self.list_type.is_some() || first_line.contains([' ', '\x00']))
+        {
+            content.insert(0, '\\');
+        }
+        // `[x]` before an escaped character would be read as the mark of a task
+        if self.list_type.is_some()
+            && content.starts_with('[')
+            && content.chars().skip(2).take(2).eq("]\\".chars())
+        {
+            content.insert(0, '\\');
+        }
         if content.starts_with(":\x00") || content.starts_with("~\x00") {
             content.insert(0, '\\');
         }
-- 
2.43.0


From 709283b8ecb15102cfdc5f3c3728842eb1f477f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 51/62] fix: the checkbox of a task that does not start with a
 paragraph was not read as one

---
 src/serializer/list.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 9b69d62..a60e75a 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -209,6 +209,15 @@ impl<'a> Serializer<'a> {
 
         // Serialize children, handling nested lists and multiple paragraphs
         let children: Vec<_> = node.children().collect();
+        // The checkbox is only read as one at the start of a paragraph, or on a line of its own
+        let is_checkbox_alone = task_marker.is_some()
+            && !children
+                .first()
+                .is_some_and(|child| matches!(child.data.borrow().value, NodeValue::Paragraph));
+        if is_checkbox_alone {
+            self.output
+                .truncate(self.output.trim_end_matches(' ').len());
+        }
         // Calculate base indentation for continuation lines (paragraphs, code blocks, etc.)
         // This should match the marker width so content aligns properly
         let marker_width = self.calculate_marker_width();
@@ -249,7 +258,7 @@ impl<'a> Serializer<'a> {
             std::mem::replace(&mut self.list_item_indent, base_indent.clone());
 
         for (i, child) in children.iter().enumerate() {
-            let is_first = i == 0;
+            let is_first = i == 0 && !is_checkbox_alone;
             let is_list = matches!(&child.data.borrow().value, NodeValue::List(_));
             if !is_first {
                 // End the line of the previous child (code blocks, nested lists, and other blocks
@@ -259,9 +268,11 @@ impl<'a> Serializer<'a> {
                 }
                 // Separate the children with a blank line. A nested list only gets one if there
                 // is a blank line before it in the original
-                let prev_end_line = children[i - 1].data.borrow().sourcepos.end.line;
-                let curr_start_line = child.data.borrow().sourcepos.start.line;
-                if !is_list || curr_start_line > prev_end_line + 1 {
+                let is_apart = i > 0 && {
+                    let prev_end_line = children[i - 1].data.borrow().sourcepos.end.line;
+                    child.data.borrow().sourcepos.start.line > prev_end_line + 1
+                };
+                if !is_list || is_apart {
                     self.push_blank_block_quote_line();
                 }
             }
-- 
2.43.0


From e37e26da100c526f7f059d661f652d1ffbb6023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 52/62] fix: a rule after a list in a footnote became part of
 the list

---
 src/serializer/document.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 48c0518..71d3e28 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -1010,6 +1010,10 @@ impl<'a> Serializer<'a> {
                 self.options.leading_spaces.get() + 1 + self.options.trailing_spaces.get();
             let ordered_width = self.options.ordered_list_indent_width.get();
             leading_spaces = leading_spaces.min(bullet_width.min(ordered_width).saturating_sub(1));
+            if self.footnotes.collecting_content {
+                // The items of a list after `[^1]:` are not indented
+                leading_spaces = 0;
+            }
         }
 
         // Add the prefix of the block quotes
-- 
2.43.0


From f99962e0f1f431dfb38bc3ec0538b33e54f66bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 53/62] fix: a first source line of dashes in a list item,
 joined to the next, became a rule

---
 src/serializer/document.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 71d3e28..2d48015 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -653,11 +653,19 @@ impl<'a> Serializer<'a> {
         if starts_with_bracket && content.starts_with('[') && content.contains("]:") {
             content.insert(0, '\\');
         }
-        // A line of dashes would be read as a thematic break (after a list marker, even a single word)
-        let first_line = content.split('\n').next().unwrap_or("");
-        if first_line.starts_with('-')
-            && first_line.chars().all(|c| matches!(c, '-' | ' ' | '\x00'))
-            && (self.list_type.is_some() || first_line.contains([' ', '\x00']))
+        // A line of dashes would be read as a thematic break (after a list marker, even a single
+        // word), whether or not the source lines after it are joined to it
+        let is_dashes = |c: char| matches!(c, '-' | ' ' | '\x00');
+        let end = content
+            .find(|c| !is_dashes(c))
+            .map_or(content.len(), |end| {
+                match content[end..].starts_with('\n') {
+                    true => end,
+                    false => content[..end].rfind('\x00').unwrap_or(0),
+                }
+            });
+        if content[..end].starts_with('-')
+            && (self.list_type.is_some() || content[..end].contains([' ', '\x00']))
         {
             content.insert(0, '\\');
         }
-- 
2.43.0


From 2bf094b1be3196e8cb728d1d30b331327dc24b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 54/62] fix: a heading without width was underlined with
 nothing

---
 src/serializer/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 2d48015..52c25cf 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -500,7 +500,7 @@ impl<'a> Serializer<'a> {
                 && child.next_sibling().is_none()
         });
         let is_definition = heading_text.starts_with('[') && heading_text.contains("]:");
-        let can_be_setext = !heading_text.is_empty()
+        let can_be_setext = heading_text.width() > 0
             && !is_html_tag
             && !is_definition
             && !heading_text
-- 
2.43.0


From 6402ff984c68932692781c19c1c0673d02ed7f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 55/62] fix: underscores were written as emphasis next to
 combining marks

---
 src/serializer/state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index e787281..13463c8 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -602,8 +602,10 @@ impl<'a> Serializer<'a> {
             _ => None,
         };
         let (previous, next) = (node.previous_sibling(), node.next_sibling());
-        !text(previous).is_some_and(|t| t.ends_with(char::is_alphanumeric))
-            && !text(next).is_some_and(|t| t.starts_with(char::is_alphanumeric))
+        // Whatever is no space or punctuation is a part of a word, e.g., a combining mark
+        let in_word = |c: char| !c.is_whitespace() && !c.is_ascii_punctuation();
+        !text(previous).is_some_and(|t| t.ends_with(in_word))
+            && !text(next).is_some_and(|t| t.starts_with(in_word))
             && ![previous, next, node.parent()].into_iter().any(is_emphasis)
             && !node
                 .descendants()
-- 
2.43.0


From be27e4478bdfedd0f590cb51a5271588851a3db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 56/62] fix: text after a reference definition was taken from
 the wrong place

---
 src/serializer/state.rs | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 13463c8..386f5cf 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -393,12 +393,49 @@ impl<'a> Serializer<'a> {
 
     /// Extract original source text for a node using its sourcepos.
     pub fn extract_source<'b>(&self, node: &'b AstNode<'b>) -> Option<String> {
-        if self.is_after_broken_link(node) {
+        if self.is_after_broken_link(node) || self.is_after_definition(node) {
             return None;
         }
         self.source_at_position(node)
     }
 
+    /// Check if an inline node is in a block that reference definitions come before without a blank
+    /// line. comrak counts their lines as those of the block, so the source positions are wrong.
+    fn is_after_definition<'b>(&self, node: &'b AstNode<'b>) -> bool {
+        if node.data.borrow().value.block() {
+            return false;
+        }
+        let Some(block) = node.ancestors().find(|n| n.data.borrow().value.block()) else {
+            return false;
+        };
+        let start = block.data.borrow().sourcepos.start;
+        let starts_with_bracket = start
+            .line
+            .checked_sub(1)
+            .and_then(|index| self.source_lines.get(index))
+            .is_some_and(|line| {
+                line_as_parsed(block, line)
+                    .get(start.column.saturating_sub(1)..)
+                    .is_some_and(|line| line.starts_with('['))
+            });
+        let Some(first) = block.first_child() else {
+            return false;
+        };
+        let is_bracket = match &first.data.borrow().value {
+            NodeValue::Text(text) => text.starts_with('['),
+            NodeValue::Link(_) => first.next_sibling().is_some_and(|next| {
+                matches!(&next.data.borrow().value, NodeValue::Text(text) if text.starts_with(':'))
+            }),
+            NodeValue::FootnoteReference(_) => true,
+            _ => false,
+        };
+        starts_with_bracket
+            && !is_bracket
+            && self
+                .extract_source_lines(block)
+                .is_some_and(|source| source.contains("]:"))
+    }
+
     /// Check if an inline node comes after a link with a line break outside of its text. comrak
     /// does not count that line break, so the source positions of the nodes after it are wrong.
     fn is_after_broken_link<'b>(&self, node: &'b AstNode<'b>) -> bool {
-- 
2.43.0


From 478b60574e3fb1b67a007ad644c92232fe92b4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 57/62] fix: sentence case changed entities, comments,
 attribute values, escaped quotes and labels

---
 src/serializer/heading.rs | 70 +++++++++++++++++++++++++++++++++++----
 src/serializer/inline.rs  | 19 +++++++++++
 src/serializer/link.rs    |  2 +-
 3 files changed, 84 insertions(+), 7 deletions(-)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 0e5fbd0..961d132 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -64,7 +64,7 @@ pub fn to_sentence_case(
 enum Token {
     /// Code span with backticks (preserved as-is)
     CodeSpan(String),
-    /// Link destination, inline HTML tag, or autolink (preserved as-is)
+    /// Link destination or label, inline HTML, autolink, or entity (preserved as-is)
     Verbatim(String),
     /// Quoted text (content, is_double_quote)
     Quote(String, bool),
@@ -91,6 +91,14 @@ fn normalize_quotes(text: &str) -> String {
     while i < len {
         let ch = chars[i];
 
+        if ch == '\\' && i + 1 < len {
+            // An escaped quote stays as it is, since a curly one cannot be escaped
+            result.push(ch);
+            result.push(chars[i + 1]);
+            i += 2;
+            continue;
+        }
+
         if ch == '\'' {
             // Check for decade abbreviations: '80s, '90s
             if i + 3 < len
@@ -222,7 +230,7 @@ fn link_target_end(chars: &[char], start: usize) -> Option<usize> {
     while i < chars.len() {
         match chars[i] {
             '\\' => i += 1,
-            '"' => in_title = !in_title,
+            '"' if in_title || chars[i - 1] == ' ' => in_title = !in_title,
             '(' if !in_title => depth += 1,
             ')' if !in_title => {
                 depth = depth.saturating_sub(1);
@@ -237,24 +245,72 @@ fn link_target_end(chars: &[char], start: usize) -> Option<usize> {
     None
 }
 
-/// Find the end of the inline HTML tag or autolink starting at `start` with `<`.
+/// Find the end of the inline HTML or autolink starting at `start` with `<`.
 /// Returns `None` if there is none.
 fn html_tag_end(chars: &[char], start: usize) -> Option<usize> {
+    let rest: String = chars[start..].iter().collect();
+    let delimiters = [
+        ("<!--", "-->"),
+        ("<![CDATA[", "]]>"),
+        ("<?", "?>"),
+        ("<!", ">"),
+    ];
+    for (opening, closing) in delimiters {
+        if let Some(content) = rest.strip_prefix(opening) {
+            let length = content.find(closing)?;
+            return Some(start + opening.len() + content[..length].chars().count() + closing.len());
+        }
+    }
+
     if start + 1 >= chars.len()
         || !(chars[start + 1].is_ascii_alphabetic() || chars[start + 1] == '/')
     {
         return None;
     }
+    // The first `>` that is not in the value of an attribute, otherwise (not a tag) the first one
+    let mut quote = None;
+    for (i, &ch) in chars.iter().enumerate().skip(start + 1) {
+        match quote {
+            Some(opening) if ch == opening => quote = None,
+            None if ch == '>' => return Some(i + 1),
+            None if matches!(ch, '"' | '\'') && chars[i - 1] == '=' => quote = Some(ch),
+            _ => {}
+        }
+    }
+    let position = chars[start..].iter().position(|&ch| ch == '>')?;
+    Some(start + position + 1)
+}
+
+/// Find the end of the HTML entity starting at `start` with `&`. Returns `None` if there is none.
+fn entity_end(chars: &[char], start: usize) -> Option<usize> {
+    let length = chars[start + 1..]
+        .iter()
+        .position(|c| !c.is_ascii_alphanumeric() && *c != '#')?;
+    let end = start + 1 + length;
+    (length > 0 && chars[end] == ';').then_some(end + 1)
+}
+
+/// Find the end of the label of a reference, or of a footnote reference, starting at `start` with
+/// `[`. Returns `None` if it is not closed.
+fn label_end(chars: &[char], start: usize) -> Option<usize> {
     let mut i = start + 1;
     while i < chars.len() {
-        if chars[i] == '>' {
-            return Some(i + 1);
+        match chars[i] {
+            '\\' => i += 1,
+            ']' => return Some(i + 1),
+            _ => {}
         }
         i += 1;
     }
     None
 }
 
+/// Check if a text is the same label in sentence case: only the case of its letters changes, and
+/// it has none whose case changes to several letters.
+pub fn is_label_in_sentence_case(text: &str) -> bool {
+    text.is_ascii() && !text.contains(['"', '\''])
+}
+
 /// Tokenize text: first extract code spans, link destinations, and HTML tags, then normalize
 /// quotes and parse quotes in remaining text.
 fn tokenize_with_code_spans(text: &str) -> Vec<Token> {
@@ -280,9 +336,11 @@ fn tokenize_with_code_spans(text: &str) -> Vec<Token> {
             '`' => Some(code_span_end(&chars, i)),
             '(' if after_bracket => link_target_end(&chars, i),
             '<' => html_tag_end(&chars, i),
+            '&' => entity_end(&chars, i),
+            '[' if after_bracket || chars.get(i + 1) == Some(&'^') => label_end(&chars, i),
             _ => None,
         };
-        after_bracket = ch == ']';
+        after_bracket = ch == ']' || (ch == '[' && verbatim_end.is_some());
 
         if let Some(end) = verbatim_end {
             // Save any accumulated text (normalize quotes in it)
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 6dca931..d597769 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -4,6 +4,7 @@ use comrak::nodes::{AstNode, NodeValue};
 
 use super::Serializer;
 use super::escape;
+use super::heading;
 use super::punctuation;
 use super::state::line_as_parsed;
 use crate::{DashSetting, Options};
@@ -86,6 +87,7 @@ impl<'a> Serializer<'a> {
                 text.push(' ');
             }
             NodeValue::Link(link) => {
+                let start = text.len();
                 // Handle reference-style links in headings
                 if let Some((link_text, label)) = self.get_reference_style_info(node) {
                     self.format_reference_link(text, &link_text, &label, &link.url, &link.title);
@@ -115,6 +117,9 @@ impl<'a> Serializer<'a> {
                         Self::format_inline_link(text, &link_text, &link.url, &link.title);
                     }
                 }
+                if self.options.heading_sentence_case {
+                    Self::keep_label(text, start);
+                }
             }
             NodeValue::Image(image) => {
                 // Preserve images in headings using inline syntax
@@ -144,6 +149,20 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// If the link written at the end of a heading is a shortcut or collapsed reference, and its
+    /// text is not the same label in sentence case, write the label after the text.
+    fn keep_label(text: &mut String, start: usize) {
+        let link = text[start..].strip_suffix("[]").unwrap_or(&text[start..]);
+        let Some(label) = link.strip_prefix('[').and_then(|l| l.strip_suffix(']')) else {
+            return;
+        };
+        if Self::is_valid_label(label) && !heading::is_label_in_sentence_case(label) {
+            let label = label.to_string();
+            text.truncate(start);
+            text.push_str(&format!("[{label}][{label}]"));
+        }
+    }
+
     pub(super) fn collect_inline_content<'b>(
         &mut self,
         node: &'b AstNode<'b>,
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index a3a111d..695d007 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -176,7 +176,7 @@ impl<'a> Serializer<'a> {
 
     /// Check if a text can be the label of a reference: it is not blank, has no unescaped
     /// brackets, is not that of a footnote reference, and is at most 999 characters long.
-    fn is_valid_label(text: &str) -> bool {
+    pub(super) fn is_valid_label(text: &str) -> bool {
         let mut escaped = false;
         let mut blank = true;
         for ch in text.chars() {
-- 
2.43.0


From ff304ca6b30417a73a1355ff44fc269287c87ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 58/62] fix: an e-mail address in angle brackets after an
 exclamation mark became an image

---
 src/serializer/inline.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index d597769..f4ddf93 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -104,6 +104,8 @@ impl<'a> Serializer<'a> {
                     if is_autolink {
                         // The text of an autolink is its target, so it has to stay as it is
                         Self::format_autolink(text, &link.url);
+                    } else if self.is_email_autolink(node, &link.url) {
+                        Self::format_autolink(text, &self.collect_raw_text(node));
                     } else if Self::is_external_url(&link.url) {
                         let use_collapsed = Self::next_sibling_starts_with_bracket(node);
                         self.format_external_link_as_reference(
@@ -149,6 +151,13 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Check if a link is written as an e-mail address in angle brackets.
+    fn is_email_autolink<'b>(&self, node: &'b AstNode<'b>, url: &str) -> bool {
+        let text = self.collect_raw_text(node);
+        url.strip_prefix("mailto:") == Some(&text)
+            && self.extract_source(node) == Some(format!("<{text}>"))
+    }
+
     /// If the link written at the end of a heading is a shortcut or collapsed reference, and its
     /// text is not the same label in sentence case, write the label after the text.
     fn keep_label(text: &mut String, start: usize) {
@@ -271,6 +280,8 @@ impl<'a> Serializer<'a> {
                     Self::push_link_target(content, &link.url, &link.title);
                 } else if is_autolink {
                     Self::format_autolink(content, &link.url);
+                } else if self.is_email_autolink(node, &link.url) {
+                    Self::format_autolink(content, &raw_text);
                 } else if Self::is_external_url(&link.url) {
                     // External URL: collect link text first
                     let mut link_text = String::new();
-- 
2.43.0


From c1d7f42e8b8d966929e18b18bce7bb03909d35a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 59/62] fix: plain text in brackets became a link when its text
 became a label

---
 src/serializer/link.rs  |  5 +++-
 src/serializer/state.rs | 53 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 57 insertions(+), 1 deletion(-)

diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 695d007..8fd846e 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -159,8 +159,11 @@ impl<'a> Serializer<'a> {
         let normalized_text = text.replace('\x00', " ");
         if !Self::is_valid_label(&normalized_text)
             || self.has_other_target(&normalized_text, url, title)
+            || self.is_bracketed_text(&normalized_text)
+            || (output.ends_with(']') && !output.ends_with("\\]"))
         {
-            // The text cannot be a label, or already stands for another target: keep it inline
+            // The text cannot be a label, already stands for another target, is plain text in
+            // brackets elsewhere, or would be the label of the brackets before it: keep it inline
             Self::format_inline_link(output, text, url, title);
             return;
         }
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 386f5cf..01d7584 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -278,6 +278,8 @@ pub struct Serializer<'a> {
     /// Target (URL and title) of every reference label used so far.
     /// Key: normalized label (labels match case-insensitively)
     pub reference_targets: std::collections::HashMap<String, (String, String)>,
+    /// Texts in brackets that are not links, but would be with a reference definition
+    bracketed_texts: std::collections::HashSet<String>,
     /// Footnote definitions and their reference tracking
     pub footnotes: FootnoteSet,
     /// Current list nesting depth (0 = not in list, 1 = top-level, 2+ = nested)
@@ -322,6 +324,7 @@ impl<'a> Serializer<'a> {
         Self {
             output: String::new(),
             options,
+            bracketed_texts: Self::find_bracketed_texts(&source_lines),
             source_lines,
             list_item_index: 0,
             list_type: None,
@@ -360,6 +363,7 @@ impl<'a> Serializer<'a> {
         Self {
             output: String::new(),
             options,
+            bracketed_texts: Self::find_bracketed_texts(&source_lines),
             source_lines,
             list_item_index: 0,
             list_type: None,
@@ -580,6 +584,55 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Check if a text is also in brackets somewhere without being a link there.
+    pub fn is_bracketed_text(&self, text: &str) -> bool {
+        let label = Self::normalize_label(text).replace('\\', "");
+        self.bracketed_texts.contains(&label)
+    }
+
+    /// Find the texts in brackets that are not links, because they have neither a destination nor
+    /// a reference definition.
+    fn find_bracketed_texts(source_lines: &[&str]) -> std::collections::HashSet<String> {
+        let mut texts = std::collections::HashSet::new();
+        let mut labels = std::collections::HashSet::new();
+        let source = source_lines.join("\n");
+        let mut opening = None;
+        let mut escaped = false;
+        for (i, ch) in source.char_indices() {
+            match ch {
+                _ if escaped => {}
+                '[' => opening = Some(i),
+                ']' => {
+                    let Some(start) = opening.take() else {
+                        continue;
+                    };
+                    let text = Self::normalize_label(&source[start + 1..i]).replace('\\', "");
+                    let (before, after) = (&source[..start], &source[i + 1..]);
+                    // What follows could be a destination, but hardly with a bracket
+                    let is_target = after.starts_with('(')
+                        && after
+                            .find(')')
+                            .is_some_and(|end| !after[..end].contains('['));
+                    let is_other = after.starts_with(['[', ':']) && !after.starts_with("[]");
+                    if before.ends_with(']') || (!is_target && !is_other) {
+                        texts.insert(text);
+                    } else if after.starts_with(':') {
+                        let line = before.rsplit('\n').next().unwrap_or(before);
+                        if line.ends_with(char::is_alphanumeric) {
+                            texts.insert(text);
+                        } else {
+                            labels.insert(text);
+                        }
+                    }
+                }
+                _ => {}
+            }
+            escaped = ch == '\\' && !escaped;
+        }
+        texts.retain(|text| !labels.contains(text));
+        texts
+    }
+
     /// Normalize a reference label the way labels are matched: collapse whitespace and ignore case.
     fn normalize_label(label: &str) -> String {
         super::escape::normalize_whitespace(&label.replace('\x00', " ")).to_lowercase()
-- 
2.43.0


From c682c5b421b2883ca12945f3cba4c4f075f30487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 60/62] fix: a label spelled in two ways was defined twice

---
 src/serializer/mod.rs   | 18 +++++++++++-------
 src/serializer/state.rs | 20 ++++++++++----------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 0a97e2c..9728019 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -231,9 +231,9 @@ impl<'a> Serializer<'a> {
         // Filter out references that have already been emitted
         let refs: Vec<ReferenceLink> = self
             .pending_references
-            .values()
-            .filter(|r| !self.emitted_references.contains(&r.label))
-            .cloned()
+            .iter()
+            .filter(|(key, _)| !self.emitted_references.contains(*key))
+            .map(|(_, reference)| reference.clone())
             .collect();
         self.pending_references.clear();
 
@@ -253,7 +253,8 @@ impl<'a> Serializer<'a> {
             // Less than 2 numeric refs: output all in insertion order
             for reference in &refs {
                 Self::write_reference(&mut self.output, reference);
-                self.emitted_references.insert(reference.label.clone());
+                self.emitted_references
+                    .insert(Self::normalize_label(&reference.label));
             }
         } else {
             // 2+ numeric refs: separate, sort numeric ones, output regular first
@@ -274,13 +275,15 @@ impl<'a> Serializer<'a> {
             // Output regular references first (in insertion order)
             for reference in regular_refs {
                 Self::write_reference(&mut self.output, reference);
-                self.emitted_references.insert(reference.label.clone());
+                self.emitted_references
+                    .insert(Self::normalize_label(&reference.label));
             }
 
             // Output numeric references (sorted by number)
             for (_, reference) in numeric_refs {
                 Self::write_reference(&mut self.output, reference);
-                self.emitted_references.insert(reference.label.clone());
+                self.emitted_references
+                    .insert(Self::normalize_label(&reference.label));
             }
         }
     }
@@ -432,7 +435,8 @@ impl<'a> Serializer<'a> {
         // Output references in insertion order
         for reference in &to_emit {
             Self::write_reference(&mut self.output, reference);
-            self.emitted_references.insert(reference.label.clone());
+            self.emitted_references
+                .insert(Self::normalize_label(&reference.label));
         }
     }
 
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 01d7584..b0880e8 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -561,18 +561,15 @@ impl<'a> Serializer<'a> {
     /// If collecting_footnote_content is true, adds to pending_footnote_references instead,
     /// along with the current footnote's reference line for proper flush timing.
     pub fn add_reference(&mut self, label: String, url: String, title: String) {
+        let key = Self::normalize_label(&label);
         self.reference_targets
-            .entry(Self::normalize_label(&label))
+            .entry(key.clone())
             .or_insert_with(|| (url.clone(), title.clone()));
-        let reference = ReferenceLink {
-            label: label.clone(),
-            url,
-            title,
-        };
+        let reference = ReferenceLink { label, url, title };
         if self.footnotes.collecting_content {
-            self.footnotes.add_reference(label, reference);
+            self.footnotes.add_reference(key, reference);
         } else {
-            self.pending_references.insert(label, reference);
+            self.pending_references.insert(key, reference);
         }
     }
 
@@ -634,8 +631,11 @@ impl<'a> Serializer<'a> {
     }
 
     /// Normalize a reference label the way labels are matched: collapse whitespace and ignore case.
-    fn normalize_label(label: &str) -> String {
-        super::escape::normalize_whitespace(&label.replace('\x00', " ")).to_lowercase()
+    pub fn normalize_label(label: &str) -> String {
+        // Lowercase before uppercase, since e.g. both `ẞ` and `ß` match `SS`
+        super::escape::normalize_whitespace(&label.replace('\x00', " "))
+            .to_lowercase()
+            .to_uppercase()
     }
 
     /// Check if a URL is external (starts with http:// or https://).
-- 
2.43.0


From dbc5177e7ed79a629380fa5b899ed77daa7ff496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:22 +0000
Subject: [PATCH 61/62] fix: the definition of an image in a reference link was
 lost in headings

---
 src/serializer/inline.rs | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index f4ddf93..dd90b08 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -90,7 +90,30 @@ impl<'a> Serializer<'a> {
                 let start = text.len();
                 // Handle reference-style links in headings
                 if let Some((link_text, label)) = self.get_reference_style_info(node) {
-                    self.format_reference_link(text, &link_text, &label, &link.url, &link.title);
+                    if Self::contains_image(node) {
+                        // The text is not taken from the source, since it can have references
+                        let actual_label = label.strip_prefix('\x01').unwrap_or(&label);
+                        text.push('[');
+                        for child in node.children() {
+                            self.collect_text_recursive(child, text);
+                        }
+                        text.push_str("][");
+                        text.push_str(actual_label);
+                        text.push(']');
+                        self.add_reference(
+                            actual_label.to_string(),
+                            link.url.clone(),
+                            link.title.clone(),
+                        );
+                    } else {
+                        self.format_reference_link(
+                            text,
+                            &link_text,
+                            &label,
+                            &link.url,
+                            &link.title,
+                        );
+                    }
                 } else {
                     // For inline links, just output plain text (or format as inline?)
                     // In headings, we typically want reference style for external links
@@ -236,9 +259,7 @@ impl<'a> Serializer<'a> {
             }
             NodeValue::Link(link) => {
                 // Check if link contains an image (badge-style link)
-                let contains_image = node
-                    .children()
-                    .any(|child| matches!(&child.data.borrow().value, NodeValue::Image(_)));
+                let contains_image = Self::contains_image(node);
 
                 // Check if this is an autolink (link text equals URL)
                 let raw_text = self.collect_raw_text(node);
@@ -336,6 +357,12 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Check if a link contains an image.
+    fn contains_image<'b>(node: &'b AstNode<'b>) -> bool {
+        node.descendants()
+            .any(|child| matches!(&child.data.borrow().value, NodeValue::Image(_)))
+    }
+
     /// Escape the text of a text node, keeping the escapes of its source if that is known.
     fn escape_text_node<'b>(&self, node: &'b AstNode<'b>, text: &str) -> String {
         match self.extract_text_source(node) {
-- 
2.43.0


From 71899013d9abd672d0aa18ae72ce1f2ce36f9dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 62/62] fix: links to destinations with more than 32 nested
 parentheses were lost

---
 src/serializer/link.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 8fd846e..418ae29 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -97,12 +97,16 @@ impl<'a> Serializer<'a> {
         }
     }
 
-    /// Check if every parenthesis in a URL has its counterpart.
+    /// Check if every parenthesis in a URL has its counterpart, and none is nested deeper than
+    /// the 32 levels a link destination is read with.
     fn has_balanced_parentheses(url: &str) -> bool {
         let mut depth: usize = 0;
         for ch in url.chars() {
             if ch == '(' {
                 depth += 1;
+                if depth > 32 {
+                    return false;
+                }
             } else if ch == ')' {
                 if depth == 0 {
                     return false;
-- 
2.43.0

