From e5a25130c65de8a8da5d361eee0d97926d10d3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 01/17] fix: token spans must not cover skipped invalid
 characters

The span was computed outside of the error recovery, so the token after an
invalid character (e.g. `$@a`) was reported as if the invalid characters were
part of it; renaming it then also replaced those characters.
---
 src/hir_tokenizer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index 9761e3e..5966e8b 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -125,7 +125,9 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
         .collect::<String>()
         .map(Token::DebugRef);
 
-    // A single token can be one of the above
+    // A single token can be one of the above.
+    // The span must be computed inside of the error recovery. Otherwise, it would
+    // also cover the invalid characters which were skipped in front of the token.
     let token = choice((
         comment,
         hexnum,
@@ -138,10 +140,10 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
         debugref,
         newline,
     ))
+    .map_with_span(|tok, span| (tok, span))
     .recover_with(skip_then_retry_until([]));
 
     token
-        .map_with_span(|tok, span| (tok, span))
         .padded_by(one_of(" \t").repeated())
         .repeated()
         .then_ignore(end())
-- 
2.43.0


From 43df307004aae57ddb6775fb58781e27aea7b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 02/17] fix: keep syntax errors at the end of the input inside
 of the document

The end-of-input span was `len..len+1` (in bytes), which is outside of the
document. Every "unexpected end of input" diagnostic was hence dropped.
---
 src/hir_parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index 41d06c7..1020f36 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -438,9 +438,10 @@ pub fn parse_from_str(src: &str) -> ParserResult {
 
     // Parse
     let (stmts, parse_errs) = if let Some(tokens) = tokens.as_ref() {
-        let strlen = src.len();
+        // All spans are measured in characters, not in bytes
+        let strlen = src.chars().count();
         parser().parse_recovery(Stream::from_iter(
-            strlen..strlen + 1,
+            strlen..strlen,
             // TODO: can we somehow avoid this copy?
             tokens.clone().into_iter().filter(|t| t.0 != Token::Comment),
         ))
-- 
2.43.0


From 976b814105d4ddd5058a2a516a6f7ff28d650382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 03/17] fix: slice debug annotations by characters instead of
 bytes

Spans are character offsets. Using them as byte offsets panicked (or extracted
the wrong text) as soon as the document contained a non-ASCII character.
---
 src/hir_index.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hir_index.rs b/src/hir_index.rs
index d3246e7..baf3d44 100644
--- a/src/hir_index.rs
+++ b/src/hir_index.rs
@@ -195,6 +195,13 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
         ..Default::default()
     };
 
+    // All spans are measured in characters. We need the byte offsets to slice the source text.
+    let char_to_byte = src
+        .char_indices()
+        .map(|(i, _)| i)
+        .chain(std::iter::once(src.len()))
+        .collect::<Vec<_>>();
+
     // Index all definitions / declarations based on the actual parse tree
     let mut unresolved_function_dbgrefs: HashMap<String, String> = Default::default();
     for s in stmts.iter() {
@@ -216,7 +223,7 @@ pub fn create_index(src: &str, tokens: &[Spanned<Token>], stmts: &[Statement]) -
                 if !def.is_empty() {
                     let start = def.first().unwrap().1.start;
                     let end = def.last().unwrap().1.end;
-                    let value = &src[start..end];
+                    let value = &src[char_to_byte[start]..char_to_byte[end]];
                     index
                         .dgb_annotation_values
                         .insert(name.0.clone(), value.to_string());
-- 
2.43.0


From ebbf0398647b0f29a82a32eae1945a7c06fa1974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 04/17] fix: convert between character offsets and LSP
 positions correctly

Spans are character offsets but were treated as byte offsets, and LSP columns
are UTF-16 code units but were treated as characters. All positions behind a
non-ASCII character were wrong. Also clamp columns beyond the end of the line,
as demanded by the LSP specification, instead of spilling into the next line.
---
 src/lsp_utils.rs      | 19 +++++++++++++++----
 src/semantic_token.rs | 10 ++++++----
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/lsp_utils.rs b/src/lsp_utils.rs
index b693ff6..6754020 100644
--- a/src/lsp_utils.rs
+++ b/src/lsp_utils.rs
@@ -4,14 +4,25 @@ use tower_lsp::lsp_types::{Position, Range};
 use crate::hir_tokenizer::Span;
 
 pub fn lsp_pos_to_offset(rope: &Rope, pos: &Position) -> Option<usize> {
-    let char = rope.try_line_to_char(pos.line as usize).ok()?;
-    Some(char + pos.character as usize)
+    let line = pos.line as usize;
+    let first = rope.try_line_to_char(line).ok()?;
+    // Columns beyond the end of the line refer to the end of the line
+    let last = if line + 1 < rope.len_lines() {
+        rope.try_line_to_char(line + 1).ok()? - 1
+    } else {
+        rope.len_chars()
+    };
+    // LSP columns are measured in UTF-16 code units
+    let utf16_idx = rope.try_char_to_utf16_cu(first).ok()? + pos.character as usize;
+    let offset = rope.try_utf16_cu_to_char(utf16_idx).unwrap_or(last);
+    Some(offset.min(last))
 }
 
 pub fn offset_to_lsp_pos(rope: &Rope, pos: usize) -> Option<Position> {
-    let line = rope.try_byte_to_line(pos).ok()?;
+    // Our spans are measured in characters, LSP columns in UTF-16 code units
+    let line = rope.try_char_to_line(pos).ok()?;
     let first = rope.try_line_to_char(line).ok()?;
-    let character = rope.try_byte_to_char(pos).ok()? - first;
+    let character = rope.try_char_to_utf16_cu(pos).ok()? - rope.try_char_to_utf16_cu(first).ok()?;
     Some(Position {
         line: line.try_into().ok()?,
         character: character.try_into().ok()?,
diff --git a/src/semantic_token.rs b/src/semantic_token.rs
index f082033..69269a1 100644
--- a/src/semantic_token.rs
+++ b/src/semantic_token.rs
@@ -2,6 +2,7 @@ use ropey::Rope;
 use tower_lsp::lsp_types::{SemanticToken, SemanticTokenType};
 
 use crate::hir_tokenizer::{Span, Token};
+use crate::lsp_utils::offset_to_lsp_pos;
 
 pub const LEGEND_TYPE: &[SemanticTokenType] = &[
     SemanticTokenType::COMMENT,
@@ -60,9 +61,10 @@ pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<S
     let lsp_tokens = semtoks
         .iter()
         .filter_map(|token| {
-            let line = rope.try_byte_to_line(token.start).ok()? as u32;
-            let first = rope.try_line_to_char(line as usize).ok()? as u32;
-            let start = rope.try_byte_to_char(token.start).ok()? as u32 - first;
+            let pos = offset_to_lsp_pos(rope, token.start)?;
+            let (line, start) = (pos.line, pos.character);
+            let end_utf16 = rope.try_char_to_utf16_cu(token.start + token.length).ok()?;
+            let length = end_utf16 - rope.try_char_to_utf16_cu(token.start).ok()?;
             let delta_line = line - pre_line;
             let delta_start = if delta_line == 0 {
                 start - pre_start
@@ -72,7 +74,7 @@ pub fn convert_to_lsp_tokens(rope: &Rope, semtoks: &[HIRSemanticToken]) -> Vec<S
             let ret = Some(SemanticToken {
                 delta_line,
                 delta_start,
-                length: token.length as u32,
+                length: length as u32,
                 token_type: token.token_type as u32,
                 token_modifiers_bitset: 0,
             });
-- 
2.43.0


From fb9158a46aadd6bd1e4e106f9f619842555c5c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 05/17] fix: numbered identifiers may contain non-ASCII
 characters
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

`%vé5` was split in the middle of the `é`, which panicked.
---
 src/rename.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rename.rs b/src/rename.rs
index 558d253..d6a65d8 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -7,10 +7,7 @@ use crate::{
 };
 
 pub fn extract_number_from_identifier(id: &str) -> Option<(&str, i64)> {
-    let offset = id
-        .rfind(|c: char| !c.is_numeric())
-        .map(|i| i + 1)
-        .unwrap_or(0);
+    let offset = id.trim_end_matches(|c: char| c.is_numeric()).len();
     let (name, nr) = id.split_at(offset);
     Some((name, nr.parse::<i64>().ok()?))
 }
-- 
2.43.0


From c6adde6eef792337458f282b6a22a25c0847a934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 06/17] fix: relative renames must not overflow

---
 src/main.rs   | 4 +++-
 src/rename.rs | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 50c5aea..bc91774 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -343,7 +343,9 @@ impl LanguageServer for Backend {
             let rename_nr = new_name[1..].parse::<i64>().map_err(|_e| {
                 Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
             })?;
-            let rename_shift = sign * rename_nr;
+            let rename_shift = rename_nr.checked_mul(sign).ok_or_else(|| {
+                Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
+            })?;
             let (_, rename_start) =
                 extract_number_from_identifier(&symbol.name).ok_or_else(|| {
                     Error::invalid_params(
diff --git a/src/rename.rs b/src/rename.rs
index d6a65d8..28188bb 100644
--- a/src/rename.rs
+++ b/src/rename.rs
@@ -46,7 +46,8 @@ pub fn get_shift_edits(
             if nr < renamed_nr {
                 return None;
             }
-            let new_name = format!("{}{}", prefix, (nr + shift).wrapping_abs());
+            let new_nr = (i128::from(nr) + i128::from(shift)).unsigned_abs();
+            let new_name = format!("{}{}", prefix, new_nr);
             Some(get_rename_edits(rope, usedefs, &new_name))
         })
         .flatten()
-- 
2.43.0


From cd0d68c3945c5cd4806eb28ad7c0f3dae73faedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 07/17] fix: reject empty names in renames instead of panicking

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index bc91774..6b836e3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -372,6 +372,9 @@ impl LanguageServer for Backend {
             if let Some(stripped) = new_name.strip_prefix(prefix) {
                 new_name = stripped.to_string();
             }
+            if new_name.is_empty() {
+                return Result::Err(Error::invalid_params("Name must not be empty"));
+            }
             if new_name
                 .chars()
                 .any(|c| !c.is_alphanumeric() && c != '_' && c != ':')
-- 
2.43.0


From 2ce30e36e93fbeb1408a6db5fe8ad8c00d082569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 08/17] fix: reject new names which are not a single valid name
 token

Renaming a label to `a:` or to `int32` produced a document which could not be
parsed any longer.
---
 src/main.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 6b836e3..6c0efc9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -12,6 +12,7 @@ use hyper_ir_lsp::diagnostics::{
 };
 use hyper_ir_lsp::hir_index::{create_index, HIRIndex, SymbolOccurrence, UseDefKind, UseDefList};
 use hyper_ir_lsp::hir_parser::{parse_from_str, BasicBlock, Instruction, ParserResult, Statement};
+use hyper_ir_lsp::hir_tokenizer::Token;
 use hyper_ir_lsp::lsp_utils::{lsp_pos_to_offset, offset_to_lsp_pos, range_to_lsp};
 use hyper_ir_lsp::rename::{extract_number_from_identifier, get_rename_edits, get_shift_edits};
 use hyper_ir_lsp::semantic_token::{
@@ -387,6 +388,17 @@ impl LanguageServer for Backend {
                 return Result::Err(Error::invalid_params("Name must not start with a digit"));
             }
             new_name = format!("{}{}", prefix, new_name);
+            // The new name must be tokenized as a single name of the same kind
+            // (e.g., there must be no trailing `:` and labels must not be keywords)
+            if !matches!(
+                (&parse_from_str(&new_name).tokens[..], prefix),
+                ([(Token::GlobalName(_), _)], "@")
+                    | ([(Token::DebugRef(_), _)], "!")
+                    | ([(Token::Ident(_), _)], "")
+                    | ([(Token::LocalName(_), _)], "%")
+            ) {
+                return Result::Err(Error::invalid_params("Invalid name"));
+            }
 
             // Rename all occurrences
             let usedefs = doc
-- 
2.43.0


From b33c12b6227bf8c798498e3afc82358c002b92d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 09/17] fix: apply the last content change of a didChange
 notification

The changes have to be applied in order, so the last full text wins. An empty
list of changes no longer panics.
---
 src/main.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6c0efc9..4d0c393 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -171,12 +171,15 @@ impl LanguageServer for Backend {
     }
 
     async fn did_change(&self, mut params: DidChangeTextDocumentParams) {
-        self.on_change(TextDocumentItem {
-            uri: params.text_document.uri,
-            text: std::mem::take(&mut params.content_changes[0].text),
-            version: params.text_document.version,
-        })
-        .await
+        // We only support full syncs. The last change determines the new document content
+        if let Some(change) = params.content_changes.pop() {
+            self.on_change(TextDocumentItem {
+                uri: params.text_document.uri,
+                text: change.text,
+                version: params.text_document.version,
+            })
+            .await
+        }
     }
 
     async fn goto_definition(
-- 
2.43.0


From f58a6625ecba3b4a49327de900588e2bc098ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 10/17] fix: do not panic on source annotations with line
 number 0

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 4d0c393..88589a0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -824,8 +824,8 @@ impl Backend {
                 Some(Location {
                     uri,
                     range: Range {
-                        start: Position::new(d.line - 1, 0),
-                        end: Position::new(d.line - 1, 0),
+                        start: Position::new(d.line.saturating_sub(1), 0),
+                        end: Position::new(d.line.saturating_sub(1), 0),
                     },
                 })
             }));
-- 
2.43.0


From a8af8ab4a2e1307dd9c69d86a090ff0b85bab4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 11/17] fix: ignore workspace roots which are not hierarchical
 URLs

A root such as `untitled:foo` panicked.
---
 src/backtrace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index fc185e6..8bfb051 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -8,7 +8,7 @@ use tower_lsp::lsp_types::{
 pub fn resolve_relative_path(root_paths: &[Url], path: &str) -> Option<Url> {
     root_paths.iter().find_map(|baseuri| {
         let mut uri = baseuri.clone();
-        uri.path_segments_mut().unwrap().extend(path.split('/'));
+        uri.path_segments_mut().ok()?.extend(path.split('/'));
         if uri.to_file_path().ok()?.exists() {
             Some(uri)
         } else {
-- 
2.43.0


From 854ff649fdeac3bfff094a28122af2a9f8a6957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 12/17] fix: shorten symbol names by characters instead of
 bytes

Slicing in the middle of a multi-byte character panicked.
---
 src/backtrace.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backtrace.rs b/src/backtrace.rs
index 8bfb051..7a3651d 100644
--- a/src/backtrace.rs
+++ b/src/backtrace.rs
@@ -172,10 +172,10 @@ fn backtrace_json_to_md(frames: &[Frame]) -> String {
 }
 
 fn shorten_name(s: &str, len: usize) -> String {
-    if s.len() < len - 2 {
+    if s.chars().count() < len - 2 {
         s.to_string()
     } else {
-        s[..len - 2].to_string() + "…"
+        s.chars().take(len - 2).collect::<String>() + "…"
     }
 }
 
-- 
2.43.0


From b792a88cc191d585e4b395b1a205c7d045d541a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 13/17] fix: reject outdated code actions instead of panicking

---
 src/main.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 88589a0..0d61ad8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -855,6 +855,17 @@ impl Backend {
                     .document_map
                     .get(&uri.to_string())
                     .ok_or_else(|| Error::invalid_params("Document not found"))?;
+                // The document might have changed since the code action was created
+                let is_valid = match symbol_kind {
+                    hyper_ir_lsp::hir_index::SymbolKind::Label
+                    | hyper_ir_lsp::hir_index::SymbolKind::LocalVar => {
+                        func_body_id.is_some_and(|id| id < doc.index.function_bodies.len())
+                    }
+                    _ => func_body_id.is_none(),
+                };
+                if !is_valid {
+                    return Err(Error::invalid_params("Outdated code action"));
+                }
                 let edits = get_shift_edits(
                     &doc.rope,
                     &doc.index,
-- 
2.43.0


From 3020892af56eb2e2454f7bf9363ad7c02520aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 14/17] fix: do not keep the document locked while waiting for
 the client

A didChange which arrived before the client answered the `hyperir/showDot`
request dead-locked the server.
---
 src/main.rs | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0d61ad8..49d87d7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -681,27 +681,26 @@ impl LanguageServer for Backend {
     async fn execute_command(&self, params: ExecuteCommandParams) -> Result<Option<Value>> {
         match (params.command.as_str(), &params.arguments[..]) {
             ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {
-                let index = &self
-                    .document_map
-                    .get(doc_uri)
-                    .ok_or_else(|| Error {
+                let title = format!("CFG for {}", func_name);
+                // The document must be unlocked again before we wait for the client
+                let dot_graph = {
+                    let doc = self.document_map.get(doc_uri).ok_or_else(|| Error {
                         code: ErrorCode::InvalidParams,
                         message: format!("document `{}` not found", doc_uri).into(),
                         data: None,
-                    })?
-                    .index;
-                let func_body = index
-                    .function_bodies
-                    .iter()
-                    .find(|b| b.name.0 == *func_name)
-                    .ok_or_else(|| Error {
-                        code: ErrorCode::InvalidParams,
-                        message: format!("function `{}` not found", func_name).into(),
-                        data: None,
                     })?;
-
-                let title = format!("CFG for {}", func_name);
-                let dot_graph = create_cfg_dot_visualization(func_body);
+                    let func_body = doc
+                        .index
+                        .function_bodies
+                        .iter()
+                        .find(|b| b.name.0 == *func_name)
+                        .ok_or_else(|| Error {
+                            code: ErrorCode::InvalidParams,
+                            message: format!("function `{}` not found", func_name).into(),
+                            data: None,
+                        })?;
+                    create_cfg_dot_visualization(func_body)
+                };
 
                 // Make this dependent on a client setting / client capability
                 // since it reuqires additional client-siye collabolation
-- 
2.43.0


From b6120f4093331c974848eb23ffc4db1f78300b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:01 +0000
Subject: [PATCH 15/17] fix: accept documents which only consist of blank lines
 and comments

---
 src/hir_parser.rs    | 11 ++++++++---
 src/hir_tokenizer.rs |  9 ++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index 1020f36..6cda274 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -415,14 +415,19 @@ pub fn parser() -> impl Parser<Token, Vec<Statement>, Error = Simple<Token>> + C
         .then_ignore(eol.clone())
         .map(|(n, def)| Statement::DbgAnnotation { name: n, def });
 
-    global_var
+    let statement = global_var
         .or(func_decl)
         .or(func_def)
         .or(func_dependencies)
         .or(dbg_annotation)
-        .padded_by(just(Token::Newline).repeated())
-        .recover_with(skip_then_retry_until([]))
+        .then_ignore(just(Token::Newline).repeated())
+        .recover_with(skip_then_retry_until([]));
+
+    // The leading newlines must not be part of the repeated parser. Otherwise,
+    // we would report an error for documents which consist only of empty lines.
+    just(Token::Newline)
         .repeated()
+        .ignore_then(statement.repeated())
         .then_ignore(end())
 }
 
diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index 5966e8b..96a28ab 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -143,9 +143,12 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
     .map_with_span(|tok, span| (tok, span))
     .recover_with(skip_then_retry_until([]));
 
-    token
-        .padded_by(one_of(" \t").repeated())
-        .repeated()
+    // The leading whitespace must not be part of the repeated parser. Otherwise,
+    // we would report an error for documents which consist only of whitespace.
+    let whitespace = one_of(" \t").repeated();
+    whitespace
+        .clone()
+        .ignore_then(token.then_ignore(whitespace).repeated())
         .then_ignore(end())
 }
 
-- 
2.43.0


From 5c075f04f7ea2544addcff733d0ef67e46cbc2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:40 +0000
Subject: [PATCH 16/17] fix: a syntax error at the end must not discard the
 whole document

---
 src/hir_parser.rs    | 7 +++++--
 src/hir_tokenizer.rs | 8 +++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hir_parser.rs b/src/hir_parser.rs
index 6cda274..2e3749b 100644
--- a/src/hir_parser.rs
+++ b/src/hir_parser.rs
@@ -421,13 +421,16 @@ pub fn parser() -> impl Parser<Token, Vec<Statement>, Error = Simple<Token>> + C
         .or(func_dependencies)
         .or(dbg_annotation)
         .then_ignore(just(Token::Newline).repeated())
-        .recover_with(skip_then_retry_until([]));
+        .map(Some)
+        .recover_with(skip_then_retry_until([]))
+        // If there are no further valid statements, skip the rest of the document
+        .recover_with(skip_parser(any().repeated().at_least(1).to(None)));
 
     // The leading newlines must not be part of the repeated parser. Otherwise,
     // we would report an error for documents which consist only of empty lines.
     just(Token::Newline)
         .repeated()
-        .ignore_then(statement.repeated())
+        .ignore_then(statement.repeated().flatten())
         .then_ignore(end())
 }
 
diff --git a/src/hir_tokenizer.rs b/src/hir_tokenizer.rs
index 96a28ab..2651b1c 100644
--- a/src/hir_tokenizer.rs
+++ b/src/hir_tokenizer.rs
@@ -140,15 +140,17 @@ pub fn tokenizer() -> impl Parser<char, Vec<Spanned<Token>>, Error = Simple<char
         debugref,
         newline,
     ))
-    .map_with_span(|tok, span| (tok, span))
-    .recover_with(skip_then_retry_until([]));
+    .map_with_span(|tok, span| Some((tok, span)))
+    .recover_with(skip_then_retry_until([]))
+    // If there are no further valid tokens, skip the rest of the document
+    .recover_with(skip_parser(any().repeated().at_least(1).to(None)));
 
     // The leading whitespace must not be part of the repeated parser. Otherwise,
     // we would report an error for documents which consist only of whitespace.
     let whitespace = one_of(" \t").repeated();
     whitespace
         .clone()
-        .ignore_then(token.then_ignore(whitespace).repeated())
+        .ignore_then(token.then_ignore(whitespace).repeated().flatten())
         .then_ignore(end())
 }
 
-- 
2.43.0


From 352c9b1437c3fba7f7872cba44716e348d533263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:47 +0000
Subject: [PATCH 17/17] fix: count the basic blocks of a folded function, not
 the names used as labels

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 49d87d7..a2fc9b6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -495,7 +495,7 @@ impl LanguageServer for Backend {
             let mut folding_ranges = Vec::<FoldingRange>::new();
 
             folding_ranges.extend(doc.index.function_bodies.iter().filter_map(|f| {
-                let collapsed_text = format!("{} basic blocks", f.labels.len());
+                let collapsed_text = format!("{} basic blocks", f.basic_blocks.len());
                 let range = range_to_lsp(&doc.rope, &f.complete_range)?;
                 Some(FoldingRange {
                     start_line: range.start.line,
-- 
2.43.0

